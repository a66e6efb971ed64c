"""C05: look-up table radiances agree with the direct conversion."""
import os
import resource
import signal

import numpy as np
from hypothesis import strategies as st

from harness import faults, gen
from harness.checks import c04
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): generated tables and temperatures against the direct conversion; "
             "fault injection at generated byte offsets of the table write (failed and killed writers)")
RULE = ("Cases are a response, a table resolution, a wave space, normalisation and temperatures (-50 to 1000 K, NaN, points "
        "just above and below table nodes); for writes a fault point in bytes. Non-trivial: a temperature inside the table, "
        "or a write which really was interrupted.")
ASSUMPTIONS = ["The converter using a table has the resolution the table was made with.",
               "A crash is a process killed at a byte offset of the file being written (RLIMIT_FSIZE)."]

RESOLUTIONS = [0.01, 0.02, 0.05, 0.1, 0.1, 0.1, 0.125, 0.2, 0.25, 0.3, 0.4, 0.5, 0.7, 1.0, 1.5, 2.0, 4.0, 5.0]
ANY_RES = st.one_of(st.sampled_from(RESOLUTIONS), gen.floats(0.03, 5.0))


@st.composite
def instruments(draw):
    inst = draw(c04.instruments(max_det=3, max_bands=2))
    inst["scale"] = 1e-6
    return inst


@st.composite
def cases(draw):
    inst = draw(instruments())
    name = draw(st.sampled_from(sorted(inst["bands"])))
    res = draw(ANY_RES)
    node = st.tuples(st.integers(0, int(210 / res)), st.sampled_from([0.0, 0.5, 0.999, 0.001, -0.001])).map(
        lambda p: 150.0 + (p[0] + p[1]) * res)
    tb = st.one_of(gen.floats(150.0, 360.0), node, node, gen.floats(-50.0, 150.0, [0.0, 149.99, 100.0]),
                   gen.floats(360.0, 1000.0, [360.0, 360.05, 361.0]), st.none(),
                   st.sampled_from([3276.7, 6553.5, 65535.0, 1e9, 9.96921e36, 1e20, -999.0, -9999.0, -1e9, -1e20]))
    return {"inst": inst, "band": name, "how": "name", "offset": 0.0, "det": draw(st.integers(1, len(inst["bands"][name]))),
            "space": draw(st.sampled_from(["wavelength", "wavelength", "wavenumber"])), "res": res,
            "normalized": draw(st.sampled_from([None, True, False])),
            "ext": draw(st.sampled_from([".npz", ".npz", "", ".dat"])), "pathlib": draw(st.booleans()),
            "reread": draw(st.sampled_from(["npz", "dict"])),
            "temp": draw(gen.arrays(tb, ndims=(1, 1, 2, 3))),
            "chunk": draw(st.booleans())}


def converter(case):
    from pyspectral.radiance_tb_conversion import RadTbConverter
    inst = case["inst"]
    kwargs = {} if case["res"] == 0.1 else {"tb_resolution": case["res"]}
    return RadTbConverter(inst["platform"], inst["given"], case["band"], detector=f"det-{case['det']}",
                          wavespace=case["space"], **kwargs)


@prop(cases, quick=350, budget=90, rule="table content equals the direct conversion; look-ups within one step, clipped, NaN kept, monotone")
def lookup(case, ctx):
    from pathlib import Path
    world = gen.World(ctx)
    bands = c04.install(world, case["inst"])
    conv = converter(case)
    path = os.path.join(world.dir, "table" + case["ext"])
    arg = Path(path) if case["pathlib"] else path
    norm = case["normalized"]
    conv.make_tb2rad_lut(arg) if norm is None else conv.make_tb2rad_lut(arg, normalized=norm)
    stored = path if path.endswith(".npz") else path + ".npz"
    require(os.path.isfile(stored), "no table file", files=os.listdir(world.dir))
    lut = conv.read_tb2rad_lut(stored)
    if case["reread"] == "dict":
        lut = {"tb": np.array(lut["tb"]), "radiance": np.array(lut["radiance"])}
    tb, rad = np.array(lut["tb"], "f8"), np.array(lut["radiance"], "f8")
    nodes = np.arange(150.0, 360.0, case["res"])
    require(tb.shape == nodes.shape and np.allclose(tb, nodes, rtol=0, atol=1e-9), "table temperatures",
            got=(tb.shape, tb[0], tb[-1]), expected=(nodes.shape, nodes[0], nodes[-1]))
    normalized = norm is not False
    direct = gen.to_np(conv.tb2radiance(tb, normalized=normalized)["radiance"]).astype("f8")
    require(rad.shape == tb.shape and np.allclose(rad, direct, rtol=1e-10, atol=0),
            "table radiances are not those of the direct conversion")
    # direct conversion is C04's business: compare with the independent integral, too
    curve = bands[case["band"]][case["det"] - 1]

    def truth(t):
        return c04.reference(curve, case["space"], t, normalized)[0]

    temps = gen.build(case["temp"])
    keep = temps.copy()
    argt = temps
    if case["chunk"]:
        argt = gen.as_dask(temps, [[n - n // 2, n // 2] if n > 1 else [n] for n in temps.shape])
        ctx.event("dask")
    got = conv.tb2radiance(argt, lut=lut, normalized=normalized)
    require(got["scale"] == 1.0 and got["unit"] == conv.tb2radiance(np.array([300.0]), normalized=normalized)["unit"],
            "unit or scale differ from the direct conversion", got=(got["unit"], got["scale"]))
    out = gen.to_np(got["radiance"])
    require(np.array_equal(keep, temps, equal_nan=True), "temperatures modified")
    if temps.size > 1:
        require(out.shape == temps.shape, "shape", got=out.shape, expected=temps.shape)
        require(out.dtype == temps.dtype, "float type", got=out.dtype, expected=temps.dtype)
    out = out.reshape(temps.shape).astype("f8")
    t = temps.astype("f8")
    nan = np.isnan(t)
    require(np.all(np.isnan(out[nan])), "a missing temperature got a radiance", out=out[nan])
    require(not np.isnan(out[~nan]).any(), "a temperature lost its radiance", t=t[~nan])
    eps = np.finfo(temps.dtype).eps
    rtol = 30 * eps + (3e-5 if case["inst"]["dtype"] == "f4" else 1e-9)
    inside = ~nan & (t >= 150.0) & (t < 360.0)
    step = case["res"] * 1.0001 + t[inside] * eps * 8
    low = truth(np.maximum(t[inside] - step, 150.0)) * (1 - rtol)
    high = truth(t[inside] + step) * (1 + rtol)
    bad = (out[inside] < low) | (out[inside] > high)
    require(not bad.any(), "look-up more than one table step off", t=t[inside][bad], got=out[inside][bad],
            low=low[bad], high=high[bad])
    below, above = ~nan & (t < 150.0), ~nan & (t >= 360.0)
    require(np.allclose(out[below], rad[0], rtol=rtol, atol=0), "below the table: first value expected", t=t[below],
            got=out[below])
    require(np.allclose(out[above], rad[-1], rtol=rtol, atol=0), "above the table: last value expected", t=t[above],
            got=out[above], expected=rad[-1])
    order = np.argsort(t[~nan], kind="stable")
    require(np.all(np.diff(out[~nan][order]) >= 0), "look-up decreases with temperature")
    # another table in place of this one
    conv.make_tb2rad_lut(arg, normalized=not normalized)
    second = np.array(conv.read_tb2rad_lut(stored)["radiance"], "f8")
    direct = gen.to_np(conv.tb2radiance(tb, normalized=not normalized)["radiance"]).astype("f8")
    require(second.shape == tb.shape and np.allclose(second, direct, rtol=1e-10, atol=0), "the table replacing an older one is not used")
    if not inside.any():
        ctx.trivial("no temperature inside the table")
    ctx.event(f"res {case['res']}" if case["res"] in RESOLUTIONS else "any res")
    ctx.event(f"{'below ' if below.any() else ''}{'above ' if above.any() else ''}{'nan' if nan.any() else ''}")


@st.composite
def dense_cases(draw):
    inst = draw(instruments())
    name = sorted(inst["bands"])[0]
    return {"inst": inst, "band": name, "det": 1, "space": draw(st.sampled_from(["wavelength", "wavenumber"])),
            "res": draw(ANY_RES), "start": draw(gen.floats(100.0, 380.0)),
            "step": draw(st.sampled_from([0.001, 0.003, 0.01, 0.07])), "dtype": draw(gen.DTYPES)}


@prop(dense_cases, quick=60, rule="a dense ramp of 3000 temperatures: every one within one table step, never decreasing")
def ramp(case, ctx):
    world = gen.World(ctx)
    bands = c04.install(world, case["inst"])
    conv = converter(case)
    path = os.path.join(world.dir, "t.npz")
    conv.make_tb2rad_lut(path)
    lut = conv.read_tb2rad_lut(path)
    t = (case["start"] + np.arange(3000) * case["step"]).astype(case["dtype"])
    out = conv.tb2radiance(t, lut=lut)["radiance"].astype("f8")
    t = t.astype("f8")
    require(np.all(np.diff(out) >= 0), "decreasing")
    curve = bands[case["band"]][0]
    step = case["res"] * 1.0001 + t * np.finfo(case["dtype"]).eps * 8
    rtol = 30 * np.finfo(case["dtype"]).eps + (3e-5 if case["inst"]["dtype"] == "f4" else 1e-9)
    ok = (t >= 150) & (t < 360)
    low = c04.reference(curve, case["space"], np.clip(t - step, 150, 360))[0] * (1 - rtol)
    high = c04.reference(curve, case["space"], np.clip(t + step, 150, 400))[0] * (1 + rtol)
    bad = ok & ((out < low) | (out > high))
    require(not bad.any(), "look-up more than one table step off", t=t[bad][:3], res=case["res"])
    if not ok.any():
        ctx.trivial("outside")


# ------------------------------------------------------------------------------------------------
# interrupted writes

@st.composite
def fault_cases(draw):
    inst = draw(instruments())
    name = sorted(inst["bands"])[0]
    return {"inst": inst, "band": name, "det": 1, "space": "wavelength", "res": draw(st.sampled_from([0.1, 0.5, 2.0])),
            "at": draw(st.one_of(st.integers(0, 40000), st.integers(0, 600), st.sampled_from([0, 1, 22, 64, 127, 128, 4096]))),
            "kill": draw(st.booleans()), "old": draw(st.sampled_from([None, None, "same", "other"])),
            "via": draw(st.sampled_from(["converter", "calculator", "calculator"]))}


def _run_limited(func, limit, kill):
    """Run func in a child whose writes beyond *limit* bytes of a file fail or kill it. Returns the wait status."""
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                func()
                code = 0
            except OSError:
                code = 4
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1]


@prop(fault_cases, quick=150, budget=90, rule="a write failing or killed at a byte offset leaves no broken table; the next run works")
def interrupted_write(case, ctx):
    from pyspectral.near_infrared_reflectance import Calculator
    world = gen.World(ctx)
    inst = dict(case["inst"])
    dets = [dict(d, center=3.75, width=min(d["width"], 0.03)) for d in inst["bands"][case["band"]]][:1]
    inst["bands"] = {case["band"]: dets}
    case = dict(case, inst=inst)
    bands = c04.install(world, inst)
    curve = bands[case["band"]][0]
    path = os.path.join(world.dir, "table.npz")
    if case["via"] == "calculator":
        world.settings[f"{inst['platform']}-{inst['given']}"] = {"tb2rad_lut_filename": path}
        world.apply()

    def write():
        if case["via"] == "converter":
            converter(case).make_tb2rad_lut(path)
        else:
            Calculator(inst["platform"], inst["given"], case["band"], solar_flux=2.0)

    old = None
    if case["old"] and case["via"] == "converter":
        conv = converter(dict(case, res=case["res"] if case["old"] == "same" else 1.0))
        conv.make_tb2rad_lut(path)
        old = {k: np.array(v) for k, v in conv.read_tb2rad_lut(path).items()}
    status = _run_limited(write, case["at"], case["kill"])
    done = os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0
    require(done or (os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXFSZ) or
            (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 4),
            "unexpected end of the writer (only an OSError or the kill are expected)", status=status)
    res = case["res"] if case["via"] == "converter" else 0.1
    nodes = np.arange(150.0, 360.0, res)

    def check_table(tb, rad):
        if old is not None and not done and tb.shape == old["tb"].shape and np.array_equal(tb, old["tb"]):
            require(np.array_equal(rad, old["radiance"]), "the previous table was damaged")
            return
        require(tb.shape == nodes.shape and np.allclose(tb, nodes), "a broken table was left", shape=tb.shape)
        exp = c04.reference(curve, "wavelength", nodes)[0]
        require(rad.shape == exp.shape and np.allclose(rad, exp, rtol=1e-4 if inst["dtype"] == "f4" else 1e-8, atol=0),
                "a broken table was left")

    if os.path.exists(path):
        with np.load(path) as lut:
            check_table(np.array(lut["tb"]), np.array(lut["radiance"]))
    else:
        require(not done, "no table written")
        require(old is None, "the previous table is gone")
    if case["via"] == "calculator":
        calc = Calculator(inst["platform"], inst["given"], case["band"], solar_flux=2.0)
        check_table(np.array(calc.lut["tb"]), np.array(calc.lut["radiance"]))
    if done:
        ctx.trivial("write completed")
        ctx.event("completed")
    else:
        ctx.event("killed" if case["kill"] else "failed")
        ctx.event("old table present" if old is not None else "no table before")


@prop(lambda: st.fixed_dictionaries({"threads": st.integers(2, 4), "schedule": st.integers(0, 10 ** 6), "center": gen.floats(3.6, 3.9), "width": gen.floats(0.01, 0.03),
                                     "n": st.integers(8, 30), "kill": st.one_of(st.none(), st.none(), st.integers(0, 8))}), quick=40, thorough=400,
      rule="several calculators making the same table at the same time, or one killed before one of its file operations")
def together(case, ctx):
    from pyspectral.near_infrared_reflectance import Calculator
    world = gen.World(ctx)
    os.environ["PSP_CONFIG_FILE"] = world.config_path
    wvl, resp = gen.build_curve({"kind": "gauss", "center": case["center"], "width": case["width"], "n": case["n"], "peak": 1.0, "grid": "uniform", "dtype": "f8"})
    world.add_rsr("Suomi-NPP", "viirs", {"M12": [(wvl, resp, float(gen.central(wvl, resp)))]})
    nodes = np.arange(150.0, 360.0, 0.1)
    exp = c04.reference((wvl, resp, None), "wavelength", nodes)[0]

    def table():
        calc = Calculator("Suomi-NPP", "viirs", "M12", solar_flux=2.0)
        return np.array(calc.lut["tb"]), np.array(calc.lut["radiance"])

    def judge(res, what):
        require(res[0].shape == nodes.shape and np.allclose(res[0], nodes), f"{what}: temperatures", shape=res[0].shape)
        require(res[1].shape == exp.shape and np.allclose(res[1], exp, rtol=1e-8, atol=0), f"{what}: radiances")

    if case["kill"] is not None:
        code, _ = faults.strike(world.dir, table, case["kill"], "kill")
        require(code in (0, faults.KILLED), "unexpected end", code=code)
        judge(table(), "the table after a kill")
        ctx.event("killed" if code else "not reached")
        return
    code, res = faults.interleaved(world.dir, [table] * case["threads"], case["schedule"])
    require(code == 0, "child failed", error=res)
    results, _, steps = res
    for ok, val in results:
        require(ok, "a calculator failed because of another one", error=val)
        judge(val, "tables made at the same time")
    judge(table(), "the table found afterwards")
    ctx.event(f"{case['threads']} threads")
    if steps < 4:
        ctx.trivial("no switches")
