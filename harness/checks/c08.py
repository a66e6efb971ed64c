"""C08: NIR calculator results depend only on the latest inputs."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.checks import c07
from harness.core import prop, require

TECHNIQUE = ("stateful property-based testing (Hypothesis generated histories of calculator constructions and calls sharing one "
             "look-up table cache) against a stateless float64 model")
RULE = ("Cases are histories of 2-8 operations (construct for a platform/band/detector/wave space/limits, reflectance with or "
        "without CO2, emissive part, mid-way changes of configuration) over several platforms and instruments sharing a cache directory; non-trivial "
        "when a calculator is used after another one or after an earlier call of its own.")
ASSUMPTIONS = ["The spectral responses do not change while a cached table exists.", "LUT radiances may be off by one step (0.1 K)."]

# platform, instrument given, instrument in the file name, {band: central wavelength}: clearly different central wavelengths for
# everything which must not be mixed up, names containing each other
TARGETS = [("Suomi-NPP", "viirs", "viirs", {"M12": 3.62, "I4": 3.80}), ("NOAA-20", "viirs", "viirs", {"M12": 3.70, "I4": 3.88}),
           ("Sentinel-3A", "slstr", "slstr", {"ch7": 3.74}), ("MySat-1", "myinst", "myinst", {"A": 3.66, "B": 3.90, "A_HR": 3.72, "AB": 3.84}),
           ("MySat-1", "myinst2", "myinst2", {"A": 3.78, "B": 3.64}), ("MySat-12", "myinst", "myinst", {"A": 3.86, "AB": 3.68}),
           ("Metop-B", "avhrr/3", "avhrr3", {"ch3b": 3.76})]
OWN = 1.3  # the radiances of the table passed to a call are off by this factor
CENTERS = {(p, i, b): c for p, i, _, bands in TARGETS for b, c in bands.items()}


def curve_for(t, band=None, det=None):
    det = det or t["det"]
    cen = CENTERS[(t["platform"], t["instrument"], band or t["band"])] + (0.0, 0.025, -0.03)[det - 1]
    wvl, resp = gen.build_curve({"kind": ("gauss", "tri", "double")[det - 1], "center": cen, "width": 0.008 + 0.002 * det,
                                 "n": 40 + det, "peak": 1.0, "grid": "uniform", "dtype": "f8"})
    return wvl, resp, float(gen.central(wvl, resp))


def install(world):
    for platform, given, stored, bands in TARGETS:
        t = {"platform": platform, "instrument": given}
        world.add_rsr(platform, stored, {b: [curve_for(t, b, d) for d in (1, 2, 3)] for b in bands})


def changed(draw, prev, keys):
    """Another target, differing from the earlier one in the given respects."""
    t, other = dict(prev), draw(target())
    for key in keys:
        t[key] = other[key]
    same = [x for x in TARGETS if x[0] == t["platform"]]
    inst = draw(st.sampled_from(same)) if "instrument" in keys or t["instrument"] not in [x[1] for x in same] else \
        [x for x in same if x[1] == t["instrument"]][0]
    t["instrument"] = inst[1]
    if t["band"] not in inst[3]:
        t["band"] = draw(st.sampled_from(sorted(inst[3])))
    return t


@st.composite
def target(draw):
    platform, given, _, bands = draw(st.sampled_from(TARGETS))
    return {"platform": platform, "instrument": given, "band": draw(st.sampled_from(sorted(bands))), "det": draw(st.sampled_from([1, 1, 2, 3])),
            "space": draw(st.sampled_from(["wavelength", "wavelength", "wavelength", "wavenumber"])),
            "limit": draw(st.sampled_from(["default", "default", 88.0, None])),
            "threshold": draw(st.sampled_from(["default", "default", 80.0])),
            "flux": draw(st.sampled_from([None, 1.5, 3.0]))}


@st.composite
def call(draw, calc):
    n = draw(st.integers(1, 4))
    tb = gen.floats(210.0, 330.0)
    return {"op": "reflectance", "calc": calc, "sunz": draw(st.lists(st.one_of(gen.floats(0.0, 80.0), gen.floats(0.0, 80.0), gen.floats(70.0, 100.0)), min_size=n, max_size=n)),
            "nir": draw(st.lists(gen.floats(260.0, draw(st.sampled_from([330.0, 345.0]))), min_size=n, max_size=n)),
            "thermal": draw(st.lists(gen.floats(230.0, 300.0), min_size=n, max_size=n)),
            "co2": draw(st.one_of(st.none(), st.lists(tb, min_size=n, max_size=n))),
            "direct": draw(st.sampled_from([False, False, True, "own"])),
            "dask": draw(st.booleans())}


@st.composite
def histories(draw):
    first = draw(target())
    ops = [{"op": "new", "target": first}]
    ncalc = 1
    for _ in range(draw(st.integers(2, 8))):
        kind = draw(st.sampled_from(["new", "near", "call", "call", "call", "emissive", "emissive", "config"]))
        if kind == "new":
            ops.append({"op": "new", "target": draw(target())})
            ncalc += 1
        elif kind == "near":
            # differs from an earlier one in a single respect
            prev = [o["target"] for o in ops if o["op"] == "new"][-1]
            t = changed(draw, prev, [draw(st.sampled_from(["det", "space", "band", "platform", "instrument", "flux", "limit"]))])
            ops.append({"op": "new", "target": t})
            ncalc += 1
        elif kind == "call":
            ops.append(draw(call(draw(st.integers(0, ncalc - 1)))))
        elif kind == "emissive":
            ops.append({"op": "emissive", "calc": draw(st.integers(0, ncalc - 1)), "tb": draw(st.booleans())})
        else:
            ops.append({"op": "config", "sub": draw(st.sampled_from(["tb2rad", "other"]))})
    ops.append(draw(call(ncalc - 1)))
    ops.append({"op": "emissive", "calc": draw(st.integers(0, ncalc - 1)), "tb": draw(st.booleans())})
    return {"ops": ops}


def construct(t):
    from pyspectral.near_infrared_reflectance import Calculator
    kwargs = {}
    if t["det"] != 1:
        kwargs["detector"] = f"det-{t['det']}"
    if t["space"] != "wavelength":
        kwargs["wavespace"] = t["space"]
    if t["limit"] != "default":
        kwargs["masking_limit"] = t["limit"]
    if t["threshold"] != "default":
        kwargs["sunz_threshold"] = t["threshold"]
    if t["flux"] is not None:
        kwargs["solar_flux"] = t["flux"]
    return Calculator(t["platform"], t["instrument"], t["band"], **kwargs)


class Model:
    """What a calculator must give, from its definition and the latest call alone."""

    def __init__(self, t):
        self.t = t
        self.curve = curve_for(t)
        self.flux = t["flux"] if t["flux"] is not None else np.mean(c07.flux_ref(self.curve))
        self.fluxtol = 0.0 if t["flux"] is not None else 0.01 * self.flux
        wvl, resp, self.cwl = self.curve
        if t["space"] == "wavelength":
            self.integral = gen.trapz_ref(resp, wvl * 1e-6)
        else:
            grid = (1e6 / wvl)[::-1]
            self.integral = gen.trapz_ref(resp[::-1], grid)
            self.cwn = gen.trapz_ref(resp[::-1] * grid, grid) / self.integral

    def bounds(self, op):
        """Lower and upper bounds of reflectance and of its emissive part (normalised radiance)."""
        px = {k: np.array(op[k]) for k in ("sunz", "nir", "thermal")}
        if op["co2"] is not None:
            px["co2"] = np.array(op["co2"])
        step = 0.0 if op["direct"] is True else 0.1001
        scale = OWN if op["direct"] == "own" else 1.0
        r_all, e_all = [], []
        for df in (-self.fluxtol, self.fluxtol):
            for da in (-step, step):
                for db in (-step, step):
                    L = c07.radiance(self.curve, self.t["space"], px["nir"] + da) * scale
                    T = c07.radiance(self.curve, self.t["space"], px["thermal"] + db) * scale
                    r, denom, _, missing, _, _ = c07.expectation(self.t, self.flux + df, L, T, px)
                    r_all.append(np.where(missing, np.nan, np.where(denom < 0.005, np.nan, r)))
                    e_all.append(np.where(np.isnan(r_all[-1]), L, T * (1 - r)) / self.integral)
                    if step == 0 and self.fluxtol == 0:
                        break
        r, e = np.array(r_all), np.array(e_all)
        unsure = np.isnan(r).any(axis=0) != np.isnan(r).all(axis=0)
        # a denominator next to the limit makes the bounds meaningless
        with np.errstate(all="ignore"):
            return np.nanmin(r, axis=0), np.nanmax(r, axis=0), e.min(axis=0), e.max(axis=0), unsure, np.isnan(r).all(axis=0)

    def table(self):
        """A table of the user's own, for a single call."""
        temps = np.arange(150.0, 360.0, 0.1)
        return {"tb": temps, "radiance": c07.radiance(self.curve, self.t["space"], temps) / self.integral * OWN}

    def tb(self, e):
        if self.t["space"] == "wavelength":
            return gen.inv_planck_ref(self.cwl * 1e-6, e)
        return gen.inv_planck_wn_ref(self.cwn, e)


@prop(histories, quick=220, budget=110, rule="every reflectance and emissive part of the history against the stateless model")
def history(case, ctx):
    world = gen.World(ctx)
    install(world)
    calcs, models, last = [], [], {}
    shared = os.path.join(world.dir, "other_cache")
    os.makedirs(shared)
    uses = 0
    for k, op in enumerate(case["ops"]):
        if op["op"] == "config":
            world.settings["tb2rad_dir"] = world.tb2rad_dir if op["sub"] == "tb2rad" else shared
            world.apply()
        elif op["op"] == "new":
            calcs.append(construct(op["target"]))
            models.append(Model(op["target"]))
        elif op["op"] == "reflectance":
            i = op["calc"] % len(calcs)
            model = models[i]
            args = [np.array(op[n]) for n in ("sunz", "nir", "thermal")]
            if op["dask"]:
                args = [gen.as_dask(a, [[len(a)]]) for a in args]
            kwargs = {} if op["co2"] is None else {"tb_ir_co2": np.array(op["co2"])}
            if op["direct"]:
                kwargs["lut"] = None if op["direct"] is True else model.table()
                ctx.event("without a table" if op["direct"] is True else "a table given")
            out = gen.to_np(calcs[i].reflectance_from_tbs(*args, **kwargs))
            lo, hi, elo, ehi, unsure, missing = model.bounds(op)
            require(np.all(np.isnan(out[missing & ~unsure])), "a reflectance must be missing", step=k, out=out)
            ok = ~missing & ~unsure
            require(not np.isnan(out[ok]).any(), "a reflectance is missing", step=k, out=out)
            tol = 1e-8 + 1e-6 * np.abs(hi - lo)
            bad = ok & ((out < lo - tol) | (out > hi + tol))
            require(not bad.any(), "reflectance differs from the stateless model", step=k, target=model.t,
                    got=out[bad][:3], low=lo[bad][:3], high=hi[bad][:3])
            last[i] = (op, elo, ehi, unsure)
            uses += 1
            ctx.event("co2" if op["co2"] is not None else "no co2")
        else:
            i = op["calc"] % len(calcs)
            if i not in last:
                continue
            _, elo, ehi, unsure = last[i]
            out = gen.to_np(calcs[i].emissive_part_3x() if op["tb"] else calcs[i].emissive_part_3x(tb=False))
            positive = (elo > 0) & (ehi > 0)
            if not positive[~unsure].all():
                ctx.event("reflectance above one")
            if op["tb"]:
                with np.errstate(all="ignore"):
                    elo, ehi = models[i].tb(elo), models[i].tb(ehi)
            tol = 1e-8 * np.abs(ehi) + 1e-6 * (ehi - elo)
            with np.errstate(all="ignore"):
                # a negative emissive radiance has no temperature
                bad = ~unsure & np.isfinite(elo) & np.isfinite(ehi) & ~((out >= elo - tol) & (out <= ehi + tol))
                if op["tb"]:
                    bad &= positive
            require(out.shape == elo.shape, "shape of the emissive part", got=out.shape)
            require(not bad.any(), "emissive part does not belong to the latest reflectance", step=k, target=models[i].t,
                    got=out[bad][:3], low=elo[bad][:3], high=ehi[bad][:3])
            ctx.event("emissive")
            uses += 1
    if uses < 2 and len(calcs) < 2:
        ctx.trivial("single use")
    if len(calcs) > 1:
        ctx.event("several calculators")
    # every cached table is complete
    for base in (world.tb2rad_dir, shared):
        for name in os.listdir(base):
            with np.load(os.path.join(base, name)) as lut:
                require(lut["tb"].shape == lut["radiance"].shape == (2100,), "cached table", name=name)


@st.composite
def pair_cases(draw):
    a = draw(target())
    second = changed(draw, a, draw(st.lists(st.sampled_from(["det", "space", "band", "platform", "instrument"]), min_size=1, max_size=2, unique=True)))
    return {"a": a, "b": second, "tdir": draw(st.sampled_from(["config", "tempdir"]))}


def pair_examples(tier):
    base = {"platform": "Suomi-NPP", "instrument": "viirs", "band": "M12", "det": 1, "space": "wavelength", "limit": "default",
            "threshold": "default", "flux": 2.0}
    for change in ({"det": 2}, {"det": 3}, {"space": "wavenumber"}, {"band": "I4"}, {"platform": "NOAA-20"},
                   {"det": 2, "space": "wavenumber"}):
        for tdir in ("config", "tempdir"):
            yield {"a": base, "b": dict(base, **change), "tdir": tdir}
            yield {"a": dict(base, **change), "b": base, "tdir": tdir}
    base = dict(base, platform="MySat-1", instrument="myinst", band="A")
    for change in ({"band": "A_HR"}, {"band": "AB"}, {"instrument": "myinst2"}, {"platform": "MySat-12"}):
        yield {"a": base, "b": dict(base, **change), "tdir": "config"}


@prop(pair_cases, quick=80, examples=pair_examples, rule="the table used by a calculator is that of its own band, detector, platform and wave space")
def table_of_its_own(case, ctx):
    world = gen.World(ctx)
    if case["tdir"] == "tempdir":
        import tempfile
        del world.settings["tb2rad_dir"]
        world.apply()
        tempfile.tempdir = world.tb2rad_dir
    try:
        install(world)
        for t in (case["a"], case["b"], case["a"]):
            calc = construct(t)
            nodes = np.arange(150.0, 360.0, 0.1)
            curve = curve_for(t)
            model = Model(t)
            exp = c07.radiance(curve, t["space"], nodes) / model.integral
            got = np.array(calc.lut["radiance"])
            require(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-8, atol=0), "a look-up table of something else is used",
                    target=t, got=got[1000], expected=exp[1000])
            require(os.path.isfile(calc.lutfile), "table file", got=calc.lutfile)
            require(os.path.dirname(os.path.abspath(calc.lutfile)) == world.tb2rad_dir, "table directory", got=calc.lutfile)
    finally:
        if case["tdir"] == "tempdir":
            tempfile.tempdir = None
    if {k: case["a"][k] for k in ("det", "space", "band", "platform", "instrument")} == {k: case["b"][k] for k in ("det", "space", "band", "platform", "instrument")}:
        ctx.trivial("same table")


@st.composite
def config_cases(draw):
    return {"form": draw(st.sampled_from(["str", "dict", "dict_lower", "dict_other_band", "dict_similar", "other_platform", "other_instrument"])),
            "ext": draw(st.booleans()), "missing_dir": draw(st.booleans()), "exists": draw(st.booleans()),
            "factor": draw(st.sampled_from([1.05, 0.9])), "target": draw(target()), "sub": draw(st.sampled_from(["mytable", "a b.c", "T1.x"]))}


@prop(config_cases, quick=120, rule="a configured table file is used and created under its name; a configuration for something else is not")
def configured_file(case, ctx):
    world = gen.World(ctx)
    install(world)
    t = dict(case["target"], flux=2.0, limit="default", threshold="default")
    folder = os.path.join(world.dir, "nowhere" if case["missing_dir"] else "tables")
    if not case["missing_dir"]:
        os.makedirs(folder)
    name = os.path.join(folder, case["sub"]) + (".npz" if case["ext"] else "")
    expected = os.path.join(world.tb2rad_dir if case["missing_dir"] else folder, case["sub"] + ".npz")
    key = f"{t['platform']}-{t['instrument']}"
    form = case["form"]
    value = {"str": name, "dict": {t["band"]: name, "zz": "/nonexistent/x.npz"}, "dict_lower": {t["band"].lower(): name},
             "dict_other_band": {"Q9": name}, "dict_similar": {t["band"][:-1]: name, t["band"] + "b": name, "x" + t["band"]: name},
             "other_platform": name, "other_instrument": name}[form]
    if form == "other_platform":
        key = ("Other-1-viirs", t["platform"] + "2-" + t["instrument"])[case["ext"]]
    elif form == "other_instrument":
        key = (f"{t['platform']}-{t['instrument']}2", t["platform"])[case["ext"]]
    world.settings[key] = {"tb2rad_lut_filename": value}
    world.apply()
    honoured = form in ("str", "dict", "dict_lower")
    model = Model(t)
    nodes = np.arange(150.0, 360.0, 0.1)
    truth = c07.radiance(model.curve, t["space"], nodes) / model.integral
    if case["exists"]:
        np.savez(expected, tb=nodes, radiance=truth * case["factor"])
        before = open(expected, "rb").read()
    calc = construct(t)
    got = np.array(calc.lut["radiance"])
    if honoured:
        require(os.path.abspath(calc.lutfile) == expected, "configured table file not honoured", got=calc.lutfile, expected=expected)
        require(os.path.isfile(expected), "configured table not written")
        exp = truth * case["factor"] if case["exists"] else truth
    else:
        require(os.path.abspath(calc.lutfile) != expected, "a table configured for something else is used")
        exp = truth
    require(np.allclose(got, exp, rtol=1e-8, atol=0), "wrong table", form=form)
    if case["exists"]:
        require(open(expected, "rb").read() == before, "an existing table was rewritten")
    r = calc.reflectance_from_tbs(np.array([40.0]), np.array([300.05]), np.array([280.05]))
    L, T = (np.interp(v, nodes, exp) * model.integral for v in (300.05, 280.05))
    ref = (L - T) / (2.0 * np.cos(np.deg2rad(40.0)) / np.pi - T)
    require(abs(r[0] - ref) < 0.03 * abs(ref) + 2e-3, "reflectance does not follow the table in use", got=r[0], expected=ref)
    ctx.event(form)
