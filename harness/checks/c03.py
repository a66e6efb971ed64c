"""C03: lazy and chunked evaluation changes nothing."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): differential of generated chunkings and schedulers against the eager numpy "
             "evaluation")
RULE = ("Cases are arrays, a chunking per case (possibly uneven), float types, a scheduler; non-trivial when the array has more "
        "than one chunk.")
ASSUMPTIONS = ["All lazy inputs of one call share shape and chunking.", "Threads: dask's threaded scheduler with 4 workers."]

RTOL = {"f8": 1e-11, "f4": 2e-5}


@st.composite
def shaped(draw, names, ndims=(1, 2), extra=None, dtypes=gen.DTYPES):
    shape = draw(gen.shapes(ndims))
    dtype = draw(dtypes)
    case = {"shape": shape, "dtype": dtype, "chunks": draw(gen.chunkings(shape)),
            "sched": draw(st.sampled_from(["synchronous", "threads", "threads"]))}
    size = int(np.prod(shape))
    for name, elements in names.items():
        vals = draw(st.lists(elements, min_size=1, max_size=min(size, 12)))
        case[name] = {"dtype": dtype, "shape": shape, "vals": vals}
    if extra is not None:
        case.update(draw(extra))
    return case


def evaluate(lazy, case):
    import dask
    with dask.config.set(scheduler=case["sched"], num_workers=4):
        return lazy.compute()


def compare(case, ctx, eager, lazy, inputs, keep, what, atol=0.0, rtol=None):
    import dask.array as da
    require(isinstance(lazy, da.Array), f"{what}: result is not lazy", type=type(lazy))
    declared, shape = lazy.dtype, lazy.shape
    out = evaluate(lazy, case)
    again = evaluate(lazy, case)
    eager = gen.to_np(eager)
    require(out.shape == eager.shape, f"{what}: shape differs from the eager result", got=out.shape, expected=eager.shape)
    require(tuple(shape) == out.shape, f"{what}: declared shape differs", declared=shape, got=out.shape)
    require(out.dtype == eager.dtype, f"{what}: dtype differs from the eager result", got=out.dtype, expected=eager.dtype)
    require(declared == out.dtype, f"{what}: declared dtype differs", declared=declared, got=out.dtype)
    require(np.array_equal(np.isnan(out), np.isnan(eager)), f"{what}: missing values differ from the eager result")
    tol = rtol or RTOL["f4" if out.dtype == np.float32 else "f8"]
    ok = ~np.isnan(out)
    diff = np.abs(out[ok].astype("f8") - eager[ok].astype("f8"))
    with np.errstate(all="ignore"):
        bad = ~((diff <= tol * np.abs(eager[ok].astype("f8")) + atol) | (out[ok] == eager[ok]))
    require(not bad.any(), f"{what}: values differ from the eager result", got=out[ok][bad][:3], expected=eager[ok][bad][:3])
    require(np.array_equal(out, again, equal_nan=True), f"{what}: computing twice differs")
    for a, b in zip(inputs, keep):
        require(np.array_equal(gen.to_np(a), b, equal_nan=True), f"{what}: input modified", kind=type(a))
    nchunks = int(np.prod([len(c) for c in case["chunks"]]))
    if nchunks == 1:
        ctx.trivial("one chunk")
    ctx.event(f"{what} {case['dtype']}")
    ctx.event(f"{case['sched']}")
    ctx.event("chunks " + ("1" if nchunks == 1 else "2-5" if nchunks < 6 else ">5"))


TB = st.one_of(gen.floats(150.0, 360.0), gen.floats(150.0, 360.0), st.none(), gen.floats(100.0, 400.0))


@prop(lambda: shaped({"t": gen.floats(150.0, 400.0)}, ndims=(1, 2, 3), extra=st.fixed_dictionaries(
    {"wave": gen.floats(3.0, 15.0), "space": st.sampled_from(["wl", "wn"]), "bad": st.booleans(), "xr": st.booleans()})),
    quick=250, rule="inverse Planck in both spaces, dask arrays and DataArrays")
def inverse_planck(case, ctx):
    import dask.array as da
    import xarray as xr
    from pyspectral import blackbody
    temps = gen.build(case["t"])
    w = case["wave"] * 1e-6 if case["space"] == "wl" else 1e6 / case["wave"]
    rad = (gen.planck_ref(w, temps) if case["space"] == "wl" else gen.planck_wn_ref(w, temps)).astype(case["dtype"])
    if case["bad"]:
        rad.flat[rad.size // 2] = np.nan
        rad.flat[0] = -1.0
    func = blackbody.blackbody_rad2temp if case["space"] == "wl" else blackbody.blackbody_wn_rad2temp
    keep = rad.copy()
    eager = func(w, rad)
    arg = gen.as_dask(rad, case["chunks"])
    if case["xr"]:
        arr = xr.DataArray(arg)
        with gen.uncomputed("inverse Planck"):
            lazy = func(w, arr)
        require(np.array_equal(arr.values, keep, equal_nan=True), "input modified", kind=type(arr))
        require(isinstance(lazy, xr.DataArray), "DataArray expected", type=type(lazy))
        lazy = lazy.data
    else:
        with gen.uncomputed("inverse Planck"):
            lazy = func(w, arg)
    require(isinstance(lazy, da.Array) and lazy.chunks == arg.chunks, "chunks changed", got=getattr(lazy, "chunks", None))
    compare(case, ctx, eager, lazy, [rad, arg], [keep, keep], "inverse Planck")


def rsr_world(ctx):
    world = gen.World(ctx)
    bands = {}
    for name, cen in (("M12", 3.7), ("M15", 10.8)):
        w, r = gen.build_curve({"kind": "gauss", "center": cen, "width": 0.02, "n": 40, "peak": 1.0, "grid": "uniform", "dtype": "f8"})
        bands[name] = [(w, r, float(gen.central(w, r)))]
    world.add_rsr("Suomi-NPP", "viirs", bands)
    return world


@prop(lambda: shaped({"t": TB}, ndims=(1, 2, 3), extra=st.fixed_dictionaries(
    {"band": st.sampled_from(["M12", "M15"]), "space": st.sampled_from(["wavelength", "wavenumber"]),
     "lut": st.booleans(), "norm": st.booleans(), "res": st.sampled_from([0.1, 0.5])})),
    quick=150, rule="brightness temperature to radiance, direct and by look-up table, and back")
def tb_to_radiance(case, ctx):
    from pyspectral.radiance_tb_conversion import RadTbConverter
    world = rsr_world(ctx)
    conv = RadTbConverter("Suomi-NPP", "viirs", case["band"], wavespace=case["space"], tb_resolution=case["res"])
    temps = gen.build(case["t"])
    keep = temps.copy()
    lut = None
    if case["lut"]:
        path = os.path.join(world.dir, "lut.npz")
        conv.make_tb2rad_lut(path, normalized=case["norm"])
        lut = conv.read_tb2rad_lut(path)
    eager = conv.tb2radiance(temps, lut=lut, normalized=case["norm"])["radiance"]
    arg = gen.as_dask(temps, case["chunks"])
    with gen.uncomputed("tb2radiance"):
        lazy = conv.tb2radiance(arg, lut=lut, normalized=case["norm"])["radiance"]
    eager = np.asarray(eager).reshape(temps.shape) if temps.size == 1 else eager
    if lut is not None and temps.size == 1:
        eager = eager.astype(temps.dtype)
    compare(case, ctx, eager, lazy, [temps, arg], [keep, keep], "tb2radiance " + ("lut" if case["lut"] else "direct"))
    rad = np.nan_to_num(gen.to_np(eager), nan=1.0)
    if case["norm"]:
        compare(case, ctx, conv.radiance2tb(rad), conv.radiance2tb(gen.as_dask(rad, case["chunks"])), [rad], [rad.copy()],
                "radiance2tb")


@prop(lambda: shaped({"sunz": st.one_of(gen.floats(0.0, 80.0), gen.floats(-5.0, 100.0, [0.0, 85.0]), st.none()),
                      "nir": st.one_of(gen.floats(250.0, 340.0), gen.floats(250.0, 340.0), gen.floats(250.0, 340.0), st.none()),
                      "therm": st.one_of(gen.floats(210.0, 310.0), gen.floats(210.0, 310.0), gen.floats(210.0, 310.0), st.none()),
                      "co2": gen.floats(200.0, 290.0)},
                     ndims=(1, 2, 3), extra=st.fixed_dictionaries(
    {"use_co2": st.booleans(), "direct": st.sampled_from([False, False, True]),
     "limit": st.sampled_from([85.0, 88.0, None]), "lazy_sunz": st.booleans(), "eager": st.sampled_from([[], [], [1], [2], [3], [1, 3], [2, 3]])})),
    quick=130, rule="NIR reflectance and emissive part; all or some of the inputs lazy")
def nir(case, ctx):
    from pyspectral.near_infrared_reflectance import Calculator
    rsr_world(ctx)
    calc = Calculator("Suomi-NPP", "viirs", "M12", solar_flux=2.0, masking_limit=case["limit"])
    arrs = [gen.build(case[k]) for k in ("sunz", "nir", "therm", "co2")]
    keep = [a.copy() for a in arrs]
    lazies = [gen.as_dask(a, case["chunks"]) for a in arrs]
    if not case["lazy_sunz"]:
        lazies[0] = arrs[0]
    for i in case["eager"]:  # at least one of the two brightness temperatures is lazy
        lazies[i] = arrs[i]
    kw1 = {"tb_ir_co2": arrs[3]} if case["use_co2"] else {}
    kw2 = {"tb_ir_co2": lazies[3]} if case["use_co2"] else {}
    if case["direct"]:
        kw1["lut"] = kw2["lut"] = None
    eager = calc.reflectance_from_tbs(*arrs[:3], **kw1)
    require(isinstance(eager, np.ndarray), "numpy in, numpy out", type=type(eager))
    e_eager, t_eager = gen.to_np(calc.emissive_part_3x(tb=False)), gen.to_np(calc.emissive_part_3x())
    with gen.uncomputed("nir reflectance"):
        lazy = calc.reflectance_from_tbs(*lazies[:3], **kw2)
        e_lazy, t_lazy = calc.emissive_part_3x(tb=False), calc.emissive_part_3x()
    # cancellation in numerator and denominator
    f4 = case["dtype"] == "f4"
    arrs, keep = arrs + lazies, keep + keep
    compare(case, ctx, eager, lazy, arrs, keep, "nir reflectance", atol=1e-2 if f4 else 1e-9)
    compare(case, ctx, e_eager, e_lazy, arrs, keep, "emissive radiance", rtol=1e-2 if f4 else 1e-8)
    # a negative or vanishing emissive part has no temperature
    compare(case, ctx, np.where(e_eager > 0, t_eager, np.nan).astype(t_eager.dtype),
            __import__("dask.array").array.where(e_lazy > 0, t_lazy, np.nan).astype(t_lazy.dtype), arrs, keep,
            "emissive temperature", rtol=1e-2 if f4 else 1e-8)


def rayleigh_world(ctx, lo=400.0, hi=800.0, factor=1.0):
    import h5py
    from pyspectral.utils import ATM_CORRECTION_LUT_VERSION
    world = gen.World(ctx)
    folder = os.path.join(world.rayleigh_dir, "marine_clean_aerosol")
    os.makedirs(folder)
    info = ATM_CORRECTION_LUT_VERSION["marine_clean_aerosol"]
    with open(os.path.join(folder, info["filename"]), "w") as fp:
        fp.write(info["version"] + "\n")
    wvl = np.linspace(lo, hi, 5)
    sun, azi, sat = np.linspace(1.0, 24.75, 20), np.linspace(0.0, 180.0, 7), np.linspace(1.0, 3.0, 5)
    w, s, a, z = np.meshgrid(wvl, sun, azi, sat, indexing="ij")
    refl = factor * 0.3 * (400.0 / w) ** 2 * (1 + 0.02 * s) * (1 + 0.3 * np.cos(np.deg2rad(a))) * (0.5 + 0.2 * z)
    with h5py.File(os.path.join(folder, "rayleigh_lut_us-standard.h5"), "w") as h5f:
        h5f["reflectance"], h5f["wavelengths"] = refl, wvl
        h5f["azimuth_difference"], h5f["satellite_zenith_secant"], h5f["sun_zenith_secant"] = azi, sat, sun
    return world


@prop(lambda: shaped({"sunz": st.one_of(gen.floats(0.0, 88.0), gen.floats(0.0, 120.0), st.none()),
                      "satz": st.one_of(gen.floats(0.0, 70.0), gen.floats(0.0, 100.0), st.none()),
                      "azi": gen.floats(0.0, 180.0, [0.0, 180.0]), "red": gen.floats(-10.0, 120.0, [20.0, 100.0])},
                     ndims=(1, 2), extra=st.fixed_dictionaries(
    {"use_red": st.booleans(), "factor": st.sampled_from([1.0, 4.0]), "wave": st.sampled_from([0.45, 0.55, 0.7, 0.3, 1.6]), "thresh": gen.floats(30.0, 75.0),
     "maxz": gen.floats(80.0, 105.0), "strength": gen.floats(0.0, 1.0)})),
    quick=150, rule="Rayleigh reflectance and its high-zenith reduction")
def rayleigh(case, ctx):
    from pyspectral.rayleigh import Rayleigh
    rayleigh_world(ctx, factor=case.get("factor", 1.0))  # reflectances above 100 % are cut
    this = Rayleigh("Suomi-NPP", "viirs")
    arrs = [gen.build(case[k]) for k in ("sunz", "satz", "azi", "red")]
    keep = [a.copy() for a in arrs]
    lazies = [gen.as_dask(a, case["chunks"]) for a in arrs]
    red = {"redband": arrs[3]} if case["use_red"] else {}
    lred = {"redband": lazies[3]} if case["use_red"] else {}
    eager = this.get_reflectance(*arrs[:3], case["wave"], **red)
    require(isinstance(eager, np.ndarray), "numpy in, numpy out", type=type(eager))
    with gen.uncomputed("Rayleigh"):
        lazy = this.get_reflectance(*lazies[:3], case["wave"], **lred)
    f4 = case["dtype"] == "f4"
    zen, arrs, keep = arrs[0], arrs + lazies, keep + keep
    compare(case, ctx, eager, lazy, arrs, keep, "Rayleigh", atol=1e-3 if f4 else 1e-5)
    red_eager = this.reduce_rayleigh_highzenith(zen, eager, case["thresh"], case["maxz"], case["strength"])
    with gen.uncomputed("high-zenith reduction"):
        red_lazy = this.reduce_rayleigh_highzenith(lazies[0], lazy, case["thresh"], case["maxz"], case["strength"])
    compare(case, ctx, red_eager, red_lazy, arrs, keep, "high-zenith reduction", atol=1e-3 if f4 else 1e-5)


@prop(lambda: shaped({"t": st.one_of(gen.floats(170.0, 340.0), st.none()),
                      "zen": st.one_of(gen.floats(0.0, 89.9), st.sampled_from([0.0, 90.0, 95.0, -5.0]), st.none())}, ndims=(2,),
                     extra=st.fixed_dictionaries({"lazy_zen": st.booleans(), "lazy_data": st.booleans()})),
      quick=200, rule="IR limb correction; either or both inputs lazy")
def ir_correction(case, ctx):
    from pyspectral.atm_correction_ir import AtmosphericalCorrection
    this = AtmosphericalCorrection("Suomi-NPP", "viirs")
    data, zen = gen.build(case["t"]), gen.build(case["zen"])
    keep = [data.copy(), zen.copy()]
    eager = this.get_correction(zen, "M15", data)
    require(np.array_equal(data, keep[0], equal_nan=True), "input modified")
    ldata, lzen = gen.as_dask(data, case["chunks"]), gen.as_dask(zen, case["chunks"])
    if not case["lazy_data"]:
        ldata = data
    elif not case["lazy_zen"]:
        lzen = zen
    with gen.uncomputed("IR correction"):
        lazy = this.get_correction(lzen, "M15", ldata)
    compare(case, ctx, eager, lazy, [data, zen, ldata, lzen], keep + keep, "IR correction")


@prop(lambda: shaped({"t": gen.floats(2.0, 400.0)}, ndims=(1,), extra=st.fixed_dictionaries(
    {"waves": st.lists(gen.floats(0.5, 20.0), min_size=1, max_size=4), "space": st.sampled_from(["wl", "wn"])})),
    quick=150, rule="Planck function")
def planck(case, ctx):
    from pyspectral import blackbody
    t = gen.build(case["t"])
    keep = t.copy()
    func = blackbody.blackbody if case["space"] == "wl" else blackbody.blackbody_wn
    w = np.array(case["waves"]) * 1e-6
    w = w if case["space"] == "wl" else 1 / w
    arg = gen.as_dask(t, case["chunks"])
    with gen.uncomputed("Planck"):
        lazy = func(w, arg)
    compare(case, ctx, func(w, t), lazy, [t, arg], [keep, keep], "Planck", rtol=1e-3 if case["dtype"] == "f4" else 1e-9,
            atol=1e-300)


@prop(lambda: shaped({"t": gen.floats(200.0, 340.0), "zen": gen.floats(0.0, 85.0)}, ndims=(2,), extra=st.fixed_dictionaries(
    {"what": st.sampled_from(["inverse", "inverse wn", "direct", "lut", "nir", "rayleigh", "reduction", "limb", "back", "planck"]), "waves": st.lists(st.sampled_from([3.7, 4.1, 8.7, 10.8, 12.0]), min_size=2, max_size=3, unique=True)})),
    quick=150, rule="several results of the same lazy input evaluated together",
    examples=lambda tier: [{"shape": [3, 4], "dtype": d, "chunks": [[2, 1], [2, 2]], "sched": s, "what": w, "waves": [3.7, 10.8],
                            "t": {"dtype": d, "shape": [3, 4], "vals": [250.0, 300.0, 220.0, 275.5, 310.25]},
                            "zen": {"dtype": d, "shape": [3, 4], "vals": [0.0, 30.0, 65.0, 81.0, 12.5]}}
                           for w in ("inverse", "inverse wn", "direct", "lut", "nir", "rayleigh", "reduction", "limb", "back", "planck")
                           for d, s in (("f8", "synchronous"), ("f4", "threads"))])
def together(case, ctx):
    import dask
    from pyspectral import blackbody
    from pyspectral.atm_correction_ir import AtmosphericalCorrection
    from pyspectral.near_infrared_reflectance import Calculator
    from pyspectral.radiance_tb_conversion import RadTbConverter
    from pyspectral.rayleigh import Rayleigh
    temps, zen = gen.build(case["t"]), gen.build(case["zen"])
    rad = (temps * 1e4).astype(temps.dtype)
    given = {"t": temps, "zen": zen, "rad": rad, "wnrad": (temps * 1e-6).astype(temps.dtype), "flat": temps.ravel()}
    lazy = {k: gen.as_dask(v, case["chunks"] if v.ndim == 2 else [[v.size]]) for k, v in given.items()}
    what = case["what"]
    if what in ("inverse", "inverse wn", "planck"):
        waves = [w * 1e-6 for w in case["waves"]]
        calls = {"inverse": [lambda x, w=w: blackbody.blackbody_rad2temp(w, x["rad"]) for w in waves],
                 "inverse wn": [lambda x, w=w: blackbody.blackbody_wn_rad2temp(1 / w, x["wnrad"]) for w in waves],
                 "planck": [lambda x, w=w: blackbody.blackbody(np.array([w]), x["flat"]) for w in waves]}[what]
    elif what in ("direct", "lut", "back", "nir"):
        world = rsr_world(ctx)
        convs = [RadTbConverter("Suomi-NPP", "viirs", band) for band in ("M12", "M15")]
        tables = [None, None]
        if what == "lut":
            paths = [os.path.join(world.dir, f"lut{k}.npz") for k in range(2)]
            for conv, path in zip(convs, paths):
                conv.make_tb2rad_lut(path)
            tables = [conv.read_tb2rad_lut(path) for conv, path in zip(convs, paths)]
            # one converter, two tables
            convs[1:] = convs[:1]
        calls = [lambda x, c=c, lut=lut: c.tb2radiance(x["t"], lut=lut)["radiance"] for c, lut in zip(convs, tables)]
        if what == "back":
            calls = [lambda x, c=c: c.radiance2tb(x["rad"]) for c in convs]
        if what == "nir":
            calcs = [Calculator("Suomi-NPP", "viirs", "M12", solar_flux=flux) for flux in (2.0, 3.0)]
            calls = [lambda x, c=c, dt=dt: c.reflectance_from_tbs(x["zen"], x["t"], x["t"] - dt) for c, dt in zip(calcs + calcs[:1], (10.0, 10.0, 20.0))]
    elif what == "limb":
        calls = [lambda x: AtmosphericalCorrection("Suomi-NPP", "viirs").get_correction(x["zen"], "M15", x["t"]),
                 lambda x: AtmosphericalCorrection("Suomi-NPP", "viirs").get_correction(x["zen"] * 0.5, "M15", x["t"])]
    elif what == "reduction":
        calls = [lambda x, k=k: Rayleigh.reduce_rayleigh_highzenith(x["zen"], x["t"], 60.0, 90.0, k) for k in (0.25, 0.75)]
    else:
        rayleigh_world(ctx)
        this = Rayleigh("Suomi-NPP", "viirs")
        calls = [lambda x, w=w: this.get_reflectance(x["zen"], x["zen"], x["zen"], w) for w in (0.45, 0.6)]
        calls.append(lambda x: this.get_reflectance(x["zen"], x["zen"], x["zen"], 0.45, x["t"] - 200))
    eager = [gen.to_np(call(given)) for call in calls]
    with gen.uncomputed(what):
        results = [call(lazy) for call in calls]
    with dask.config.set(scheduler=case["sched"], num_workers=4):
        outs = dask.compute(*results)
    for k, (out, exp) in enumerate(zip(outs, eager)):
        require(out.shape == exp.shape and np.allclose(out, exp, rtol=RTOL["f4" if temps.dtype == np.float32 else "f8"] * 5, atol=1e-3 if temps.dtype == np.float32 else 1e-5 * (what in ("rayleigh", "nir")),
                                                       equal_nan=True),
                f"{what}: evaluated together with others of the same input the result differs", which=k, got=out.ravel()[:3], expected=exp.ravel()[:3])
    ctx.event(what)
