"""C06: SEVIRI regression conversion is exact and invertible."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = ("exhaustive enumeration of all tabulated (platform, band, alias) combinations, each with Hypothesis generated "
             "temperatures, against the EUMETSAT formula and coefficients restated in the oracle")
RULE = "Cases are (platform, band name or alias, temperatures, container, float type); every one is non-trivial."
ASSUMPTIONS = ["The coefficient table in the oracle is the one documented by EUMETSAT for Meteosat-8 and -9."]

TABLE = {"IR3.9": ([2567.330, 0.9956, 3.410], [2568.832, 0.9954, 3.438]),
         "WV6.2": ([1598.103, 0.9962, 2.218], [1600.548, 0.9963, 2.185]),
         "WV7.3": ([1362.081, 0.9991, 0.478], [1360.330, 0.9991, 0.470]),
         "IR8.7": ([1149.069, 0.9996, 0.179], [1148.620, 0.9996, 0.179]),
         "IR9.7": ([1034.343, 0.9999, 0.060], [1035.289, 0.9999, 0.056]),
         "IR10.8": ([930.647, 0.9983, 0.625], [931.700, 0.9983, 0.640]),
         "IR12.0": ([839.660, 0.9988, 0.397], [836.445, 0.9988, 0.408]),
         "IR13.4": ([752.387, 0.9981, 0.578], [751.792, 0.9981, 0.561])}
NAMES = {"IR_039": "IR3.9", "WV_062": "WV6.2", "WV_073": "WV7.3", "IR_087": "IR8.7", "IR_097": "IR9.7",
         "IR_108": "IR10.8", "IR_120": "IR12.0", "IR_134": "IR13.4", "IR6.2": "WV6.2", "IR7.3": "WV7.3"}
NAMES.update({k: k for k in TABLE})
PAIRS = [[p, n] for p in ("Meteosat-8", "Meteosat-9") for n in sorted(NAMES)]


def coeffs(platform, name):
    return TABLE[NAMES[name]][int(platform[-1]) - 8]


def cases():
    return st.fixed_dictionaries({
        "pair": st.sampled_from(PAIRS),
        "temp": gen.arrays(gen.floats(120.0, 400.0, [150.0, 200.0, 273.15, 300.0]), ndims=(1, 2, 3)),
        "container": st.sampled_from(["numpy", "numpy", "dask", "scalar", "npscalar"]),
        "kw": st.booleans()})


def enumerated(tier):
    for pair in PAIRS:
        for dtype in ("f8", "f4"):
            yield {"pair": pair, "temp": {"dtype": dtype, "shape": [2, 4], "vals": [120.0, 180.0, 210.5, 240.0, 273.15, 300.0, 330.0, 400.0]},
                   "container": "numpy", "kw": False}
    for dtype in ("f8", "f4"):
        yield {"pair": PAIRS[0], "temp": {"dtype": dtype, "shape": [260, 270], "vals": [200.0, 250.5, 300.0, 310.25, 331.0, 180.0, 220.0]},
               "container": "numpy", "kw": False}


@prop(cases, quick=800, examples=enumerated, rule="formula, inverse, monotone, Planck at the scaled temperature, dtype and shape")
def regression(case, ctx):
    from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
    world = gen.World(ctx)  # empty RSR directory
    platform, name = case["pair"]
    conv = SeviriRadTbConverter(platform, name)
    wn, alpha, beta = coeffs(platform, name)
    temps = gen.build(case["temp"])
    if case["container"] in ("scalar", "npscalar"):
        temps = temps.ravel()[:1]
        arg = float(temps[0]) if case["container"] == "scalar" else temps[0]
        if case["container"] == "scalar":
            temps = temps.astype("f8")
    elif case["container"] == "dask":
        arg = gen.as_dask(temps, [[n] for n in temps.shape])
    else:
        arg = temps
    keep = temps.copy()
    res = conv.tb2radiance(tb_=arg) if case["kw"] else conv.tb2radiance(arg)
    require(res["scale"] == 1.0 and res["unit"] == "W/m^2 sr^-1 (m^-1)^-1", "unit or scale", got=(res["unit"], res["scale"]))
    rad = gen.to_np(res["radiance"])
    if case["container"] != "scalar":
        require(rad.dtype == temps.dtype, "float type", got=rad.dtype, expected=temps.dtype)
    scalar = case["container"] in ("scalar", "npscalar")
    require(rad.shape == (() if scalar else temps.shape), "shape", got=rad.shape)
    rad = rad.reshape(temps.shape)
    require(np.array_equal(keep, temps), "temperatures modified")
    t = temps.astype("f8")
    exp = gen.planck_wn_ref(wn * 100.0, alpha * t + beta)
    x = gen.C1 * wn * 100.0 / t
    rtol = np.finfo(temps.dtype).eps * (30 + 8 * x)
    require(np.all(np.abs(rad - exp) <= rtol * exp), "regression formula", got=rad.ravel()[:3], expected=exp.ravel()[:3])
    back_arg = rad.ravel()[0] if scalar else (gen.as_dask(rad, [[n] for n in rad.shape]) if case["container"] == "dask" else rad)
    if case["container"] == "scalar":
        back_arg = float(back_arg)
    back = conv.radiance2tb(rad=back_arg) if case["kw"] else conv.radiance2tb(back_arg)
    if case["container"] == "dask":
        require(hasattr(res["radiance"], "compute") and hasattr(back, "compute"), "lazy input must stay lazy")
    back = gen.to_np(back)
    require(back.shape == (() if scalar else temps.shape), "shape of the inverse", got=back.shape)
    if case["container"] != "scalar":
        require(back.dtype == temps.dtype, "float type of the inverse", got=back.dtype, expected=temps.dtype)
    # error of the radiance divided by x, cancellation in alpha T + beta - beta
    ttol = 40 * np.finfo(temps.dtype).eps * (2 + 1 / x) * t
    require(np.all(np.abs(back.reshape(t.shape) - t) <= ttol), "inverse does not return the temperature",
            got=back.ravel()[:3], expected=t.ravel()[:3])
    inv = (gen.inv_planck_wn_ref(wn * 100.0, rad.astype("f8")) - beta) / alpha
    require(np.all(np.abs(back.reshape(t.shape) - inv) <= ttol), "inverse regression formula")
    order = np.argsort(t.ravel())
    ts, rs = t.ravel()[order], rad.ravel()[order]
    apart = np.diff(ts) > 1e-3 * ts[1:] if temps.dtype == np.float32 else np.diff(ts) > 1e-10 * ts[1:]
    require(np.all(np.diff(rs)[apart] > 0), "radiance must increase with temperature")
    ctx.event(f"{platform} {NAMES[name]}")
    ctx.event(case["container"])
    require(not world.rsr_dir or not [f for f in __import__("os").listdir(world.rsr_dir) if f.endswith(".h5")], "no RSR file expected")


@st.composite
def back_cases(draw):
    return {"pair": draw(st.sampled_from(PAIRS)), "x": draw(st.lists(st.floats(1.0, 40.0), min_size=1, max_size=6)),
            "dtype": draw(gen.DTYPES)}


@prop(back_cases, quick=400, rule="radiance -> temperature -> radiance")
def radiance_round_trip(case, ctx):
    from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
    gen.World(ctx)
    platform, name = case["pair"]
    wn = coeffs(platform, name)[0] * 100.0
    x = np.array(case["x"])
    rad = (gen.C2 * wn ** 3 / np.expm1(x)).astype(case["dtype"])
    conv = SeviriRadTbConverter(platform, name)
    back = conv.tb2radiance(conv.radiance2tb(rad))["radiance"]
    rtol = np.finfo(case["dtype"]).eps * (60 + 30 * x)
    require(np.all(np.abs(back.astype("f8") - rad) <= rtol * rad), "radiance not recovered", got=back, expected=rad)


@st.composite
def refuse_cases(draw):
    return {"pair": draw(st.sampled_from(PAIRS)),
            "what": draw(st.sampled_from(["lut", "lut_empty", "normalized", "normalized 0", "normalized np", "number", "npnumber", "none", "untabulated", "visible"])),
            "untabulated": draw(st.sampled_from(["Meteosat-10", "Meteosat-11", "Meteosat-7", "Himawari-8", "MTG-I1"])),
            "visible": draw(st.sampled_from(["VIS0.6", "VIS0.8", "NIR1.6", "HRV", "IR_016", "IR99", ""])),
            "value": draw(gen.floats(3.0, 14.0)), "t": draw(gen.floats(150.0, 350.0))}


@prop(refuse_cases, quick=150, rule="tables, band-integrated radiances and non-string bands are refused")
def refused(case, ctx):
    from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
    gen.World(ctx)
    platform, name = case["pair"]
    what = case["what"]
    t = np.array([case["t"]])
    if what in ("untabulated", "visible"):
        table = {"untabulated": (case["untabulated"], name), "visible": (platform, case["visible"])}
        for direction in ("tb2radiance", "radiance2tb"):
            try:
                out = getattr(SeviriRadTbConverter(*table[what]), direction)(t)
            except Exception:
                continue
            require(False, "a number for a platform or band without coefficients", direction=direction, of=table[what], out=out)
        return
    if what in ("lut", "lut_empty") or what.startswith("normalized"):
        conv = SeviriRadTbConverter(platform, name)
        kwargs = {"lut": {"lut": {"tb": np.arange(150.0, 360.0, 0.1), "radiance": np.arange(2100.0)}},
                  "lut_empty": {"lut": {}}, "normalized": {"normalized": False}, "normalized 0": {"normalized": 0},
                  "normalized np": {"normalized": np.bool_(False)}}[what]
        try:
            out = conv.tb2radiance(t, **kwargs)
        except NotImplementedError:
            conv.tb2radiance(t, lut=None, normalized=True)
            return
        require(False, f"{what} accepted", out=out)
    band = {"number": case["value"], "npnumber": np.float64(case["value"]), "none": None}[what]
    try:
        conv = SeviriRadTbConverter(platform, band)
    except AttributeError:
        return
    require(False, "a band which is not a string was accepted", band=band)
