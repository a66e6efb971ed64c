"""C01: blackbody radiance follows Planck's law."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

RULE = ("Cases are temperatures and waves drawn over x = hc/(lambda k T) in [1e-8, 650] (1e-4 to 80 for float32) together with "
        "container, dtype and shape; a case is non-trivial when at least one valid temperature is present.")
ASSUMPTIONS = ["Wavelengths are given as numbers or numpy arrays (SI), temperatures 1e-3..1e6 K.",
               "Reference: Planck's law evaluated in float64 with expm1 and the documented CODATA constants."]


@st.composite
def cases(draw):
    container = draw(st.sampled_from(["numpy", "numpy", "dask", "list", "scalar", "npscalar"]))
    dtype = draw(gen.DTYPES) if container in ("numpy", "dask") else "f8"
    temp = st.one_of(gen.floats(1.0, 6000.0, [0.002, 0.05, 2.7, 100.0, 150.0, 200.0, 273.15, 300.0, 360.0, 1000.0, 5778.0]),
                     gen.floats(1.0, 400.0), gen.floats(6000.0, 1e6, [9999.0, 12000.0, 1e5, 1e6]))
    if container in ("scalar", "npscalar"):
        arr = {"dtype": dtype, "shape": [1], "vals": [draw(temp)]}
    elif container == "list":
        arr = {"dtype": dtype, "shape": None, "vals": draw(st.lists(temp, min_size=1, max_size=6))}
        arr["shape"] = [len(arr["vals"])]
    else:
        arr = draw(gen.arrays(st.one_of(temp, temp, temp, st.sampled_from([0.0, None, 1e-7])),
                              ndims=(1, 1, 2, 3), dtypes=st.just(dtype)))
    case = {"container": container, "temp": arr, "space": draw(st.sampled_from(["wl", "wn"])),
            "kw": draw(st.booleans())}
    wave = gen.floats(0.1, 1000.0, [5e3, 3.37e4, 1e5, 0.2, 0.5, 1.0, 3.7, 3.9, 6.2, 10.8, 11.0, 12.0, 13.4, 20.0])
    case["wave_kind"] = draw(st.sampled_from(["float", "npfloat", "array", "array"]))
    case["waves"] = draw(st.lists(wave, min_size=1, max_size=1 if case["wave_kind"] != "array" else 8))
    case["wave_dtype"] = draw(st.sampled_from(["f8", "f8", "f4"]))
    if container == "dask":
        case["chunks"] = draw(gen.chunkings(arr["shape"]))
    return case


def waves(case):
    micron = np.array(case["waves"], dtype="f8")
    si = micron * 1e-6 if case["space"] == "wl" else 1e6 / micron
    if case["wave_kind"] == "float":
        return float(si[0]), si
    if case["wave_kind"] == "npfloat":
        return np.float64(si[0]), si
    arr = si.astype(case["wave_dtype"])
    return arr, arr.astype("f8")


def func(space):
    from pyspectral import blackbody
    return blackbody.blackbody if space == "wl" else blackbody.blackbody_wn


def ref(space, wave, temp):
    return gen.planck_ref(wave, temp) if space == "wl" else gen.planck_wn_ref(wave, temp)


def call(case, temps, wave):
    if case["kw"]:
        name = "wavel" if case["space"] == "wl" else "wavenumber"
        return func(case["space"])(**{name: wave, "temp": temps})
    return func(case["space"])(wave, temps)


def rtol_for(x, dtype):
    """Rounding of exp(x)-1 and of the powers."""
    eps = np.finfo(dtype).eps
    return eps * (40 + 8 * x + 8 / np.maximum(x, 1e-12))


def large(tier):
    """A whole image at once."""
    for dtype in ("f8", "f4"):
        for container, space in (("numpy", "wl"), ("dask", "wn")):
            yield {"container": container, "temp": {"dtype": dtype, "shape": [260, 270], "vals": [200.0, 250.5, 300.0, 310.25, 331.0, None, 180.0]},
                   "space": space, "kw": False, "wave_kind": "array", "waves": [3.9, 10.8], "wave_dtype": "f8", "chunks": [[130, 130], [200, 70]]}


@prop(cases, quick=1200, examples=large, rule="values, shape, laziness and NaN handling against the float64 reference")
def value(case, ctx):
    temps = gen.build(case["temp"])
    wave, wave64 = waves(case)
    keep = temps.copy()
    wkeep = np.array(wave, copy=True)
    container = case["container"]
    if container == "scalar":
        arg = float(temps[0])
    elif container == "npscalar":
        arg = np.float64(temps[0])
    elif container == "list":
        arg = [float(t) for t in temps]
    elif container == "dask":
        arg = gen.as_dask(temps, case["chunks"])
    else:
        arg = temps
    res = call(case, arg, wave)
    if container == "dask":
        require(hasattr(res, "compute"), "a dask temperature array must give a lazy result", type=type(res))
        ctx.event("dask")
    declared = res.dtype
    out = gen.to_np(res)
    require(out.dtype == declared, "computed dtype differs from the declared one", got=out.dtype, declared=declared)
    require(np.array_equal(keep, temps, equal_nan=True), "temperatures were modified")
    require(np.array_equal(wkeep, np.asarray(wave)), "waves were modified")
    flat = temps.ravel().astype("f8")
    require(out.shape == (flat.size, wave64.size), "one row per temperature, one column per wave expected",
            got=out.shape, expected=(flat.size, wave64.size))
    require(out.dtype.kind == "f", "float result expected", got=out.dtype)
    if temps.dtype == np.float32 and case["wave_kind"] == "float":
        require(out.dtype == np.float32, "float32 temperatures must give float32 radiances", got=out.dtype)
    elif temps.dtype == np.float64:
        require(out.dtype == np.float64, "float64 temperatures must give float64 radiances", got=out.dtype)
    invalid = ~(np.abs(flat) > 1e-6)
    require(np.all(np.isnan(out[invalid])), "an invalid temperature must give NaN", out=out[invalid])
    good = ~invalid
    if not good.any():
        ctx.trivial("no valid temperature")
        return
    if invalid.any():
        ctx.event("mixed valid and invalid")
    exp = ref(case["space"], wave64[None, :], flat[good][:, None])
    x = gen.C1 / (wave64[None, :] * flat[good][:, None]) if case["space"] == "wl" else \
        gen.C1 * wave64[None, :] / flat[good][:, None]
    got = out[good].astype("f8")
    # what the arithmetic can represent
    low = np.float32 if (out.dtype == np.float32 or temps.dtype == np.float32 or
                         (case["wave_kind"] == "array" and case["wave_dtype"] == "f4")) else np.float64
    rtol = rtol_for(x, low)
    xmax = 80.0 if low == np.float32 else 650.0
    tiny = 1e-37 if out.dtype == np.float32 else 1e-300
    huge = 3e38 if out.dtype == np.float32 else 1e300
    if low == np.float32:
        # wave**5 or 1/wave**5 may leave the float32 range altogether
        w = wave64[None, :] * np.ones_like(x)
        powr = gen.C2 / w ** 5 if case["space"] == "wl" else gen.C2 * w ** 3
        small = w ** 5 if case["space"] == "wl" else w ** 3
        rep = (powr < 1e37) & (powr > 1e-36) & (small > 1e-36) & (small < 1e37)
    else:
        rep = np.ones_like(x, dtype=bool)
    sel = rep & (x < xmax) & (x > (1e-4 if low == np.float32 else 1e-8)) & (exp > tiny) & (exp < huge)
    if not sel.any():
        ctx.trivial("nothing representable")
        return
    require(np.all(np.isfinite(got[sel])) and np.all(got[sel] > 0), "positive finite radiance expected",
            got=got[sel][:5], exp=exp[sel][:5])
    err = np.abs(got - exp) / exp
    require(np.all(err[sel] <= rtol[sel]), "radiance differs from Planck's law",
            err=float((err[sel] / rtol[sel]).max()), got=got[sel][:5], exp=exp[sel][:5])
    # nothing else may show up either: underflow to zero at most
    rest = rep & (x >= xmax)
    require(np.all(got[rest] >= 0) and np.all(got[rest] <= np.maximum(exp[rest] * 2, tiny * 10)),
            "radiance of an extremely cold body must vanish", got=got[rest][:5])
    ctx.event(f"{case['space']} {container} {case['temp']['dtype']}")


@st.composite
def mono_cases(draw):
    return {"space": draw(st.sampled_from(["wl", "wn"])), "wave": draw(gen.floats(0.2, 500.0)),
            "t": sorted(draw(st.lists(gen.floats(30.0, 8000.0), min_size=2, max_size=10, unique=True))),
            "dtype": draw(gen.DTYPES), "kw": False, "wave_kind": "float"}


@prop(mono_cases, quick=500, rule="strictly increasing with temperature (for steps well above rounding)")
def monotone(case, ctx):
    t = np.array(case["t"], dtype=case["dtype"])
    w = case["wave"] * 1e-6 if case["space"] == "wl" else 1e6 / case["wave"]
    out = gen.to_np(func(case["space"])(w, t)).astype("f8")[:, 0]
    exp = ref(case["space"], w, t.astype("f8"))
    rel = np.diff(exp) / exp[1:]
    x = gen.C1 / (case["wave"] * 1e-6 * t.astype("f8"))
    tol = 2 * np.maximum(rtol_for(x[1:], t.dtype), rtol_for(x[:-1], t.dtype))
    sel = (rel > tol) & (x[1:] < 80) & (exp[:-1] > 1e-36)
    require(np.all(np.diff(out)[sel] > 0), "radiance must increase with temperature", t=t, out=out)
    if not sel.any():
        ctx.trivial("steps below rounding")


@st.composite
def consist_cases(draw):
    return {"waves": draw(st.lists(gen.floats(0.3, 200.0), min_size=1, max_size=6)),
            "t": draw(st.lists(gen.floats(50.0, 7000.0), min_size=1, max_size=6)),
            "dask": draw(st.booleans())}


@prop(consist_cases, quick=500, rule="B_lambda = B_nu * nu^2 (same spectrum in both spaces), row/column independence")
def spaces_agree(case, ctx):
    wl = np.array(case["waves"]) * 1e-6
    t = np.array(case["t"])
    arg = gen.as_dask(t, [[len(t)]]) if case["dask"] else t
    a = gen.to_np(func("wl")(wl, arg))
    b = gen.to_np(func("wn")(1.0 / wl, arg)) / wl[None, :] ** 2
    x = gen.C1 / (wl[None, :] * t[:, None])
    sel = x < 600
    if not sel.any():
        ctx.trivial()
        return
    rel = np.abs(a - b)[sel] / np.abs(a[sel])
    require(np.all(rel <= 4 * rtol_for(x, "f8")[sel]), "wavelength and wavenumber forms disagree", rel=rel.max())
    # one element alone gives the same as among others
    i, j = len(t) // 2, len(wl) // 2
    single = float(gen.to_np(func("wl")(float(wl[j]), np.array([t[i]])))[0, 0])
    if sel[i, j]:
        require(abs(single - a[i, j]) <= 1e-12 * abs(a[i, j]) * 10, "an element depends on its neighbours",
                single=single, among=a[i, j])
