"""C02: the inverse Planck function undoes Planck."""
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

RULE = ("Cases draw wave, temperatures or radiances (mixed with NaN, zero and negative ones), container, dtype, shape and "
        "calling convention; non-trivial when at least one radiance is valid.")
ASSUMPTIONS = ["x = hc/(lambda k T) between 0.02 and 600 (75 in float32), where the formula is well conditioned.",
               "In wavenumber space the wave is passed as a Python float when float32 must be kept."]

BAD = st.sampled_from([None, 0.0, -1.0, -1e-3, -1e7, "nan"])


@st.composite
def cases(draw):
    space = draw(st.sampled_from(["wl", "wn"]))
    wave = draw(gen.floats(0.3, 100.0, [3.7, 3.9, 6.2, 8.7, 10.8, 11.0, 12.0, 13.4]))
    container = draw(st.sampled_from(["numpy", "numpy", "dask", "xr_numpy", "xr_dask", "scalar", "npscalar", "numpy0d"]))
    # temperatures which are well conditioned at this wavelength
    hi = gen.C1 / (wave * 1e-6) / 0.02
    lo = gen.C1 / (wave * 1e-6) / 75.0
    lo, hi = max(lo, 2.0), min(hi, 10000.0)
    # float32 cannot hold every radiance: see the filter in the property
    t = gen.floats(lo, max(hi, lo * 1.5), [x for x in (180.0, 250.0, 300.0, 330.0) if lo < x < hi])
    dtype = draw(gen.DTYPES)
    if container in ("scalar", "npscalar", "numpy0d"):
        arr = {"dtype": "f8" if container == "scalar" else dtype, "shape": [1], "vals": [draw(t)]}
    else:
        arr = draw(gen.arrays(t, ndims=(1, 2, 3), dtypes=st.just(dtype)))
    case = {"space": space, "wave": wave, "container": container, "temp": arr,
            "bad": draw(st.lists(st.tuples(st.integers(0, 50), st.sampled_from([None, -1.0, -1e-6, -1e9])).map(list),
                                 max_size=3)) if container not in ("scalar", "npscalar", "numpy0d") else [],
            "how": draw(st.sampled_from(["pos", "kw", "kwrad", "radiance2tb"])),
            "wave_type": draw(st.sampled_from(["float", "npf8", "npf4", "arr0"]))}
    if "dask" in container:
        case["chunks"] = draw(gen.chunkings(arr["shape"]))
    return case


def inverse(case, wave, rad):
    from pyspectral import blackbody
    from pyspectral.radiance_tb_conversion import radiance2tb
    how = case["how"]
    if case["space"] == "wl":
        if how == "radiance2tb":
            return radiance2tb(rad, wave)
        f, name = blackbody.blackbody_rad2temp, "wavelength"
    else:
        f, name = blackbody.blackbody_wn_rad2temp, "wavenumber"
    if how == "kw":
        return f(**{"radiance": rad, name: wave})
    if how == "kwrad":
        return f(wave, radiance=rad)
    return f(wave, rad)


def large(tier):
    """A whole image at once."""
    for dtype in ("f8", "f4"):
        for container, space in (("numpy", "wl"), ("numpy", "wn"), ("dask", "wl")):
            yield {"space": space, "wave": 10.8, "container": container, "temp": {"dtype": dtype, "shape": [260, 270], "vals": [200.0, 250.5, 300.0, 310.25, 331.0, 180.0, 220.0]},
                   "bad": [[3, None]], "how": "pos", "wave_type": "float", "chunks": [[130, 130], [200, 70]]}


@prop(cases, quick=1500, examples=large, rule="inverse(planck(T)) == T; container, shape, dtype, coords kept; bad radiances give no temperature")
def round_trip(case, ctx):
    import dask.array as da
    import xarray as xr
    temps = gen.build(case["temp"])
    w64 = case["wave"] * 1e-6 if case["space"] == "wl" else 1e6 / case["wave"]
    wave_type = case["wave_type"]
    if case["container"] == "scalar" and wave_type == "npf4":
        wave_type = "npf8"  # numpy would compute in single precision
    if case["space"] == "wl":
        wave = {"float": float(w64), "npf8": np.float64(w64), "npf4": np.float32(w64), "arr0": np.array(w64)}[
            wave_type]
    else:
        wave = float(w64) if wave_type != "npf8" else np.float64(w64)
    eff = float(np.float32(w64)) if (isinstance(wave, np.float32) or temps.dtype == np.float32 and case["space"] == "wl") \
        else float(w64)
    ref = gen.planck_ref(eff, temps) if case["space"] == "wl" else gen.planck_wn_ref(eff, temps)
    rad = ref.astype(temps.dtype)
    bad = np.zeros(rad.shape, dtype=bool)
    for pos, val in case["bad"]:
        rad.flat[pos % rad.size] = np.nan if val is None else val
        bad.flat[pos % rad.size] = True
    keep = rad.copy()
    container = case["container"]
    attrs = {"units": "W", "x": 1}
    if container == "scalar":
        arg = float(rad[0])
    elif container == "npscalar":
        arg = rad.dtype.type(rad[0])
    elif container == "numpy0d":
        arg = rad[0].reshape(())
    elif container == "dask":
        arg = gen.as_dask(rad, case["chunks"])
    elif container.startswith("xr"):
        data = gen.as_dask(rad, case["chunks"]) if container == "xr_dask" else rad
        dims = ["z", "y", "x"][-rad.ndim:]
        arg = xr.DataArray(data, dims=dims, coords={dims[-1]: np.arange(rad.shape[-1]) * 2.0}, attrs=dict(attrs),
                           name="rad")
    else:
        arg = rad
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        res = inverse(case, wave, arg)
        if container in ("dask", "xr_dask"):
            require(isinstance(getattr(res, "data", None) if container == "xr_dask" else res, da.Array),
                    "lazy radiances must give lazy temperatures", type=type(res))
            require(res.dtype == rad.dtype or isinstance(wave, np.float64) and case["space"] == "wn",
                    "declared dtype differs from the radiances' dtype", got=res.dtype)
        out = gen.to_np(res)
    require(np.array_equal(keep, rad, equal_nan=True), "the radiances were modified")
    if container.startswith("xr"):
        require(isinstance(res, xr.DataArray), "a DataArray must stay a DataArray", type=type(res))
        require(res.dims == arg.dims, "dimensions changed", got=res.dims)
        require(set(res.coords) == set(arg.coords) and all(res[c].equals(arg[c]) for c in arg.coords), "coords lost")
        if container == "xr_dask":
            require(dict(res.attrs) == attrs, "attributes lost", got=res.attrs)
        require(dict(arg.attrs) == attrs and isinstance(arg.data, da.Array) == (container == "xr_dask"),
                "the DataArray passed in was modified")
        require(np.array_equal(gen.to_np(arg), keep, equal_nan=True), "the DataArray passed in was modified")
    elif container == "numpy":
        require(isinstance(res, np.ndarray), "numpy in, numpy out", type=type(res))
    shape = rad.shape if container not in ("scalar", "npscalar", "numpy0d") else ()
    require(out.shape == shape, "shape changed", got=out.shape, expected=shape)
    if container != "scalar" and not (isinstance(wave, np.float64) and case["space"] == "wn"):
        require(out.dtype == rad.dtype, "float precision not kept", got=out.dtype, expected=rad.dtype)
    out = out.reshape(rad.shape).astype("f8")
    require(not np.any(np.isfinite(out[bad]) & (out[bad] > 0)), "an invalid radiance gave a plausible temperature",
            out=out[bad], rad=rad[bad])
    good = ~bad
    t64 = temps.astype("f8")
    x = gen.C1 / (eff * t64) if case["space"] == "wl" else gen.C1 * eff / t64
    if rad.dtype == np.float32:
        # conditioning and range in single precision
        p5 = eff ** 5 * ref if case["space"] == "wl" else ref
        ok = good & (ref > 1e-30) & (ref < 1e37) & (np.abs(p5) > 1e-33) & (eff ** 5 > 1e-36 if case["space"] == "wl" else True)
        ok &= (x < 70)
        eps = np.finfo("f4").eps
    else:
        ok = good & (ref > 1e-300)
        eps = np.finfo("f8").eps
    if not ok.any():
        ctx.trivial("not representable")
        return
    # log(1+y): relative error eps/x for small x; wave rounding in float32
    rtol = eps * (30 + 8 / np.minimum(x, 1.0))
    err = np.abs(out - t64) / t64
    require(np.all(err[ok] <= rtol[ok]), "temperature not recovered",
            worst=float((err / rtol)[ok].max()), got=out[ok][:4], expected=t64[ok][:4])
    ctx.event(container)
    if bad.any():
        ctx.event("with invalid radiances")
    if temps.dtype == np.float32:
        ctx.event("float32")


@st.composite
def rad_cases(draw):
    return {"space": draw(st.sampled_from(["wl", "wn"])), "wave": draw(gen.floats(0.5, 100.0)),
            "x": sorted(draw(st.lists(st.floats(0.01, 500.0), min_size=2, max_size=8, unique=True))), "how": "pos",
            "int": draw(st.booleans())}


@prop(rad_cases, quick=800, rule="planck(inverse(L)) == L, strictly increasing, agrees with the closed form; integer radiances too")
def backward(case, ctx):
    from pyspectral import blackbody
    w = case["wave"] * 1e-6 if case["space"] == "wl" else 1e6 / case["wave"]
    x = np.array(case["x"])[::-1]
    temps = gen.C1 / (case["wave"] * 1e-6 * x)
    rad = gen.planck_ref(w, temps) if case["space"] == "wl" else gen.planck_wn_ref(w, temps)
    if case["int"]:
        ints = rad[(rad > 1000) & (rad < 1e18)].astype("i8")
        if not ints.size:
            ctx.trivial("no integer radiance")
            return
        rad = ints
        ctx.event("integer radiances")
    out = gen.to_np(inverse(case, w, rad)).astype("f8")
    exp = gen.inv_planck_ref(w, rad) if case["space"] == "wl" else gen.inv_planck_wn_ref(w, rad)
    require(np.allclose(out, exp, rtol=1e-11, atol=0), "inverse Planck formula", got=out, expected=exp)
    rel = np.diff(exp) / exp[1:]
    sel = rel > 1e-12
    require(np.all(np.diff(out)[sel] > 0), "temperature must increase with radiance", got=out)
    fwd = blackbody.blackbody if case["space"] == "wl" else blackbody.blackbody_wn
    back = gen.to_np(fwd(w, out))[:, 0]
    xx = gen.C1 / (case["wave"] * 1e-6 * exp)
    require(np.all(np.abs(back - rad) <= np.abs(rad) * 1e-11 * (1 + xx + 1 / xx)), "radiance not recovered",
            got=back, expected=rad)
