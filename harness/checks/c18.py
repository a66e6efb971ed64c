"""C18: IR limb correction."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = "property-based testing (Hypothesis): generated arrays in all containers against the formula in float64, pixel independence"
RULE = "Cases are temperature and view zenith arrays with containers and masks; non-trivial when some pixel is corrected."
ASSUMPTIONS = ["Two-dimensional float arrays of equal shape and type; temperatures 150-350 K."]


@st.composite
def cases(draw):
    shape = draw(gen.shapes((2,)))
    dtype = draw(gen.DTYPES)
    size = int(np.prod(shape))

    def arr(elements):
        return {"dtype": dtype, "shape": shape, "vals": draw(st.lists(elements, min_size=1, max_size=min(size, 14)))}
    return {"dtype": dtype, "t": arr(st.one_of(gen.floats(170.0, 340.0, [170.0, 210.0, 295.0, 320.0]), gen.floats(150.0, 350.0), st.none())),
            "zen": arr(st.one_of(gen.floats(0.0, 90.0, [0.0, 0.0, 70.0, 90.0]), st.sampled_from([0.0, 0.0, 90.0, 89.999, 1e-3]),
                                 gen.floats(-20.0, 120.0), st.none())),
            "kind": draw(st.sampled_from(["numpy", "numpy", "masked", "masked data", "masked zen", "dask", "dask data", "dask zen", "xarray"])),
            "mask": draw(st.lists(st.booleans(), min_size=1, max_size=9)), "zmask": draw(st.lists(st.booleans(), min_size=1, max_size=7)),
            "chunks": draw(gen.chunkings(shape)), "band": draw(st.sampled_from(["M15", "IR_108", "x"])), "strided": draw(st.booleans())}


def formula(t, zen):
    t, zen = t.astype("f8"), zen.astype("f8")
    with np.errstate(all="ignore"):
        nadir = t + (1 + 9.85) ** ((t - 210.0) / 110.0) - 1
        limb = t + ((t - 170.0) / 125.0) ** 4 * (7.2 ** (zen / 70.0) - 1)
        return np.where(zen == 0, nadir, np.where((zen > 0) & (zen < 90), limb, t))


def compare(got, want, case, what):
    tol = 2e-4 if case["dtype"] == "f4" else 1e-9
    with np.errstate(all="ignore"):
        ok = (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= tol * (1 + np.abs(want) / 300))
    if not ok.all():
        k = tuple(int(v) for v in np.argwhere(~ok)[0])
        require(False, what, got=float(got[k]), expected=float(want[k]), kind=case["kind"], index=k)


def large(tier):
    """A whole image at once."""
    for dtype in ("f8", "f4"):
        for kind in ("numpy", "masked", "dask"):
            arr = {"dtype": dtype, "shape": [260, 270]}
            yield {"dtype": dtype, "t": dict(arr, vals=[200.0, 250.5, 300.0, 310.25, 331.0, 180.0, 220.0]), "zen": dict(arr, vals=[0.0, 12.5, 40.0, 61.0, 80.0]),
                   "kind": kind, "mask": [True, False, False], "zmask": [False], "chunks": [[130, 130], [200, 70]], "band": "M15", "strided": False}


@prop(cases, quick=600, examples=large, rule="against the formula")
def correction(case, ctx):
    import dask.array as da
    from pyspectral.atm_correction_ir import AtmosphericalCorrection
    t, zen = gen.build(case["t"]), gen.build(case["zen"])
    if case["strided"] and case["kind"] == "numpy":
        t, zen = np.repeat(t, 2, axis=1)[:, ::2], np.repeat(zen, 2, axis=0)[::2]
    mask = np.resize(case["mask"], t.shape)
    zmask = np.resize(case["zmask"], t.shape)
    kind = case["kind"]
    data, view = t.copy() if not case["strided"] else t, zen
    keep = t.copy(), zen.copy()
    if kind in ("masked", "masked data"):
        data = np.ma.masked_array(t, mask=mask)
    if kind in ("masked", "masked zen"):
        view = np.ma.masked_array(zen, mask=zmask)
    if kind in ("dask", "dask data"):
        data = gen.as_dask(t, case["chunks"])
    if kind in ("dask", "dask zen"):
        view = gen.as_dask(zen, case["chunks"])
    if kind == "xarray":
        import xarray as xr
        data, view = gen.as_dask(t, case["chunks"]), gen.as_dask(zen, case["chunks"])
        data, view = xr.DataArray(data, dims=("y", "x")), xr.DataArray(view, dims=("y", "x"))
        data, view = data.data, view.data
    this = AtmosphericalCorrection("Suomi-NPP", "viirs")
    out = this.get_correction(view, case["band"], data)
    if "dask" in kind or kind == "xarray":
        require(isinstance(out, da.Array), "dask expected", type=type(out))
    res = out.compute() if hasattr(out, "compute") else out
    require(res.shape == t.shape, "shape", got=res.shape)
    require(res.dtype == np.dtype(case["dtype"]), "dtype", got=res.dtype, expected=case["dtype"])
    want = formula(t, zen)
    if kind in ("masked", "masked zen"):
        want = np.where(zmask, t, want)
    if kind in ("masked", "masked data"):
        # a NaN pixel may become masked; masked pixels stay masked and valid ones are never masked
        nan = np.isnan(want)
        now = np.ma.getmaskarray(res)
        require(np.ma.isMaskedArray(res) and np.array_equal(now | nan, mask | nan) and (now | ~mask).all(), "mask changed",
                got=now, expected=mask)
        require(np.array_equal(np.ma.getmaskarray(data), mask), "mask of the input changed")
    plain = np.asarray(np.ma.getdata(res), "f8")
    if kind in ("masked", "masked data"):
        plain = np.where(now, 0.0, plain)
        want = np.where(now, 0.0, want)
    compare(plain, want, case, "corrected temperature")
    now = np.ma.getdata(data) if isinstance(data, np.ndarray) else t
    require(np.array_equal(now, keep[0], equal_nan=True) and np.array_equal(zen, keep[1], equal_nan=True), "input modified", kind=kind)
    # the object keeps no state
    again = this.get_correction(view, "other", data)
    again = again.compute() if hasattr(again, "compute") else again
    require(np.ma.allequal(np.nan_to_num(np.ma.filled(again, -1)), np.nan_to_num(np.ma.filled(res, -1))), "second call differs")
    with np.errstate(invalid="ignore"):
        touched = ((zen >= 0) & (zen < 90)).sum()
    if not touched:
        ctx.trivial("nothing corrected")
    ctx.event(f"{kind} {case['dtype']}")
    ctx.event("nadir" if (zen == 0).any() else "no nadir")


@prop(lambda: st.fixed_dictionaries({"case": cases(), "seed": st.integers(0, 10 ** 6)}), quick=200, rule="pixel independence")
def pixels(case, ctx):
    from pyspectral.atm_correction_ir import AtmosphericalCorrection, viewzen_corr
    seed, case = case["seed"], case["case"]
    t, zen = gen.build(case["t"]), gen.build(case["zen"])
    this = AtmosphericalCorrection("Suomi-NPP", "viirs")
    full = np.asarray(this.get_correction(zen, "M15", t))
    perm = np.random.RandomState(seed).permutation(t.size)
    mixed = np.asarray(this.get_correction(zen.reshape(-1)[perm].reshape(t.shape), "M15", t.reshape(-1)[perm].reshape(t.shape)))
    compare(mixed.reshape(-1).astype("f8"), full.reshape(-1)[perm].astype("f8"), case, "a pixel depends on its neighbours")
    own = np.asarray(viewzen_corr(t.copy(), zen))
    compare(own.astype("f8"), full.astype("f8"), case, "the function differs from the correction object")
    if t.size < 2:
        ctx.trivial("one pixel")


@prop(lambda: st.fixed_dictionaries({"atm": st.sampled_from(["us-standard", "tropical", "x"])}), quick=6,
      rule="atmospheres are not supported")
def atmosphere(case, ctx):
    from pyspectral.atm_correction_ir import AtmosphericalCorrection
    try:
        AtmosphericalCorrection("Suomi-NPP", "viirs", atmosphere=case["atm"])
        refused = False
    except AttributeError:
        refused = True
    require(refused, "an unsupported atmosphere was accepted")
