"""C16: Rayleigh reflectance is the interpolated table value."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): generated look-up tables and angles against an independent float64 multilinear "
             "interpolation; metamorphic relations between pixels")
RULE = "Cases are tables, angle arrays, wavelengths, red bands; non-trivial when the wavelength is inside the table."
ASSUMPTIONS = ["Azimuth differences 0-180 degrees; table axes are evenly spaced except for the wavelengths; secant axes start at 1.",
               "Wavelengths exactly at the ends of the table are not judged; red band reflectances are not missing.",
               "All arrays of a call have the same float type and shape."]


def write_version(world, aerosol, version=None):
    from pyspectral.utils import ATM_CORRECTION_LUT_VERSION
    folder = os.path.join(world.rayleigh_dir, aerosol)
    os.makedirs(folder, exist_ok=True)
    info = ATM_CORRECTION_LUT_VERSION[aerosol]
    with open(os.path.join(folder, info["filename"]), "w") as fp:
        fp.write((version or info["version"]) + "\n")
    return folder


def write_lut(world, table, aerosol="marine_clean_aerosol", atmosphere="us-standard"):
    import h5py
    folder = write_version(world, aerosol)
    path = os.path.join(folder, f"rayleigh_lut_{atmosphere.replace(' ', '_')}.h5")
    with h5py.File(path, "w") as h5f:
        for key in ("reflectance", "wavelengths", "azimuth_difference", "satellite_zenith_secant", "sun_zenith_secant"):
            h5f[key] = table[key]
    return path


@st.composite
def luts(draw):
    kind = draw(st.sampled_from(["smooth", "lattice", "lattice", "ramp", "big"]))
    nodes = draw(st.sampled_from([[400.0, 800.0], [400.0, 500.0, 600.0, 700.0, 800.0], [400.0, 420.0, 500.0, 650.0, 800.0],
                                  [350.0, 470.5, 555.25, 640.0, 900.0, 1000.0], [400.0 + 20 * i for i in range(21)]]))
    return {"kind": kind, "wvl": nodes, "nsun": draw(st.integers(2, 8)), "nazi": draw(st.integers(2, 7)), "nsat": draw(st.integers(2, 6)),
            "sunmax": draw(st.sampled_from([24.75, 25.0, 8.0, 3.0, 2.0])), "satmax": draw(st.sampled_from([3.0, 2.0, 3.125, 5.0])),
            "seed": draw(st.integers(0, 10 ** 6)), "dtype": draw(gen.DTYPES)}


def build_lut(case):
    wvl = np.array(case["wvl"])
    sun, azi = np.linspace(1.0, case["sunmax"], case["nsun"]), np.linspace(0.0, 180.0, case["nazi"])
    sat = np.linspace(1.0, case["satmax"], case["nsat"])
    w, s, a, z = np.meshgrid(wvl, sun, azi, sat, indexing="ij")
    if case["kind"] == "smooth":
        refl = 0.2 * (400.0 / w) ** 2 * (1 + 0.02 * s) * (1 + 0.3 * np.cos(np.deg2rad(a))) * (0.5 + 0.2 * z)
    elif case["kind"] == "ramp":
        refl = 0.05 * (w - wvl[0]) / (wvl[-1] - wvl[0]) + 0.2 * (s - 1) / (case["sunmax"] - 1) + 0.3 * a / 180 + \
            0.4 * (z - 1) / (case["satmax"] - 1) + 0.02
    else:
        rng = np.random.RandomState(case["seed"])
        refl = rng.uniform(-0.05, 0.6, w.shape) if case["kind"] == "lattice" else rng.uniform(-0.5, 1.8, w.shape)
    return {"reflectance": refl.astype(case["dtype"]), "wavelengths": wvl, "azimuth_difference": azi,
            "satellite_zenith_secant": sat, "sun_zenith_secant": sun}


def interp_axis(coord, x):
    """index and fraction on an axis."""
    i = np.clip(np.searchsorted(coord, x, side="right") - 1, 0, len(coord) - 2)
    return i, (x - coord[i]) / (coord[i + 1] - coord[i])


def reference(table, sunz, satz, azi, wvl_nm, red=None):
    """Percent, float64."""
    sunz, satz, azi = (np.asarray(a, "f8") for a in (sunz, satz, azi))
    coord = table["wavelengths"]
    if wvl_nm <= coord[0] or wvl_nm >= coord[-1]:
        out = np.zeros(sunz.shape)
    else:
        i, f = interp_axis(coord, np.float64(wvl_nm))
        refl = table["reflectance"].astype("f8")
        cube = refl[i] * (1 - f) + refl[i + 1] * f
        axes = []
        for ang, key in ((sunz, "sun_zenith_secant"), (None, None), (satz, "satellite_zenith_secant")):
            if ang is None:
                axes.append(interp_axis(table["azimuth_difference"], 180.0 - azi))
                continue
            sec = table[key]
            ang = np.where(np.isnan(ang), 0.0, ang)
            ang = np.clip(ang, 0.0, np.rad2deg(np.arccos(1.0 / sec[-1])))
            axes.append(interp_axis(sec, 1.0 / np.cos(np.deg2rad(ang))))
        out = np.zeros(sunz.shape)
        for bits in range(8):
            weight = np.ones(sunz.shape)
            idx = []
            for k, (i0, frac) in enumerate(axes):
                up = bits >> k & 1
                weight = weight * (frac if up else 1 - frac)
                idx.append(i0 + up)
            out = out + weight * cube[idx[0], idx[1], idx[2]]
        out = out * 100.0
    if red is not None:
        red = np.asarray(red, "f8")
        out = np.where(red < 20, out, out * (1 - (red - 20) / 80.0))
    return np.clip(out, 0.0, 100.0)


@st.composite
def cases(draw, luts=luts, ndims=(1, 2, 3)):
    lut = draw(luts())
    shape = draw(gen.shapes(ndims))
    dtype = draw(gen.DTYPES)
    smax = float(np.rad2deg(np.arccos(1 / lut["sunmax"])))
    zmax = float(np.rad2deg(np.arccos(1 / lut["satmax"])))

    def arr(elements):
        vals = draw(st.lists(elements, min_size=1, max_size=min(int(np.prod(shape)), 12)))
        return {"dtype": dtype, "shape": shape, "vals": vals}
    return {"lut": lut, "dtype": dtype,
            "sunz": arr(st.one_of(gen.floats(0.0, 90.0, [0.0, smax, 87.7]), gen.floats(0.0, 85.0), gen.floats(-5.0, 180.0), st.none())),
            "satz": arr(st.one_of(gen.floats(0.0, 75.0, [0.0, zmax]), gen.floats(0.0, 65.0), gen.floats(-5.0, 120.0), st.none())),
            "azi": arr(st.one_of(gen.floats(0.0, 180.0, [0.0, 90.0, 180.0, 30.0]), gen.floats(178.0, 180.0), gen.floats(0.0, 2.0))),
            "red": draw(st.one_of(st.none(), st.just(arr(st.one_of(gen.floats(0.0, 120.0), gen.floats(-5.0, 40.0),
                                                                   st.sampled_from([20.0, 100.0, 19.99, 60.0])))))),
            "wvl": draw(st.one_of(st.sampled_from(lut["wvl"][1:-1] or [lut["wvl"][0] + 50]).map(lambda v: v / 1000), gen.floats(lut["wvl"][0] / 1000, lut["wvl"][-1] / 1000),
                                  gen.floats(lut["wvl"][0] / 1000 + 0.001, lut["wvl"][-1] / 1000 - 0.001),
                                  st.one_of(gen.floats(0.2, 2.5), gen.floats(lut["wvl"][0] / 1000, lut["wvl"][-1] / 1000)))),
            "lazy": draw(st.one_of(st.none(), gen.chunkings(shape)))}


def judged(case):
    ends = case["lut"]["wvl"][0], case["lut"]["wvl"][-1]
    return all(abs(case["wvl"] * 1000 - e) > 1e-6 for e in ends)


def tolerance(case):
    return 4e-2 if case["dtype"] == "f4" else 2e-4


def evaluate(ctx, case):
    from pyspectral.rayleigh import Rayleigh
    world = gen.World(ctx)
    table = build_lut(case["lut"])
    write_lut(world, table)
    this = Rayleigh("Suomi-NPP", "viirs")
    return world, table, this


def call(this, case, arrs, red, chunks=None):
    if chunks is not None:
        arrs = [gen.as_dask(a, chunks) for a in arrs]
        red = None if red is None else gen.as_dask(red, chunks)
    kwargs = {} if red is None else {"redband": red}
    return this.get_reflectance(*arrs, case["wvl"], **kwargs)


def large(tier):
    """A whole image at once."""
    lut = {"kind": "smooth", "wvl": [400.0, 500.0, 600.0, 700.0, 800.0], "nsun": 8, "nazi": 7, "nsat": 6, "sunmax": 24.75, "satmax": 3.0, "seed": 1, "dtype": "f8"}
    for dtype in ("f8", "f4"):
        for lazy in (None, [[130, 130], [200, 70]]):
            arr = {"dtype": dtype, "shape": [260, 270]}
            yield {"lut": lut, "dtype": dtype, "sunz": dict(arr, vals=[0.0, 12.5, 40.0, 61.0, 80.0, 88.0, 20.0]), "satz": dict(arr, vals=[0.0, 22.5, 50.0, 61.0, 70.0]),
                   "azi": dict(arr, vals=[0.0, 0.4, 33.0, 90.0, 170.0, 179.6]), "red": dict(arr, vals=[5.0, 30.0, 60.0]), "wvl": 0.532, "lazy": lazy}


@prop(cases, quick=700, examples=large, rule="against the independent interpolation")
def interpolation(case, ctx):
    _, table, this = evaluate(ctx, case)
    arrs = [gen.build(case[k]) for k in ("sunz", "satz", "azi")]
    red = None if case["red"] is None else gen.build(case["red"])
    keep = gen.snapshot(*arrs) + ([] if red is None else gen.snapshot(red))
    got = call(this, case, arrs, red, case["lazy"])
    got = gen.to_np(got)
    want = reference(table, *arrs, case["wvl"] * 1000.0, red)
    require(got.shape == want.shape, "shape", got=got.shape, expected=want.shape)
    require(got.dtype == np.dtype(case["dtype"]), "float precision", got=got.dtype, expected=case["dtype"])
    bad = ~(np.abs(got - want) <= tolerance(case))
    if not judged(case):
        # at the very end of the table: the value there, or zero as outside
        end = 0 if abs(case["wvl"] * 1000 - table["wavelengths"][0]) < 1e-6 else -1
        inner = table["wavelengths"][end] + (1e-4, -1e-4)[end]
        near = reference(table, *arrs, inner, red)
        bad &= ~(np.abs(got - near) <= 2 * tolerance(case) + 1e-3)
        require(bool((got == 0).all()) or not bad.any(), "at the end of the table: neither its value nor zero", got=got, expected=near)
        ctx.event("at the table's end")
        return
    if bad.any():
        k = np.argwhere(bad)[0]
        k = tuple(int(v) for v in k)
        require(False, "reflectance is not the interpolated table value", got=float(got[k]), expected=float(want[k]),
                sunz=float(arrs[0][k]), satz=float(arrs[1][k]), azi=float(arrs[2][k]), wvl=case["wvl"],
                red=None if red is None else float(red[k]))
    require(((got >= 0) & (got <= 100)).all(), "outside 0-100")
    inside = case["lut"]["wvl"][0] < case["wvl"] * 1000 < case["lut"]["wvl"][-1]
    if not inside:
        require((got == 0).all(), "not zero outside the table")
        ctx.trivial("outside the table")
    require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, arrs + ([] if red is None else [red]))), "input modified")
    ctx.event(f"{case['dtype']} red {red is not None} lazy {case['lazy'] is not None} {'inside' if inside else 'outside'}")
    if np.isnan(arrs[0]).any() or np.isnan(arrs[1]).any():
        ctx.event("missing angles")


@prop(lambda: st.fixed_dictionaries({"case": cases(ndims=(1, 2)), "perm": st.integers(0, 10 ** 6)}), quick=250,
      rule="pixel independence: permuted pixels, single pixels, and a red band changing elsewhere")
def pixels(case, ctx):
    perm_seed, case = case["perm"], case["case"]
    if not judged(case):
        ctx.trivial("at the table's end")
        return
    _, _, this = evaluate(ctx, case)
    arrs = [gen.build(case[k]) for k in ("sunz", "satz", "azi")]
    red = None if case["red"] is None else gen.build(case["red"])
    full = gen.to_np(call(this, case, arrs, red))
    shape, size = arrs[0].shape, arrs[0].size
    perm = np.random.RandomState(perm_seed).permutation(size)
    mixed = [a.reshape(-1)[perm].reshape(shape) for a in arrs]
    rmixed = None if red is None else red.reshape(-1)[perm].reshape(shape)
    got = gen.to_np(call(this, case, mixed, rmixed))
    tol = 1e-4 if case["dtype"] == "f4" else 1e-10
    require(np.allclose(got.reshape(-1), full.reshape(-1)[perm], rtol=0, atol=tol), "a pixel depends on its neighbours")
    k = perm_seed % size
    one = gen.to_np(call(this, case, [a.reshape(-1)[k:k + 1] for a in arrs], None if red is None else red.reshape(-1)[k:k + 1]))
    require(np.allclose(one, full.reshape(-1)[k], rtol=0, atol=tol), "a single pixel differs", got=one, expected=full.reshape(-1)[k])
    again = gen.to_np(call(this, case, arrs, red))
    require(np.array_equal(again, full), "second call differs")
    # without the red band nothing is smaller
    if red is not None:
        plain = gen.to_np(call(this, case, arrs, None))
        # a table value below zero (no physical one) changes its sign above 100 %
        usual = (plain > tol) | ~(red > 100)
        require((plain >= full - tol)[usual].all(), "the red band increases the reflectance")
        low = red < 20
        require(np.allclose(plain[low], full[low], rtol=0, atol=tol), "reduced below 20 %")
        require((full[(red >= 100) & usual] <= tol).all(), "left over at 100 %")
    if size < 2:
        ctx.trivial("one pixel")
    ctx.event("red" if red is not None else "plain")
