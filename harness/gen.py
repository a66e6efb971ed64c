"""Generators of plain-data cases, builders turning them into inputs, and independent reference formulas."""
from __future__ import annotations

import contextlib
import os

import numpy as np
from hypothesis import strategies as st

H = 6.62606957e-34
K = 1.3806488e-23
C = 2.99792458e8
C1 = H * C / K          # "PLANCK_C1"
C2 = 2 * H * C ** 2     # "PLANCK_C2"

# ------------------------------------------------------------------------------------------------
# references


def planck_ref(wvl, temp):
    """Planck in wavelength space, float64, broadcast."""
    wvl = np.asarray(wvl, dtype="f8")
    temp = np.asarray(temp, dtype="f8")
    with np.errstate(all="ignore"):
        return C2 / wvl ** 5 / np.expm1(C1 / (wvl * temp))


def planck_wn_ref(wn, temp):
    """Planck in wavenumber space, float64, broadcast."""
    wn = np.asarray(wn, dtype="f8")
    temp = np.asarray(temp, dtype="f8")
    with np.errstate(all="ignore"):
        return C2 * wn ** 3 / np.expm1(C1 * wn / temp)


def trapz_ref(y, x):
    """Trapezoidal rule along the last axis, float64."""
    y = np.asarray(y, dtype="f8")
    x = np.asarray(x, dtype="f8")
    return np.sum((y[..., 1:] + y[..., :-1]) * 0.5 * np.diff(x), axis=-1)


def inv_planck_ref(wvl, rad):
    with np.errstate(all="ignore"):
        return C1 / (wvl * np.log1p(C2 / (np.asarray(rad, "f8") * wvl ** 5)))


def inv_planck_wn_ref(wn, rad):
    with np.errstate(all="ignore"):
        return C1 * wn / np.log1p(C2 * wn ** 3 / np.asarray(rad, "f8"))


# ------------------------------------------------------------------------------------------------
# numbers and arrays

def floats(lo, hi, edges=()):
    """Floats in [lo, hi] with some weight on the edges and rounded values."""
    base = [st.floats(lo, hi, allow_nan=False, allow_infinity=False),
            st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
                lambda v: min(max(round(v, 1), lo), hi))]
    edges = [e for e in edges]
    if edges:
        base.append(st.sampled_from(edges))
    return st.one_of(*base)


DTYPES = st.sampled_from(["f8", "f4"])


@st.composite
def shapes(draw, ndims=(1, 2), big=True):
    """Shapes, mostly small, now and then large."""
    ndim = draw(st.sampled_from(list(ndims)))
    if big and draw(st.integers(0, 19)) == 0:
        if ndim == 1:
            return [draw(st.sampled_from([997, 1024, 2048, 4097, 10000, 70001]))]
        if ndim == 2:
            return draw(st.sampled_from([[1, 2000], [2000, 1], [64, 65], [101, 33]]))
    return [draw(st.integers(1, 7)) for _ in range(ndim)]


@st.composite
def arrays(draw, elements, ndims=(1, 2), dtypes=DTYPES, big=True, max_vals=12, shape=None):
    """A plain-data array: values are repeated cyclically to fill the shape."""
    shp = list(shape) if shape is not None else draw(shapes(ndims, big))
    size = int(np.prod(shp)) if shp else 1
    vals = draw(st.lists(elements, min_size=1, max_size=max(1, min(size, max_vals))))
    return {"dtype": draw(dtypes), "shape": shp, "vals": vals}


def build(arr, dtype=None):
    """Build the numpy array of a plain-data array, in one of several memory layouts (following from its size)."""
    vals = np.array([np.nan if v is None else v for v in arr["vals"]], dtype="f8")
    out = np.ascontiguousarray(np.resize(vals, tuple(arr["shape"])).astype(dtype or arr["dtype"]))
    how = (len(arr["vals"]) + sum(arr["shape"])) % 5
    if how == 3:
        return np.asfortranarray(out)
    if how == 4 and out.ndim:
        wide = np.full(out.shape[:-1] + (2 * out.shape[-1] + 1,), -777.0).astype(out.dtype)
        wide[..., 1::2] = out
        return wide[..., 1::2]
    return out


def like(draw, arr, elements, dtype=None):
    """Draw another array of the same shape."""
    size = int(np.prod(arr["shape"]))
    vals = draw(st.lists(elements, min_size=1, max_size=max(1, min(size, 12))))
    return {"dtype": dtype or arr["dtype"], "shape": arr["shape"], "vals": vals}


@st.composite
def chunkings(draw, shape):
    """Chunk sizes per dimension (explicit tuples summing up to the dimension)."""
    out = []
    for n in shape:
        mode = draw(st.integers(0, 3))
        if mode == 0 or n == 1:
            out.append([n])
        elif mode == 1:
            k = draw(st.integers(1, n))
            if n // k > 50:
                k = n // 50 + 1
            full, rest = divmod(n, k)
            out.append([k] * full + ([rest] if rest else []))
        else:
            ncuts = draw(st.integers(1, min(5, n - 1)))
            cuts = sorted(set(draw(st.lists(st.integers(1, n - 1), min_size=ncuts, max_size=ncuts))))
            edges = [0] + cuts + [n]
            out.append([b - a for a, b in zip(edges[:-1], edges[1:])])
    return out


def as_dask(arr, chunks):
    """Wrap a numpy array."""
    import dask.array as da
    return da.from_array(arr, chunks=tuple(tuple(c) for c in chunks))


def to_np(x):
    """Compute whatever container into a numpy array."""
    if hasattr(x, "compute"):
        x = x.compute()
    return np.asarray(x)


# ------------------------------------------------------------------------------------------------
# spectral responses

@st.composite
def curves(draw, center, rel_width=(0.005, 0.12), npts=(6, 60), peaks=(1.0, 1.0, 0.5, 0.2, 2.0, 100.0),
           dtypes=("f4", "f8"), grids=("uniform", "wn", "jitter", "geom")):
    """A spectral response curve (wavelengths in micron)."""
    cen = draw(center) if hasattr(center, "example") else center
    kind = draw(st.sampled_from(["gauss", "box", "tri", "double", "ramp", "rand"]))
    case = {"kind": kind, "center": cen,
            "width": draw(st.floats(*rel_width).map(lambda v: round(v, 5))),
            "n": draw(st.integers(*npts)),
            "peak": draw(st.sampled_from(list(peaks))),
            "grid": draw(st.sampled_from(list(grids))),
            "dtype": draw(st.sampled_from(list(dtypes)))}
    if kind == "rand":
        case["vals"] = draw(st.lists(st.floats(0.0, 1.0).map(lambda v: round(v, 4)), min_size=3, max_size=8))
    return case


def build_curve(case):
    """Return (wavelength in micron, response), float64 values representable in the case's dtype."""
    cen, n = case["center"], case["n"]
    half = cen * case["width"]
    lo, hi = cen - half, cen + half
    t = np.linspace(0.0, 1.0, n)
    if case["grid"] == "wn":
        wvl = 1.0 / np.linspace(1.0 / lo, 1.0 / hi, n)
    elif case["grid"] == "geom":
        wvl = np.geomspace(lo, hi, n)
    elif case["grid"] == "jitter":
        wvl = lo + (hi - lo) * (t + 0.25 / (n - 1) * np.sin(7.0 * np.arange(n)))
    else:
        wvl = lo + (hi - lo) * t
    s = (wvl - lo) / (hi - lo)
    kind = case["kind"]
    if kind == "gauss":
        resp = np.exp(-0.5 * ((s - 0.47) / 0.17) ** 2)
    elif kind == "box":
        resp = ((s > 0.1) & (s < 0.85)).astype("f8")
        if resp.sum() < 2:
            resp[:] = 1.0
    elif kind == "tri":
        resp = 1 - np.abs(2 * s - 1) * 0.98
    elif kind == "double":
        resp = np.exp(-0.5 * ((s - 0.3) / 0.1) ** 2) + 0.6 * np.exp(-0.5 * ((s - 0.75) / 0.08) ** 2)
    elif kind == "ramp":
        resp = np.linspace(0.05, 1.0, n)
    else:
        vals = np.array(case["vals"])
        resp = np.interp(s, np.linspace(0, 1, len(vals)), vals)
        if resp.max() < 0.01:
            resp = resp + 0.05
    resp = resp / resp.max() * case["peak"]
    dt = case["dtype"]
    wvl = wvl.astype(dt).astype("f8")
    resp = resp.astype(dt).astype("f8")
    if not np.all(np.diff(wvl) > 0):
        wvl = np.linspace(lo, hi, n)
    return wvl, resp


def central(wvl, resp, weight=1.0):
    return trapz_ref(resp * wvl * weight, wvl) / trapz_ref(resp * weight, wvl)


# ------------------------------------------------------------------------------------------------
# files and configuration

def write_rsr_file(path, bands, platform_name=None, sensor=None, description="Relative Spectral Responses for X",
                   scale=1e-6, dtype="f8", share_wavelength=False, extra_attrs=None, as_bytes=False,
                   number_attr=True, band_names=None, central_at_band=False):
    """Write a file of the documented layout.

    bands: {name: [(wvl, resp, central_wavelength), ...one per detector...]}
    scale: one for all, or a list of scales which the detectors take in turn
    """
    import h5py
    scales = scale if isinstance(scale, list) else [scale]
    scale = scales[0]

    def text(val):
        return np.bytes_(val.encode("utf-8")) if as_bytes else val

    with h5py.File(path, "w") as h5f:
        h5f.attrs["description"] = text(description)
        if platform_name is not None:
            h5f.attrs["platform_name"] = text(platform_name)
        if sensor is not None:
            h5f.attrs["sensor"] = text(sensor)
        names = list(band_names if band_names is not None else bands)
        h5f.attrs["band_names"] = [n.encode() for n in names] if as_bytes else names
        for key, val in (extra_attrs or {}).items():
            h5f.attrs[key] = val
        for name, dets in bands.items():
            grp = h5f.create_group(name)
            single = len(dets) == 1 and not number_attr
            scale = scales[0]
            if not single:
                grp.attrs["number_of_detectors"] = len(dets)
            if share_wavelength or single:
                dset = grp.create_dataset("wavelength", data=(np.asarray(dets[0][0]) * 1e-6 / scale).astype(dtype))
                dset.attrs["unit"] = "m"
                dset.attrs["scale"] = scale
            if single or central_at_band:
                grp.attrs["central_wavelength"] = dets[0][2]
            for i, (wvl, resp, cwl) in enumerate(dets):
                dgrp = grp if single else grp.create_group(f"det-{i + 1}")
                if not single and not central_at_band:
                    dgrp.attrs["central_wavelength"] = cwl
                if not (share_wavelength or single):
                    scale = scales[i % len(scales)]
                    dset = dgrp.create_dataset("wavelength", data=(np.asarray(wvl) * 1e-6 / scale).astype(dtype))
                    dset.attrs["unit"] = "m"
                    dset.attrs["scale"] = scale
                dgrp.create_dataset("response", data=np.asarray(resp).astype(dtype))


def write_config(path, settings):
    """Write a YAML configuration and point pyspectral to it."""
    import yaml
    with open(path, "w") as fp:
        yaml.safe_dump(settings, fp)
    os.environ["PSP_CONFIG_FILE"] = str(path)


class World:
    """A scratch installation: config, RSR dir, Rayleigh dir, LUT cache dir."""

    def __init__(self, ctx, download=False, **settings):
        self.dir = ctx.dir()
        self.rsr_dir = os.path.join(self.dir, "rsr")
        self.rayleigh_dir = os.path.join(self.dir, "rayleigh")
        self.tb2rad_dir = os.path.join(self.dir, "tb2rad")
        for path in (self.rsr_dir, self.rayleigh_dir, self.tb2rad_dir):
            os.makedirs(path)
        self.config_path = os.path.join(self.dir, "conf.yaml")
        self.settings = {"rsr_dir": self.rsr_dir, "rayleigh_dir": self.rayleigh_dir,
                         "tb2rad_dir": self.tb2rad_dir, "download_from_internet": download}
        self.settings.update(settings)
        self.apply()
        self.write_rsr_version()

    def apply(self):
        write_config(self.config_path, self.settings)

    def write_rsr_version(self, version=None):
        from pyspectral.utils import RSR_DATA_VERSION, RSR_DATA_VERSION_FILENAME
        with open(os.path.join(self.rsr_dir, RSR_DATA_VERSION_FILENAME), "w") as fp:
            fp.write((version or RSR_DATA_VERSION) + "\n")

    def add_rsr(self, platform, instrument, bands, **kwargs):
        """instrument: the normalised name used in the file name."""
        path = os.path.join(self.rsr_dir, f"rsr_{instrument}_{platform}.h5")
        kwargs.setdefault("platform_name", platform)
        kwargs.setdefault("sensor", instrument)
        write_rsr_file(path, bands, **kwargs)
        return path


def bands_from(curve_cases):
    """{name: [curve case, ...]} -> {name: [(wvl, resp, cwl), ...]}."""
    out = {}
    for name, dets in curve_cases.items():
        out[name] = []
        for det in dets:
            wvl, resp = build_curve(det)
            out[name].append((wvl, resp, float(central(wvl, resp))))
    return out


def snapshot(*arrs):
    """Copies to compare with later."""
    return [np.array(a, copy=True) for a in arrs]


def same(a, b):
    """Bitwise-equal up to NaN."""
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


@contextlib.contextmanager
def uncomputed(what):
    """Nothing lazy is evaluated in here."""
    import dask
    from harness.core import Violation

    def refuse(*args, **kwargs):
        raise Violation(f"{what}: evaluated before the user asks for it")
    with dask.config.set(scheduler=refuse):
        yield
