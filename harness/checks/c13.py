"""C13: band statistics."""
import contextlib
import io
import os
import re
import runpy
import sys

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import REPO, prop, require

TECHNIQUE = "property-based testing (Hypothesis): generated spectral responses against the definitions, written out independently"
RULE = "Cases are responses on arbitrary ascending grids; non-trivial when the response is not constant."
ASSUMPTIONS = ["Wavelengths ascend (except for sorting), responses are not negative.",
               "Energy bounds: limits for which both bounds exist; ties up to rounding are not judged."]


@st.composite
def free_curves(draw, min_size=3, max_size=30):
    """Curves with values on a coarse lattice, so that ties with thresholds happen."""
    n = draw(st.integers(min_size, max_size))
    vals = draw(st.lists(st.sampled_from([0.0, 0.05, 0.1, 0.125, 0.15, 0.2, 0.25, 0.3, 0.5, 0.5, 0.51, 0.75, 0.9, 1.0]),
                         min_size=n, max_size=n))
    steps = draw(st.lists(st.sampled_from([0.5, 1.0, 1.0, 1.0, 2.0, 0.25]), min_size=n, max_size=n))
    return {"vals": vals, "steps": steps, "start": draw(st.sampled_from([0.4, 0.625, 3.5, 10.0])), "unit": draw(
        st.sampled_from([0.0078125, 0.0625])), "factor": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 0.25, 64.0])),
        "dtype": draw(st.sampled_from(["f8", "f4"]))}


def build(case):
    if "vals" in case and "steps" in case:
        wvl = case["start"] + case["unit"] * np.cumsum(case["steps"])
        resp = np.array(case["vals"]) * case["factor"]
    else:
        wvl, resp = gen.build_curve(case)
    return wvl.astype(case["dtype"]), resp.astype(case["dtype"])


CURVES = st.one_of(free_curves(), gen.curves(gen.floats(0.4, 13.0), npts=(4, 80)))


def tol(case):
    return 2e-5 if case["dtype"] == "f4" else 1e-10


@prop(lambda: st.fixed_dictionaries({"curve": CURVES, "weight": st.sampled_from(["none", "scalar", "inv4", "array"]),
                                     "flip": st.booleans(), "wn": st.booleans()}),
      quick=1500, rule="central wavelength or wavenumber with and without weights")
def central_wave(case, ctx):
    from pyspectral.utils import get_central_wave
    wvl, resp = build(case["curve"])
    if not (resp > 0).any() or gen.trapz_ref(resp, wvl) <= 0:
        ctx.trivial("no response")
        return
    if case["wn"]:
        wvl, resp = (1e4 / wvl)[::-1], resp[::-1]
    if case["flip"]:
        wvl, resp = wvl[::-1], resp[::-1]
    kw, weight = {}, 1.0
    if case["weight"] == "scalar":
        weight = 3.0
    elif case["weight"] == "inv4":
        weight = 1.0 / wvl ** 4
    elif case["weight"] == "array":
        weight = (1.0 + 0.5 * np.sin(np.arange(len(wvl)))).astype(wvl.dtype)
    if case["weight"] != "none":
        kw["weight"] = weight
    keep = gen.snapshot(wvl, resp, weight)
    got = get_central_wave(wvl, resp, **kw)
    w64 = np.asarray(weight, "f8")
    want = gen.trapz_ref(resp.astype("f8") * wvl * w64, wvl) / gen.trapz_ref(resp * w64, wvl)
    require(np.ndim(got) == 0 and abs(got - want) <= tol(case["curve"]) * want, "central wave is not the weighted mean", got=got,
            expected=want)
    require(wvl.min() * (1 - 1e-6) <= got <= wvl.max() * (1 + 1e-6), "central wave outside the band", got=got)
    require(abs(get_central_wave(wvl, resp * 4, **kw) - got) <= tol(case["curve"]) * abs(got), "depends on the response's scale")
    require(all(np.array_equal(a, b) for a, b in zip(keep, (wvl, resp, weight))), "input modified")
    ctx.event(f"weight {case['weight']} {'descending' if case['flip'] else 'ascending'}")


@prop(lambda: st.fixed_dictionaries({"curve": CURVES, "thresh": st.sampled_from([None, 0.15, 0.1, 0.5, 0.25, 0.0, 0.75, 0.3]),
                                     "pos": st.booleans()}),
      quick=1500, rule="wave range and full width at half maximum, ties included")
def range_and_width(case, ctx):
    from pyspectral.utils import get_fullwidth_halfmax, get_wave_range
    wvl, resp = build(case["curve"])
    if gen.trapz_ref(resp, wvl) <= 0:
        ctx.trivial("no response")
        return
    keep = gen.snapshot(wvl, resp)
    thr = 0.15 if case["thresh"] is None else case["thresh"]
    above = [i for i in range(len(resp)) if resp[i] > thr]
    if above:
        chan = {"wavelength": wvl, "response": resp, "central_wavelength": 77.0}
        args = () if case["thresh"] is None else (thr,) if case["pos"] else ()
        kwargs = {"threshold": thr} if case["thresh"] is not None and not case["pos"] else {}
        got = get_wave_range(chan, *args, **kwargs)
        require(len(got) == 3, "three values expected", got=got)
        require(got[0] == wvl[above[0]] and got[2] == wvl[above[-1]], "range where the response exceeds the threshold",
                got=[float(g) for g in got], expected=[wvl[above[0]], wvl[above[-1]]])
        want = gen.central(wvl.astype("f8"), resp.astype("f8"))
        require(abs(got[1] - want) <= tol(case["curve"]) * want, "central wavelength", got=got[1], expected=want)
        require(set(chan) == {"wavelength", "response", "central_wavelength"} and chan["central_wavelength"] == 77.0, "dict modified")
        ctx.event("threshold tie" if (resp == thr).any() else "threshold")
    half = resp.max() / 2
    ind = [i for i in range(len(resp)) if resp[i] >= half]
    for factor in (1.0, 8.0, 0.125):
        try:
            fwhm = get_fullwidth_halfmax(resp * resp.dtype.type(factor), wvl)
        except ValueError:
            fwhm = None
        if len(ind) < 2:
            require(fwhm is None, "a width from a single point", got=fwhm)
        else:
            want = wvl[ind[-1]] - wvl[ind[0]]
            require(fwhm is not None and abs(fwhm - want) <= 1e-6 * abs(want), "width at half maximum", got=fwhm, expected=want,
                    factor=factor)
    ctx.event("half maximum tie" if (resp == half).any() else "half maximum")
    require(all(np.array_equal(a, b) for a, b in zip(keep, (wvl, resp))), "input modified")


@prop(lambda: st.fixed_dictionaries({"curve": CURVES, "lims": st.lists(st.one_of(st.sampled_from([0.5, 1, 2, 5, 10, 25]),
                                                                                 gen.floats(0.01, 40.0)), min_size=1, max_size=5),
                                     "default": st.booleans()}),
      quick=1000, rule="energy bounds for several limits")
def energy_bounds(case, ctx):
    from pyspectral.utils import get_bounds_integrated_energy
    wvl, resp = build(case["curve"])
    keep = gen.snapshot(wvl, resp)
    if resp.sum() <= 0:
        ctx.trivial("no response")
        return
    cum = np.cumsum(resp.astype("f8"))
    cum = cum / cum[-1] * 100.0
    seen = []
    lims = sorted(set(case["lims"])) + ([1] if case["default"] else [])
    for k, lim in enumerate(lims):
        if np.abs(cum - lim).min() < 1e-3 or np.abs(cum - (100 - lim)).min() < 1e-3:
            ctx.event("tie")
            continue
        if not (cum <= 100 - lim).any():
            ctx.event("no upper bound")
            continue
        if case["default"] and k == len(lims) - 1:
            lo, hi = get_bounds_integrated_energy(resp, wvl)
        else:
            lo, hi = get_bounds_integrated_energy(resp, wvl, ener_perc_lim=lim)
        want = wvl[cum >= lim][0], wvl[cum <= 100 - lim][-1]
        require(lo == want[0] and hi == want[1], "energy bounds", limit=lim, got=(lo, hi), expected=want)
        seen.append((lim, lo, hi))
    seen.sort()
    for (_, lo1, hi1), (_, lo2, hi2) in zip(seen[:-1], seen[1:]):
        require(lo1 <= lo2 and hi1 >= hi2, "bounds do not widen with a decreasing limit", got=seen)
    for _, lo, hi in seen:
        inside = resp[(wvl >= lo) & (wvl <= hi)].astype("f8").sum() if lo <= hi else None
        if inside is not None:
            lim = [s[0] for s in seen if s[1] == lo and s[2] == hi][-1]
            biggest = resp.max() / resp.astype("f8").sum() * 100
            require(inside / resp.astype("f8").sum() * 100 >= 100 - 2 * lim - biggest - 1e-3, "bounds enclose too little")
    require(all(np.array_equal(a, b) for a, b in zip(keep, (wvl, resp))), "input modified")
    if not seen:
        ctx.trivial("no judged limit")
    ctx.event(f"limits {len(seen)}")


@prop(lambda: st.fixed_dictionaries({"x": st.lists(st.one_of(st.integers(0, 12).map(lambda v: v / 4), gen.floats(0.0, 100.0)), min_size=1,
                                                   max_size=40),
                                     "dtype": gen.DTYPES, "seed": st.integers(0, 99), "sorted": st.sampled_from(["no", "no", "yes", "rev", "late", "early"])}),
      quick=1500, rule="sorting and removal of duplicates")
def sorting(case, ctx):
    from pyspectral.utils import sort_data
    x = np.array(case["x"], dtype=case["dtype"])
    if case["sorted"] == "yes":
        x = np.sort(x)
    elif case["sorted"] == "rev":
        x = np.sort(x)[::-1].copy()
    elif case["sorted"] == "late":  # in order but for the last values
        x = np.concatenate([np.sort(x)[1:], np.sort(x)[:1]])
    elif case["sorted"] == "early":
        x = np.concatenate([np.sort(x)[-1:], np.sort(x)[:-1]])
    y = (np.arange(len(x)) * 7 % 31 + case["seed"] / 100).astype(case["dtype"])
    keep = gen.snapshot(x, y)
    gx, gy = sort_data(x, y)
    require(len(gx) == len(gy) and (np.diff(gx) > 0).all(), "not strictly increasing", got=list(gx))
    require(np.array_equal(gx, np.unique(x)), "wavelengths lost or invented", got=list(gx), expected=list(np.unique(x)))
    pairs = {}
    for a, b in zip(x.tolist(), y.tolist()):
        pairs.setdefault(a, set()).add(b)
    for a, b in zip(gx.tolist(), gy.tolist()):
        require(b in pairs[a], "response of another wavelength", x=a, got=b, expected=sorted(pairs[a]))
    again = sort_data(gx, gy)
    require(np.array_equal(again[0], gx) and np.array_equal(again[1], gy), "sorting twice changes the result")
    require(gx.dtype == x.dtype and gy.dtype == y.dtype, "dtype changed")
    require(np.array_equal(keep[0], x) and np.array_equal(keep[1], y), "input modified")
    if len(x) < 2:
        ctx.trivial("one sample")
    ctx.event("duplicates" if len(gx) < len(x) else "no duplicates")


@prop(lambda: st.fixed_dictionaries({"bands": st.dictionaries(st.sampled_from(["M01", "M12", "I4", "vis"]), st.lists(
    gen.curves(gen.floats(0.4, 13.0), npts=(5, 40), peaks=(1.0, 0.9)), min_size=2, max_size=3), min_size=1, max_size=3),
    "band": st.one_of(st.none(), st.integers(0, 2)), "det": st.sampled_from([None, "det-1", "det-2"]),
    "thr": st.sampled_from([None, 0.15, 0.5, 0.01]), "long": st.booleans()}),
    quick=80, rule="the script printing wavelength ranges")
def script(case, ctx):
    world = gen.World(ctx)
    bands = gen.bands_from(case["bands"])
    world.add_rsr("Suomi-NPP", "viirs", bands)
    argv = ["find", "Suomi-NPP", "viirs"]
    names = list(bands)
    if case["band"] is not None:
        names = [names[case["band"] % len(names)]]
        argv += ["--bandname" if case["long"] else "-b", names[0]]
    if case["det"]:
        argv += ["--detector" if case["long"] else "-d", case["det"]]
    if case["thr"] is not None:
        argv += ["--minimum_response" if case["long"] else "-r", str(case["thr"])]
    out = io.StringIO()
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(REPO, "bin", "find_wavelengths_for_satpy.py"), run_name="__main__")
    finally:
        sys.argv = old
    found = re.findall(r"name:\s*(\S+)\s+wavelength:\s*\[\s*([\d.]+),\s*([\d.]+),\s*([\d.]+)\]", out.getvalue())
    require([f[0] for f in found] == names, "bands printed", got=out.getvalue(), expected=names)
    idx = int((case["det"] or "det-1")[4:]) - 1
    for name, *vals in found:
        wvl, resp, _ = bands[name][idx]
        sel = wvl[resp > (0.15 if case["thr"] is None else case["thr"])]
        want = [sel[0], gen.central(wvl, resp), sel[-1]]
        require(np.allclose([float(v) for v in vals], want, rtol=0, atol=5.1e-4), "values printed", band=name, got=vals, expected=want)
    ctx.event(f"det {case['det']} thr {case['thr']}")
