"""C09: in-band solar flux."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): generated responses and spectra against an independent integral, metamorphic "
             "relations (scaling, wave space, call history)")
RULE = ("Cases are response curves, resolutions, wave spaces, detectors, scales, spectra; non-trivial when the band holds at least "
        "three integration points.")
ASSUMPTIONS = ["Wavelengths and wavenumbers ascend.", "Bands are at least three integration steps wide and lie inside the spectrum.",
               "interpolate(dlambda=...), which changes the resolution of the object for good, is not part of the histories."]


def spectrum_file():
    import pyspectral.solar
    return str(pyspectral.solar.TOTAL_IRRADIANCE_SPECTRUM_2000ASTM)


_CACHE = {}


def astm():
    """The spectrum delivered with the package, read independently of it."""
    if "astm" not in _CACHE:
        rows = []
        with open(spectrum_file()) as fp:
            for line in fp:
                line = line.split("#")[0].split()
                if len(line) >= 2:
                    rows.append((float(line[0]), float(line[1])))
        _CACHE["astm"] = tuple(np.array(rows).T)
    return _CACHE["astm"]


def spline(x, y):
    from scipy.interpolate import CubicSpline
    return CubicSpline(x, y, bc_type="not-a-knot")


def grid(lo, hi, step):
    n = int(round((hi - lo) / step)) + 1
    return lo + (hi - lo) * np.arange(n) / (n - 1)


def reference(spec, wave, resp, step):
    """flux, irradiance, interpolated spectrum and response."""
    x = grid(wave[0], wave[-1], step)
    irr = spline(*spec)(x)
    r = spline(wave, resp)(x)
    flux = gen.trapz_ref(irr * r, x)
    return flux, flux / gen.trapz_ref(r, x), irr, r


def to_wn_spectrum(spec):
    w, e = spec
    return 1e4 / w[::-1], (e * w ** 2 * 0.1)[::-1]


CENTER = st.one_of(gen.floats(0.3, 4.0), gen.floats(0.3, 1.0), gen.floats(3.4, 4.0), gen.floats(4.0, 14.0))


@st.composite
def bands(draw):
    space = draw(st.sampled_from(["wavelength", "wavelength", "wavenumber"]))
    ndet = draw(st.sampled_from([0, 1, 1, 2, 3, 12]))
    det = draw(st.one_of(st.none(), st.integers(1, max(ndet, 1)))) if ndet else None
    cen = draw(st.one_of(CENTER, CENTER, CENTER, gen.floats(0.24, 0.3), gen.floats(14.0, 40.0)))
    dets = [draw(gen.curves(cen, rel_width=(0.03, 0.2), npts=(8, 60))) for _ in range(min(max(ndet, 1), 3))]
    step = draw(st.sampled_from([None, None, 0.0005, 0.001, 0.01] if space == "wavelength" else [None, None, 0.5, 5.0]))
    return {"space": space, "ndet": ndet, "det": det, "dets": dets, "step": step,
            "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e6, 0.5])), "pos": draw(st.booleans())}


def build(case):
    """The response dictionary handed over, and the (wave, response) in micron or cm-1 of the chosen detector."""
    out = {}
    for i in range(max(case["ndet"], 1)):
        wvl, resp = gen.build_curve(case["dets"][i % len(case["dets"])])
        resp = resp * (1.0 + 0.05 * (i // len(case["dets"])))
        wave = wvl if case["space"] == "wavelength" else (1e4 / wvl)[::-1]
        resp = resp if case["space"] == "wavelength" else resp[::-1]
        out[f"det-{i + 1}"] = {case["space"]: wave / case["scale"], "response": np.array(resp)}
    this = out[f"det-{case['det'] or 1}"]
    rsr = out if case["ndet"] else dict(out["det-1"])
    return rsr, this[case["space"]] * case["scale"], this["response"]


def unchanged(rsr, keep):
    if "response" in rsr:
        rsr, keep = {"d": rsr}, {"d": keep}
    return (rsr.keys() == keep.keys() and
            all(rsr[d].keys() == keep[d].keys() and all(gen.same(rsr[d][k], keep[d][k]) for k in rsr[d]) for d in rsr))


def call(solar, case, rsr, what):
    kwargs = {} if case["det"] is None else {"detector": np.int64(case["det"]) if case["pos"] else case["det"]}
    func = getattr(solar, "inband_solarflux" if what == "flux" else "inband_solarirradiance")
    if case["scale"] == 1.0 and not case["pos"]:
        return func(rsr, **kwargs)
    if case["pos"]:
        return func(rsr, case["scale"], **kwargs)
    return func(rsr, scale=case["scale"], **kwargs)


def create(case, filename=None):
    from pyspectral.solar import SolarIrradianceSpectrum
    kwargs = {}
    if case["space"] == "wavenumber" or case["pos"]:
        kwargs["wavespace"] = case["space"]
    if case["step"] is not None:
        kwargs["dlambda"] = case["step"]
    return SolarIrradianceSpectrum(filename, **kwargs) if filename else SolarIrradianceSpectrum(**kwargs)


def step_of(case):
    return case["step"] or (0.005 if case["space"] == "wavelength" else 2.0)


def close(got, want, rtol, what, **info):
    require(np.ndim(got) == 0 and abs(float(got) - want) <= rtol * abs(want), what, got=got, expected=want, **info)


@prop(bands, quick=800, rule="flux and irradiance against the independent integral; bounds; scaling; input untouched")
def integral(case, ctx):
    rsr, wave, resp = build(case)
    step = step_of(case)
    if (wave[-1] - wave[0]) / step < 3:
        ctx.trivial("band too narrow")
        return
    keep = copy.deepcopy(rsr)
    solar = create(case)
    spec = astm() if case["space"] == "wavelength" else to_wn_spectrum(astm())
    flux, irr, ipol, rpol = reference(spec, wave, resp, step)
    weight = gen.trapz_ref(np.abs(rpol), grid(wave[0], wave[-1], step))
    # the response may oscillate between its points after the interpolation: judge relative to its absolute size
    scale = gen.trapz_ref(np.abs(ipol * rpol), grid(wave[0], wave[-1], step)) / abs(flux)
    got_f, got_i = call(solar, case, rsr, "flux"), call(solar, case, rsr, "irradiance")
    close(got_f, flux, 1e-6 * scale, "in-band flux is not the response-weighted integral")
    close(got_i, irr, 1e-5 * scale, "in-band irradiance is not the flux over the response integral")
    if (rpol >= 0).all():
        require(ipol.min() * (1 - 1e-9) <= got_i <= ipol.max() * (1 + 1e-9), "irradiance outside of the spectrum's extremes",
                got=got_i, lo=ipol.min(), hi=ipol.max())
    close(got_f / got_i, gen.trapz_ref(rpol, grid(wave[0], wave[-1], step)), 1e-5 * scale + 1e-9, "flux / irradiance")
    factor = 7.5
    scaled = copy.deepcopy(rsr)
    for d in ([scaled] if "response" in scaled else scaled.values()):
        d["response"] = d["response"] * factor
    close(call(solar, case, scaled, "flux"), got_f * factor, 1e-9 * scale, "flux not linear in the response")
    close(call(solar, case, scaled, "irradiance"), got_i, 1e-9 * scale, "irradiance depends on the response's size")
    require(unchanged(rsr, keep), "the response was modified")
    units = solar.units
    require("mW" in units["flux"] if case["space"] == "wavenumber" else "mW" not in units["flux"], "units", got=units)
    ctx.event(f"{case['space']} det {case['det'] is not None} scale {case['scale'] != 1.0} step {case['step'] is not None}")
    del weight


# ------------------------------------------------------------------------------------------------
# wave spaces

@prop(lambda: st.fixed_dictionaries({"curve": gen.curves(CENTER, rel_width=(0.05, 0.2), npts=(40, 80)), "user": st.booleans(),
                                     "temp": gen.floats(4000.0, 7000.0), "n": st.integers(400, 1500)}),
      quick=240, rule="the same band in both wave spaces")
def wave_spaces(case, ctx):
    from pyspectral.solar import SolarIrradianceSpectrum
    case["curve"]["kind"] = "gauss"
    wvl, resp = gen.build_curve(case["curve"])
    name = None
    if case["user"]:
        w = np.geomspace(0.2, 40.0, case["n"])
        name = os.path.join(ctx.dir(), "spec.dat")
        np.savetxt(name, np.stack([w, gen.planck_ref(w * 1e-6, case["temp"]) * 6.8e-5 * 1e-6], axis=1), fmt="%.12g")
        args = (name,)
    else:
        args = ()
    wn = (1e4 / wvl)[::-1]
    dl = (wvl[-1] - wvl[0]) / 400
    dn = (wn[-1] - wn[0]) / 400
    one = SolarIrradianceSpectrum(*args, dlambda=dl)
    two = SolarIrradianceSpectrum(*args, dlambda=dn, wavespace="wavenumber")
    flux = one.inband_solarflux({"wavelength": wvl, "response": resp})
    flux_wn = two.inband_solarflux({"wavenumber": wn, "response": resp[::-1]})
    tol = 2e-3 if case["user"] else 2e-2
    close(flux_wn / 1000.0, flux, tol, "in-band flux differs between the wave spaces")
    close(two.solar_constant() / 1000.0, one.solar_constant(), 2e-3, "solar constant differs between the wave spaces")
    spec = astm() if not case["user"] else (one.wavelength, one.irradiance)
    close(one.solar_constant(), gen.trapz_ref(spec[1], spec[0]), 1e-9, "solar constant is not the integral of the spectrum")
    wns = to_wn_spectrum(spec)
    close(two.solar_constant(), gen.trapz_ref(wns[1], wns[0]), 1e-9, "solar constant (wavenumber)")
    require(np.allclose(two.wavenumber, wns[0], rtol=1e-12) and np.allclose(two.irradiance, wns[1], rtol=1e-9),
            "spectrum converted wrongly")
    if not case["user"]:
        require(1360 < one.solar_constant() < 1372, "solar constant", got=one.solar_constant())
    ctx.event("user spectrum" if case["user"] else "standard spectrum")


# ------------------------------------------------------------------------------------------------
# a spectrum of the user

@st.composite
def user_spectra(draw):
    lo = draw(gen.floats(0.2, 3.0))
    hi = lo * draw(gen.floats(1.2, 4.0))
    return {"lo": lo, "hi": hi, "n": draw(st.one_of(st.integers(10, 60), st.integers(10, 60), st.integers(10, 60), st.integers(1000, 4000))), "poly": [draw(gen.floats(1.0, 10.0)), draw(gen.floats(-2.0, 2.0)),
                                                                       draw(gen.floats(0.0, 1.0))],
            "comments": draw(st.booleans()), "path": draw(st.booleans()), "how": draw(st.sampled_from(["pos", "kw"])),
            "a": draw(gen.floats(0.0, 0.4)), "b": draw(gen.floats(0.6, 1.0)), "r": [draw(gen.floats(0.1, 1.0)), draw(gen.floats(0.1, 1.0))],
            "steps": draw(st.integers(5, 300)), "npts": draw(st.integers(5, 20)), "ival": draw(st.booleans())}


@prop(user_spectra, quick=600, rule="a polynomial spectrum and a linear response: the integral is known in closed form")
def user_spectrum(case, ctx):
    from pathlib import Path

    from pyspectral.solar import SolarIrradianceSpectrum
    lo, hi = case["lo"], case["hi"]
    w = np.linspace(lo, hi, case["n"])
    p = np.poly1d([case["poly"][2], case["poly"][1], case["poly"][0] + 10.0])
    name = os.path.join(ctx.dir(), "my.dat")
    with open(name, "w") as fp:
        if case["comments"]:
            fp.write("# wavelength irradiance\n")
        for x in w:
            fp.write(f"{x!r} {p(x)!r}\n".replace("np.float64(", "").replace(")", ""))
            if case["comments"] and x > (lo + hi) / 2:
                fp.write("# half way\n")
    a, b = lo + case["a"] * (hi - lo), lo + case["b"] * (hi - lo)
    wvl = np.linspace(a, b, case["npts"])
    r = np.poly1d(np.polyfit([a, b], case["r"], 1))
    step = (b - a) / case["steps"]
    arg = Path(name) if case["path"] else name
    solar = SolarIrradianceSpectrum(arg, dlambda=step) if case["how"] == "pos" else \
        SolarIrradianceSpectrum(filename=arg, dlambda=step)
    require(np.array_equal(solar.wavelength, w) and np.allclose(solar.irradiance, p(w), rtol=1e-12),
            "spectrum not taken from the file")
    rsr = {"wavelength": wvl, "response": r(wvl)}
    exact = (p * r).integ()
    want = exact(b) - exact(a)
    second = (p * r).deriv(2)
    xs = np.linspace(a, b, 50)
    bound = (b - a) * step ** 2 / 12 * np.abs(second(xs)).max() * 1.1 + 1e-9 * abs(want)
    flux = solar.inband_solarflux(rsr)
    require(abs(flux - want) <= bound, "flux differs from the exact integral", got=flux, expected=want, bound=bound)
    rint = r.integ()
    want_i = want / (rint(b) - rint(a))
    irr = solar.inband_solarirradiance(rsr)
    require(abs(irr - want_i) <= bound / (rint(b) - rint(a)) + 1e-9 * abs(want_i), "irradiance", got=irr, expected=want_i)
    # the resampled spectrum
    if case["ival"]:
        solar.interpolate(ival_wavelength=(a, b))
        ends = a, b
    else:
        solar.interpolate()
        ends = lo, hi
    x, y = solar.ipol_wavelength, solar.ipol_irradiance
    require(np.isclose(x[0], ends[0]) and np.isclose(x[-1], ends[1]), "resampled range", got=(x[0], x[-1]), expected=ends)
    require(np.allclose(np.diff(x), np.diff(x)[0], rtol=1e-6), "resampled grid uneven")
    require(len(x) == int(round((ends[1] - ends[0]) / step)) + 1 or abs(len(x) - 1 - (ends[1] - ends[0]) / step) <= 0.5001,
            "resolution", got=len(x))
    require(np.allclose(y, p(x), rtol=1e-7), "resampled irradiance")
    const = p.integ()
    hh = (hi - lo) / (case["n"] - 1)
    require(abs(solar.solar_constant() - (const(hi) - const(lo))) <= (hi - lo) * hh ** 2 / 12 * abs(2 * case["poly"][2]) * 1.1 + 1e-9,
            "solar constant", got=solar.solar_constant(), expected=const(hi) - const(lo))
    ctx.event("sub interval" if case["ival"] else "whole range")


# ------------------------------------------------------------------------------------------------
# histories

@prop(lambda: st.fixed_dictionaries({"space": st.sampled_from(["wavelength", "wavenumber"]), "pos": st.just(False),
                                     "step": st.sampled_from([None, None, "fine"]),
                                     "ops": st.lists(st.tuples(st.sampled_from(["flux", "irradiance", "constant", "interpolate"]),
                                                               bands()), min_size=2, max_size=8)}),
      quick=240, rule="a sequence of calls on one spectrum object against fresh objects")
def history(case, ctx):
    base = {"space": case["space"], "pos": False,
            "step": {"wavelength": 0.002, "wavenumber": 1.0}[case["space"]] if case["step"] else None}
    solar = create(base)
    before = [None if a is None else a.copy() for a in (solar.wavelength, solar.wavenumber, solar.irradiance)]
    done = 0
    for op, band in case["ops"]:
        band = dict(band, space=case["space"], step=base["step"])
        rsr, wave, _ = build(band)
        if (wave[-1] - wave[0]) / step_of(band) < 3:
            continue
        if op == "constant":
            got, want = solar.solar_constant(), create(base).solar_constant()
        elif op == "interpolate":
            solar.interpolate(ival_wavelength=(wave[0], wave[-1]))
            fresh = create(base)
            fresh.interpolate(ival_wavelength=(wave[0], wave[-1]))
            require(np.array_equal(solar.ipol_wavelength, fresh.ipol_wavelength) and
                    np.array_equal(solar.ipol_irradiance, fresh.ipol_irradiance), "interpolation depends on earlier calls")
            continue
        else:
            got, want = call(solar, band, rsr, op), call(create(base), band, rsr, op)
        require(got == want or abs(got - want) < 1e-10 * abs(want), f"{op} depends on earlier calls", got=got, expected=want)
        done += 1
        if op in ("flux", "irradiance"):
            # another response of the same extent and sum, as another object and in the same arrays
            mirrored = copy.deepcopy(rsr)
            for one in ([mirrored] if "response" in mirrored else mirrored.values()):
                one["response"] = one["response"][::-1].copy()
            got, want = call(solar, band, mirrored, op), call(create(base), band, mirrored, op)
            require(got == want or abs(got - want) < 1e-10 * abs(want), f"{op} of the mirrored response depends on earlier calls", got=got, expected=want)
            for one, other in zip([rsr] if "response" in rsr else rsr.values(), [mirrored] if "response" in rsr else mirrored.values()):
                one["response"][:] = other["response"]
            got = call(solar, band, rsr, op)
            require(got == want or abs(got - want) < 1e-10 * abs(want), f"{op} of changed arrays depends on earlier calls", got=got, expected=want)
    for a, b in zip(before, (solar.wavelength, solar.wavenumber, solar.irradiance)):
        require((a is None) == (b is None) and (a is None or np.array_equal(a, b)), "the spectrum was changed")
    if done < 2:
        ctx.trivial("fewer than two calculations")
    ctx.event(f"{case['space']} calls {done}")
