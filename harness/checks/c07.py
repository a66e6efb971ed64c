"""C07: NIR reflectance removes exactly the thermal part."""
import os

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline

from harness import gen
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): generated responses, pixels and options against the reflectance formula "
             "evaluated in float64 with an independent Planck integral")
RULE = ("Cases are a 3.5-3.95 um band (1-3 detectors), options (threshold, masking limit, solar flux, wave space, CO2, LUT) "
        "and pixels with angles on both sides of every limit and missing values in any input; non-trivial when at least one "
        "pixel has a reflectance and its denominator is not within rounding of the 0.005 limit.")
ASSUMPTIONS = ["Brightness temperatures 150-360 K; pixels whose denominator is within rounding of 0.005 are not judged.",
               "With a look-up table the radiances may differ by one table step (0.1 K); the table look-up itself is C05."]

SENSORS = [("Suomi-NPP", "viirs", "viirs", "M12", "M12"), ("EOS-Terra", "modis", "modis", "20", "20"),
           ("Meteosat-10", "seviri", "seviri", "IR3.9", "IR_039"), ("MySat-1", "myinst", "myinst", "X1", "X1"),
           ("NOAA-19", "avhrr3", "avhrr3", "ch3b", "ch3b")]


@st.composite
def setups(draw, ndet=3, centers=(3.60, 3.93)):
    sensor = draw(st.sampled_from(SENSORS))
    base = draw(gen.curves(draw(gen.floats(*centers).map(lambda v: round(v, 3))), rel_width=(0.003, 0.012), npts=(10, 60),
                           peaks=(1.0, 1.0, 0.5)))
    n = draw(st.integers(1, ndet))
    dets = []
    for i in range(n):
        det = dict(base)
        if i:
            det["center"] = round(3.6 + (base["center"] - 3.6 + 0.13 * i) % 0.33, 4)
            det["kind"] = draw(st.sampled_from(["gauss", "tri", "box"]))
            det.pop("vals", None)
        dets.append(det)
    other = draw(st.booleans())
    return {"sensor": list(sensor), "dets": dets, "other_band": other, "dtype": draw(st.sampled_from(["f8", "f8", "f4"]))}


def install(world, setup):
    platform, given, stored, band, alias = setup["sensor"]
    bands = {}
    if setup["other_band"]:
        w, r = gen.build_curve({"kind": "gauss", "center": 10.8, "width": 0.05, "n": 30, "peak": 1.0, "grid": "uniform",
                                "dtype": "f8"})
        bands["IR10.8"] = [(w, r, float(gen.central(w, r)))]
    bands[band] = []
    for det in setup["dets"]:
        w, r = gen.build_curve(det)
        bands[band].append((w, r, float(gen.central(w, r))))
    world.add_rsr(platform, stored, bands, dtype=setup["dtype"])
    dt = setup["dtype"]
    return [(w.astype(dt).astype("f8"), r.astype(dt).astype("f8"), c) for w, r, c in bands[band]]


def radiance(curve, space, temps):
    """Band integrated radiance, W/m2/sr."""
    wvl, resp, _ = curve
    t = np.asarray(temps, "f8")[..., None]
    if space == "wavelength":
        grid, r = wvl * 1e-6, resp
        rad = gen.planck_ref(grid, t)
    else:
        grid, r = (1e6 / wvl)[::-1], resp[::-1]
        rad = gen.planck_wn_ref(grid, t)
    return gen.trapz_ref(rad * r, grid)


_SPECTRUM = {}


def flux_ref(curve):
    """In-band solar flux from the ASTM table, on a fine grid: the range of linear and spline interpolation of the response."""
    import pyspectral
    if "w" not in _SPECTRUM:
        path = os.path.join(os.path.dirname(pyspectral.__file__), "data", "e490_00a.dat")
        _SPECTRUM["w"], _SPECTRUM["e"] = np.genfromtxt(path, unpack=True)
    wvl, resp, _ = curve
    x = np.linspace(wvl[0], wvl[-1], 4001)
    sun = np.interp(x, _SPECTRUM["w"], _SPECTRUM["e"])
    return sorted(gen.trapz_ref(sun * r, x) for r in (np.interp(x, wvl, resp), InterpolatedUnivariateSpline(wvl, resp)(x)))


@st.composite
def pixels(draw, limit, threshold, co2, n=None):
    shape = draw(st.sampled_from([[1], [3], [7], [2, 3], [5, 4], [40, 50], [2, 2, 3]] * 4 + [[251, 262]])) if n is None else n
    edges = [0.0, -0.0, -1e-3, 1e-3, 30.0, 85.0, 84.999, 85.001, 88.0, 89.9, 90.0, 95.0, 180.0, -10.0]
    for lim in (limit, threshold):
        if lim is not None:
            edges += [lim, lim + 1e-3, lim - 1e-3]
    sunz = st.one_of(gen.floats(-10.0, 180.0), gen.floats(0.0, 90.0), gen.floats(0.0, 90.0), st.sampled_from(edges),
                     st.sampled_from(edges), st.none())
    tb = gen.floats(180.0, 345.0, [200.0, 250.0, 300.0, 345.0, 150.05, 359.5])
    arr = {"shape": shape, "dtype": "f8"}
    thermal = gen.like(draw, arr, st.one_of(tb, tb, tb, tb, tb, gen.floats(220.0, 300.0), st.none()))
    nir = gen.like(draw, arr, st.one_of(tb, tb, tb, gen.floats(240.0, 340.0), gen.floats(240.0, 340.0), st.none()))
    out = {"sunz": gen.like(draw, arr, sunz), "nir": nir, "thermal": thermal}
    if co2:
        out["co2"] = gen.like(draw, arr, st.one_of(tb, gen.floats(200.0, 290.0), gen.floats(200.0, 290.0),
                                                   gen.floats(90.0, 200.0), gen.floats(300.0, 400.0), st.none()))
    return out


@st.composite
def cases(draw):
    setup = draw(setups())
    limit = draw(st.sampled_from(["default", "default", None, 85.0, 70.0, 88.0, 90.0, 60.5, 0.0, 30, 95.0]))
    threshold = draw(st.sampled_from(["default", "default", 85.0, 75.0, 88.0, 45.0, 0.0, 60, 100.0]))
    co2 = draw(st.booleans())
    lim = 85.0 if limit == "default" else limit
    thr = 85.0 if threshold == "default" else threshold
    px = draw(pixels(lim, thr, co2))
    return {"setup": setup, "det": draw(st.integers(1, len(setup["dets"]))), "limit": limit, "threshold": threshold,
            "flux": draw(st.sampled_from([None, None, 2.0029281634299041, 0.8, 5.5, 0.0, 3])), "px": px,
            "space": draw(st.sampled_from(["wavelength", "wavelength", "wavelength", "wavenumber"])),
            "direct": draw(st.booleans()), "dtype": draw(gen.DTYPES), "zdtype": draw(gen.DTYPES),
            "container": draw(st.sampled_from(["numpy", "numpy", "numpy", "masked", "dask", "mixed", "list", "scalar"])),
            "name": draw(st.sampled_from(["name", "alias", "wavelength"]))}


def make(case, curves):
    from pyspectral.near_infrared_reflectance import Calculator
    platform, given, stored, band, alias = case["setup"]["sensor"]
    arg = {"name": band, "alias": alias, "wavelength": curves[0][2]}[case["name"]]
    if case["name"] == "wavelength" and not 3.5 <= arg <= 3.95:
        arg = band
    kwargs = {}
    if case["det"] != 1:
        kwargs["detector"] = f"det-{case['det']}"
    if case["space"] != "wavelength":
        kwargs["wavespace"] = case["space"]
    if case["limit"] != "default":
        kwargs["masking_limit"] = case["limit"]
    if case["threshold"] != "default":
        kwargs["sunz_threshold"] = case["threshold"]
    if case["flux"] is not None:
        kwargs["solar_flux"] = case["flux"]
    return Calculator(platform, given, arg, **kwargs)


def wrap(arr, container, role):
    if container == "masked" and role != "sunz":
        missing = np.isnan(arr)
        data = np.where(missing, np.asarray(273.0, arr.dtype), arr)
        return np.ma.array(data, mask=missing)
    if container == "dask" or (container == "mixed" and role == "thermal"):
        return gen.as_dask(arr, [[n - n // 3, n // 3] if n > 2 else [n] for n in arr.shape])
    if container == "list":
        return arr.tolist()
    return arr


def expectation(case, calc_flux, L, T, px):
    """Float64 reflectance, denominator, error scale and missing mask."""
    limit = 85.0 if case["limit"] == "default" else case["limit"]
    thr = 85.0 if case["threshold"] == "default" else case["threshold"]
    sunz, nir, thermal = (px[k].astype("f8") for k in ("sunz", "nir", "thermal"))
    if "co2" in px:
        c = ((thermal - 0.25 * (thermal - px["co2"].astype("f8"))) / thermal) ** 4
    else:
        c = np.ones_like(thermal)
    solar = calc_flux * np.cos(np.deg2rad(np.clip(sunz, 0.0, thr))) / np.pi
    with np.errstate(all="ignore"):
        denom = solar - c * T
        r = (L - c * T) / denom
    missing = np.isnan(sunz) | np.isnan(nir) | np.isnan(thermal) | np.isnan(c)
    if limit is not None:
        missing |= (sunz < 0.0) | (sunz > limit)
    scale = np.abs(solar) + np.abs(c * T)
    return r, denom, scale, missing, c, solar


@prop(cases, quick=450, budget=100, rule="every pixel against the formula; missing exactly where stated; containers, dtype, detector, flux")
def reflectance(case, ctx):
    world = gen.World(ctx)
    curves = install(world, case["setup"])
    curve = curves[case["det"] - 1]
    if not 3.5 <= curves[0][2] <= 3.95:
        ctx.trivial("central wavelength out of range")
        return
    calc = make(case, curves)
    # the solar flux
    flux = float(calc.solar_flux)
    if case["flux"] is not None:
        require(flux == case["flux"], "the solar flux given is not used", got=flux)
    else:
        low, high = flux_ref(curve)
        # splines through coarsely sampled or box like responses differ from linear interpolation
        smooth = case["setup"]["dets"][case["det"] - 1]["kind"] in ("gauss", "tri", "ramp", "double")
        tol = 0.03 if smooth else 0.2
        require(low - tol * abs(low) <= flux <= high + tol * abs(high), "derived solar flux is not the in-band flux of the detector", got=flux,
                expected=(low, high))
    px = {k: gen.build(v, case["zdtype"] if k == "sunz" else case["dtype"]) for k, v in case["px"].items()}
    container = case["container"]
    if container == "scalar":
        px = {k: v.ravel()[:1] for k, v in px.items()}
        args = {k: float(v[0]) for k, v in px.items()}
    else:
        args = {k: wrap(v, container, k) for k, v in px.items()}
    keep = {k: v.copy() for k, v in px.items()}
    kwargs = {"tb_ir_co2": args["co2"]} if "co2" in args else {}
    if case["direct"]:
        kwargs["lut"] = None
    out = calc.reflectance_from_tbs(args["sunz"], args["nir"], args["thermal"], **kwargs)
    if container in ("dask", "mixed"):
        require(hasattr(out, "compute"), "lazy temperatures must give a lazy reflectance", type=type(out))
    elif container == "masked":
        require(isinstance(out, np.ma.MaskedArray), "masked input must give a masked result", type=type(out))
    else:
        require(isinstance(out, np.ndarray), "numpy expected", type=type(out))
    if container == "masked":
        missing_out = np.ma.getmaskarray(out)
        res = out.filled(np.nan)
        require(np.array_equal(np.isnan(res), missing_out), "missing pixels must be masked")
    else:
        res = gen.to_np(out)
    shape = px["nir"].shape
    require(res.shape == shape, "shape", got=res.shape, expected=shape)
    if container not in ("list", "scalar") and not case["direct"]:
        require(res.dtype == px["nir"].dtype, "float precision", got=res.dtype, expected=px["nir"].dtype)
    require(all(np.array_equal(keep[k], px[k], equal_nan=True) for k in px), "input modified")
    single = (case["dtype"] == "f4" and container not in ("list", "scalar")) or case["setup"]["dtype"] == "f4"
    eps = np.finfo("f4" if single else "f8").eps
    res = res.astype("f8")

    def safe(t):
        return np.where(np.isnan(t), 250.0, t).astype("f8")

    if case["direct"]:
        bounds = [(0.0, 0.0)]
    else:
        step = 0.1001
        bounds = [(a, b) for a in (-step, step) for b in (-step, step)]
    lo = np.full(shape, np.inf)
    hi = np.full(shape, -np.inf)
    dlo = np.full(shape, np.inf)
    dhi = np.full(shape, -np.inf)
    tol = np.zeros(shape)
    for da, db in bounds:
        L = radiance(curve, case["space"], np.clip(safe(px["nir"]) + da, 150.0, 360.2))
        T = radiance(curve, case["space"], np.clip(safe(px["thermal"]) + db, 150.0, 360.2))
        r, denom, scale, missing, c, solar = expectation(case, flux, L, T, px)
        x = gen.C1 / (3.5e-6 * 150.0)
        err = eps * (80 + 12 * x) * (np.abs(L) + scale) * (1 + np.abs(r)) / np.maximum(np.abs(denom), 1e-9)
        # cos close to 90 degrees in single precision, and solar = flux * small
        err = err + (1e-6 if case["zdtype"] == "f4" else 0.0) * flux * (1 + np.abs(r)) / np.maximum(np.abs(denom), 1e-9)
        lo, hi = np.fmin(lo, r), np.fmax(hi, r)
        dlo, dhi = np.fmin(dlo, denom), np.fmax(dhi, denom)
        tol = np.fmax(tol, err)
    dtol = (eps * 600 + (1e-6 if case["zdtype"] == "f4" else 0.0)) * (flux + 1.0)
    got_missing = np.isnan(res)
    require(np.all(got_missing[missing]), "a pixel which must be missing has a reflectance",
            px={k: v[missing & ~got_missing][:3] for k, v in px.items()}, got=res[missing & ~got_missing][:3])
    small = ~missing & (dhi < 0.005 - dtol)
    require(np.all(got_missing[small]), "reflectance given despite a vanishing denominator", denom=dhi[small & ~got_missing][:3])
    valid = ~missing & (dlo > 0.005 + dtol)
    require(not got_missing[valid].any(), "a valid pixel is missing",
            px={k: v[valid & got_missing][:3] for k, v in px.items()}, denom=dlo[valid & got_missing][:3])
    bad = valid & ((res < lo - tol) | (res > hi + tol))
    require(not bad.any(), "reflectance differs from the formula", got=res[bad][:3], low=lo[bad][:3], high=hi[bad][:3],
            tol=tol[bad][:3], px={k: v[bad][:3] for k, v in px.items()})
    if not case["direct"]:
        # and exactly so for the table's own radiances
        L = np.asarray(calc.tb2radiance(np.atleast_1d(px["nir"]).astype("f8"), lut=calc.lut)["radiance"]) * float(calc.rsr_integral)
        T = np.asarray(calc.tb2radiance(np.atleast_1d(px["thermal"]).astype("f8"), lut=calc.lut)["radiance"]) * float(calc.rsr_integral)
        if not single:
            r, denom, scale, missing, c, solar = expectation(case, flux, L, T, px)
            e2 = (1e-11 + (1e-6 if case["zdtype"] == "f4" else 0.0)) * (np.abs(L) + scale + flux) * (1 + np.abs(r)) / np.maximum(np.abs(denom), 1e-9)
            bad = valid & (np.abs(res - r) > e2)
            require(not bad.any(), "reflectance differs from the formula for the table's radiances",
                    got=res[bad][:3], expected=r[bad][:3])
    if not valid.any():
        ctx.trivial("no pixel with a reflectance")
    ctx.event(container)
    ctx.event("direct" if case["direct"] else "lut")
    if "co2" in px:
        ctx.event("co2")
    if case["det"] > 1:
        ctx.event("detector > 1")
    if small.any():
        ctx.event("vanishing denominator")
    if (valid & (px["sunz"] > 85.0)).any():
        ctx.event("valid beyond 85 degrees")


@st.composite
def alone_cases(draw):
    setup = draw(setups(ndet=1))
    return {"setup": setup, "det": 1, "limit": draw(st.sampled_from(["default", None, 88.0])), "threshold": "default", "flux": 2.0,
            "px": draw(pixels(85.0, 85.0, True, n=[draw(st.sampled_from([5, 12, 30]))])), "space": "wavelength",
            "co2": draw(st.booleans()), "dtype": draw(gen.DTYPES), "name": "name",
            "perm": draw(st.randoms(use_true_random=False).map(lambda r: r.randint(0, 10 ** 6)))}


@prop(alone_cases, quick=120, rule="a pixel alone, among others and at another position has the same reflectance")
def pixel_independence(case, ctx):
    world = gen.World(ctx)
    curves = install(world, case["setup"])
    if not 3.5 <= curves[0][2] <= 3.95:
        ctx.trivial()
        return
    calc = make(case, curves)
    px = {k: gen.build(v, case["dtype"]) for k, v in case["px"].items()}
    if not case["co2"]:
        px.pop("co2")

    def run(sel):
        kwargs = {"tb_ir_co2": px["co2"][sel]} if "co2" in px else {}
        return calc.reflectance_from_tbs(px["sunz"][sel], px["nir"][sel], px["thermal"][sel], **kwargs)

    n = px["nir"].size
    every = run(slice(None))
    rtol = 1e-4 if case["dtype"] == "f4" else 1e-11
    for i in (0, n // 2, n - 1):
        require(np.allclose(run([i]), every[[i]], rtol=rtol, atol=rtol, equal_nan=True), "a pixel depends on its neighbours",
                i=i, alone=run([i]), among=every[i])
    perm = np.roll(np.arange(n)[::-1], case["perm"] % n)
    require(np.allclose(run(perm), every[perm], rtol=rtol, atol=rtol, equal_nan=True), "reflectance depends on the position")


@st.composite
def refuse_cases(draw):
    return {"what": draw(st.sampled_from(["band", "band", "wavelength", "shape", "shape_ok", "band_ok", "wavelength_ok"])),
            "center": draw(st.one_of(gen.floats(0.5, 3.4999), gen.floats(3.9501, 14.0), gen.floats(3.4, 3.4999, [3.46, 3.48, 3.499, 3.4999]), gen.floats(3.9501, 4.0, [3.9501, 3.951, 3.96, 3.98]))),
            "good": draw(gen.floats(3.5001, 3.9499, [3.5002, 3.51, 3.94, 3.9498])),
            "by_alias": draw(st.booleans()),
            "shapes": draw(st.lists(st.lists(st.integers(1, 4), min_size=1, max_size=2), min_size=2, max_size=2))}


@prop(refuse_cases, quick=250, rule="bands outside 3.5-3.95 um and mismatching shapes are refused, others are not")
def refused(case, ctx):
    from pyspectral.near_infrared_reflectance import Calculator
    world = gen.World(ctx)
    what = case["what"]
    cen = case["center"] if what in ("band", "wavelength") else case["good"]
    w, r = gen.build_curve({"kind": "gauss", "center": cen, "width": 0.004, "n": 30, "peak": 1.0, "grid": "uniform", "dtype": "f8"})
    w = w * (cen / float(gen.central(w, r)))
    cwl = float(gen.central(w, r))
    if (3.5 <= cwl <= 3.95) != (what not in ("band", "wavelength")):
        ctx.trivial("central wavelength beyond the bound")
        return
    world.add_rsr("Meteosat-11", "seviri", {"IR3.9": [(w, r, cwl)]})
    band = cwl if what.startswith("wavelength") else ("IR_039" if case["by_alias"] else "IR3.9")
    if what in ("band", "wavelength"):
        try:
            Calculator("Meteosat-11", "seviri", band, solar_flux=2.0)
        except NotImplementedError:
            return
        require(False, "a band outside 3.5-3.95 um was accepted", central=cwl)
    calc = Calculator("Meteosat-11", "seviri", band, solar_flux=2.0)
    if what == "shape":
        a, b = (np.full(s, 280.0) for s in case["shapes"])
        if a.shape == b.shape:
            ctx.trivial("same shape")
            return
        try:
            out = calc.reflectance_from_tbs(np.full(a.shape, 40.0), a, b)
        except ValueError:
            return
        require(False, "mismatching shapes accepted", shapes=case["shapes"], out=np.shape(out))
    a = np.full(case["shapes"][0], 290.0)
    out = calc.reflectance_from_tbs(np.full(a.shape, 40.0), a, a - 10.0)
    require(out.shape == a.shape and np.all(np.isfinite(out)), "valid call", out=out)


@prop(lambda: st.fixed_dictionaries({"t": st.lists(st.tuples(st.integers(230, 330), st.integers(200, 320), st.integers(0, 80)).map(list),
                                                   min_size=1, max_size=6),
                                     "kind": st.sampled_from(["int", "i4", "i2", "scalar", "masked"])}),
      quick=80, rule="integer temperatures and angles give the same as the equal floats")
def integers(case, ctx):
    from pyspectral.near_infrared_reflectance import Calculator
    world = gen.World(ctx)
    w, r = gen.build_curve({"kind": "gauss", "center": 3.75, "width": 0.01, "n": 30, "peak": 1.0, "grid": "uniform", "dtype": "f8"})
    world.add_rsr("Suomi-NPP", "viirs", {"M12": [(w, r, 3.75)]})
    calc = Calculator("Suomi-NPP", "viirs", "M12", solar_flux=2.0)
    arr = np.array(case["t"])
    nir, thermal, sunz = arr[:, 0], arr[:, 1], arr[:, 2]
    exp = calc.reflectance_from_tbs(sunz.astype("f8"), nir.astype("f8"), thermal.astype("f8"))
    if case["kind"] == "scalar":
        got = calc.reflectance_from_tbs(int(sunz[0]), int(nir[0]), int(thermal[0]))
        exp = exp[:1]
    elif case["kind"] == "masked":
        hidden = np.arange(len(nir)) % 2 == 1
        got = calc.reflectance_from_tbs(sunz, np.ma.masked_array(nir, hidden), np.ma.masked_array(thermal, hidden))
        require(np.array_equal(np.ma.getmaskarray(got), hidden | np.isnan(exp)), "masked integer pixels", got=got, expected=exp, hidden=hidden)
        got, exp = np.ma.getdata(got)[~hidden], exp[~hidden]
    elif case["kind"] == "int":
        got = calc.reflectance_from_tbs(sunz.tolist(), nir.tolist(), thermal.tolist())
    else:
        got = calc.reflectance_from_tbs(*(v.astype(case["kind"]) for v in (sunz, nir, thermal)))
    require(np.allclose(got, exp, rtol=1e-9, equal_nan=True), "integer input", got=got, expected=exp)
