"""C04: band radiance is the response-weighted Planck integral."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): generated RSR files and temperatures against an independent float64 "
             "Planck integral, plus metamorphic relations (response scaling, monotonicity, bounds)")
RULE = ("Cases are RSR files (1-6 bands, 1-12 detectors, six curve families on four kinds of grids, float32/64, any stored "
        "scale) written to a scratch directory, a way to name the band, a detector, a wave space and temperature arrays; "
        "non-trivial when at least one temperature is valid.")
ASSUMPTIONS = ["Wavelengths ascend within a response; temperatures 150-400 K given as numpy or dask arrays.",
               "Wavelength queries are within 0.1 um of exactly one band."]

# platform, name handed over, name in the file
SENSORS = [("Meteosat-9", "seviri", "seviri"), ("EOS-Aqua", "modis", "modis"), ("Suomi-NPP", "viirs", "viirs"),
           ("NOAA-19", "avhrr3", "avhrr3"), ("Metop-C", "avhrr/3", "avhrr3"), ("Himawari-8", "ahi", "ahi"),
           ("GOES-16", "abi", "abi"), ("Sentinel-3A", "slstr", "slstr"), ("MySat-1", "myinst", "myinst"),
           ("FY-3D", "mersi-2", "mersi2")]
CENTERS = [3.7, 3.9, 6.2, 7.3, 8.7, 9.7, 10.8, 12.0, 13.4]


def names_for(instrument):
    """(stored band name, alias or None) pairs."""
    from pyspectral.bandnames import BANDNAMES
    table = BANDNAMES.get(instrument, BANDNAMES["generic"])
    out, seen = [], set()
    for alias, name in sorted(table.items()):
        if name not in seen:
            seen.add(name)
            out.append([name, alias])
    out.append(["Band X", None])
    return out


@st.composite
def instruments(draw, max_det=12, max_bands=5):
    platform, given, stored = draw(st.sampled_from(SENSORS))
    pairs = names_for(given)
    nbands = draw(st.integers(1, max_bands))
    idx = draw(st.lists(st.integers(0, len(pairs) - 1), min_size=nbands, max_size=nbands, unique=True))
    centers = draw(st.permutations(CENTERS))
    bands, aliases = {}, {}
    for i, k in enumerate(idx):
        name, alias = pairs[k]
        ndet = draw(st.sampled_from([1, 1, 1, 2, 3, min(10, max_det), max_det]))
        base = draw(gen.curves(centers[i], rel_width=(0.003, 0.05), npts=(8, 50)))
        dets = []
        for d in range(ndet):
            det = dict(base)
            det["center"] = round(base["center"] * (1 + 0.002 * d), 6)
            det["n"] = base["n"] + (d % 3)
            if d:
                det["kind"] = draw(st.sampled_from(["gauss", "tri", "ramp"]))
                det.pop("vals", None)
            dets.append(det)
        bands[name] = dets
        aliases[name] = alias
    return {"platform": platform, "given": given, "stored": stored, "bands": bands, "aliases": aliases,
            "scale": draw(st.sampled_from([1e-6, 1e-6, 1e-9, 1.0, 1e-3])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4"])), "shift": draw(st.sampled_from([0.0, 0.004, -0.01]))}


def install(world, inst, factor=1.0):
    """Write the RSR file; return {band: [(wvl um, resp, central)]} as stored."""
    bands = {}
    for name, dets in inst["bands"].items():
        bands[name] = []
        for det in dets:
            wvl, resp = gen.build_curve(det)
            bands[name].append((wvl, resp * factor, float(gen.central(wvl, resp)) + inst["shift"]))
    world.add_rsr(inst["platform"], inst["stored"], bands, scale=inst["scale"], dtype=inst["dtype"])
    dt = inst["dtype"]
    out = {}
    for name, dets in bands.items():
        out[name] = [((w * 1e-6 / inst["scale"]).astype(dt).astype("f8") * inst["scale"] * 1e6,
                      r.astype(dt).astype("f8"), c) for w, r, c in dets]
    return out


def band_argument(inst, bands, name, how, offset):
    """How to call the band; falls back to the name."""
    if how == "alias" and inst["aliases"].get(name):
        return inst["aliases"][name]
    if "wavelength" in how:
        query = bands[name][0][2] + offset
        near = [n for n, d in bands.items() if abs(d[0][2] - query) < 0.12]
        if near == [name]:
            return {"npwavelength": np.float64, "np32wavelength": np.float32}.get(how, float)(query)
    return name


@st.composite
def cases(draw):
    inst = draw(instruments())
    name = draw(st.sampled_from(sorted(inst["bands"])))
    temps = draw(gen.arrays(gen.floats(150.0, 400.0, [150.0, 273.15, 300.0, 360.0]), ndims=(1, 1, 2, 3)))
    case = {"inst": inst, "band": name, "how": draw(st.sampled_from(["name", "alias", "wavelength", "npwavelength", "np32wavelength"])),
            "offset": draw(st.sampled_from([0.0, 0.03, -0.05, 0.09, -0.09])),
            "det": draw(st.integers(1, len(inst["bands"][name]))),
            "space": draw(st.sampled_from(["wavelength", "wavelength", "wavenumber"])),
            "normalized": draw(st.sampled_from([None, True, False])),
            "temp": temps, "chunks": draw(st.one_of(st.none(), gen.chunkings(temps["shape"]))),
            "factor": draw(st.sampled_from([0.5, 2.0, 3.0, 100.0]))}
    return case


def reference(curve, space, temps, normalized=True):
    wvl, resp, _ = curve
    t = np.asarray(temps, "f8")[..., None]
    if space == "wavelength":
        grid = wvl * 1e-6
        rad = gen.planck_ref(grid, t)
        r = resp
    else:
        grid = (1e6 / wvl)[::-1]
        rad = gen.planck_wn_ref(grid, t)
        r = resp[::-1]
    integral = gen.trapz_ref(r, grid)
    out = gen.trapz_ref(rad * r, grid)
    lo, hi = rad[..., r > 0].min(axis=-1), rad[..., r > 0].max(axis=-1)
    return (out / integral if normalized else out), integral, lo, hi, grid, r


def make(case, bands):
    from pyspectral.radiance_tb_conversion import RadTbConverter
    inst = case["inst"]
    arg = band_argument(inst, bands, case["band"], case["how"], case["offset"])
    kwargs = {}
    if case["det"] != 1 or len(bands[case["band"]]) > 1:
        kwargs["detector"] = f"det-{case['det']}"
    if case["space"] != "wavelength":
        kwargs["wavespace"] = case["space"]
    return RadTbConverter(inst["platform"], inst["given"], arg, **kwargs), arg


@prop(cases, quick=450, budget=90,
      rule="radiance, integral, unit and shape against the reference; detector and band naming; bounds; monotone; inverse")
def band_radiance(case, ctx):
    world = gen.World(ctx)
    bands = install(world, case["inst"])
    conv, arg = make(case, bands)
    curve = bands[case["band"]][case["det"] - 1]
    temps = gen.build(case["temp"])
    keep = temps.copy()
    tb = temps if case["chunks"] is None else gen.as_dask(temps, case["chunks"])
    normalized = case["normalized"]
    res = conv.tb2radiance(tb) if normalized is None else conv.tb2radiance(tb, normalized=normalized)
    norm = normalized is not False
    require(set(res) >= {"radiance", "unit", "scale"}, "radiance, unit and scale expected", got=sorted(res))
    require(res["scale"] == 1.0, "SI units: scale 1 expected", got=res["scale"])
    per = {"wavelength": "m^-1", "wavenumber": "(m^-1)^-1"}[case["space"]]
    require(res["unit"] == ("W/m^2 sr^-1 " + per if norm else "W/m^2 sr^-1"), "unit", got=res["unit"])
    out = gen.to_np(res["radiance"]).astype("f8")
    require(np.array_equal(keep, temps), "temperatures modified")
    require(out.shape == temps.shape, "shape", got=out.shape, expected=temps.shape)
    if temps.size > 1:
        # the same temperatures in another order, of the same converter
        other = np.ascontiguousarray(temps.ravel()[::-1].reshape(temps.shape))
        turned = gen.to_np(conv.tb2radiance(other, normalized=norm)["radiance"]).astype("f8")
        require(np.allclose(turned.ravel()[::-1], out.ravel(), rtol=1e-4 if temps.dtype == np.float32 else 1e-10, atol=0),
                "the radiance of a temperature depends on the calls before")
    exp, integral, lo, hi, grid, resp = reference(curve, case["space"], temps, norm)
    single = case["inst"]["dtype"] == "f4" or temps.dtype == np.float32
    x = gen.C1 / (curve[0].min() * 1e-6 * temps.astype("f8"))
    eps = np.finfo("f4" if single else "f8").eps
    gridtol = np.finfo("f8").eps * 8 * np.abs(grid).max() / np.abs(np.diff(grid)).min()
    rtol = eps * (60 + 10 * x) + gridtol
    err = np.abs(out - exp) / exp
    require(np.all(err <= rtol), "band radiance differs from the response-weighted Planck integral",
            worst=float((err / rtol).max()), got=out.ravel()[:3], expected=exp.ravel()[:3])
    itol = (2e-5 if single else 1e-11) + gridtol
    require(abs(float(conv.rsr_integral) - integral) <= itol * integral, "response integral",
            got=float(conv.rsr_integral), expected=integral)
    if norm:
        require(np.all(out >= lo * (1 - 2 * rtol)) and np.all(out <= hi * (1 + 2 * rtol)),
                "normalised radiance outside the monochromatic extremes")
    order = np.argsort(temps.ravel(), kind="stable")
    t, o = temps.ravel()[order].astype("f8"), out.ravel()[order]
    step = np.diff(t) / t[1:] * (gen.C1 / (curve[0].max() * 1e-6 * t[1:])) > 4 * rtol.max()
    require(np.all(np.diff(o)[step] > 0), "radiance must increase with temperature")
    # back to a temperature: monochromatic inverse at the central wave
    rads = exp.astype(temps.dtype) if norm else reference(curve, case["space"], temps, True)[0].astype(temps.dtype)
    back = gen.to_np(conv.radiance2tb(rads)).astype("f8")
    if case["space"] == "wavelength":
        texp = gen.inv_planck_ref(curve[2] * 1e-6, rads.astype("f8"))
    else:
        texp = gen.inv_planck_wn_ref(gen.trapz_ref(resp * grid, grid) / integral, rads.astype("f8"))
    require(back.shape == temps.shape, "shape of radiance2tb", got=back.shape)
    require(np.allclose(back, texp, rtol=3e-5 if single else 1e-9, atol=0),
            "radiance2tb is not the Planck inverse at the central wave", got=back.ravel()[:3], expected=texp.ravel()[:3])
    ctx.event(case["space"])
    ctx.event(f"named by {'wavelength' if not isinstance(arg, str) else 'alias' if arg != case['band'] else 'name'}")
    if case["det"] > 1:
        ctx.event("detector > 1")
    if case["det"] >= 10:
        ctx.event("detector >= 10")
    if case["chunks"] is not None:
        ctx.event("dask")
    if single:
        ctx.event("single precision")


@st.composite
def meta_cases(draw):
    inst = draw(instruments(max_det=3, max_bands=2))
    inst["dtype"] = "f8"
    inst["scale"] = 1e-6
    name = draw(st.sampled_from(sorted(inst["bands"])))
    return {"inst": inst, "band": name, "how": "name", "offset": 0.0,
            "det": draw(st.integers(1, len(inst["bands"][name]))),
            "space": draw(st.sampled_from(["wavelength", "wavenumber"])),
            "temp": draw(gen.arrays(gen.floats(150.0, 400.0), ndims=(1, 2), dtypes=st.just("f8"))),
            "factor": draw(st.sampled_from([0.01, 0.5, 2.0, 3.0, 100.0]))}


@prop(meta_cases, quick=150, rule="a constant factor on the response changes the band radiance by it and nothing normalised")
def response_scaling(case, ctx):
    temps = gen.build(case["temp"])
    out = []
    for factor in (1.0, case["factor"]):
        world = gen.World(ctx)
        bands = install(world, case["inst"], factor)
        conv, _ = make(case, bands)
        out.append((conv.tb2radiance(temps)["radiance"], conv.tb2radiance(temps, normalized=False)["radiance"],
                    conv.radiance2tb(conv.tb2radiance(temps)["radiance"])))
    (n1, b1, t1), (n2, b2, t2) = out
    require(np.allclose(n1, n2, rtol=1e-11, atol=0), "normalised radiance depends on a factor on the response")
    require(np.allclose(b1 * case["factor"], b2, rtol=1e-11, atol=0), "band radiance is not linear in the response")
    require(np.allclose(t1, t2, rtol=1e-9), "temperature depends on a factor on the response")


@st.composite
def bad_cases(draw):
    inst = draw(instruments(max_det=3, max_bands=3))
    return {"inst": inst, "what": draw(st.sampled_from(["wavespace", "detector", "band", "wavelength"])),
            "text": draw(st.text("abcxyz", min_size=1, max_size=6))}


@prop(bad_cases, quick=80, rule="an unknown wave space, detector or band is refused")
def refused(case, ctx):
    from pyspectral.radiance_tb_conversion import RadTbConverter
    world = gen.World(ctx)
    bands = install(world, case["inst"])
    inst = case["inst"]
    name = sorted(bands)[0]
    args = {"band": name, "detector": "det-1", "wavespace": "wavelength"}
    if case["what"] == "wavespace":
        args["wavespace"] = case["text"]
    elif case["what"] == "detector":
        args["detector"] = f"det-{len(bands[name]) + 1}"
    elif case["what"] == "band":
        args["band"] = "no such " + case["text"]
    else:
        args["band"] = 25.0
    try:
        conv = RadTbConverter(inst["platform"], inst["given"], args["band"], detector=args["detector"],
                              wavespace=args["wavespace"])
    except (KeyError, AttributeError, ValueError, TypeError):
        return
    require(False, f"{case['what']} accepted", args=args, conv=conv.bandname)
