"""C11: conversion to the RSR file format."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = "property-based testing (Hypothesis): round trip of generated raw bands through the file format"
RULE = ("Cases are sets of raw bands with detectors, scales and platforms; non-trivial when there is more than one band or detector, "
        "or a scale other than micron.")
ASSUMPTIONS = ["The detectors of a band share their wavelengths, as the format's writer states.",
               "Missing samples are marked by NaN wavelengths, for all detectors alike."]

PLATFORMS = [["Suomi-NPP", "viirs"], ["EOS-Aqua", "modis"], ["Metop-B", "avhrr/3"], ["NOAA-7", "avhrr/2"], ["TIROS-N", "avhrr/1"],
             ["FY-3D", "mersi-2"], ["FY-3A", "mersi-1"], ["FY-3A", "virr"], ["Sentinel-3A", "slstr"], ["Sentinel-3A", "olci"],
             ["Arctica-M-N1", "msu-gsa"], ["Landsat-8", "oli_tirs"], ["Meteosat-12", "fci"], ["DSCOVR", "epic"], ["My-Sat-3", "mysensor"],
             ["GEO-KOMPSAT-2B", "goci-2"]]
NAMES = st.one_of(st.sampled_from(["ch1", "ch2", "M12", "I4", "VIS0.6", "IR3.9", "20", "S7", "Oa01", "VIS0.6_nadir_view", "VIS0.6_nadir_back"]),
                  st.text("abcXYZ0189._-", min_size=1, max_size=8).filter(lambda s: s.strip(".")))


@st.composite
def sensors(draw):
    many = draw(st.integers(0, 9)) == 0
    names = draw(st.lists(NAMES, min_size=10 if many else 1, max_size=22 if many else 5, unique=True))
    ndet = draw(st.sampled_from([0, 0, 1, 2, 3, 10, 12])) if not many else draw(st.sampled_from([0, 1]))
    bands = {n: [draw(gen.curves(gen.floats(0.4, 13.0), npts=(4, 40)))
                 for _ in range(min(max(ndet, 1), 2))] for n in names}
    return {"platform": draw(st.sampled_from(PLATFORMS)), "names": names, "ndet": ndet, "bands": bands,
            "scale": draw(st.sampled_from([None, None, 1e-6, 1e-9, 1.0, 1e-3, 1e-10, 2.54e-8])),
            "down": draw(st.sampled_from([False, False, True])), "noise": draw(st.sampled_from([0.0, 0.0, 0.004])),
            "nans": draw(st.sampled_from([0, 0, 1, 5])), "extra": draw(st.lists(NAMES, max_size=2)),
            "twice": draw(st.sampled_from([False, True, "broken"])), "kelvin": draw(gen.floats(200.0, 320.0))}


def raw_bands(case):
    """{band: {det: (wavelength in raw unit, response)}} as float64."""
    scale = case["scale"] or 1e-6
    out = {}
    for name in case["names"]:
        curs = case["bands"][name]
        wvl, _ = gen.build_curve(curs[0])
        dets = {}
        for i in range(max(case["ndet"], 1)):
            resp = gen.build_curve(dict(curs[i % len(curs)], n=len(wvl)))[1] / (1.0 + 0.01 * i)
            resp = resp - case.get("noise", 0.0)
            w = wvl * 1e-6 / scale
            if case.get("down"):
                w, resp = w[::-1].copy(), resp[::-1].copy()
            if case["nans"]:
                w = np.concatenate([w, np.full(case["nans"], np.nan)])
                resp = np.concatenate([resp, np.full(case["nans"], np.nan)])
            dets[f"det-{i + 1}"] = (w, resp)
        out[name] = dets
    return out


def make_class(case, raw, output_dir, log):
    class Raw:
        def __init__(self, bandname, platform_name):
            log.append((bandname, platform_name))
            self.instrument = case["platform"][1]
            self.output_dir = output_dir
            self.bandname = bandname
            dets = {d: {"wavelength": w.copy(), "response": r.copy()} for d, (w, r) in raw[bandname].items()}
            self.rsr = dets if case["ndet"] else dets["det-1"]
    return Raw


@prop(sensors, quick=350, rule="write, read back by name and by file name")
def round_trip(case, ctx):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import convert2hdf5
    world = gen.World(ctx)
    platform, instrument = case["platform"]
    raw = raw_bands(case)
    log = []
    cls = make_class(case, raw, world.rsr_dir, log)
    kwargs = {}
    if case["scale"] is not None:
        kwargs["scale"] = case["scale"]
    dets = [f"det-{i + 1}" for i in range(max(case["ndet"], 1))]
    if case["ndet"]:
        kwargs["detectors"] = dets
    before = set(os.listdir(world.rsr_dir))
    name = f"rsr_{instrument.replace('/', '').replace('-', '')}_{platform}.h5"
    if case["twice"] == "broken":
        # left over from a conversion which was interrupted
        with open(os.path.join(world.rsr_dir, name), "wb") as fp:
            fp.write(b"\x89HDF\r\n\x1a\nnothing more")
    elif case["twice"]:
        # something older under that name is replaced
        other = dict(case, names=case["names"][:1], ndet=0, nans=0)
        other_raw = {n: {"det-1": (np.array([1.0, 2.0, 3.0]), np.array([0.5, 1.0, 0.5]))} for n in other["names"]}
        convert2hdf5(make_class(other, other_raw, world.rsr_dir, []), platform, other["names"])
    convert2hdf5(cls, platform, list(case["names"]), **kwargs)
    new = set(os.listdir(world.rsr_dir)) - before
    require(new == {name}, "file name", got=sorted(new), expected=name)
    path = os.path.join(world.rsr_dir, name)
    scale = case["scale"] or 1e-6
    for by in ("names", "file"):
        this = RelativeSpectralResponse(platform, instrument) if by == "names" else RelativeSpectralResponse(filename=path)
        require(list(this.band_names) == case["names"], "band names", got=this.band_names, expected=case["names"])
        require(sorted(this.rsr) == sorted(case["names"]), "bands", got=sorted(this.rsr))
        require(this.platform_name == platform, "platform", got=this.platform_name)
        norm = (this.instrument or "").replace("/", "").replace("-", "")
        require(norm == instrument.replace("/", "").replace("-", ""), "instrument", got=this.instrument)
        require(by == "names" or this.instrument == instrument, "instrument name in the file", got=this.instrument, expected=instrument)
        require(instrument.upper() in this.description, "description", got=this.description)
        for band in case["names"]:
            require(sorted(this.rsr[band]) == sorted(dets), "detectors", got=sorted(this.rsr[band]), expected=dets)
            for det in dets:
                w, r = raw[band][det]
                got = this.rsr[band][det]
                require(np.allclose(got["wavelength"], w * scale * 1e6, rtol=3e-7, atol=0, equal_nan=True), "wavelengths",
                        band=band, det=det, got=got["wavelength"][:3], expected=(w * scale * 1e6)[:3])
                require(np.allclose(got["response"], r, rtol=1e-6, atol=1e-12, equal_nan=True), "responses", band=band, det=det)
                ok = ~np.isnan(w)
                cwl = gen.central(w[ok] * scale * 1e6, r[ok])
                require(abs(float(got["central_wavelength"]) - cwl) <= 1e-6 * cwl, "central wavelength", band=band, det=det,
                        got=got["central_wavelength"], expected=cwl)
    if len(case["names"]) == 1 and not case["ndet"] > 1 and case["scale"] in (None, 1e-6):
        ctx.trivial("one plain band")
    ctx.event(f"scale {case['scale']}; detectors {case['ndet']}; NaN {case['nans'] > 0}")


@prop(lambda: sensors().map(lambda c: dict(c, nans=0, down=False, noise=0.0)), quick=120, rule="radiances from the converted file against those from the raw data")
def radiances(case, ctx):
    from pyspectral.radiance_tb_conversion import RadTbConverter
    from pyspectral.utils import convert2hdf5
    world = gen.World(ctx)
    platform, instrument = "My-Sat-3", "mysensor"
    case = dict(case, platform=[platform, instrument],
                bands={n: [dict(c, center=max(c["center"], 3.5)) for c in b] for n, b in case["bands"].items()})
    raw = raw_bands(case)
    scale = case["scale"] or 1e-6
    dets = [f"det-{i + 1}" for i in range(max(case["ndet"], 1))]
    names = [n for n in case["names"] if not any(n in table for table in _aliases())]
    if not names:
        ctx.trivial("only alias names")
        return
    convert2hdf5(make_class(case, raw, world.rsr_dir, []), platform, names, scale, dets if case["ndet"] else None)
    for band in names:
        det = dets[len(names) % len(dets)]
        w, r = raw[band][det]
        w = w * scale
        conv = RadTbConverter(platform, instrument, band, detector=det)
        t = np.array([case["kelvin"], 250.0])
        for norm in (True, False):
            got = np.asarray(conv.tb2radiance(t, normalized=norm)["radiance"])
            want = gen.trapz_ref(gen.planck_ref(w[None, :], t[:, None]) * r, w)
            if norm:
                want = want / gen.trapz_ref(r, w)
            require(np.allclose(got, want, rtol=3e-4), "radiances differ from those of the raw data", band=band, det=det,
                    got=got, expected=want)
    ctx.event(f"detectors {case['ndet']}")


def _aliases():
    from pyspectral.bandnames import BANDNAMES
    return [BANDNAMES["generic"]]


@prop(lambda: st.fixed_dictionaries({"bands": st.lists(NAMES, min_size=2, max_size=4, unique=True), "bad": st.integers(0, 3),
                                     "err": st.sampled_from(["IOError", "KeyError"])}), quick=60,
      rule="a band whose raw data are missing: the error surfaces")
def missing_raw(case, ctx):
    from pyspectral.utils import convert2hdf5
    world = gen.World(ctx)
    bad = case["bands"][case["bad"] % len(case["bands"])]
    err = {"IOError": IOError, "KeyError": KeyError}[case["err"]]

    class Raw:
        instrument, output_dir = "mysensor", world.rsr_dir

        def __init__(self, bandname, platform_name):
            if bandname == bad:
                raise err(bandname)
            self.rsr = {"wavelength": np.linspace(1, 2, 9), "response": np.ones(9)}
    try:
        convert2hdf5(Raw, "My-Sat-3", case["bands"])
        raised = False
    except err:
        raised = True
    require(raised, "no error for a band without raw data")
