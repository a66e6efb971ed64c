"""C10: reading spectral responses."""
import hashlib
import os
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = "property-based testing (Hypothesis): generated RSR files, what is read is compared with what was written"
RULE = ("Cases are complete RSR files (bands, detectors, layouts, scales, text attributes); non-trivial when a band has several "
        "detectors, wavelengths are not stored in SI units, or the layout is not the plain one.")
ASSUMPTIONS = ["Files have the documented layout; text is UTF-8 without NUL characters."]

NAMES = st.one_of(st.sampled_from(["M01", "M12", "I2", "ch1", "1", "20", "VIS0.8", "IR3.9", "WV6.2", "C02", "3A", "ch 4", "Oa01", "S7"]),
                  st.text("abcXYZ0189._-", min_size=1, max_size=8).filter(lambda s: s.strip(".") and not s.startswith("det-")))
TEXT = st.one_of(st.just("Relative Spectral Responses for VIIRS"),
                 st.text(st.characters(min_codepoint=32, max_codepoint=0x2fff, exclude_categories=["Cs"]), min_size=0, max_size=30))
PLATFORMS = ["Suomi-NPP", "NOAA-20", "EOS-Aqua", "EOS-Terra", "Meteosat-10", "Metop-B", "Himawari-8", "GOES-16", "Sentinel-3A",
             "Envisat", "My-Sat-1", "Åland-2"]
SENSORS = ["viirs", "modis", "seviri", "avhrr-3", "ahi", "abi", "olci", "aatsr", "mysensor", "x y", "AVHRR/3", "MySensor-2"]


@st.composite
def layouts(draw):
    names = draw(st.lists(NAMES, min_size=1, max_size=5, unique=True))
    shared = draw(st.booleans())
    bands = {}
    for name in names:
        ndet = draw(st.sampled_from([1, 1, 1, 2, 3, 5, 11, 16, 40]))
        base = draw(st.lists(gen.curves(gen.floats(0.4, 13.0), npts=(3, 25)), min_size=1, max_size=3 if ndet > 1 else 1))
        bands[name] = {"ndet": ndet, "curves": base, "cwl": draw(gen.floats(0.3, 14.0))}
    return {"names": names, "bands": bands, "shared": shared, "scale": draw(st.sampled_from([1e-6, 1e-6, 1e-9, 1.0, 1e-3, 1e-10])), "scale2": draw(st.sampled_from([None, None, 1e-9, 1.0])),
            "sorting": draw(st.sampled_from(["ascending", "ascending", "descending", "none"])), "dtype": draw(st.sampled_from(["f8", "f4"])), "numattr": draw(st.booleans()), "central_band": draw(st.booleans()),
            "bytes": draw(st.booleans()), "description": draw(TEXT), "unlisted": draw(st.lists(st.integers(0, 4), max_size=2)),
            "beyond": draw(st.booleans()), "shadow": draw(st.sampled_from(["no", "no", "band too", "response at band"])), "order": draw(st.permutations(list(range(len(names))))),
            "platform": draw(st.sampled_from(PLATFORMS)), "sensor": draw(st.sampled_from(SENSORS)),
            "attr_platform": draw(st.sampled_from(["name", "name", "legacy", "none"])), "attr_sensor": draw(st.booleans()),
            "legacy": draw(st.sampled_from([["eos", 2, "EOS-Aqua"], ["meteosat", 8, "Meteosat-8"], ["meteosat", 9, "Meteosat-9"],
                                            ["meteosat", 10, "Meteosat-10"], ["meteosat", 11, "Meteosat-11"],
                                            ["noaa", 19, "noaa-19"], ["eos", 1, "eos-1"], ["metop", 1, "metop-1"]])),
            "by": draw(st.sampled_from(["path", "str", "names", "relative"]))}


def contents(case):
    out = {}
    for name, info in case["bands"].items():
        dets = []
        for i in range(info["ndet"]):
            cur = dict(info["curves"][0 if case["shared"] else i % len(info["curves"])])
            wvl, resp = gen.build_curve(cur)
            if case["shadow"] == "response at band":
                wvl, resp = gen.build_curve(info["curves"][0])
            else:
                resp = resp / (1.0 + 0.01 * i)
            # as stored means in the order stored, too
            turn = {"ascending": slice(None), "descending": slice(None, None, -1)}.get(case.get("sorting", "ascending"))
            turn = np.argsort(np.sin(np.arange(len(wvl)) * 7.0)) if turn is None else turn
            wvl, resp = wvl[turn], resp[turn]
            dets.append((wvl, resp, info["cwl"] + (0 if case["central_band"] else 0.001 * i)))
        out[name] = dets
    return out


def write(case, path):
    import h5py
    bands = contents(case)
    listed = [case["names"][i] for i in case["order"]]
    unlisted = [n for k, n in enumerate(case["names"]) if k in case["unlisted"]]
    listed = [n for n in listed if n not in unlisted] or [case["names"][0]]
    kwargs = {"platform_name": case["platform"] if case["attr_platform"] == "name" else None,
              "sensor": case["sensor"] if case["attr_sensor"] else None, "scale": case["scale"] if not case["scale2"] else [case["scale"], case["scale2"]], "dtype": case["dtype"],
              "share_wavelength": case["shared"], "as_bytes": case["bytes"], "number_attr": case["numattr"],
              "band_names": listed, "central_at_band": case["central_band"], "description": case["description"]}
    if case["attr_platform"] == "legacy":
        sat, num, _ = case["legacy"]
        kwargs["extra_attrs"] = {"platform": np.bytes_(sat) if case["bytes"] else sat, "sat_number": num}
    gen.write_rsr_file(path, bands, **kwargs)
    if case["beyond"]:
        with h5py.File(path, "a") as h5f:
            for name in bands:
                grp = h5f[name]
                if "number_of_detectors" in grp.attrs:
                    n = int(grp.attrs["number_of_detectors"])
                    grp.copy(grp["det-1"], grp, name=f"det-{n + 1}")
    if case["shadow"] != "no":
        with h5py.File(path, "a") as h5f:
            for name in bands:
                grp = h5f[name]
                if "det-1" not in grp:
                    continue
                if case["shadow"] == "response at band":
                    grp["response"] = grp["det-1"]["response"][:]
                    for det in [d for d in grp if d.startswith("det-")]:
                        del grp[det]["response"]
                    continue
                # the band has its own values besides: those of the detector count
                if "wavelength" not in grp:
                    grp["wavelength"] = np.array([1.0, 2.0, 3.0], dtype=case["dtype"])
                    grp["wavelength"].attrs["scale"] = 1e-6
                grp["response"] = np.array([0.1, 0.2, 0.1], dtype=case["dtype"])
                if "central_wavelength" not in grp.attrs:
                    grp.attrs["central_wavelength"] = 99.0
    return bands, listed


def digest(path):
    with open(path, "rb") as fp:
        return hashlib.sha256(fp.read()).hexdigest()


def expected_wavelength(wvl, scale, dtype):
    stored = (np.asarray(wvl) * 1e-6 / scale).astype(dtype)
    return stored.astype("f8") * scale * 1e6


def check_bands(rsr, bands, listed, case):
    require(list(rsr) == listed or sorted(rsr) == sorted(listed), "bands differ", got=list(rsr), expected=listed)
    for name in listed:
        dets = bands[name]
        names = [f"det-{i + 1}" for i in range(len(dets))]
        require(sorted(rsr[name]) == sorted(names), "detectors differ", band=name, got=sorted(rsr[name]), expected=names)
        for det, (wvl, resp, cwl) in zip(names, dets):
            got = rsr[name][det]
            scale = case["scale2"] if case["scale2"] and not case["shared"] and names.index(det) % 2 else case["scale"]
            want_w = expected_wavelength(wvl, scale, case["dtype"])
            want_r = np.asarray(resp).astype(case["dtype"])
            require(np.array_equal(got["response"], want_r), "response differs", band=name, det=det)
            tol = 1e-11 if case["dtype"] == "f8" else 1e-6
            require(np.shape(got["wavelength"]) == want_w.shape and np.allclose(got["wavelength"], want_w, rtol=tol, atol=0),
                    "wavelength differs", band=name, det=det, got=got["wavelength"][:3], expected=want_w[:3])
            require(float(got["central_wavelength"]) == cwl, "central wavelength differs", band=name, det=det,
                    got=got["central_wavelength"], expected=cwl)


def is_text(val, want):
    return isinstance(val, str) and val == want


PLAIN_CURVE = {"kind": "gauss", "center": 0.6, "width": 0.05, "n": 9, "peak": 1.0, "grid": "uniform", "dtype": "f8"}


def small(platform, by, attr_sensor):
    return {"names": ["ch1"], "bands": {"ch1": {"ndet": 1, "curves": [PLAIN_CURVE], "cwl": 0.6}}, "shared": False, "scale": 1e-6, "scale2": None, "dtype": "f8",
            "numattr": True, "central_band": False, "bytes": False, "description": "x", "unlisted": [], "beyond": False, "shadow": "no", "order": [0],
            "platform": platform, "sensor": "mysensor", "attr_platform": "name", "attr_sensor": attr_sensor, "legacy": ["eos", 2, "EOS-Aqua"], "by": by}


def platforms(tier):
    from pyspectral.utils import INSTRUMENTS
    legacy = [dict(small("My-Sat-1", "str", attr), attr_platform="legacy", legacy=leg, bytes=as_bytes)
              for leg in (["eos", 2, "EOS-Aqua"], ["meteosat", 8, "Meteosat-8"], ["meteosat", 9, "Meteosat-9"],
                          ["meteosat", 10, "Meteosat-10"], ["meteosat", 11, "Meteosat-11"]) for attr in (False, True) for as_bytes in (False, True)]
    return legacy + [small(p, by, attr) for p in sorted(INSTRUMENTS) for by in ("str", "names") for attr in (False, True)]


@prop(layouts, quick=350, examples=platforms, rule="whole files, read by name and by file name; every platform")
def reading(case, ctx):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import INSTRUMENTS
    world = gen.World(ctx)
    platform = case["platform"]
    known = INSTRUMENTS.get(platform)
    instrument = case["sensor"] if known is None else (known if isinstance(known, str) else known[0])
    instrument = instrument.lower().replace("/", "").replace("-", "")
    path = os.path.join(world.rsr_dir, f"rsr_{instrument}_{platform}.h5")
    bands, listed = write(case, path)
    before = digest(path), os.stat(path).st_mtime_ns, sorted(os.listdir(world.rsr_dir))
    if case["by"] == "names":
        this = RelativeSpectralResponse(platform, instrument)
        want_platform, want_instrument = platform, instrument
    else:
        elsewhere = os.path.join(world.dir, "else where.h5")
        os.rename(path, elsewhere)
        cwd = os.getcwd()
        os.chdir(world.dir)
        try:
            this = RelativeSpectralResponse(filename={"path": Path(elsewhere), "str": elsewhere, "relative": "else where.h5"}[case["by"]])
        finally:
            os.chdir(cwd)
        os.rename(elsewhere, path)
        want_platform = {"name": platform, "legacy": case["legacy"][2], "none": None}[case["attr_platform"]]
        if case["attr_sensor"]:
            want_instrument = case["sensor"]
        else:
            want_instrument = INSTRUMENTS.get(want_platform)
            want_instrument = None if isinstance(want_instrument, list) else want_instrument
    check_bands(this.rsr, bands, listed, case)
    require(list(this.band_names) == listed and all(isinstance(n, str) for n in this.band_names), "band_names", got=this.band_names)
    require(is_text(this.description, case["description"]), "description", got=this.description)
    require(this.platform_name == want_platform, "platform", got=this.platform_name, expected=want_platform)
    require(this.instrument == want_instrument, "instrument", got=this.instrument, expected=want_instrument)
    require(this.si_scale == 1e-6, "scale to SI units", got=this.si_scale)
    require((digest(path), os.stat(path).st_mtime_ns, sorted(os.listdir(world.rsr_dir))) == before, "the file was modified")
    multi = any(b["ndet"] > 1 for b in case["bands"].values())
    if not (multi or case["scale"] != 1e-6 or case["shared"] or case["unlisted"] or case["beyond"]):
        ctx.trivial("plain file")
    ctx.event(f"by {case['by']}; multi-det {multi}; shared {case['shared']}; scale {case['scale']}")
    ctx.event(f"platform attr {case['attr_platform']}, sensor attr {case['attr_sensor']}")


@prop(lambda: st.fixed_dictionaries({"one": layouts(), "two": layouts(), "repeat": st.booleans()}), quick=120,
      rule="two files side by side; nothing leaks from one to the other or from one reading to the next")
def independence(case, ctx):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    world = gen.World(ctx)
    infos = []
    for key, (plat, inst) in zip(("one", "two"), (("EOS-Aqua", "modis"), ("EOS-Terra", "modis"))):
        path = os.path.join(world.rsr_dir, f"rsr_{inst}_{plat}.h5")
        infos.append((plat, inst, *write(case[key], path), case[key]))
    objs = [RelativeSpectralResponse(i[0], i[1]) for i in infos]
    if case["repeat"]:
        first = objs[0]
        name = infos[0][3][0]
        det = first.rsr[name]["det-1"]
        det["response"] = det["response"] * 0
        det["wavelength"][:] = -1
        first.rsr.pop(name)
        objs[0] = RelativeSpectralResponse(infos[0][0], infos[0][1])
    for obj, info in zip(objs, infos):
        check_bands(obj.rsr, info[2], info[3], info[4])
        require(obj.platform_name == info[0], "platform", got=obj.platform_name)
    ctx.event("re-read" if case["repeat"] else "both")


@prop(lambda: st.fixed_dictionaries({"kind": st.sampled_from(["absent", "absent file", "other platform", "other instrument", "args", "dir",
                                                              "unknown platform"]),
                                     "platform": st.sampled_from(PLATFORMS), "other": st.sampled_from(PLATFORMS),
                                     "args": st.sampled_from([[None, None, None], ["p", None, None], [None, "i", None], ["p", None, "f"],
                                                              [None, "i", "f"], ["p", "i", "f"]])}),
      quick=150, rule="missing files and inconsistent arguments", examples=lambda tier: [
          {"kind": "args", "platform": "EOS-Aqua", "other": "EOS-Aqua", "args": a}
          for a in ([None, None, None], ["p", None, None], [None, "i", None], ["p", None, "f"], [None, "i", "f"], ["p", "i", "f"])])
def errors(case, ctx):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import INSTRUMENTS
    world = gen.World(ctx)
    known = INSTRUMENTS.get(case["platform"], "mysensor")
    instrument = (known if isinstance(known, str) else known[0]).replace("/", "").replace("-", "")
    wvl = np.linspace(3.5, 3.9, 10)
    good = {"M12": [(wvl, np.ones(10), 3.7)]}
    want = FileNotFoundError
    kwargs = {"platform_name": case["platform"], "instrument": instrument}
    if case["kind"] == "absent file":
        kwargs = {"filename": os.path.join(world.rsr_dir, "rsr_nothing.h5")}
        world.add_rsr(case["platform"], instrument, good)
    elif case["kind"] == "dir":
        kwargs = {"filename": world.rsr_dir}
    elif case["kind"] == "other platform":
        if case["other"] == case["platform"]:
            ctx.trivial("same platform")
            return
        world.add_rsr(case["other"], instrument, good)
        world.add_rsr(case["platform"] + "1", instrument, good)
    elif case["kind"] == "other instrument":
        world.add_rsr(case["platform"], instrument + "x", good)
        world.add_rsr(case["platform"], "x" + instrument, good)
    elif case["kind"] == "unknown platform":
        kwargs = {"platform_name": "Nosuch-1", "instrument": instrument}
        world.add_rsr(case["platform"], instrument, good)
    elif case["kind"] == "args":
        want = ValueError
        path = world.add_rsr(case["platform"], instrument, good)
        plat, inst, name = case["args"]
        kwargs = {"platform_name": plat and case["platform"], "instrument": inst and instrument, "filename": name and path}
    try:
        this = RelativeSpectralResponse(**kwargs)
    except want:
        this = None
    require(this is None, f"{case['kind']}: no {want.__name__}", kwargs=kwargs)
    ctx.event(case["kind"])


@prop(lambda: st.fixed_dictionaries({"ndet": st.sampled_from([1, 2, 3, 10, 16]), "curve": gen.curves(gen.floats(0.4, 13.0), npts=(3, 25)), "cwl": gen.floats(0.4, 13.0),
                                     "own": st.sampled_from(["nothing", "central", "response"]), "scale": st.sampled_from([1e-6, 1e-9])}), quick=120,
      rule="detectors sharing everything, or all but the central wavelengths or responses, with the band")
def shared(case, ctx):
    import h5py
    from pyspectral.rsr_reader import RelativeSpectralResponse
    world = gen.World(ctx)
    wvl, resp = gen.build_curve(case["curve"])
    path = world.add_rsr("Suomi-NPP", "viirs", {"M01": [(wvl, resp, case["cwl"])]})
    with h5py.File(path, "w") as h5f:
        h5f.attrs.update({"platform_name": "Suomi-NPP", "sensor": "viirs", "description": "x", "band_names": ["M01"]})
        grp = h5f.create_group("M01")
        grp.attrs["number_of_detectors"] = case["ndet"]
        grp.attrs["central_wavelength"] = case["cwl"]
        grp["response"] = resp
        grp["wavelength"] = wvl * 1e-6 / case["scale"]
        grp["wavelength"].attrs["scale"] = case["scale"]
        for num in range(1, case["ndet"] + 1):
            if case["own"] == "central":
                grp.create_group(f"det-{num}").attrs["central_wavelength"] = case["cwl"] + num
            elif case["own"] == "response":
                grp[f"det-{num}/response"] = resp * num
    this = RelativeSpectralResponse("Suomi-NPP", "viirs")
    require(sorted(this.rsr["M01"]) == sorted(f"det-{k}" for k in range(1, case["ndet"] + 1)), "detectors", got=sorted(this.rsr["M01"]))
    for num in range(1, case["ndet"] + 1):
        det = this.rsr["M01"][f"det-{num}"]
        require(np.array_equal(det["response"], resp * (num if case["own"] == "response" else 1)), "response", det=num)
        require(np.allclose(det["wavelength"], wvl, rtol=1e-6), "wavelength", det=num)
        require(det["central_wavelength"] == case["cwl"] + (num if case["own"] == "central" else 0), "central wavelength", det=num, got=det["central_wavelength"])
    if case["ndet"] == 1:
        ctx.trivial("one detector")
    ctx.event(case["own"])
