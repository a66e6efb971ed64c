"""C23: agency files convert to faithful RSR files."""
import contextlib
import logging
import os
import random
import runpy
import sys

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.checks.c20 import quiet
from harness.core import REPO, prop, require

TECHNIQUE = "property-based testing (Hypothesis): generated agency files run through the real conversion scripts, read back and compared with the generated records"
RULE = "Cases are layouts of agency files (detectors, sampling, order, comments, missing records); non-trivial when records are out of order, missing, commented or detectors differ."
ASSUMPTIONS = ["Files of the column layouts the scripts document; sampling of detectors is either equal or differs by more than 1e-4 relative.",
               "The two FY-3B MERSI-1 files hold a wavelength and then the bands their names in the configuration template list: 1 to 4 and 8 to 20, and 6 and 7.",
               "SEVIRI: the rows and columns the script documents; the HRV columns of Meteosat-10 and -11 hold the same.",
               "convert_avhrr_old2star.py and split_metop_avhrr_rsrfile.py, with the paths of their author built in, are left out."]


@contextlib.contextmanager
def scripts():
    """Keep what the scripts change globally."""
    root = logging.getLogger("")
    handlers, level, argv, path = list(root.handlers), root.level, sys.argv, list(sys.path)
    others = {name: list(logging.getLogger(name).handlers) for name in ("__main__", "viirs_rsr", "ahi_rsr", "ami_rsr", "goci2_rsr", "msu_gs_rsr", "verif")}
    disabled = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    sys.argv = ["x"]
    try:
        with quiet(stdout=True):
            yield
    finally:
        logging.disable(disabled)
        root.handlers = handlers
        root.setLevel(level)
        for name, val in others.items():
            logging.getLogger(name).handlers = val
        sys.argv = argv
        sys.path[:] = path


def run(name, **call):
    """Run a script, or one of its functions."""
    path = os.path.join(REPO, "rsr_convert_scripts", name + ".py")
    with scripts():
        if not call:
            runpy.run_path(path, run_name="__main__")
            return
        names = runpy.run_path(path, run_name="verif")
        for func, arg in call.items():
            names[func](arg)


def curve(rng, center, npts, digits, lo=0.0):
    """Distinct wavelengths (as text) around a centre in micron, and responses."""
    width = center * rng.uniform(0.02, 0.1)
    wvl = sorted({round(center + width * (2 * (i + 0.3 * rng.random()) / npts - 1), digits) for i in range(npts)})
    resp = [round(max(lo, float(np.exp(-((w - center) / (0.6 * width)) ** 2)) * rng.uniform(0.8, 1.0)), 5) for w in wvl]
    if not lo:  # no response at all is not missing
        resp[0] = resp[-1] = 0.0
        for i in range(1, len(wvl) - 1):  # weak wings and gaps belong to the response as well
            if rng.random() < 0.15:
                resp[i] = rng.choice([0.0, 0.00012, 0.00003, 0.0008, -0.0005])
        resp[len(wvl) // 2] = max(resp[len(wvl) // 2], 0.3)
    return wvl, resp


def number(val, rng):
    """Different ways to write a number, without losing digits."""
    form = rng.randrange(4)
    return [repr(float(val)), f"{val:.9f}", f"{val:.10e}", f"{val:.8f}"][form]


def plain(name):
    return str(name).lower().replace("/", "").replace("-", "")


def judge(path, expect, what, order=None):
    """expect: {band: {detector: (wavelengths in micron, responses)}}."""
    from pyspectral.rsr_reader import RelativeSpectralResponse
    require(os.path.exists(path), f"{what}: no file", path=path, there=os.listdir(os.path.dirname(path)))
    rsr = RelativeSpectralResponse(filename=path)
    instrument, platform = os.path.basename(path)[len("rsr_"):-len(".h5")].rsplit("_", 1)
    require(rsr.platform_name == platform, f"{what}: platform", got=rsr.platform_name, expected=platform)
    require(plain(rsr.instrument) == plain(instrument), f"{what}: instrument", got=rsr.instrument, expected=instrument)
    require(sorted(rsr.band_names) == sorted(expect), f"{what}: bands", got=sorted(rsr.band_names), expected=sorted(expect))
    for band, dets in expect.items():
        require(sorted(rsr.rsr[band]) == sorted(dets), f"{what}: detectors", band=band, got=sorted(rsr.rsr[band]), expected=sorted(dets))
        for det, (wvl, resp) in dets.items():
            got = rsr.rsr[band][det]
            wvl, resp = np.asarray(wvl, "f8"), np.asarray(resp, "f8")
            gwvl, gresp = np.asarray(got["wavelength"], "f8"), np.asarray(got["response"], "f8")
            require(gwvl.shape == wvl.shape and gresp.shape == resp.shape, f"{what}: number of records", band=band, det=det, got=[gwvl.shape, gresp.shape],
                    expected=wvl.shape)
            require(np.allclose(gwvl, wvl, rtol=1e-6), f"{what}: wavelengths", band=band, det=det, got=gwvl, expected=wvl)
            require(np.allclose(gresp, resp, rtol=1e-6, atol=1e-9), f"{what}: responses", band=band, det=det, got=gresp, expected=resp)
            cwl = float(gen.central(wvl, resp))
            require(abs(float(got["central_wavelength"]) - cwl) < 1e-5 * cwl, f"{what}: central wavelength", band=band, det=det,
                    got=float(got["central_wavelength"]), expected=cwl)


LAYOUT = st.fixed_dictionaries({
    "seed": st.integers(0, 10 ** 6), "npts": st.lists(st.integers(6, 30), min_size=1, max_size=4), "ndet": st.lists(st.integers(1, 4), min_size=1, max_size=3),
    "different": st.sampled_from([0.0, 0.3, 1.0]), "shuffle": st.booleans(), "missing": st.sampled_from([0.0, 0.0, 0.2]),
    "comments": st.sampled_from([0.0, 0.0, 0.2]), "interleave": st.booleans(), "reverse_dets": st.booleans(), "drop": st.booleans(), "sep": st.sampled_from([" ", "  ", "\t"])})


def detectors(case, rng, center, k, digits, big=None):
    """Wavelengths and responses of the detectors of one band."""
    ndet = big or case["ndet"][k % len(case["ndet"])]
    base = curve(rng, center, case["npts"][k % len(case["npts"])], digits)
    out = {}
    for det in range(1, ndet + 1):
        if det > 1 and rng.random() < case["different"]:
            how = rng.randrange(3)
            if how == 0:     # the same number of records elsewhere
                wvl = [round(w * 1.002 + 0.0003 * det, digits) for w in base[0]]
                out[det] = (wvl, [round(min(1.0, r * 0.97), 5) for r in base[1]])
            elif how == 1:   # only some of the records
                keep = sorted(rng.sample(range(len(base[0])), max(4, len(base[0]) - 2)))
                out[det] = ([base[0][i] for i in keep], [base[1][i] for i in keep])
            else:
                out[det] = curve(rng, center * 1.001, case["npts"][0] + det, digits)
        else:
            out[det] = (base[0], [round(r * (1 - 0.01 * det), 5) for r in base[1]])
    return out


def event(case, ctx, what):
    ctx.event(what)
    if not (case["shuffle"] or case["missing"] or case["comments"] or case["different"] or case["drop"]):
        ctx.trivial("tidy files")


def modis_name(platform, num):
    if platform == "EOS-Terra":
        return f"rsr.{num}.inb.final"
    return f"{num:02d}.tv.1pct.det" if num in (5, 6, 7) or num >= 20 else f"{num:02d}.amb.1pct.det"


@prop(lambda: LAYOUT, quick=45, thorough=800, rule="MODIS, both satellites, all bands")
def modis(case, ctx):
    rng = random.Random(case["seed"])
    world = gen.World(ctx)
    os.environ["PSP_CONFIG_FILE"] = world.config_path
    expect = {}
    paths = []
    for platform in ("EOS-Terra", "EOS-Aqua"):
        folder = os.path.join(world.dir, "raw " + platform)
        os.makedirs(folder)
        world.settings[platform + "-modis"] = {"path": folder}
        expect[platform] = {}
        for num in range(1, 37):
            nano = num <= 19 or num == 26 or platform == "EOS-Aqua"
            center = 0.4 + 0.02 * num if num <= 19 or num == 26 else 3.0 + 0.4 * (num - 19)
            dets = detectors(case, rng, center, num, 4 if not nano else 5, big=12 if num == 31 else None)
            rows = []
            want = {}
            for det, (wvl, resp) in dets.items():
                kept = []
                for w, r in zip(wvl, resp):
                    gone = rng.random() < case["missing"] and len(wvl) > 5
                    text = number(w * 1000 if nano else w, rng)
                    rows.append((det, text, "-99" if gone and rng.random() < 0.5 else "-99.00000" if gone else repr(r)))
                    if not gone:
                        kept.append((float(text) * (0.001 if nano else 1.0), r))
                if len(kept) < 3 or sum(r for _, r in kept) <= 0:  # keep something
                    rows = [row for row in rows if row[0] != det]
                    kept = []
                    for w, r in zip(wvl, resp):
                        text = number(w * 1000 if nano else w, rng)
                        rows.append((det, text, repr(r)))
                        kept.append((float(text) * (0.001 if nano else 1.0), r))
                kept.sort()
                want[f"det-{det}"] = tuple(zip(*kept))
            if case["reverse_dets"]:
                rows.sort(key=lambda row: -row[0])
            if case["shuffle"]:
                if case["interleave"]:
                    rng.shuffle(rows)
                else:
                    rows.sort(key=lambda row: (row[0], rng.random()))
            path = os.path.join(folder, modis_name(platform, num))
            paths.append(path)
            with open(path, "w") as fp:
                fp.write("# MODIS in-band response\n#  band detector wavelength RSR\n")
                for det, w, r in rows:
                    if rng.random() < case["comments"]:
                        fp.write("# " + rng.choice(["note", "1 2 3 4", ""]) + "\n")
                    fp.write(case["sep"].join([str(num), str(det), w, r]) + "\n")
            expect[platform][str(num)] = want
    world.apply()
    run("modis_rsr")
    for platform in expect:
        judge(os.path.join(world.rsr_dir, f"rsr_modis_{platform}.h5"), expect[platform], platform)
    if case["drop"]:
        missing_file("modis_rsr", rng.choice(paths))
    event(case, ctx, f"different sampling {case['different']}")


def missing_file(script, path, **call):
    os.remove(path)
    try:
        run(script, **call)
        failed = False
    except Exception:
        failed = True
    require(failed, "a band without file raises no error", script=script, file=os.path.basename(path))


VIIRS_BANDS = [f"M{i}" for i in range(1, 17)] + [f"I{i}" for i in range(1, 6)] + ["DNB"]


@prop(lambda: st.fixed_dictionaries({"layout": LAYOUT, "platform": st.sampled_from(["NOAA-21", "Suomi-NPP", "NOAA-20", "NOAA-21"]), "short": st.booleans(),
                                     "header": st.integers(0, 4), "one_section": st.booleans()}), quick=60, thorough=800, rule="VIIRS, all bands")
def viirs(case, ctx):
    platform, short, nheader, one, case = case["platform"], case["short"], case["header"], case["one_section"], case["layout"]
    rng = random.Random(case["seed"])
    world = gen.World(ctx)
    os.environ["PSP_CONFIG_FILE"] = world.config_path
    folder = os.path.join(world.dir, "raw")
    os.makedirs(folder)
    if one:
        sections = {"section1": {"bands": VIIRS_BANDS, "filename": "rsr_{bandname}.txt"}}
    else:
        sections = {"section1": {"bands": VIIRS_BANDS[:16], "filename": "m/rsr_{bandname}_x.txt"},
                    "section2": {"bands": VIIRS_BANDS[16:], "filename": "i_{bandname}.dat"}}
        os.makedirs(os.path.join(folder, "m"))
    world.settings[platform + "-viirs"] = dict(sections, rootdir=folder)
    world.apply()
    expect = {}
    paths = []
    for k, band in enumerate(VIIRS_BANDS):
        dets = detectors(case, rng, 0.41 + 0.5 * k, k, 5, big=16 if band == "M13" else None)
        rows = []
        want = {}
        for det, (wvl, resp) in dets.items():
            kept = []
            for w, r in zip(wvl, resp):
                text = number(w * 1000, rng)
                rows.append((det, text, repr(r)))
                kept.append((float(text) * 0.001, r))
            want[f"det-{det}"] = tuple(zip(*sorted(kept)))
        expect[band] = want
        if case["reverse_dets"]:
            rows.sort(key=lambda row: -row[0])
        if case["shuffle"]:
            rng.shuffle(rows)
        name = next(s["filename"] for s in sections.values() if band in s["bands"]).replace("{bandname}", band)
        paths.append(os.path.join(folder, name))
        with open(paths[-1], "w") as fp:
            for i in range(nheader):
                fp.write("% header 1 2 3 4 5\n")
            for det, w, r in rows:
                if rng.random() < case["comments"]:
                    fp.write("# a comment\n")
                if platform == "Suomi-NPP" and short:
                    cols = [band, str(det), "1", w, r]
                elif platform == "Suomi-NPP":
                    cols = [band, str(det), "1", w, "123.4", "0.77", r, "0", "1"]
                else:
                    cols = [band, str(det), "1", w, r, "55.5", "50", "0", "17"]
                fp.write(case["sep"].join(cols) + "\n")
    if platform == "NOAA-21":
        call = {}
    else:
        call = {"create_viirs_rsr": platform}
    run("viirs_rsr", **call)
    judge(os.path.join(world.rsr_dir, f"rsr_viirs_{platform}.h5"), expect, platform)
    if case["drop"]:
        missing_file("viirs_rsr", rng.choice(paths), **call)
    event(case, ctx, f"{platform} sampling {case['different']}")


def channels(*numbers):
    return [f"ch{i}" for i in numbers]


# script: (instrument in the configuration, {platform: bands}, header lines, unit of the wavelengths, columns)
SIMPLE = {
    "abi_rsr": ("abi", {p: channels(*range(1, 17)) for p in ("GOES-16", "GOES-17", "GOES-18", "GOES-19")}, 2, "um", "wxr"),
    "ami_reader": ("ami", {"GEO-KOMPSAT-2A": channels(*range(1, 17))}, 4, "wn", "wr"),
    "msu_gs_reader": ("msu-gs", {"Electro-L-N2": channels(*range(1, 11))}, 4, "wn", "wr"),
    "slstr_rsr_txt": ("slstr", {f"Sentinel-3{x}": channels(*range(1, 10)) for x in "ABCD"}, 4, "wn", "wr"),
    "mersi1_rsr": ("mersi-1", {"FY-3A": channels(*range(1, 21)), "FY-3B": channels(1, 2, 3, 4, *range(6, 21)), "FY-3C": channels(*range(1, 21))}, 0, "nm", "wr"),
    "mersi2_rsr": ("mersi-2", {"FY-3D": channels(*range(1, 26))}, 0, "nm", "wr"),
    "mersi3_rsr": ("mersi3", {"FY-3F": channels(*range(1, 26))}, 0, "nm", "wr"),
    "mersirm_rsr": ("mersi-rm", {"FY-3G": channels(*range(1, 9))}, 1, "nm", "wr"),
    "virr_rsr": ("virr", {"FY-3B": channels(*range(1, 11)), "FY-3C": channels(1, 2, *range(6, 11))}, 0, "nm", "wr"),
    "agri_rsr": ("agri", {"FY-4B": channels(*range(1, 16))}, 1, "agri", "wr"),
    "ghi_rsr": ("ghi", {"FY-4B": channels(*range(1, 8))}, 1, "agri", "wr"),
    "avhrr_rsr": ("avhrr/3", {"Metop-C": channels(1, 2, "3a", "3b", 4, 5)}, 1, "um", "wr"),
}


# The bands of the two FY-3B MERSI-1 files, FY3B_mersi_srf_B1-4_B8-20.txt and FY3B_mersi_srf_B6-7.txt.
FY3B = (channels(1, 2, 3, 4, *range(8, 21)), channels(6, 7))
CUT = ("agri_rsr", "ghi_rsr", "mersi1_rsr")  # leave out responses up to 0.001


@prop(lambda: st.fixed_dictionaries({"script": st.sampled_from(sorted(SIMPLE)), "layout": LAYOUT, "percent": st.booleans()}), quick=100, thorough=1500,
      rule="converters of one file per band",
      examples=lambda tier: [{"script": s, "percent": p, "layout": {"seed": 1, "npts": [8, 12], "ndet": [1], "different": 0.0, "shuffle": False, "missing": 0.0,
                                                                      "comments": 0.3, "interleave": False, "reverse_dets": False, "drop": True, "sep": "\t"}}
                             for s in sorted(SIMPLE) for p in (False, True) if not p or s in ("agri_rsr", "ghi_rsr")])
def single(case, ctx):
    script, percent, case = case["script"], case["percent"], case["layout"]
    instrument, platforms, nheader, unit, columns = SIMPLE[script]
    rng = random.Random(case["seed"])
    world = gen.World(ctx)
    os.environ["PSP_CONFIG_FILE"] = world.config_path
    expect, paths = {}, []
    for platform, bands in platforms.items():
        folder = os.path.join(world.dir, "raw " + platform)
        os.makedirs(folder)
        conf = {"path": folder}
        expect[platform] = {}
        for k, band in enumerate(bands):
            wvl, resp = curve(rng, 0.41 + 0.4 * k, case["npts"][k % len(case["npts"])], 5, lo=0.01 if script in CUT else 0.0)
            if script in CUT and case["interleave"]:
                for i in rng.sample(range(len(resp)), 2):
                    if resp[i] < max(resp):
                        resp[i] = rng.choice([0.0, 0.0002, 0.0009, 0.0012, 0.0015, 0.004])
            scale = unit
            if unit == "agri":
                scale = "nm" if int(band[2:]) <= 6 else "um"
            factor = 1.0
            if unit == "agri" and percent and max(resp) > 0.1:
                factor = 100.0
            rows = []
            want = []
            for w, r in zip(wvl, resp):
                text = number({"um": w, "nm": w * 1000, "wn": 10000.0 / w}[scale], rng)
                val = float(text)
                rtext = repr(round(r * factor, 6))
                if r > 0.001 or script not in CUT:
                    want.append(({"um": val, "nm": val * 0.001, "wn": 10000.0 / val}[scale], float(rtext) / factor))
                cols = {"wr": [text, rtext], "wxr": [text, repr(10000.0 / w), rtext]}[columns]
                if script == "mersi1_rsr" and platform == "FY-3B":
                    cols = [text] + [repr(round(rng.uniform(0, 1), 4)) for _ in range(2 if band in FY3B[1] else 17)]
                    cols[1 + (FY3B[1] if band in FY3B[1] else FY3B[0]).index(band)] = rtext
                rows.append(cols)
            if scale == "wn":
                rows.reverse()
            expect[platform][band] = {"det-1": tuple(zip(*want))}
            conf[band] = f"{instrument.replace('/', '')} {band}.txt"
            paths.append(os.path.join(folder, conf[band]))
            sep = "\t" if unit == "agri" else case["sep"]
            with open(paths[-1], "w") as fp:
                for i in range(nheader):
                    fp.write(f"header line {i}\n")
                for cols in rows:
                    if rng.random() < case["comments"]:
                        fp.write("# a comment\n")
                    fp.write(sep.join(cols) + "\n")
        world.settings[f"{platform}-{instrument}"] = conf
    world.apply()
    run(script)
    for platform in platforms:
        name = f"rsr_{instrument.replace('/', '').replace('-', '')}_{platform}.h5"
        judge(os.path.join(world.rsr_dir, name), expect[platform], f"{script} {platform}")
    if case["drop"]:
        missing_file(script, rng.choice(paths))
    ctx.event(script)
    if not case["comments"] and not case["drop"]:
        ctx.trivial("tidy files")


@prop(lambda: LAYOUT, quick=40, thorough=400, rule="one table for all bands: COCTS and GOCI-2")
def tables(case, ctx):
    rng = random.Random(case["seed"])
    world = gen.World(ctx)
    os.environ["PSP_CONFIG_FILE"] = world.config_path
    # COCTS: wavelength and eight responses
    wvl = sorted({round(400 + 20 * i + 5 * rng.random(), 2) for i in range(case["npts"][0] + 4)})
    table = [[round(rng.uniform(0.01, 1.0), 5) for _ in range(8)] for _ in wvl]
    folder = os.path.join(world.dir, "raw")
    os.makedirs(folder)
    path = os.path.join(folder, "cocts.txt")
    with open(path, "w") as fp:
        for w, row in zip(wvl, table):
            if rng.random() < case["comments"]:
                fp.write("# a comment\n")
            fp.write(case["sep"].join([number(w, rng)] + [repr(r) for r in row]) + "\n")
    world.settings["HY-1C-cocts"] = dict({f"ch{i}": "cocts.txt" for i in range(1, 9)}, path=folder)
    # GOCI-2: pairs of columns of different length
    names = {"L380": "B1 (380 nm)", "L412": "B2 (412 nm)", "L443": "B3 (443 nm)", "L490": "B4 (490 nm)", "L510": "B5 (510 nm)", "L555": "B6 (555 nm)",
             "L620": "B7 (620 nm)", "L660": "B8 (660 nm)", "L680": "B9 (680 nm)", "L709": "B10 (709 nm)", "L745": "B11 (745 nm)", "L865": "B12 (865 nm)"}
    curves = {}
    for k, band in enumerate(names):
        cwvl, cresp = curve(rng, int(band[1:]) / 1000, case["npts"][k % len(case["npts"])], 5)
        # normalised in any case
        peak = rng.choice([1.0, 1.0, 0.8, 57.0])
        cresp[len(cresp) // 2] = 1.0
        curves[band] = (cwvl, cresp, [r * peak for r in cresp])
    csv = os.path.join(folder, "goci2.csv")
    with open(csv, "w") as fp:
        fp.write(",".join(f"wvl{i},{names[b]}" for i, b in enumerate(names)) + "\n")
        for i in range(max(len(c[0]) for c in curves.values())):
            fp.write(",".join(f"{round(c[0][i] * 1000, 3)},{c[2][i]}" if i < len(c[0]) else "," for c in curves.values()) + "\n")
    world.settings["GK-2B-goci2"] = {"path": csv}
    world.apply()
    run("cocts_rsr")
    judge(os.path.join(world.rsr_dir, "rsr_cocts_HY-1C.h5"),
          {f"ch{i + 1}": {"det-1": ([w * 0.001 for w in wvl], [row[i] for row in table])} for i in range(8)}, "cocts")
    run("goci2_rsr")
    judge(os.path.join(world.rsr_dir, "rsr_goci2_GK-2B.h5"), {b: {"det-1": c[:2]} for b, c in curves.items()}, "goci2")
    if case["drop"]:
        missing_file("cocts_rsr", path)
        missing_file("goci2_rsr", csv)
    event(case, ctx, "tables")


# ------------------------------------------------------------------------------------------------
# netCDF and spreadsheets

def write_nc(path, variables, groups=None):
    """variables: {name: (dimensions, array)}; groups: {group: variables}."""
    from netCDF4 import Dataset
    with Dataset(path, "w") as ncf:
        for where, items in [(ncf, variables)] + [(ncf.createGroup(g), v) for g, v in (groups or {}).items()]:
            for name, (dims, arr) in items.items():
                for dim, n in zip(dims, np.shape(arr)):
                    if dim not in where.dimensions:
                        where.createDimension(dim, n)
                arr = np.asarray(arr)
                var = where.createVariable(name, str if arr.dtype.kind in "UO" else "f8", dims)
                if arr.dtype.kind in "UO":
                    for i, text in enumerate(arr):
                        var[i] = text
                else:
                    var[:] = arr


def write_xlsx(path, sheets):
    """sheets: {name: rows}."""
    import openpyxl
    book = openpyxl.Workbook()
    book.remove(book.active)
    for name, rows in sheets.items():
        sheet = book.create_sheet(name)
        for i, row in enumerate(rows, start=1):
            for j, val in enumerate(row, start=1):
                if val is not None:
                    sheet.cell(row=i, column=j, value=val)
    book.save(path)


def write_xls(path, sheets):
    """A plain BIFF5 stream: {name: {(row, column): number or text}}."""
    import struct

    def rec(num, data=b""):
        return struct.pack("<HH", num, len(data)) + data

    def bof(kind):
        return rec(0x0809, struct.pack("<HHHH", 0x0500, kind, 0x0DBB, 1996))
    bodies = []
    for cells in sheets.values():
        nrow = max(r for r, _ in cells) + 1
        ncol = max(c for _, c in cells) + 1
        body = bof(0x0010) + rec(0x0200, struct.pack("<HHHHH", 0, nrow, 0, ncol, 0))
        for (row, col), val in sorted(cells.items()):
            if isinstance(val, str):
                raw = val.encode("cp1252")
                body += rec(0x0204, struct.pack("<HHHH", row, col, 0, len(raw)) + raw)
            else:
                body += rec(0x0203, struct.pack("<HHHd", row, col, 0, val))
        bodies.append(body + rec(0x000A))
    font = rec(0x0031, struct.pack("<HHHHHBBBB", 200, 0, 0x7FFF, 400, 0, 0, 0, 0, 0) + b"\x05Arial")
    style = rec(0x00E0, struct.pack("<HHHHHHHH", 0, 0, 0xFFF5, 0x20, 0, 0, 0, 0))
    names = [n.encode("cp1252") for n in sheets]
    head_len = len(bof(5)) + len(rec(0x0042, b"\xe4\x04")) + 4 * len(font) + len(style) + sum(4 + 7 + len(n) for n in names) + 4
    out = bof(5) + rec(0x0042, b"\xe4\x04") + 4 * font + style
    pos = head_len
    for name, body in zip(names, bodies):
        out += rec(0x0085, struct.pack("<IBBB", pos, 0, 0, len(name)) + name)
        pos += len(body)
    out += rec(0x000A)
    with open(path, "wb") as fp:
        fp.write(out + b"".join(bodies))


FCI = ["VIS0.4", "VIS0.5", "VIS0.6_HR", "VIS0.8", "VIS0.9", "NIR1.3", "NIR1.6", "NIR2.2_HR", "IR3.8_HR", "WV6.3", "WV7.3", "IR8.7", "IR9.7", "IR10.5_HR",
       "IR12.3", "IR13.3"]
METIMAGE = {443: 4, 555: 8, 668: 12, 752: 15, 763: 16, 865: 17, 914: 20, 1240: 22, 1375: 23, 1630: 24, 2250: 25, 3740: 26, 3959: 28, 4050: 30, 6725: 33,
            7325: 34, 8540: 35, 10690: 37, 12020: 39, 13345: 40}
EPIC = {"B317": "T(317.5) %", "B325": "T(325) %", "B340": "T(340) %", "B388": "T(388) %", "B443": "T(443) %", "B551": "T(551) %", "B680": "T(680) %",
        "B688": "T(687.75) %", "B764": "T(764) %", "B780": "T(779.5) %"}
MSI = dict({f"B{i:02d}": f"B{i}" for i in range(1, 13)}, B8A="B8A")
OLI = {"B1": ("CoastalAerosol", 0.443), "B2": ("Blue", 0.482), "B3": ("Green", 0.561), "B4": ("Red", 0.655), "B5": ("NIR", 0.865), "B6": ("SWIR1", 1.609),
       "B7": ("SWIR2", 2.201), "B8": ("Pan", 0.590), "B9": ("Cirrus", 1.373)}


def fci(case, rng, world):
    npts = case["npts"][0] + 3
    order = list(FCI)
    if case["shuffle"]:
        rng.shuffle(order)
    curves = {b: exact(rng, 0.44 + 0.8 * i, npts) for i, b in enumerate(FCI)}
    folder = os.path.join(world.dir, "fci")
    os.makedirs(folder)
    write_nc(os.path.join(folder, "srf.nc"), {"wavelength": (("n", "chan"), np.array([curves[b][0] for b in order]).T * 1e-6),
                                              "srf": (("n", "chan"), np.array([curves[b][1] for b in order]).T),
                                              "channel_id": (("chan",), np.array(order, dtype=object))})
    for name in ("Meteosat-12", "MTG-I1"):
        world.settings[name + "-fci"] = {"path": folder, "filename": "srf.nc"}
    return {f"rsr_fci_{p}.h5": {b: {"det-1": c} for b, c in curves.items()} for p in ("Meteosat-12", "MTG-I1")}, [os.path.join(folder, "srf.nc")]


def olci(case, rng, world):
    npts = case["npts"][0] + 3
    bands = [f"Oa{i:02d}" for i in range(1, 22)]
    curves = {b: exact(rng, 0.4 + 0.03 * i, npts) for i, b in enumerate(bands)}
    path = os.path.join(world.dir, "olci.nc4")
    write_nc(path, {"mean_spectral_response_function": (("band", "n"), np.array([curves[b][1] for b in bands])),
                    "mean_spectral_response_function_wavelength": (("band", "n"), np.array([curves[b][0] for b in bands]) * 1000.0)})
    world.settings["Sentinel-3B-olci"] = {"path": path}
    return {"rsr_olci_Sentinel-3B.h5": {b: {"det-1": c} for b, c in curves.items()}}, [path]


def slstr(case, rng, world):
    folder = os.path.join(world.dir, "slstr")
    os.makedirs(folder)
    conf, curves, paths = {"path": folder}, {}, []
    for i in range(1, 10):
        curves[f"ch{i}"] = exact(rng, 0.4 + i, case["npts"][i % len(case["npts"])])
        conf[f"ch{i}"] = f"s{i}.nc"
        paths.append(os.path.join(folder, f"s{i}.nc"))
        write_nc(paths[-1], {"wavelength": (("n",), curves[f"ch{i}"][0]), "response": (("n",), curves[f"ch{i}"][1])})
    world.settings["Sentinel-3B-slstr"] = conf
    return {"rsr_slstr_Sentinel-3B.h5": {b: {"det-1": c} for b, c in curves.items()}}, paths


def metimage(case, rng, world):
    path = os.path.join(world.dir, "metimage.nc")
    groups, expect = {"VISNIR": {}, "SMWIR": {}, "LVWIR": {}}, {}
    for k, (wvl, num) in enumerate(METIMAGE.items()):
        w, r = exact(rng, wvl / 1000, case["npts"][k % len(case["npts"])])
        peak = rng.uniform(0.3, 2.0)
        rows = [(a, b * peak) for a, b in zip(w, r)]
        if case["shuffle"]:
            rng.shuffle(rows)
        groups["LVWIR" if wvl > 6000 else "SMWIR" if wvl > 1000 else "VISNIR"][f"ISRF_cw_{wvl}"] = ((f"n{k}", "two"), np.array(rows))
        expect[f"vii-{num}"] = {"det-1": (w, [b / max(r) for b in r])}
    write_nc(path, {}, groups)
    world.settings["Metop-SG-A1-metimage"] = {"path": path}
    return {"rsr_metimage_Metop-SG-A1.h5": expect}, [path]


def epic(case, rng, world):
    path = os.path.join(world.dir, "epic.xlsx")
    curves = {b: exact(rng, float(c[2:c.index(")")]) / 1000, case["npts"][k % len(case["npts"])], lo=0.01) for k, (b, c) in enumerate(EPIC.items())}
    rows = [["EPIC"], [], [], [None, "note"], [t for c in EPIC.values() for t in ("Wavelength", c)], []]
    rows[4] = [t for k, c in enumerate(EPIC.values()) for t in (f"Wvl {k}", c)]
    for i in range(max(len(c[0]) for c in curves.values())):
        rows.append([v for w, r in curves.values() for v in ((w[i] * 1000, r[i] * 70) if i < len(w) else (None, None))])
    sheets = {"Data": rows}
    if case["reverse_dets"]:
        sheets = {"Info": [["x"]], "Data": rows}
    write_xlsx(path, sheets)
    world.settings["DSCOVR-epic"] = {"path": path}
    return {"rsr_epic_DSCOVR.h5": {b: {"det-1": (w, [v / max(r) for v in r])} for b, (w, r) in curves.items()}}, [path]


def msi(case, rng, world):
    path = os.path.join(world.dir, "msi.xlsx")
    grid = list(range(400, 480))
    expect, sheets = {}, {}
    for plat, short in (("Sentinel-2A", "S2A"), ("Sentinel-2B", "S2B"), ("Sentinel-2C", "S2C")):
        cols, want = {}, {}
        for band, name in MSI.items():
            lo = rng.randrange(3, 50)
            hi = lo + rng.randrange(3, 25)
            resp = [round(rng.uniform(0.05, 1.0), 5) if lo <= i <= hi else 0.0 for i in range(len(grid))]
            for i in range(lo, hi + 1):  # weak wings and gaps
                if rng.random() < 0.2 or (case["interleave"] and (i < lo + 3 < hi - 3 or i > hi - 3 > lo + 3)):
                    resp[i] = rng.choice([0.0, 0.00002, 0.0004, 0.0009] if lo < i < hi else [0.00002, 0.0004])
            resp[(lo + hi) // 2] = 0.7
            cols[name] = resp
            keep = range(lo - 2, min(hi + 3, len(grid)))
            want[band] = {"det-1": ([grid[i] / 1000 for i in keep], [resp[i] for i in keep])}
        order = list(cols)
        if case["shuffle"]:
            rng.shuffle(order)
        sheets[f"Spectral Responses ({short})"] = [["SR_WL"] + [f"{short}_SR_AV_{n}" for n in order]] + \
            [[w] + [cols[n][i] for n in order] for i, w in enumerate(grid)]
        expect[f"rsr_msi_{plat}.h5"] = want
        world.settings[f"{plat}-msi"] = {"path": path}
    write_xlsx(path, sheets)
    return expect, [path]


def msu_gsa(case, rng, world):
    path = os.path.join(world.dir, "msugsa.xlsx")
    sheets, expect = {}, {f"ch{i}": {} for i in range(1, 11)}
    for kind, bands, lo in (("vis", range(1, 4), 0.4), ("IR", range(4, 11), 3.0)):
        wvl = exact(rng, lo + 0.5, case["npts"][0])[0]  # the two instruments have the same sampling
        for det in (1, 2):
            table = [[round(rng.uniform(0.01, 1.0), 5) for _ in bands] for _ in wvl]
            sheets[f"MSU-{det} {kind}"] = [["title"], ["sub"], ["Wavelength"] + [f"band {i}" for i in bands]] + [[w] + row for w, row in zip(wvl, table)]
            for k, i in enumerate(bands):
                expect[f"ch{i}"][f"det-{det}"] = (wvl, [row[k] for row in table])
    write_xlsx(path, sheets)
    world.settings["Arctica-M-N1-msu-gsa"] = {"path": path}
    return {"rsr_msugsa_Arctica-M-N1.h5": expect}, [path]


def ahi(case, rng, world):
    expect, paths = {}, []
    for sat in (8, 9):
        sheets, want = {"Title": {(0, 0): "AHI"}}, {}
        for i in range(1, 17):
            w, r = exact(rng, 0.4 + 0.7 * i, case["npts"][i % len(case["npts"])])
            cells = {(0, 0): f"Band {i}", (4, 0): "Wavelength", (4, 2): "SRF"}
            for k, (a, b) in enumerate(zip(w, r)):
                cells.update({(5 + k, 0): a, (5 + k, 1): 10000.0 / a, (5 + k, 2): b})
            sheets[f"Band {i}" + (" " if case["shuffle"] else "")] = cells
            want[f"ch{i}"] = {"det-1": (w, r)}
        paths.append(os.path.join(world.dir, f"ahi{sat}.xls"))
        write_xls(paths[-1], sheets)
        world.settings[f"Himawari-{sat}-ahi"] = {"path": paths[-1]}
        expect[f"rsr_ahi_Himawari-{sat}.h5"] = want
    return expect, paths


def aatsr(case, rng, world):
    sheets, want = {}, {}
    for k, band in enumerate(["ir12", "ir11", "ir37", "v16", "v870", "v659", "v555"]):
        w, r = exact(rng, 0.5 + k, case["npts"][k % len(case["npts"])])
        cells = {(i, 0): t for i, t in enumerate(["AATSR", "response", "wavelength response"])}
        cells.update({(3 + i, 0): case["sep"].join([repr(a), repr(b)]) for i, (a, b) in enumerate(zip(w, r))})
        sheets["aatsr_" + band] = cells
        want[band] = {"det-1": (w, r)}
    if case["shuffle"]:
        items = list(sheets.items())
        rng.shuffle(items)
        sheets = dict(items)
    path = os.path.join(world.dir, "aatsr.xls")
    write_xls(path, sheets)
    world.settings["Envisat-aatsr"] = {"path": path}
    return {"rsr_aatsr_Envisat.h5": want}, [path]


def oli(case, rng, world):
    folder = os.path.join(world.dir, "oli")
    os.makedirs(folder)
    expect, paths = {}, []
    for plat, num in (("Landsat-8", 8), ("Landsat-9", 9)):
        want, sheets = {}, {}
        for band, (name, center) in OLI.items():
            w, r = exact(rng, center, case["npts"][0] + 2, lo=0.01)
            rows = [["Wavelength", "x", "BA RSR [watts]"]] + [[a * 1000, 1, b] for a, b in zip(w, r)]
            sheets[name] = rows[:1] + [[w[0] * 900, 1, 0.001]] + rows[1:] + [[w[-1] * 1100, 1, 0.0]]
            want[band] = {"det-1": (w, r)}
        paths.append(os.path.join(folder, f"oli{num}.xlsx"))
        write_xlsx(paths[-1], sheets)
        cols = {8: ("TIRS1 10.8um band average", "TIRS2 12.0um band average"), 9: ("Band 10 Band=Average RSR", "Band 11 Band-Average RSR")}[num]
        sheets, both = {}, []
        for band, center, col in (("B10", 10.9, cols[0]), ("B11", 12.0, cols[1])):
            w, r = exact(rng, center, 9, lo=0.01)
            want[band] = {"det-1": (w, r)}
            both.append((w, r, col))
        if num == 8:  # one sheet: all wavelengths
            grid = sorted(set(both[0][0]) | set(both[1][0]))
            look = [dict(zip(w, r)) for w, r, _ in both]
            sheets["TIRS BA RSR"] = [["wavelength [um]", cols[0], cols[1]]] + [[w, look[0].get(w, 0.0), look[1].get(w, 0.0)] for w in grid]
        else:
            for (w, r, col), band in zip(both, (10, 11)):
                sheets[f"TIRS Band {band} BA RSR"] = [["wavelength [um]", col]] + [[a, b] for a, b in zip(w, r)]
        paths.append(os.path.join(folder, f"tirs{num}.xlsx"))
        write_xlsx(paths[-1], sheets)
        world.settings[f"{plat}-oli_tirs"] = {"path": folder, "oli": f"oli{num}.xlsx", "tirs": f"tirs{num}.xlsx"}
        expect[f"rsr_oli_tirs_{plat}.h5"] = want
    return expect, paths


def avhrr1(case, rng, world):
    sheets, expect = {"Kleespies Data": {(0, 0): "other"}}, {}
    for k, plat in enumerate(["TIROS-N", "NOAA-6", "NOAA-8", "NOAA-10"], start=1):
        expect[f"rsr_avhrr1_{plat}.h5"] = {}
        for chan in range(1, 5):
            w, r = exact(rng, (0.63, 0.91, 3.7, 11.0)[chan - 1], case["npts"][(chan + k) % len(case["npts"])])
            unit = rng.choice(["nm", "\u00c5"])
            cells = {(0, 0): rng.choice(["# ", "#", ""]) + plat, (1, 0): f"Wavelength ({unit})"}
            for i, (a, b) in enumerate(zip(w, r)):
                cells.update({(2 + i, 0): a * (1000.0 if unit == "nm" else 10000.0), (2 + i, 1): b})
            for i in range(rng.randrange(3)):
                cells[2 + len(w) + i, 0] = "# note"
            sheets[f"A10{k}C00{chan}"] = cells
            expect[f"rsr_avhrr1_{plat}.h5"][f"ch{chan}"] = {"det-1": (w, r)}
    path = os.path.join(world.dir, "AVHRR1_SRF_only.xls")
    write_xls(path, sheets)
    world.settings["avhrr/1"] = {"path": path, "filename": "none.xls"}
    return expect, [path]


def seviri(case, rng, world):
    sats = [f"Meteosat-{i}" for i in range(8, 12)]
    sheets = {"Info": {(0, 0): "x"}, "Requirements": {(0, 0): "x"}}
    expect = {f"rsr_seviri_{s}.h5": {} for s in sats}
    for band in ["HRV", "VIS0.6", "VIS0.8", "NIR1.6", "IR3.9", "IR6.2", "IR7.3", "IR8.7", "IR9.7", "IR10.8", "IR12.0", "IR13.4"]:
        center = 0.75 if band == "HRV" else float(band[-3:] if band[-4] != "1" else band[-4:])
        first, columns = {"H": (37, [1, 3, 5, 6]), "I": (13, [1, 3, 5, 7])}.get(band[0], (12, [1, 2, 3, 4]))
        w, r = exact(rng, center, 100)
        cells = {(0, 0): band}
        for k, (sat, col) in enumerate(zip(sats, columns)):
            resp = [round(v * (1 - 0.03 * k), 6) for v in r]
            if band == "HRV" and k == 3:  # not to depend on which of the extended columns is taken
                resp = [round(v * (1 - 0.03 * 2), 6) for v in r]
            for i, (a, b) in enumerate(zip(w, resp)):
                cells.update({(first + i, 0): a, (first + i, col): b})
                if band[0] == "I":
                    cells[first + i, col + 1] = b * 0.5  # at the other temperature
            expect[f"rsr_seviri_{sat}.h5"][band] = {"det-1": (w, resp)}
        # the record before, which holds next to nothing, is left out
        sheets[band + (" " if case["shuffle"] else "")] = cells
    path = os.path.join(world.dir, "seviri.xls")
    write_xls(path, sheets)
    world.settings["seviri"] = {"path": path, "filename": "none.XLS"}
    return expect, [path]


BINARY = {"avhrr1_rsr": avhrr1, "seviri_rsr": seviri, "fci_rsr": fci, "olci_rsr": olci, "slstr_rsr": slstr, "metimage_rsr": metimage, "epic_reader": epic, "msi_reader": msi, "msu_gsa_reader": msu_gsa,
          "ahi_reader": ahi, "aatsr_reader": aatsr, "oli_tirs_reader": oli}


def exact(rng, center, npts, lo=0.0):
    wvl, resp = curve(rng, center, npts, 5, lo=lo)
    while len(wvl) < npts:  # the same number everywhere
        wvl.append(round(wvl[-1] + 0.001, 5))
        resp.append(lo)
    return wvl, resp


@prop(lambda: st.fixed_dictionaries({"script": st.sampled_from(sorted(BINARY)), "layout": LAYOUT}), quick=60, thorough=800,
      rule="netCDF and spreadsheet converters",
      examples=lambda tier: [{"script": s, "layout": {"seed": 1, "npts": [8, 12], "ndet": [1], "different": 0.0, "shuffle": True, "missing": 0.0, "comments": 0.0,
                                                      "interleave": False, "reverse_dets": True, "drop": True, "sep": " "}} for s in sorted(BINARY)])
def binary(case, ctx):
    script, case = case["script"], case["layout"]
    rng = random.Random(case["seed"])
    world = gen.World(ctx)
    os.environ["PSP_CONFIG_FILE"] = world.config_path
    expect, paths = BINARY[script](case, rng, world)
    world.apply()
    run(script)
    for name, want in expect.items():
        judge(os.path.join(world.rsr_dir, name), want, f"{script} {name}")
    if case["drop"]:
        missing_file(script, rng.choice(paths))
    ctx.event(script)
    event(case, ctx, "binary")


@prop(lambda: st.fixed_dictionaries({"layout": LAYOUT, "old": st.lists(st.sampled_from(["name", "number", "both"]), min_size=2, max_size=2),
                                     "exists": st.booleans(), "long": st.booleans()}), quick=25, thorough=300,
      rule="MODIS files renamed to the platform names of OSCAR")
def renaming(case, ctx):
    import hashlib
    layout = case["layout"]
    rng = random.Random(layout["seed"])
    where = ctx.dir()
    expect, before = {}, {}
    for i, (name, how) in enumerate(zip(("Aqua", "Terra"), case["old"])):
        bands, expect[name] = {}, {}
        for k in range(1, 1 + len(layout["npts"])):
            dets = []
            for _ in range(layout["ndet"][k % len(layout["ndet"])]):
                wvl, resp = curve(rng, 0.4 + 0.4 * k, layout["npts"][k - 1], 5, lo=0.01)
                dets.append((np.array(wvl), np.array(resp), gen.central(np.array(wvl), np.array(resp))))
            bands[str(k)] = dets
            expect[name][str(k)] = {f"det-{d + 1}": det[:2] for d, det in enumerate(dets)}
        path = os.path.join(where, f"rsr_modis_EOS-{name}.h5")
        gen.write_rsr_file(path, bands, platform_name=None if how == "number" else f"EOS-{name}", sensor="modis" if how == "both" else None,
                           extra_attrs=None if how == "name" else {"platform": "eos", "sat_number": 2 - i})
        with open(path, "rb") as fp:
            before[path] = hashlib.sha1(fp.read()).hexdigest()
        if case["exists"]:
            with open(os.path.join(where, f"rsr_modis_{name}.h5"), "w") as fp:
                fp.write("something older")
    with scripts():
        sys.argv = ["x", "--directory" if case["long"] else "-d", where]
        runpy.run_path(os.path.join(REPO, "rsr_convert_scripts", "modis_old2new_rsr.py"), run_name="__main__")
    from pyspectral.rsr_reader import RelativeSpectralResponse
    for name, want in expect.items():
        path = os.path.join(where, f"rsr_modis_{name}.h5")
        judge(path, want, f"renamed {name}")
        rsr = RelativeSpectralResponse(filename=path)
        require(rsr.platform_name in (name, "EOS-" + name) and rsr.instrument == "modis", "platform and instrument", got=[rsr.platform_name, rsr.instrument])
    for path, digest in before.items():
        with open(path, "rb") as fp:
            require(hashlib.sha1(fp.read()).hexdigest() == digest, "the old file was changed", path=path)
    ctx.event(f"{case['old']}")
