"""C15: instrument names."""
import json
import logging
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): generated spellings against a reference table of platforms and instruments; exhaustive "
             "sweep over all platforms, instruments and accepted spellings")
RULE = "Cases are (platform, name) pairs; non-trivial when the name is not already the resolved one."
ASSUMPTIONS = ["Names are ASCII without surrounding blanks.",
               "Accepted spellings: the listed name, its AVHRR dash form and its form without slash and dash, in any case."]

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
AVHRR = {"avhrr/1": "avhrr-1", "avhrr/2": "avhrr-2", "avhrr/3": "avhrr-3"}


def instruments():
    """Platforms and instruments, as of the base version."""
    with open(os.path.join(DATA, "instruments.json")) as fp:
        return json.load(fp)


def listed(entry):
    return entry if isinstance(entry, list) else [entry]


def resolved(name):
    return name.lower().replace("/", "").replace("-", "")


def spellings(name):
    out = [name, resolved(name)]
    if name in AVHRR:
        out.append(AVHRR[name])
    out += [o.upper() for o in out] + [o.capitalize() for o in out]
    return sorted(set(out))


ALL_NAMES = sorted({n for e in instruments().values() for n in listed(e)})
ODD = ["vii", "sensor", "avhrr", "x", "VIIRS2", "mer-si", "mod", "seviri-2", "a/b", "Olci-X"]


def expected(platform, name):
    """(resolved name, whether a warning is due)."""
    table = instruments()
    if platform not in table:
        return resolved(name), False
    for cand in listed(table[platform]):
        if name.lower() in [s.lower() for s in spellings(cand)]:
            return resolved(cand), False
    return resolved(listed(table[platform])[0]), True


class Warned(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, record):
        self.records.append(record)


def watch(func, *args):
    """Run it, collect the warnings logged by pyspectral."""
    logger = logging.getLogger("pyspectral")
    hand = Warned()
    old = logger.level, logger.propagate, logger.disabled, logging.root.manager.disable
    logger.addHandler(hand)
    logger.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    try:
        out = func(*args)
    finally:
        logger.removeHandler(hand)
        logger.setLevel(old[0])
        logging.disable(old[3])
    return out, [r for r in hand.records if r.levelno >= logging.WARNING]


def sweep(tier):
    table = instruments()
    pairs = []
    for platform in sorted(table) + ["My-Sat-1"]:
        for name in ALL_NAMES:
            for spell in spellings(name):
                pairs.append([platform, spell])
        pairs += [[platform, odd] for odd in ODD]
    return [{"pairs": pairs[k:k + 400]} for k in range(0, len(pairs), 400)]


NAMES = st.one_of(st.sampled_from([s for n in ALL_NAMES for s in spellings(n)]), st.sampled_from(ODD),
                  st.text("abcdefimorsvABC123-/", min_size=1, max_size=8))
PLATFORMS = st.one_of(st.sampled_from(sorted(instruments())), st.sampled_from(["My-Sat-1", "noaa-20", "NOAA-99", ""]))


@prop(lambda: st.fixed_dictionaries({"pairs": st.lists(st.tuples(PLATFORMS, NAMES), min_size=1, max_size=20)}), quick=300,
      examples=sweep, rule="resolution for the response files: every platform with every spelling of every instrument")
def resolution(case, ctx):
    from pyspectral.utils import check_and_adjust_instrument_name
    changed = False
    for platform, name in case["pairs"]:
        want, warn = expected(platform, name)
        got, warnings = watch(check_and_adjust_instrument_name, platform, name)
        require(got == want, "instrument resolves to another one", platform=platform, name=name, got=got, expected=want)
        require(bool(warnings) == warn, "warning expected" if warn else "unexpected warning", platform=platform, name=name,
                got=[r.getMessage() for r in warnings])
        again, warnings = watch(check_and_adjust_instrument_name, platform, got)
        require(again == got, "resolving twice changes the name", platform=platform, name=name, got=again, expected=got)
        require(not warnings, "the resolved name is not recognised", platform=platform, name=got)
        changed |= got != name
    if not changed:
        ctx.trivial("nothing to resolve")
    ctx.event(f"pairs {'1-20' if len(case['pairs']) <= 20 else 'sweep'}")


def file_sweep(tier):
    table = instruments()
    return [{"platform": p, "names": [s for n in listed(table[p]) for s in spellings(n)] + ODD[:2]} for p in sorted(table)]


@prop(lambda: st.fixed_dictionaries({"platform": PLATFORMS.filter(bool), "names": st.lists(NAMES, min_size=1, max_size=6)}), quick=80,
      examples=file_sweep, rule="the file read: all of a platform's instruments have a file, the right one is read")
def data_file(case, ctx):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    world = gen.World(ctx)
    platform = case["platform"]
    table = instruments()
    files = sorted({resolved(n) for n in listed(table.get(platform, []))} | {expected(platform, n)[0] for n in case["names"]} | {"viirs", "modis"})
    for i, inst in enumerate(files):
        if inst:
            world.add_rsr(platform, inst, {"ch1": [(np.linspace(1.0, 1.2, 5), np.array([.1, 1, 1, 1, .1]), 1.0 + i)]})
    for name in case["names"]:
        want, _ = expected(platform, name)
        if not want:
            continue
        this = RelativeSpectralResponse(platform, name)
        require(os.path.basename(str(this.filename)) == f"rsr_{want}_{platform}.h5", "file", name=name, got=str(this.filename))
        require(this.rsr["ch1"]["det-1"]["central_wavelength"] == 1.0 + files.index(want), "data of another instrument", name=name)
        require(this.instrument == want, "instrument", name=name, got=this.instrument, expected=want)
    ctx.event("known" if platform in table else "unknown platform")


def atm_sweep(tier):
    table = instruments()
    pairs = [[p, s] for p in sorted(table) + ["My-Sat-1"] for n in ALL_NAMES for s in (n,)] + [[p, o] for p in sorted(table) for o in ODD[:5]]
    return [{"pairs": pairs[k:k + 400]} for k in range(0, len(pairs), 400)]


@prop(lambda: st.fixed_dictionaries({"pairs": st.lists(st.tuples(PLATFORMS, st.one_of(
    st.sampled_from(ALL_NAMES), st.sampled_from(ODD), st.text("abcdefimorsv123-/", min_size=1, max_size=8))), min_size=1, max_size=20)}),
    quick=200, examples=atm_sweep, rule="resolution for the atmospheric correction")
def atmospheric(case, ctx):
    from pyspectral.rayleigh import normalize_sensor
    table = instruments()
    for platform, name in case["pairs"]:
        entry = table.get(platform, name)
        refuse = isinstance(entry, list) and name not in entry
        try:
            got, warnings = watch(normalize_sensor, platform, name)
        except ValueError:
            got, warnings = ValueError, []
        if refuse:
            want = ValueError
        else:
            want = (name if isinstance(entry, list) else entry).replace("/", "")
        require(got == want, "sensor for the correction", platform=platform, name=name, got=got, expected=want)
        if want is not ValueError:
            require(bool(warnings) == (not isinstance(entry, list) and entry != name), "warning", platform=platform, name=name,
                    got=[r.getMessage() for r in warnings])
            # the responses read later are those of the same instrument
            from pyspectral.utils import check_and_adjust_instrument_name
            require(check_and_adjust_instrument_name(platform, got) == resolved(want), "responses of another instrument",
                    platform=platform, name=name, got=check_and_adjust_instrument_name(platform, got))
    ctx.event("pairs")


def alias_pairs(inst):
    """(name a file holds, [names by which the user may ask for it]) of an instrument."""
    with open(os.path.join(DATA, "bandnames.json")) as fp:
        tabs = json.load(fp)
    key = {"avhrr3": "avhrr-3", "metimage": "VII"}.get(resolved(inst), resolved(inst))
    table = tabs.get(key, tabs["generic"])
    out = {}
    for alias, name in sorted(table.items()):
        if table.get(name, name) == name:
            out.setdefault(name, [name]).append(alias)
    return sorted((name, sorted(set(asked))) for name, asked in out.items())


@st.composite
def uses(draw, platforms=None):
    table = instruments()
    platform = draw(st.sampled_from(platforms or sorted(table)))
    inst = draw(st.sampled_from(listed(table[platform])))
    pairs = draw(st.lists(st.sampled_from(alias_pairs(inst)), min_size=2, max_size=3, unique_by=lambda p: p[0]))
    names = st.one_of(st.sampled_from(spellings(inst)), st.sampled_from(spellings(inst)), st.sampled_from(ODD + ALL_NAMES))
    return {"platform": platform, "inst": inst, "bands": [[name, draw(st.sampled_from(asked))] for name, asked in pairs],
            "name": draw(names), "space": draw(st.sampled_from(["wavelength", "wavenumber"])), "by": draw(st.sampled_from(["name", "alias", "number"])),
            "width": draw(gen.floats(0.05, 0.2)), "nir": draw(st.booleans())}


def use_sweep(tier):
    out = []
    for platform, entry in sorted(instruments().items()):
        for k, inst in enumerate(listed(entry)):
            pairs = alias_pairs(inst)
            for j, name in enumerate(spellings(inst)):
                chosen = [pairs[j % len(pairs)], pairs[(j + 1) % len(pairs)]]
                out.append({"platform": platform, "inst": inst, "bands": [[n, a[(j + k) % len(a)]] for n, a in chosen], "name": name,
                            "space": ["wavelength", "wavenumber"][(j + len(platform)) % 2], "by": ["alias", "number", "name"][j % 3],
                            "width": 0.1, "nir": bool((j + k) % 2)})
    return out if tier == "thorough" else out[::2]


@prop(uses, quick=200, examples=use_sweep,
      rule="converters and reflectance calculators made with any spelling of the instrument and any name of the band")
def spelled(case, ctx):
    from pyspectral.near_infrared_reflectance import Calculator
    from pyspectral.radiance_tb_conversion import RadTbConverter
    world = gen.World(ctx)
    platform, inst = case["platform"], case["inst"]
    want, _ = expected(platform, case["name"])
    if want != resolved(inst):
        # another instrument of the platform, or its first one, is meant: it has no file here, so nothing may be found
        for what in (RadTbConverter, Calculator):
            world.add_rsr(platform, resolved(inst), {case["bands"][0][0]: [(np.linspace(3.6, 3.8, 5), np.array([.1, 1, 1, 1, .1]), 3.7)]})
            try:
                what(platform, case["name"], case["bands"][0][0])
            except FileNotFoundError:
                continue
            require(False, "data of another instrument were used", what=what.__name__, **case)
        ctx.event("another instrument")
        return
    centers = [3.7, 10.8, 6.2]
    bands = {}
    for (name, _), cen in zip(case["bands"], centers):
        wvl = np.linspace(cen - case["width"], cen + case["width"], 9)
        resp = np.array([0.0, 0.2, 0.7, 1.0, 0.9, 1.0, 0.5, 0.1, 0.0])
        bands[name] = [(wvl, resp, cen)]
    world.add_rsr(platform, resolved(inst), bands)
    name, alias = case["bands"][0]
    band = {"name": name, "alias": alias, "number": 3.72}[case["by"]]
    conv = RadTbConverter(platform, case["name"], band, wavespace=case["space"])
    wvl, resp, _ = bands[name][0]
    wvl, resp = wvl.astype("f4").astype("f8") * 1e-6, resp.astype("f4").astype("f8")
    temps = np.array([220.0, 300.0])
    if case["space"] == "wavelength":
        exp = gen.trapz_ref(gen.planck_ref(wvl, temps[:, None]) * resp, wvl) / gen.trapz_ref(resp, wvl)
    else:
        wn = 1 / wvl[::-1]
        exp = gen.trapz_ref(gen.planck_wn_ref(wn, temps[:, None]) * resp[::-1], wn) / gen.trapz_ref(resp[::-1], wn)
    got = conv.tb2radiance(temps)["radiance"]
    require(np.allclose(got, exp, rtol=1e-4), "radiances of another band", got=got, expected=exp, **case)
    if case["nir"]:
        sunz, tb3, tb11 = np.array([10.0, 60.0]), np.array([310.0, 290.0]), np.array([295.0, 260.0])
        calc = Calculator(platform, case["name"], band, wavespace=case["space"])
        plain = Calculator(platform, resolved(inst), name, wavespace=case["space"])
        one, two = np.asarray(calc.reflectance_from_tbs(sunz, tb3, tb11)), np.asarray(plain.reflectance_from_tbs(sunz, tb3, tb11))
        require(np.isfinite(one).all() and np.allclose(one, two, rtol=1e-9), "reflectances differ from those by the plain names", got=one, expected=two,
                **case)
    if case["name"] == resolved(inst) and band == name:
        ctx.trivial("plain names")
    ctx.event(case["space"])
