"""C14: band look-up by wavelength and by alias."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): generated instruments against a reference look-up, plus an exhaustive sweep of the "
             "documented alias tables")
RULE = "Cases are instruments with bands at generated wavelengths and queries; non-trivial when some band is within reach or an alias is used."
ASSUMPTIONS = ["Files name their bands canonically (no band carries the name of an alias of another name).",
               "Tolerances up to 2 micron; distances within 1e-9 micron of the tolerance are not judged."]

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")


def tables():
    """The documented aliases, as of the base version."""
    with open(os.path.join(DATA, "bandnames.json")) as fp:
        return json.load(fp)


# platform, instrument as handed over, instrument in file name, alias table
SENSORS = [["Meteosat-9", "seviri", "seviri", "seviri"], ["EOS-Aqua", "modis", "modis", "modis"], ["Suomi-NPP", "viirs", "viirs", "viirs"],
           ["Metop-B", "avhrr/3", "avhrr3", "avhrr-3"], ["NOAA-19", "avhrr-3", "avhrr3", "avhrr-3"], ["GOES-16", "abi", "abi", "abi"],
           ["FY-4A", "agri", "agri", "agri"], ["Himawari-8", "ahi", "ahi", "ahi"], ["GEO-KOMPSAT-2A", "ami", "ami", "ami"],
           ["Meteosat-12", "fci", "fci", "fci"], ["Sentinel-3A", "slstr", "slstr", "slstr"], ["Metop-SG-A1", "metimage", "metimage", "VII"],
           ["My-Sat-1", "mysensor", "mysensor", "generic"], ["FY-3D", "mersi-2", "mersi2", "generic"]]


def canonical(table, other):
    """Band names a file may hold: targets of aliases and names which are no alias."""
    keys = set(table) | set(other)
    names = sorted(set(table.values()) | set(other.values()))
    names = [n for n in names if table.get(n, n) == n and (n in table or other.get(n, n) == n)]
    return names + ["X1", "my band"], keys


@st.composite
def instruments(draw, min_bands=1, free=False):
    sensor = draw(st.sampled_from(SENSORS))
    tabs = tables()
    names, keys = canonical(tabs[sensor[3]], tabs["generic"])
    if free:
        names = sorted(set(names) | keys)
    chosen = draw(st.lists(st.sampled_from(names), min_size=min_bands, max_size=8, unique=True))
    base = draw(gen.floats(0.4, 12.0))
    bands = []
    for name in chosen:
        off = draw(st.sampled_from([0.0, 0.02, 0.05, 0.09, 0.11, 0.2, 0.5, 1.5, 4.0]))
        bands.append([name, round(base + draw(st.sampled_from([-1, 1])) * off * 0.5 + draw(gen.floats(0.0, 0.02)), 4),
                      draw(st.integers(1, 3))])
    return {"sensor": sensor, "bands": bands, "base": base}


def install(case, ctx):
    world = gen.World(ctx)
    bands = {}
    for i, (name, cwl, ndet) in enumerate(case["bands"]):
        wvl = np.linspace(max(cwl - 0.05, 0.05), cwl + 0.05, 7)
        # other detectors are somewhere else
        bands[name] = [(wvl + 0.3 * d, np.array([0, .2, .9, 1, .8, .1, 0]) / (1 + i), cwl + 0.3 * d) for d in range(ndet)]
    platform, _, stored, _ = case["sensor"]
    world.add_rsr(platform, stored, bands)
    return bands


@st.composite
def wavelength_cases(draw):
    case = draw(instruments())
    centre = draw(st.sampled_from([b[1] for b in case["bands"]]))
    case["queries"] = draw(st.lists(st.fixed_dictionaries({
        "wvl": st.one_of(gen.floats(-0.3, 0.3).map(lambda d: round(centre + d, 4)), gen.floats(0.3, 14.0),
                         gen.floats(-2.5, 2.5).map(lambda d: round(centre + d, 4))),
        "eps": st.sampled_from([None, None, 0.1, 0.05, 0.01, 0.3, 1.0, 1.9]), "multi": st.sampled_from([None, True, False]),
        "func": st.booleans(), "np": st.booleans()}), min_size=1, max_size=6))
    return case


@prop(wavelength_cases, quick=400, rule="queries by wavelength against a reference search over the first detectors")
def by_wavelength(case, ctx):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import get_bandname_from_wavelength
    bands = install(case, ctx)
    platform, given, _, _ = case["sensor"]
    this = RelativeSpectralResponse(platform, given)
    used = False
    for q in case["queries"]:
        eps = 0.1 if q["eps"] is None else q["eps"]
        dist = {n: abs(b[0][2] - q["wvl"]) for n, b in bands.items()}
        if any(abs(d - eps) < 1e-9 for d in dist.values()):
            continue
        want = [n for n in this.band_names if dist[n] < eps]
        kwargs = {}
        if q["eps"] is not None:
            kwargs["epsilon"] = q["eps"]
        if q["multi"] is not None:
            kwargs["multiple_bands"] = q["multi"]
        wvl = np.float64(q["wvl"]) if q["np"] else q["wvl"]
        try:
            if q["func"]:
                got = get_bandname_from_wavelength(this.instrument, wvl, this.rsr, **kwargs)
            else:
                got = this.get_bandname_from_wavelength(wvl, **kwargs)
        except AttributeError:
            got = AttributeError
        info = {"query": q, "bands": {n: b[0][2] for n, b in bands.items()}}
        if not want:
            require(got is None, "no band is near, None expected", got=got, **info)
            continue
        used = True
        if len(want) == 1:
            require(got == want[0], "the only band within the tolerance expected", got=got, expected=want, **info)
            require(this.rsr[got] is this.rsr[want[0]], "the name returned does not find the band", got=got)
        elif not q["multi"]:
            require(got is AttributeError, "several bands match, AttributeError expected", got=got, **info)
        else:
            require(isinstance(got, (list, tuple)) and sorted(got) == sorted(want), "all matching bands expected", got=got,
                    expected=want, **info)
            require(all(name in this.rsr for name in got), "name returned is not a band", got=got)
        ctx.event(f"matches {min(len(want), 3)} multi {q['multi']}")
    if not used:
        ctx.trivial("no band in reach")


def exhaustive(tier):
    tabs = tables()
    out = []
    for i, sensor in enumerate(SENSORS):
        for alias in sorted(set(tabs[sensor[3]]) | set(tabs["generic"])):
            out.append({"sensor": i, "alias": alias})
    return [{"pack": out[k:k + 60]} for k in range(0, len(out), 60)]


@prop(lambda: st.fixed_dictionaries({"pack": st.lists(st.sampled_from([c for p in exhaustive("quick") for c in p["pack"]]), min_size=3,
                                                      max_size=10)}),
      quick=8, thorough=300, examples=exhaustive, rule="every documented alias of every instrument with aliases, and the generic ones")
def aliases(case, ctx):
    from pyspectral.radiance_tb_conversion import RadTbConverter
    from pyspectral.rsr_reader import RelativeSpectralResponse
    tabs = tables()
    readers = {}
    for num, item in enumerate(case["pack"]):
        platform, given, stored, key = SENSORS[item["sensor"]]
        table = tabs[key]
        alias = item["alias"]
        target = table.get(alias, tabs["generic"].get(alias))
        if item["sensor"] not in readers:
            names, _ = canonical(table, tabs["generic"])
            world = gen.World(ctx)
            bands = {n: [(np.linspace(3 + k, 3.4 + k, 5), np.array([.1, 1, 1 + k / 100, .9, .1]), 3.2 + k)] for k, n in enumerate(names)}
            world.add_rsr(platform, stored, bands)
            readers[item["sensor"]] = (world, RelativeSpectralResponse(platform, given))
        world, this = readers[item["sensor"]]
        own = alias if alias in this.band_names else target
        require(own in this.band_names, "table inconsistent", alias=alias, own=own)
        require(this.rsr[alias] is this.rsr[own], "alias finds another band", instrument=given, alias=alias, expected=own)
        require(this.rsr.get(alias) is this.rsr[own], "get() finds another band", instrument=given, alias=alias)
        if num % 30 == 0 and key != "generic" and alias in table and "/" not in given and given != "avhrr-3":
            world.apply()
            conv = RadTbConverter(platform, given, alias)
            require(np.array_equal(conv.response, this.rsr[target]["det-1"]["response"]), "converter uses another band", alias=alias,
                    instrument=given)
    ctx.event(f"instruments {len(readers)}")


@st.composite
def lookup_cases(draw):
    case = draw(instruments(free=draw(st.booleans())))
    tabs = tables()
    pool = sorted(set(tabs[case["sensor"][3]]) | set(tabs["generic"])) + [b[0] for b in case["bands"]] + ["nothing", "", "ch99", "m1"]
    own = [b[0] for b in case["bands"]]
    near = own + [a for t in (tabs[case["sensor"][3]], tabs["generic"]) for a in sorted(t) if t[a] in own]
    spoiled = [f(n) for n in near for f in (lambda n: f" {n}", lambda n: f"{n} ", lambda n: f"{n}\n", str.lower, str.upper, str.title, lambda n: n + "0")]
    case["keys"] = draw(st.lists(st.one_of(st.sampled_from(pool), st.sampled_from(near), st.sampled_from(near), st.sampled_from(spoiled)), min_size=2, max_size=12))
    case["default"] = draw(st.sampled_from([None, 0, "x"]))
    return case


@prop(lookup_cases, quick=300, rule="own names, aliases present and absent, unknown names, defaults")
def lookup(case, ctx):
    from pyspectral.rsr_reader import RelativeSpectralResponse
    tabs = tables()
    install(case, ctx)
    platform, given, _, key = case["sensor"]
    this = RelativeSpectralResponse(platform, given)
    own = [b[0] for b in case["bands"]]
    found = 0
    for name in case["keys"]:
        want = name if name in own else tabs[key].get(name, tabs["generic"].get(name))
        want = want if want in own else None
        try:
            got = this.rsr[name]
        except KeyError:
            got = None
        default = this.rsr.get(name, case["default"]) if case["default"] is not None else this.rsr.get(name)
        if want is None:
            require(got is None, "an unknown band was found", name=name, own=own)
            require(default == case["default"], "default expected", name=name, got=default)
        else:
            found += 1
            require(got is dict.__getitem__(this.rsr, want), "another band was found", name=name, expected=want)
            require(default is got, "get() differs", name=name)
            require(got["det-1"]["central_wavelength"] == [b[1] for b in case["bands"] if b[0] == want][0], "another band", name=name)
        require(sorted(this.rsr) == sorted(own), "looking up changed the bands", got=sorted(this.rsr))
    if not found:
        ctx.trivial("nothing found")
    ctx.event(f"found {min(found, 4)}")
