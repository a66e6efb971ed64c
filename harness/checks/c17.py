"""C17: the right table and wavelength, and the high-zenith reduction."""
import os

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.checks import c14, c16
from harness.core import prop, require

TECHNIQUE = ("property-based testing (Hypothesis): generated installations (tables, responses) against a reference choice of table and "
             "wavelength; exhaustive over the aerosol types and atmospheres")
RULE = "Cases are installations and requests; non-trivial when several tables or bands are installed."
ASSUMPTIONS = ["The table is linear in wavelength, so that the effective wavelength can be read off the reflectance.",
               "The reduction: threshold below maximum."]

AEROSOLS = ["antarctic_aerosol", "continental_average_aerosol", "continental_clean_aerosol", "continental_polluted_aerosol",
            "desert_aerosol", "marine_clean_aerosol", "marine_polluted_aerosol", "marine_tropical_aerosol", "rayleigh_only",
            "rural_aerosol", "urban_aerosol"]
ATMOSPHERES = ["subarctic summer", "subarctic winter", "midlatitude summer", "midlatitude winter", "tropical", "us-standard"]


def ramp_table(level=0.0, lo=300.0, hi=1300.0):
    """Reflectance (in percent: level + 60*(wvl-lo)/(hi-lo)) independent of the angles."""
    wvl = np.array([lo, (lo + hi) / 2, hi])
    refl = np.broadcast_to(((level + 60.0 * (wvl - lo) / (hi - lo)) / 100.0)[:, None, None, None], (3, 3, 3, 3)).copy()
    return {"reflectance": refl, "wavelengths": wvl, "azimuth_difference": np.linspace(0, 180, 3),
            "satellite_zenith_secant": np.linspace(1, 3, 3), "sun_zenith_secant": np.linspace(1, 24.75, 3)}


ANGLES = [np.array([[30.0, 60.0]]), np.array([[10.0, 50.0]]), np.array([[40.0, 170.0]])]


@st.composite
def table_cases(draw):
    combos = draw(st.lists(st.tuples(st.sampled_from(AEROSOLS), st.sampled_from(ATMOSPHERES)), min_size=2, max_size=12, unique=True))
    return {"installed": [list(c) for c in combos], "missing": draw(st.lists(st.tuples(st.sampled_from(AEROSOLS), st.sampled_from(ATMOSPHERES)),
                                                                            max_size=3)),
            "defaults": draw(st.booleans()), "versions": draw(st.booleans())}


def all_tables(tier):
    return [{"installed": [[a, b] for a in AEROSOLS for b in ATMOSPHERES], "missing": [], "defaults": True, "versions": True}]


@prop(table_cases, quick=80, examples=all_tables, rule="the table of exactly the aerosol type and atmosphere asked for")
def tables(case, ctx):
    from pyspectral.rayleigh import Rayleigh
    world = gen.World(ctx)
    levels = {}
    for i, (aer, atm) in enumerate(case["installed"]):
        levels[aer, atm] = 0.25 * i
        path = c16.write_lut(world, ramp_table(levels[aer, atm]), aer, atm)
        if not case["versions"]:
            from pyspectral.utils import ATM_CORRECTION_LUT_VERSION
            name = os.path.join(os.path.dirname(path), ATM_CORRECTION_LUT_VERSION[aer]["filename"])
            if os.path.exists(name):
                os.remove(name)
    wvl = 0.55
    for (aer, atm), level in levels.items():
        want = level + 60.0 * (550.0 - 300.0) / 1000.0
        variants = [{"aerosol_type": aer, "atmosphere": atm}]
        if case["defaults"] and aer == "marine_clean_aerosol":
            variants.append({"atmosphere": atm})
        if case["defaults"] and atm == "us-standard":
            variants.append({"aerosol_type": aer})
        if case["defaults"] and (aer, atm) == ("marine_clean_aerosol", "us-standard"):
            variants.append({})
        for kwargs in variants:
            got = Rayleigh("Suomi-NPP", "viirs", **kwargs).get_reflectance(*ANGLES, wvl)
            require(np.allclose(got, want, atol=1e-4), "another table was used", asked=kwargs, got=got, expected=want)
    for aer, atm in case["missing"]:
        if (aer, atm) in levels:
            continue
        try:
            got = Rayleigh("Suomi-NPP", "viirs", aerosol_type=aer, atmosphere=atm).get_reflectance(*ANGLES, wvl)
        except FileNotFoundError:
            got = None
        require(got is None, "a result without a table", asked=(aer, atm), got=got)
        ctx.event("missing table")
    ctx.event("all tables" if len(levels) == 66 else "some tables")


@prop(lambda: st.fixed_dictionaries({"aerosol": st.one_of(st.sampled_from(AEROSOLS), st.sampled_from(["", "marine", "Marine_Clean_Aerosol",
                                                                                                       "no_aerosol", "x"])),
                                     "atmosphere": st.one_of(st.sampled_from(ATMOSPHERES), st.sampled_from(
                                         ["", "us_standard", "subarctic_summer", "US-standard", "x", "4"])),
                                     "lazy": st.booleans()}), quick=120, rule="supported and unsupported names")
def names(case, ctx):
    from pyspectral.rayleigh import Rayleigh
    world = gen.World(ctx)
    for aer in ("marine_clean_aerosol", case["aerosol"] if case["aerosol"] in AEROSOLS else "rayleigh_only"):
        for atm in ("us-standard", case["atmosphere"] if case["atmosphere"] in ATMOSPHERES else "tropical"):
            c16.write_lut(world, ramp_table(), aer, atm)
    good = case["aerosol"] in AEROSOLS and case["atmosphere"] in ATMOSPHERES
    try:
        this = Rayleigh("Suomi-NPP", "viirs", aerosol_type=case["aerosol"], atmosphere=case["atmosphere"])
    except AttributeError:
        this = None
    require((this is not None) == good, "unsupported name accepted" if not good else "supported name refused", case=case)
    ctx.event("supported" if good else "unsupported")


# ------------------------------------------------------------------------------------------------
# wavelengths

PLATFORMS = [["Suomi-NPP", "viirs", "viirs", "viirs"], ["EOS-Aqua", "modis", "modis", "modis"], ["Meteosat-9", "seviri", "seviri", "seviri"],
             ["Himawari-8", "ahi", "ahi", "ahi"], ["Metop-B", "avhrr/3", "avhrr3", "avhrr-3"], ["NOAA-19", "avhrr-3", "avhrr3", "avhrr-3"],
             ["GOES-16", "abi", "abi", "abi"], ["Sentinel-3A", "slstr", "slstr", "slstr"], ["Sentinel-3A", "olci", "olci", "generic"],
             ["FY-3D", "mersi-2", "mersi2", "generic"], ["Meteosat-12", "fci", "fci", "fci"], ["My-Sat-1", "mysensor", "mysensor", "generic"],
             ["Suomi-NPP", "wrong", "viirs", "viirs"], ["Metop-B", "avhrr/2", "avhrr3", "avhrr-3"],
             ["FY-3B", "mersi-1", "mersi1", "generic"], ["FY-3B", "virr", "virr", "generic"], ["Arctica-M-N1", "msu-gsa", "msugsa", "generic"],
             ["GEO-KOMPSAT-2B", "goci-2", "goci2", "generic"], ["My-Sat-1", "my-sensor-2", "mysensor2", "generic"]]


@st.composite
def band_cases(draw):
    sensor = draw(st.sampled_from(PLATFORMS))
    tabs = c14.tables()
    names_, _ = c14.canonical(tabs[sensor[3]], tabs["generic"])
    chosen = draw(st.lists(st.sampled_from(names_), min_size=1, max_size=4, unique=True))
    # the response determines the effective wavelength, not the stored central wavelength
    bands = {n: [draw(gen.curves(gen.floats(0.4, 1.0), rel_width=(0.01, 0.2), npts=(6, 40), dtypes=("f8",)))
                 for _ in range(draw(st.integers(1, 2)))] for n in chosen}
    return {"sensor": sensor, "bands": bands, "unknown": draw(st.sampled_from(["nothing", "ch99", "", "0.55", "0.5um", "1e0"])),
            "numbers": draw(st.lists(st.one_of(gen.floats(0.31, 1.29), st.just(1)), min_size=1, max_size=3)),
            "numtype": draw(st.sampled_from(["float", "np.float64", "np.float32"])), "red": draw(st.booleans())}


@prop(band_cases, quick=200, rule="bands by name and alias, and numbers; the wavelength is read off a table linear in wavelength")
def wavelengths(case, ctx):
    from pyspectral.rayleigh import Rayleigh
    tabs = c14.tables()
    platform, given, stored, key = case["sensor"]
    world = gen.World(ctx)
    c16.write_lut(world, ramp_table())
    bands = gen.bands_from(case["bands"])
    # the stored central wavelength is not to be used
    world.add_rsr(platform, stored, {n: [(w, r, 5.0) for w, r, _ in dets] for n, dets in bands.items()})
    # other sensors, other platforms
    decoy = {n: [(np.linspace(1.0, 1.1, 6), np.ones(6), 1.05)] for n in bands}
    for inst in ("viirs", "modis", "avhrr1", "wrong", "olci", "slstr", "mersi", "mersi2", "my"):
        if inst != stored:
            world.add_rsr(platform, inst, decoy)
    world.add_rsr("Other-1", stored, decoy)
    this = Rayleigh(platform, given)

    def wavelength(asked):
        refl = this.get_reflectance(*ANGLES, asked)
        require(np.allclose(refl, refl.flat[0], atol=1e-5), "pixels differ")
        return (float(refl.flat[0]) / 60.0 * 1000.0 + 300.0) / 1000.0

    for name, dets in bands.items():
        w, r, _ = dets[0]
        want = gen.trapz_ref(r * w / w ** 4, w) / gen.trapz_ref(r / w ** 4, w)
        asked = [name] + [a for t in (tabs[key], tabs["generic"]) for a in sorted(t)
                          if t[a] == name and a not in bands and (t is tabs[key] or a not in tabs[key])][:3]
        for one in asked:
            got = wavelength(one)
            require(abs(got - want) < 1e-5, "effective wavelength of the band", asked=one, got=got, expected=want)
    for num in case["numbers"]:
        val = {"float": float, "np.float64": np.float64, "np.float32": np.float32}[case["numtype"]](num) if not isinstance(num, int) else num
        require(abs(wavelength(val) - float(val)) < 1e-5, "a number is the wavelength in micron", asked=val, got=wavelength(val))
    if case["unknown"] not in bands:
        try:
            got = this.get_reflectance(*ANGLES, case["unknown"])
        except KeyError:
            got = None
        require(got is None, "a result for an unknown band", asked=case["unknown"], got=got)
    os.remove(os.path.join(world.rsr_dir, f"rsr_{stored}_{platform}.h5"))
    try:
        got = this.get_reflectance(*ANGLES, next(iter(bands)))
    except KeyError:
        got = None
    require(got is None, "a result without responses", got=got)
    ctx.event(f"{platform} {given}")
    ctx.event(f"detectors {max(len(d) for d in bands.values())}")


# ------------------------------------------------------------------------------------------------
# reduction

@st.composite
def reductions(draw):
    shape = draw(gen.shapes((1, 2, 3)))
    dtype = draw(gen.DTYPES)
    thresh = draw(st.one_of(st.sampled_from([70.0, 60.0, 0.0, 75.0]), gen.floats(0.0, 85.0)))
    maxz = draw(st.one_of(st.sampled_from([105.0, 95.0, 90.0]), gen.floats(86.0, 120.0)))

    def arr(elements):
        return {"dtype": dtype, "shape": shape, "vals": draw(st.lists(elements, min_size=1, max_size=min(int(np.prod(shape)), 12)))}
    return {"dtype": dtype, "zen": arr(gen.floats(0.0, 180.0, [thresh, maxz, (thresh + maxz) / 2])), "ref": arr(gen.floats(0.0, 100.0)),
            "thresh": thresh, "maxz": maxz, "strength": draw(st.one_of(st.sampled_from([1.0, 0.0, 0.5]), gen.floats(0.0, 1.0), gen.floats(1.0, 3.0), gen.floats(-2.0, 0.0))),
            "obj": draw(st.booleans()), "kw": draw(st.booleans())}


@prop(reductions, quick=400, rule="high-zenith reduction")
def reduction(case, ctx):
    from pyspectral.rayleigh import Rayleigh
    zen, ref = gen.build(case["zen"]), gen.build(case["ref"])
    keep = gen.snapshot(zen, ref)
    func = Rayleigh.reduce_rayleigh_highzenith
    if case["obj"]:
        gen.World(ctx)
        func = Rayleigh("Suomi-NPP", "viirs").reduce_rayleigh_highzenith
    if case["kw"]:
        got = func(zenith=zen, rayref=ref, thresh_zen=case["thresh"], maxzen=case["maxz"], strength=case["strength"])
    else:
        got = func(zen, ref, case["thresh"], case["maxz"], case["strength"])
    z = zen.astype("f8")
    fac = np.where(z < case["thresh"], 1.0, 1 - case["strength"] * (z - case["thresh"]) / (case["maxz"] - case["thresh"]))
    want = ref.astype("f8") * np.clip(fac, 0, 1)
    require(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=2e-3 if case["dtype"] == "f4" else 1e-6),
            "reduced reflectance", got=np.ravel(got)[:5], expected=np.ravel(want)[:5])
    require((got <= ref + 1e-4).all() and (got >= 0).all(), "the reduction increases the reflectance")
    require(np.array_equal(keep[0], zen) and np.array_equal(keep[1], ref), "input modified")
    if not (z > case["thresh"]).any():
        ctx.trivial("all below the threshold")
    ctx.event("some reduced")


# ------------------------------------------------------------------------------------------------
# histories

TWO_AER, TWO_ATM = AEROSOLS[:9:4], ATMOSPHERES[::3]
BANDS = ["M3", "M4", "I1"]


@st.composite
def histories(draw):
    def combo():
        return [draw(st.sampled_from(TWO_AER)), draw(st.sampled_from(TWO_ATM))]

    def op():
        kind = draw(st.sampled_from(["table", "responses", "object", "call", "call", "call", "call"]))
        if kind == "table":
            return {"op": kind, "which": combo(), "lut": draw(c16.luts())}
        if kind == "responses":
            return {"op": kind, "bands": {b: draw(gen.floats(0.45, 0.75)) for b in BANDS}}
        if kind == "object":
            return {"op": kind, "which": combo()}
        npix = draw(st.integers(1, 3))

        def arr(elements):
            return draw(st.lists(elements, min_size=npix, max_size=npix))
        return {"op": kind, "fresh": draw(st.booleans()), "which": combo(), "obj": draw(st.integers(0, 5)), "sunz": arr(gen.floats(0.0, 89.0)),
                "satz": arr(gen.floats(0.0, 80.0)), "azi": arr(gen.floats(0.0, 180.0)), "dtype": draw(gen.DTYPES),
                "red": draw(st.one_of(st.none(), st.just(arr(gen.floats(0.0, 110.0))))),
                "band": draw(st.one_of(st.sampled_from(BANDS), gen.floats(0.45, 0.75))), "lazy": draw(st.booleans())}
    first = {"aer_" + a: {t: draw(c16.luts()) for t in TWO_ATM} for a in TWO_AER}
    return {"first": first, "bands": {b: draw(gen.floats(0.45, 0.75)) for b in BANDS}, "ops": [op() for _ in range(draw(st.integers(3, 12)))]}


@prop(histories, quick=120, rule="sequences of tables and responses (re)written and of calls through new and old objects; an object made after the "
                                 "last change of its files gives the value of the present table")
def history(case, ctx):
    from pyspectral.rayleigh import Rayleigh
    world = gen.World(ctx)
    tables_, stamp, responses = {}, {}, {}
    clock = 0

    def put(aer, atm, lut):
        tables_[aer, atm] = c16.build_lut(lut)
        c16.write_lut(world, tables_[aer, atm], aer, atm)
        stamp[aer, atm] = clock

    def respond(bands):
        responses.clear()
        curves = {}
        for name, mid in bands.items():
            w = np.linspace(mid - 0.02, mid + 0.02, 9)
            r = np.array([0.1, 0.3, 0.6, 1, 1, 0.9, 0.7, 0.2, 0.1])
            curves[name] = [(w, r, mid)]
            responses[name] = gen.trapz_ref(r * w / w ** 4, w) / gen.trapz_ref(r / w ** 4, w)
        world.add_rsr("Suomi-NPP", "viirs", curves)

    for key, sub in case["first"].items():
        for atm, lut in sub.items():
            put(key[4:], atm, lut)
    respond(case["bands"])
    rstamp = 0
    objects = []
    calls = changes = 0
    for op in case["ops"]:
        clock += 1
        if op["op"] == "table":
            put(*op["which"], op["lut"])
            changes += calls > 0
        elif op["op"] == "responses":
            respond(op["bands"])
            rstamp = clock
            changes += calls > 0
        elif op["op"] == "object":
            objects.append((clock, tuple(op["which"]), Rayleigh("Suomi-NPP", "viirs", aerosol_type=op["which"][0], atmosphere=op["which"][1])))
        else:
            usable = [o for o in objects if o[0] > stamp[o[1]] and (o[0] > rstamp or not isinstance(op["band"], str))]
            if op["fresh"] or not usable:
                which = tuple(op["which"])
                this = Rayleigh("Suomi-NPP", "viirs", aerosol_type=which[0], atmosphere=which[1])
                objects.append((clock, which, this))
            else:
                _, which, this = usable[op["obj"] % len(usable)]
            table = tables_[which]
            wvl = responses[op["band"]] if isinstance(op["band"], str) else op["band"]
            arrs = [np.array([op[k]], dtype=op["dtype"]) for k in ("sunz", "satz", "azi")]
            red = None if op["red"] is None else np.array([op["red"]], dtype=op["dtype"])
            sub = {"wvl": op["band"]}
            got = gen.to_np(c16.call(this, sub, arrs, red, [[1], [arrs[0].shape[1]]] if op["lazy"] else None))
            want = c16.reference(table, *arrs, wvl * 1000.0, red)
            require(np.allclose(got, want, rtol=0, atol=4e-2 if op["dtype"] == "f4" else 2e-4), "not the value of the present table",
                    which=which, band=op["band"], got=got, expected=want)
            calls += 1
    if calls < 2:
        ctx.trivial("fewer than two calls")
    ctx.event("files changed between calls" if changes else "files as at the start")
