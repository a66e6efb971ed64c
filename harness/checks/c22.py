"""C22: the testing utilities isolate and restore."""
import contextlib
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.checks import c20
from harness.checks.c20 import AEROSOLS, RSR, Net, quiet
from harness.core import prop, require

TECHNIQUE = "stateful model-based testing (Hypothesis): generated nestings of the context managers with exceptions, compared with a model of what is in effect and with the state before"
RULE = "Cases are nestings of contexts with options, left normally or by exceptions; non-trivial with at least two levels or an exception."
ASSUMPTIONS = ["Each context gets its own directory (fresh, or made by the context); configuration options given do not contradict the mocking."]

INSTRUMENTS = [["Suomi-NPP", "viirs"], ["EOS-Aqua", "modis"], ["Meteosat-10", "seviri"], ["GOES-16", "abi"], ["Himawari-8", "ahi"], ["NOAA-19", "avhrr/3"],
               ["Sentinel-3A", "slstr"], ["Sentinel-3B", "olci"], ["FY-4A", "agri"], ["FY-3D", "mersi-2"], ["Landsat-8", "oli_tirs"], ["MTG-I1", "fci"],
               ["GEO-KOMPSAT-2A", "ami"], ["DSCOVR", "epic"], ["Metop-SG-A1", "metimage"], ["NOAA-10", "avhrr/1"]]
# instrument, band as the caller names it, band in the fake file
BANDS = [["Suomi-NPP", "viirs", "M12", "M12"], ["Suomi-NPP", "viirs", "M02", "M2"], ["Suomi-NPP", "viirs", "I04", "I4"], ["EOS-Aqua", "modis", "20", "20"],
         ["Meteosat-10", "seviri", "IR_039", "IR3.9"], ["Meteosat-10", "seviri", "IR3.9", "IR3.9"], ["GOES-16", "abi", "C07", "ch7"],
         ["Himawari-8", "ahi", "B07", "ch7"], ["NOAA-19", "avhrr/3", "3b", "ch3b"], ["Sentinel-3A", "slstr", "S7", "ch7"]]
ATMOSPHERES = ["subarctic summer", "subarctic winter", "midlatitude summer", "midlatitude winter", "tropical", "us-standard"]
VERSIONS = st.sampled_from(["default", "default", None, "v0.0.0", "v1.0.0", "newest", "v99.0.0"])
DIR = st.sampled_from([None, None, "fresh", "new", "relative"])
WAVES = st.lists(st.tuples(st.integers(0, len(BANDS) - 1), gen.floats(3.55, 3.9, [3.7])).map(list), max_size=3, unique_by=lambda x: x[0])
RSR_OPTS = st.fixed_dictionaries({"version": VERSIONS, "waves": WAVES, "force": st.sampled_from([None, None, None, "return", "side", "error"])})
LUT_OPTS = st.fixed_dictionaries({"existing": st.sampled_from([True, True, "default", False, "v0.0.0", "newest", "v99.0.0", "today"]), "lut": st.one_of(st.none(), st.floats(0.05, 0.9)),
                                  "aerosols": st.one_of(st.none(), st.lists(st.sampled_from(AEROSOLS), min_size=1, max_size=3, unique=True)),
                                  "atms": st.one_of(st.none(), st.lists(st.sampled_from(ATMOSPHERES), min_size=1, max_size=3, unique=True)),
                                  "form": st.sampled_from(["list", "tuple", "iter", "set"])})
EXTRA = st.dictionaries(st.sampled_from(["a", "EOS-Aqua-modis", "tb2rad_filename", "x y"]),
                        st.one_of(st.integers(0, 9), st.text("ab/", max_size=4), st.just({"path": "/p", "b": [1, 2]})), max_size=3)
LEVEL_KINDS = st.one_of(
    st.fixed_dictionaries({"cm": st.just("downloads"), "dir": DIR, "extra": st.one_of(st.none(), EXTRA), "rsr": st.one_of(st.none(), RSR_OPTS)}),
    st.fixed_dictionaries({"cm": st.just("tb"), "dir": DIR, "rsr_dir": DIR, "rsr": RSR_OPTS}),
    st.fixed_dictionaries({"cm": st.just("rsr"), "dir": DIR, "rsr": RSR_OPTS, "download": st.sampled_from([None, False, True])}),
    st.fixed_dictionaries({"cm": st.just("rayleigh"), "dir": DIR, "rsr_dir": DIR, "luts": LUT_OPTS}),
    st.fixed_dictionaries({"cm": st.just("config"), "options": st.one_of(st.none(), EXTRA), "path": st.booleans()}),
    st.fixed_dictionaries({"cm": st.just("forbid")}),
    st.fixed_dictionaries({"cm": st.just("low"), "rsr": RSR_OPTS, "luts": LUT_OPTS}),
)
LEVELS = st.lists(st.fixed_dictionaries({"level": LEVEL_KINDS, "raise": st.sampled_from([False, False, True]), "catch": st.booleans(),
                                         "twice": st.sampled_from([False, False, True])}), min_size=1, max_size=4)
CASES = st.fixed_dictionaries({"levels": LEVELS, "instrument": st.integers(0, len(INSTRUMENTS) - 1), "band": st.integers(0, len(BANDS) - 1),
                               "env": st.sampled_from(["set", "set", "unset"]), "version": st.sampled_from(["current", "v0.0.1"])})


class Boom(Exception):
    """Raised by the test body."""


def lut_table(scale):
    """A small table, constant over angles and linear in the wavelength."""
    wvl = np.linspace(400, 800, 5)
    refl = np.broadcast_to((scale * (1.5 - wvl / 1000.0))[:, None, None, None], (5, 4, 3, 3)).copy()
    return {"azimuth_difference": np.linspace(0.0, 180.0, 3), "reflectance": refl, "wavelengths": wvl,
            "satellite_zenith_secant": np.linspace(1.0, 3.0, 3), "sun_zenith_secant": np.linspace(1.0, 25.0, 4)}


class Effect:
    """What is in effect at some level."""

    def __init__(self):
        self.conf = None       # dictionary of options expected in the configuration
        self.rsr = None        # (options, directory)
        self.luts = None       # (options, directory)
        self.forbid = False
        self.tb = None

    def copy(self):
        new = Effect()
        new.__dict__.update(self.__dict__)
        return new


class Bench:
    """Directories and options of one case."""

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        self.root = ctx.dir()
        self.n = 0

    def dir(self, how):
        if how is None:
            return None
        self.n += 1
        path = Path(self.root) / f"mine {self.n}"
        if how == "relative":
            return Path(f"rel{self.n}")  # of the current directory, a scratch one
        if how == "new":
            path = path / "deeper"
        else:
            path.mkdir()
            (path / "precious").write_text("keep")
        return path

    def rsr_kwargs(self, opts):
        """The keyword arguments of an RSR mock."""
        from pyspectral.rsr_reader import RSRDict
        out = {}
        if opts["version"] != "default":
            out["rsr_data_version"] = version_of(opts)
        if opts["waves"]:
            out["central_wavelengths"] = {BANDS[k][2]: wvl for k, wvl in opts["waves"]}
        if opts["force"]:
            info = {"platform_name": "P", "instrument": "i", "description": "forced", "band_names": ["X1"], "rsr": RSRDict("i")}
            info["rsr"]["X1"] = {"det-1": {"wavelength": np.linspace(1, 2, 5), "response": np.ones(5), "central_wavelength": 1.5}}
            if opts["force"] == "return":
                out["return_value"] = info
            elif opts["force"] == "side":
                out["side_effect"] = lambda path: info
            else:
                out["side_effect"] = ZeroDivisionError
        return out

    def lut_kwargs(self, opts):
        out = {}
        if opts["existing"] != "default":
            out["existing_version"] = version_text(opts["existing"])
        if opts["lut"] is not None:
            out["lut_data"] = lut_table(opts["lut"])
        form = {"list": list, "tuple": tuple, "iter": iter, "set": set}[opts["form"]]
        if opts["aerosols"] is not None:
            out["aerosol_types"] = form(opts["aerosols"])
        if opts["atms"] is not None:
            out["atmospheres"] = form(opts["atms"])
        return out


def version_of(opts):
    from pyspectral.utils import RSR_DATA_VERSION
    return {"default": RSR_DATA_VERSION, "newest": RSR_DATA_VERSION}.get(opts["version"], opts["version"])


def version_text(existing):
    return c20.required("marine_clean_aerosol") if existing == "newest" else existing


@contextlib.contextmanager
def enter(bench, level, effect):
    """Enter the context of a level; yields the effect inside and the temporary directories it is allowed to make."""
    from pyspectral import testing
    new = effect.copy()
    kind = level["cm"]
    if kind == "forbid":
        new.forbid = True
        with testing.forbid_pyspectral_downloads():
            yield new
        return
    if kind == "config":
        options = dict(level["options"] or {})
        options.update(rsr_dir=os.path.join(bench.root, "conf rsr"), rayleigh_dir=os.path.join(bench.root, "conf ray"))
        if level["options"] is None:
            options = None
        new.conf = options or {}
        new.luts = new.tb = None
        if new.rsr:
            new.rsr = (new.rsr[0], None)
        if level["path"]:
            bench.n += 1
            path = Path(bench.root) / f"conf{bench.n}.yaml"
            testing.create_pyspectral_config_file(path, options)
            with testing.override_config(config_path=path) as got:
                require(Path(got) == path, "configuration path", got=got, expected=path)
                yield new
            require(path.exists(), "the caller's configuration file was removed")
        else:
            with testing.override_config(options) as got:
                require(os.environ["PSP_CONFIG_FILE"] == str(got), "environment", got=os.environ["PSP_CONFIG_FILE"], expected=got)
                path = got
                yield new
            require(not os.path.exists(path), "temporary configuration file left behind", path=path)
        return
    mine = bench.dir(level.get("dir"))
    rsr_dir = bench.dir(level.get("rsr_dir"))
    if kind == "downloads":
        kwargs = {"tmp_path": mine} if mine is not None else {}
        if level["extra"] is not None:
            kwargs["extra_config_options"] = level["extra"]
        rsr = level["rsr"] or {"version": "default", "waves": [], "force": None}
        if level["rsr"]:
            kwargs["rsr_files_kwargs"] = bench.rsr_kwargs(rsr)
        new.conf = dict(level["extra"] or {}, download_from_internet=False)
        new.rsr = (rsr, mine)
        new.luts = ({"existing": True, "lut": None, "aerosols": None, "atms": None}, mine)
        new.tb = True
        with testing.mock_pyspectral_downloads(**kwargs):
            yield new
    elif kind == "tb":
        kwargs = dict(bench.rsr_kwargs(level["rsr"]), **({"tb2rad_dir": mine} if mine is not None else {}))
        if rsr_dir is not None:
            kwargs["rsr_dir"] = rsr_dir
        new.conf = {"download_from_internet": False}
        new.rsr, new.luts, new.tb = (level["rsr"], rsr_dir or mine), None, True
        with testing.mock_tb_conversion(**kwargs) as load:
            new.load = load
            yield new
    elif kind == "rsr":
        kwargs = dict(bench.rsr_kwargs(level["rsr"]), **({"rsr_dir": mine} if mine is not None else {}))
        if level["download"] is not None:
            kwargs["download_from_internet"] = level["download"]
        new.conf = {"download_from_internet": bool(level["download"])}
        new.rsr, new.luts, new.tb = (level["rsr"], mine), None, None
        with testing.mock_rsr(**kwargs) as load:
            new.load = load
            yield new
    elif kind == "rayleigh":
        kwargs = dict(bench.lut_kwargs(level["luts"]), **({"rayleigh_dir": mine} if mine is not None else {}))
        if rsr_dir is not None:
            kwargs["rsr_dir"] = rsr_dir
        new.conf = {"download_from_internet": False}
        new.rsr = ({"version": "default", "waves": [], "force": None}, rsr_dir or mine)
        new.luts, new.tb = (level["luts"], mine), None
        with testing.mock_rayleigh(**kwargs):
            yield new
    elif kind == "low":
        rdir, ldir, tdir = (bench.dir("new") for _ in range(3))
        options = {"rsr_dir": str(rdir), "rayleigh_dir": str(ldir), "tb2rad_dir": str(tdir), "download_from_internet": False}
        new.conf = options
        new.rsr, new.luts, new.tb = (level["rsr"], rdir), (level["luts"], ldir), True
        with contextlib.ExitStack() as stack:
            stack.enter_context(testing.override_config(options))
            new.load = stack.enter_context(testing.mock_rsr_files(rdir, **bench.rsr_kwargs(level["rsr"])))
            stack.enter_context(testing.mock_rayleigh_luts(ldir, **bench.lut_kwargs(level["luts"])))
            stack.enter_context(testing.init_tb_cache(tdir))
            require(tdir.is_dir(), "cache directory not made")
            yield new


def responses_of(platform, instrument):
    """What reading the responses gives."""
    from pyspectral.rsr_reader import RelativeSpectralResponse
    try:
        rsr = RelativeSpectralResponse(platform, instrument)
    except Exception as err:
        return {"error": type(err).__name__}
    return {"bands": sorted(rsr.band_names), "cwl": {b: float(rsr.rsr[b]["det-1"]["central_wavelength"]) for b in rsr.rsr},
            "current": bool(rsr.rsr_data_version_uptodate), "version": rsr.rsr_data_version, "who": [rsr.platform_name, rsr.instrument]}


def probe(bench, net):
    """The state of pyspectral as a caller sees it."""
    from pyspectral import rayleigh, utils
    from pyspectral.config import get_config
    out = {"env": os.environ.get("PSP_CONFIG_FILE"), "conf": get_config(), "cwd": os.getcwd()}
    out["rsr"] = responses_of(*INSTRUMENTS[bench.case["instrument"]])
    out["own"] = responses_of("Suomi-NPP", "viirs")
    out["luts"] = rayleigh.RayleighConfigBaseClass("rural_aerosol").lutfiles_version_uptodate
    out["downloads"] = downloads(bench, net)
    out["tmp"] = sorted(os.listdir(tempfile.gettempdir()))
    require(utils.RSR_DATA_VERSION == bench.rsr_version, "required version changed")
    return out


def downloads(bench, net):
    """What an attempt to download does: served by the (intercepted) network, or refused."""
    from pyspectral import utils
    out = []
    import requests
    dest = os.path.join(bench.root, "dest")
    os.makedirs(dest, exist_ok=True)
    for attempt in (lambda: utils.download_rsr(dest_dir=dest), lambda: requests.get(c20.address("rural_aerosol"))):
        del net.log[:]
        try:
            attempt()
            out.append(["done", list(net.log)])
        except RuntimeError:
            out.append(["refused", list(net.log)])
    del net.log[:]
    return out


def judge(bench, net, effect, what):
    """Is everything requested in effect?"""
    from pyspectral import rayleigh, utils
    from pyspectral.config import get_config
    conf = get_config()
    if effect.conf is not None:
        for key, val in effect.conf.items():
            require(conf.get(key) == val, f"{what}: configuration", key=key, got=conf.get(key), expected=val)
    del net.log[:]
    if effect.rsr and effect.rsr[1] is not None:
        require(Path(conf["rsr_dir"]) == effect.rsr[1] or Path(conf["rsr_dir"]).parent == effect.rsr[1], f"{what}: rsr_dir", got=conf["rsr_dir"],
                expected=effect.rsr[1])
    if effect.rsr and conf.get("download_from_internet") is not True and (effect.conf or {}).get("download_from_internet") is False:
        opts = effect.rsr[0]
        for platform, instrument in (INSTRUMENTS[bench.case["instrument"]], ("Suomi-NPP", "viirs")):
            got = responses_of(platform, instrument)
            if opts["force"] == "error":
                require(got == {"error": "ZeroDivisionError"}, f"{what}: forced error", got=got)
                continue
            require("error" not in got and got["bands"], f"{what}: no responses", instrument=instrument, got=got)
            require(got["who"][0] == platform, f"{what}: platform", got=got["who"])
            if opts["force"]:
                require(got["bands"] == ["X1"] and got["cwl"] == {"X1": 1.5}, f"{what}: forced responses", got=got)
            version = version_of(opts)
            require(got["version"] == (version or "v0.0.0") and got["current"] is (version == bench.rsr_version), f"{what}: version", got=got["version"],
                    expected=version)
        require(not net.log, f"{what}: network accessed", got=net.log)
        if not opts["force"]:
            for k, wvl in opts["waves"]:
                platform, instrument, band, name = BANDS[k]
                from pyspectral.rsr_reader import RelativeSpectralResponse
                rsr = RelativeSpectralResponse(platform, instrument)
                require(name in rsr.rsr and name in rsr.band_names, f"{what}: band missing", band=band, got=sorted(rsr.rsr))
                clash = [BANDS[i][3] for i, _ in opts["waves"] if i != k]
                if name not in clash:
                    det = rsr.rsr[band]["det-1"]
                    require(abs(det["central_wavelength"] - wvl) < 1e-6 and det["wavelength"].min() <= wvl <= det["wavelength"].max(),
                            f"{what}: central wavelength", band=band, got=det["central_wavelength"], expected=wvl)
            if effect.tb and bench.case["band"] in [k for k, _ in opts["waves"]]:
                nir(bench, effect, what)
    elif effect.rsr and conf.get("download_from_internet") is True and effect.conf.get("download_from_internet"):
        path = os.path.join(conf["rsr_dir"], c20.version_file(RSR))
        version = open(path).readline().strip() if os.path.exists(path) else None
        got = responses_of("Suomi-NPP", "viirs")
        if version == bench.rsr_version:
            require(not net.log, f"{what}: network accessed", got=net.log)
        elif effect.forbid:
            require(got == {"error": "RuntimeError"} and not net.log, f"{what}: a forbidden download did not raise", got=got, log=net.log)
        else:
            require(net.log == [RSR], f"{what}: download enabled and needed", got=net.log)
        del net.log[:]
    if effect.luts:
        opts, _ = effect.luts
        for aerosol in AEROSOLS:
            there = opts["aerosols"] is None or aerosol in opts["aerosols"]
            existing = True if opts["existing"] == "default" else version_text(opts["existing"])
            current = there and (existing is True or existing == c20.required(aerosol))
            this = rayleigh.Rayleigh("Suomi-NPP", "viirs", aerosol_type=aerosol)
            require(bool(this.lutfiles_version_uptodate) is current, f"{what}: look-up tables up to date", aerosol=aerosol, expected=current, **opts)
        pick = bench.case["instrument"]
        for aerosol in (opts["aerosols"] or [AEROSOLS[pick % len(AEROSOLS)]]):
            for atm in (opts["atms"] or [ATMOSPHERES[pick % len(ATMOSPHERES)]]):
                if not opts["existing"] or "again" in what:
                    continue
                ang = np.array([[10.0, 40.0], [60.0, 20.0]])
                this = rayleigh.Rayleigh("Suomi-NPP", "viirs", aerosol_type=aerosol, atmosphere=atm)
                got = np.asarray(this.get_reflectance(ang, ang[::-1], ang * 2, 0.5))
                want = 0.668 - (0.668 - 0.115) * 0.25 if opts["lut"] is None else opts["lut"]
                require(np.allclose(got, want * 100, rtol=1e-6), f"{what}: look-up table data", got=got, expected=want * 100, aerosol=aerosol, atm=atm)
        require(not net.log, f"{what}: network accessed", got=net.log)
    if effect.forbid:
        for attempt in (lambda: utils.download_rsr(dest_dir=bench.root), lambda: utils.download_rsr(),
                        lambda: utils.download_luts(aerosol_types=["rural_aerosol", "desert_aerosol"])):
            try:
                attempt()
                refused = False
            except RuntimeError:
                refused = True
            require(refused, f"{what}: a forbidden download did not raise")
        require(not net.log, f"{what}: forbidden download reached the network", got=net.log)


def nir(bench, effect, what):
    """The NIR calculator works and keeps its files in the mock's directory."""
    from pyspectral.config import get_config
    from pyspectral.near_infrared_reflectance import Calculator
    platform, instrument, band, _ = BANDS[bench.case["band"]]
    if band == "M02" or instrument == "avhrr/3":
        return
    calc = Calculator(platform, instrument, band)
    refl = np.asarray(calc.reflectance_from_tbs(np.array([[30.0]]), np.array([[300.0]]), np.array([[290.0]])))
    require(refl.shape == (1, 1) and np.isfinite(refl).all() and refl[0, 0] > 0, f"{what}: NIR reflectance", got=refl)
    made = [f for f in os.listdir(get_config()["tb2rad_dir"]) if f.endswith(".npz")]
    require(made, f"{what}: no table in the cache directory")


def nested(case, ctx):
    from pyspectral.utils import RSR_DATA_VERSION
    world = gen.World(ctx, download=False)
    if case["version"] != "current":
        world.write_rsr_version(case["version"])
    with open(os.path.join(world.rsr_dir, "rsr_viirs_Suomi-NPP.h5"), "wb") as fp:
        fp.write(c20.rsr_bytes(ctx, 3.9))
    home = ctx.dir()
    os.environ["XDG_DATA_HOME"] = home
    os.environ["HOME"] = home
    os.environ.pop("PSP_CONFIG_FILE", None)
    if case["env"] == "set":
        os.environ["PSP_CONFIG_FILE"] = world.config_path
    bench = Bench(ctx, case)
    bench.rsr_version = RSR_DATA_VERSION
    bench.raised = False
    levels = case["levels"]
    cwd = os.getcwd()
    work = ctx.dir()
    tmp = ctx.dir()
    tempfile.tempdir = tmp
    os.chdir(work)
    try:
        with Net(lambda item: c20.archive(c20.contents(ctx, item, c20.required(item)))) as net, quiet():
            try:
                walk(bench, net, levels, 0, Effect())
            except Boom:
                pass
    finally:
        os.chdir(cwd)
        tempfile.tempdir = None
    for path in Path(bench.root).glob("mine */"):
        if (path / "deeper").exists():
            continue
        require((path / "precious").exists() or not os.listdir(path), "a directory of the caller was cleaned", path=path)
    ctx.event(f"{len(levels)} levels")
    for lev in levels:
        ctx.event(lev["level"]["cm"])
    if bench.raised:
        ctx.event("left by an exception")
    if len(levels) < 2 and not bench.raised:
        ctx.trivial("one level, no exception")


def shard(k):
    def run(case, ctx):
        nested(case, ctx)
    run.__name__ = f"nested{k}"
    prop(lambda: CASES, quick=90, thorough=1200, rule="nested contexts with exceptions")(run)


for _k in range(5):
    shard(_k)


def walk(bench, net, levels, k, effect):
    """Enter the levels from k on; raises Boom when an exception is to get out."""
    if k == len(levels):
        return
    lev = levels[k]
    for turn in range(2 if lev["twice"] else 1):
        before = probe(bench, net)
        caught = None
        inside = []
        try:
            with enter(bench, lev["level"], effect) as new:
                inside = sorted(set(os.listdir(tempfile.gettempdir())) - set(before["tmp"]))
                what = f"level {k} ({lev['level']['cm']})"
                judge(bench, net, new, what)
                walk(bench, net, levels, k + 1, new)
                judge(bench, net, new, what + " again")
                if lev["raise"]:
                    bench.raised = True
                    raise Boom()
        except Boom as err:
            caught = err  # keeping the exception, as pytest.raises does
        after = probe(bench, net)
        for key in before:
            require(after[key] == before[key], f"level {k} ({lev['level']['cm']}): {key} not restored", before=before[key], after=after[key],
                    exception=caught is not None, made=inside)
        if caught is not None and not lev["catch"]:
            raise caught


def everything(tier):
    from harness.checks import c15
    out = []
    for platform, instruments in sorted(c15.instruments().items()):
        for instrument in ([instruments] if isinstance(instruments, str) else instruments):
            out.append({"platform": platform, "instrument": instrument})
    return out


@prop(None, examples=everything, rule="every known platform and instrument inside mock_pyspectral_downloads", budget=120)
def platforms(case, ctx):
    from pyspectral import testing
    from pyspectral.rsr_reader import RelativeSpectralResponse
    tmp = Path(ctx.dir())
    with Net(lambda item: (404, {}, b"")) as net, quiet(), testing.mock_rsr(rsr_dir=tmp, central_wavelengths={"ch1": 0.6}):
        rsr = RelativeSpectralResponse(case["platform"], case["instrument"])
        require(rsr.platform_name == case["platform"] and len(rsr.band_names) > 0, "responses", got=[rsr.platform_name, rsr.band_names])
        require(sorted(set(rsr.band_names)) == sorted(rsr.rsr), "band names", got=sorted(rsr.band_names), expected=sorted(rsr.rsr))
        for band in rsr.band_names:
            det = rsr.rsr[band]["det-1"]
            want = 0.6 if band == "ch1" else 0.46
            require(abs(det["central_wavelength"] - want) < 1e-6, "central wavelength", band=band, got=det["central_wavelength"], expected=want)
            require(len(det["wavelength"]) == len(det["response"]) > 1, "response", band=band)
        require("ch1" in rsr.rsr, "requested band missing")
        require(rsr.rsr_data_version_uptodate, "version")
        require(not net.log and not net.mock.calls, "network accessed", got=net.log)
    require(os.listdir(tmp), "the caller's directory was cleaned")


@prop(None, examples=lambda tier: [{"cm": name, "fail": fail, "env": env} for name in ("mock_pyspectral_downloads", "mock_tb_conversion", "mock_rsr", "mock_rayleigh",
                                                                          "override_config", "forbid_pyspectral_downloads") for fail in (False, True)
                                    for env in (None, "", "missing", "directory", "file", "file gone")],
      rule="each context as documented, without any option")
def plain(case, ctx):
    from pyspectral import testing
    from pyspectral.rayleigh import Rayleigh
    tmp = ctx.dir()
    tempfile.tempdir = tmp
    os.environ.pop("PSP_CONFIG_FILE", None)
    home = ctx.dir()
    os.environ["XDG_DATA_HOME"] = home
    variable = case.get("env")
    if variable and case["cm"] != "forbid_pyspectral_downloads":
        variable = {"missing": os.path.join(home, "nothing.yaml"), "directory": home}.get(variable, os.path.join(home, "a.yaml"))
        if case["env"].startswith("file"):
            with open(variable, "w") as fp:
                fp.write("a: 1\n")
    if variable is not None:
        os.environ["PSP_CONFIG_FILE"] = variable
    try:
        err = None
        try:
            with Net(lambda item: (404, {}, b"")) as net, quiet(), getattr(testing, case["cm"])():
                if case["cm"] in ("mock_pyspectral_downloads", "mock_rayleigh"):
                    for aerosol in AEROSOLS:
                        for atm in ATMOSPHERES:
                            this = Rayleigh("Suomi-NPP", "viirs", aerosol_type=aerosol, atmosphere=atm)
                            require(this.lutfiles_version_uptodate, "version of the tables", aerosol=aerosol)
                            require(os.path.exists(this.reflectance_lut_filename), "no table", aerosol=aerosol, atm=atm)
                require(not net.log, "network accessed", got=net.log)
                if case.get("env") == "file gone" and os.path.exists(variable):
                    os.remove(variable)
                if case["fail"]:
                    raise Boom()
        except Boom as boom:
            err = boom
        require((err is not None) == case["fail"], "the exception was swallowed")
        require(os.listdir(tmp) == [], "temporary directories left", got=os.listdir(tmp))
        require(os.environ.get("PSP_CONFIG_FILE") == variable, "environment variable", got=os.environ.get("PSP_CONFIG_FILE"), expected=variable)
    finally:
        tempfile.tempdir = None


PLACES = [None, "new", "there", "relative", "deep"]


@prop(None, examples=lambda tier: [{"cm": cm, "dirs": [a, b]} for cm in ("mock_tb_conversion", "mock_rayleigh", "mock_rsr", "mock_pyspectral_downloads")
                                    for a in PLACES for b in (PLACES if cm in ("mock_tb_conversion", "mock_rayleigh") else [None])],
      rule="each context with each combination of directories (none, not existing, existing, relative), used by calculators and corrections", budget=120)
def directories(case, ctx):
    from pathlib import Path

    from pyspectral import testing
    from pyspectral.config import get_config
    from pyspectral.near_infrared_reflectance import Calculator
    from pyspectral.rayleigh import Rayleigh
    from pyspectral.rsr_reader import RelativeSpectralResponse
    base = Path(ctx.dir())
    gen.World(ctx)
    keep = os.getcwd()
    before = get_config()
    os.chdir(base)
    try:
        dirs = []
        for name, place in zip(("one", "two"), case["dirs"]):
            path = None if place is None else Path(name) if place == "relative" else base / name / "below" if place == "deep" else base / name
            if place in ("there", "relative"):
                (base / name).mkdir()
            dirs.append(path)
        mine = {"mock_tb_conversion": "tb2rad_dir", "mock_rayleigh": "rayleigh_dir", "mock_rsr": "rsr_dir", "mock_pyspectral_downloads": "tmp_path"}[case["cm"]]
        kwargs = {k: v for k, v in zip((mine, "rsr_dir"), dirs) if v is not None}
        waves = {"central_wavelengths": {"20": 3.75}}
        if case["cm"] == "mock_tb_conversion":
            kwargs.update(waves)
        elif case["cm"] == "mock_pyspectral_downloads":
            kwargs["rsr_files_kwargs"] = waves
        with Net(lambda item: (404, {}, b"")) as net, quiet(), getattr(testing, case["cm"])(**kwargs):
            rsr = RelativeSpectralResponse("EOS-Aqua", "modis")
            require("20" in rsr.rsr, "responses")
            if case["cm"] in ("mock_tb_conversion", "mock_pyspectral_downloads"):
                refl = np.asarray(Calculator("EOS-Aqua", "modis", "20").reflectance_from_tbs(np.array([[30.0]]), np.array([[300.0]]), np.array([[290.0]])))
                require(np.isfinite(refl).all() and refl[0, 0] > 0, "NIR reflectance", got=refl)
                if case["cm"] == "mock_tb_conversion" and dirs[0] is not None:
                    require(any(f.endswith(".npz") for f in os.listdir(dirs[0])), "no table in the directory given", got=os.listdir(dirs[0]))
            if case["cm"] in ("mock_rayleigh", "mock_pyspectral_downloads"):
                ang = np.array([[10.0, 40.0]])
                got = Rayleigh("EOS-Aqua", "modis").get_reflectance(ang, ang, ang, "1")
                require(got.shape == (1, 2) and np.isfinite(got).all(), "Rayleigh reflectance")
            require(not net.log, "network accessed", got=net.log)
        require(get_config() == before, "configuration afterwards")
        require(waves == {"central_wavelengths": {"20": 3.75}}, "the caller's arguments were modified", got=waves)
        for path in dirs:
            require(path is None or (base / path).is_dir(), "the caller's directory is gone", path=str(path))
    finally:
        os.chdir(keep)
    ctx.event(case["cm"])


@prop(None, examples=lambda tier: [{"cm": cm, "versions": v} for cm in ("mock_rsr", "mock_rsr_files", "mock_tb_conversion", "mock_pyspectral_downloads")
                                   for v in (["v0.0.1", None], [None, "v0.0.1", None], ["v0.0.1", "v0.0.2"])],
      rule="a directory of the caller used again: the requested version counts, not the one found there")
def used_again(case, ctx):
    from pyspectral import testing
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import RSR_DATA_VERSION
    folder = Path(ctx.dir()) / "mine"
    for version in case["versions"]:
        kwargs = {} if version is None else {"rsr_data_version": version}
        with contextlib.ExitStack() as stack:
            if case["cm"] == "mock_rsr_files":
                stack.enter_context(testing.override_config(config_options={"rsr_dir": str(folder), "download_from_internet": False}))
                stack.enter_context(testing.mock_rsr_files(folder, **kwargs))
            elif case["cm"] == "mock_rsr":
                stack.enter_context(testing.mock_rsr(rsr_dir=folder, **kwargs))
            elif case["cm"] == "mock_tb_conversion":
                stack.enter_context(testing.mock_tb_conversion(tb2rad_dir=folder, **kwargs))
            else:
                stack.enter_context(testing.mock_pyspectral_downloads(tmp_path=folder, rsr_files_kwargs=kwargs))
            this = RelativeSpectralResponse("Suomi-NPP", "viirs")
            require(this.rsr_data_version == (version or RSR_DATA_VERSION) and this.rsr_data_version_uptodate is (version is None), "version in effect",
                    got=this.rsr_data_version, asked=version, **case)
    ctx.event(case["cm"])
