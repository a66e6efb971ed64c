"""C20: data are downloaded exactly when needed and allowed."""
import contextlib
import io
import os
import runpy
import sys
import tarfile
import warnings
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import REPO, prop, require

TECHNIQUE = "stateful model-based testing (Hypothesis): histories of constructions, updates, version and configuration changes against a model of the installation, real archives over intercepted HTTP"
RULE = "Cases are histories of operations on one installation; non-trivial when at least one operation needs an update."
ASSUMPTIONS = ["The servers answer with complete archives (failing downloads: C21); the published archives keep their version files' names."]

# how the version files inside the published archives are called
VERSION_FILES = {"antarctic_aerosol": "AA", "continental_average_aerosol": "CAA", "continental_clean_aerosol": "CCA",
                 "continental_polluted_aerosol": "CPA", "desert_aerosol": "DA", "marine_clean_aerosol": "MCA",
                 "marine_polluted_aerosol": "MPA", "marine_tropical_aerosol": "MTA", "rayleigh_only": "RO",
                 "rural_aerosol": "RA", "urban_aerosol": "UA"}
AEROSOLS = sorted(VERSION_FILES)
RSR = "rsr"
_CACHE = {}


def version_file(item):
    return "PYSPECTRAL_RSR_VERSION" if item == RSR else "PYSPECTRAL_ATM_CORR_LUT_" + VERSION_FILES[item]


def required(item):
    from pyspectral import utils
    return utils.RSR_DATA_VERSION if item == RSR else utils.ATM_CORRECTION_LUT_VERSION[item]["version"]


def address(item):
    from pyspectral import utils
    return utils.HTTP_PYSPECTRAL_RSR if item == RSR else utils.HTTPS_RAYLEIGH_LUTS[item]


def rsr_bytes(ctx, center):
    """A small RSR file for Suomi-NPP VIIRS."""
    if center not in _CACHE:
        path = os.path.join(ctx.dir(), "x.h5")
        wvl = np.linspace(center - 0.3, center + 0.3, 13)
        resp = np.exp(-((wvl - center) / 0.1) ** 2)
        gen.write_rsr_file(path, {"M12": [(wvl, resp, center)]}, platform_name="Suomi-NPP", sensor="viirs")
        with open(path, "rb") as fp:
            _CACHE[center] = fp.read()
    return _CACHE[center]


def contents(ctx, item, version):
    """The files in the published archive of an item."""
    out = {version_file(item): (version + "\n").encode()}
    if item == RSR:
        out["rsr_viirs_Suomi-NPP.h5"] = rsr_bytes(ctx, 3.7)
        out["rsr_abi_GOES-16.h5"] = b"not read " * 10
    else:
        out["rayleigh_lut_us-standard.h5"] = f"table of {item}".encode() * 5
        out["rayleigh_lut_tropical.h5"] = f"tropical table of {item}".encode()
    return out


def archive(files, order=None, compression="gz"):
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w:" + compression) as tar:
        for name in (order or sorted(files)):
            info = tarfile.TarInfo(name)
            info.size = len(files[name])
            tar.addfile(info, io.BytesIO(files[name]))
    return buf.getvalue()


def tree(root):
    """All files and directories below root."""
    out = {}
    for path, dirs, names in os.walk(root):
        for name in dirs:
            out[os.path.relpath(os.path.join(path, name), root)] = None
        for name in names:
            full = os.path.join(path, name)
            with open(full, "rb") as fp:
                out[os.path.relpath(full, root)] = fp.read()
    return out


def files_of(content):
    return {k: v for k, v in content.items() if v is not None}


@contextlib.contextmanager
def quiet(stdout=False):
    with contextlib.redirect_stderr(io.StringIO()):
        if stdout:
            with contextlib.redirect_stdout(io.StringIO()):
                yield
        else:
            yield


@contextlib.contextmanager
def script(name, *args):
    """Run a script of bin/, keeping logging as it is."""
    import logging
    root = logging.getLogger("")
    keep, argv, level = list(root.handlers), sys.argv, root.level
    sys.argv = [name, *args]
    try:
        with quiet(stdout=True):
            runpy.run_path(os.path.join(REPO, "bin", name), run_name="__main__")
        yield
    finally:
        sys.argv = argv
        root.handlers = keep
        root.setLevel(level)


class Net:
    """Intercepted HTTP serving archives; anything else is refused."""

    def __init__(self, served):
        import responses
        self.mock = responses.RequestsMock(assert_all_requests_are_fired=False)
        self.served = served
        self.log = []

    def __enter__(self):
        import responses
        self.mock.start()

        def answer(item):
            def callback(request):
                self.log.append(item)
                body = self.served(item)
                if isinstance(body, tuple):
                    return body
                return 200, {}, body
            return callback
        for item in [RSR] + AEROSOLS:
            self.mock.add_callback(responses.GET, address(item), callback=answer(item))
        return self

    def __exit__(self, *exc):
        self.mock.stop(allow_assert=False)
        self.mock.reset()


VERSIONS = st.sampled_from(["current", "current", "current no newline", "current and more lines", "absent", "v0.0.0", "v1.0.0", "older", "newer",
                            "longer", "shorter", "empty", "second line", "other text", "current with spaces", "current windows", "upper case", "no v", "and a word"])


def version_text(how, item):
    now = required(item)
    major, minor, patch = now.lstrip("v").split(".")
    return {"current": now + "\n", "current no newline": now, "current and more lines": now + "\nv0.0.1\n", "v0.0.0": "v0.0.0\n",
            "v1.0.0": "v1.0.0\n", "older": f"v{major}.{minor}.{int(patch) - 1}\n", "newer": f"v{major}.{minor}.{int(patch) + 1}\n",
            "longer": now + "0\n", "shorter": now[:-1] + "\n", "empty": "", "second line": "v0.9.0\n" + now + "\n",
            "other text": "x" + now + "\n", "current with spaces": f" {now} \n", "current windows": now + "\r\n", "upper case": now.upper() + "\n",
            "no v": now.lstrip("v") + "\n", "and a word": now + " beta\n"}[how]


ITEM = st.sampled_from([RSR, RSR, RSR] + AEROSOLS)
SUBSET = st.one_of(st.none(), st.just([]), st.lists(st.sampled_from(AEROSOLS), min_size=1, max_size=4, unique=True),
                   st.permutations(AEROSOLS).map(list))
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("version"), "item": ITEM, "how": VERSIONS}),
    st.fixed_dictionaries({"op": st.just("config"), "flag": st.sampled_from([True, True, False, None])}),
    st.fixed_dictionaries({"op": st.just("reader"), "known": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("converter")}),
    st.fixed_dictionaries({"op": st.just("by name")}),
    st.fixed_dictionaries({"op": st.just("check"), "dry": st.booleans(), "dest": st.sampled_from([None, None, "str", "path"]), "keep": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("rsr update"), "dry": st.booleans(), "dest": st.sampled_from([None, None, "str", "path"]),
                           "via": st.sampled_from(["function", "script"])}),
    st.fixed_dictionaries({"op": st.just("rayleigh"), "aerosol": st.one_of(st.none(), st.sampled_from(AEROSOLS)),
                           "atm": st.sampled_from([None, "us-standard", "tropical", "midlatitude winter"])}),
    st.fixed_dictionaries({"op": st.just("lut update"), "dry": st.booleans(), "which": SUBSET, "via": st.sampled_from(["function", "script"]),
                           "form": st.sampled_from(["list", "tuple"])}),
    st.fixed_dictionaries({"op": st.just("download rsr"), "dry": st.booleans(), "dest": st.sampled_from([None, "str", "path"])}),
    st.fixed_dictionaries({"op": st.just("download luts"), "dry": st.booleans(), "which": SUBSET,
                           "form": st.sampled_from(["list", "tuple", "iter", "set", "old", "old set", "old single"])}),
)
CASES = st.fixed_dictionaries({
    "start": st.lists(st.tuples(ITEM, VERSIONS).map(list), max_size=6),
    "flag": st.sampled_from([True, True, True, False, None]),
    "stale": st.lists(st.sampled_from([RSR, RSR] + AEROSOLS), max_size=2),
    "luts_exist": st.booleans(),
    "ops": st.lists(OPS, min_size=1, max_size=8)})


class Install:
    """The installation and its model."""

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.world = gen.World(ctx, download=case["flag"])
        self.set_flag(case["flag"])
        os.remove(os.path.join(self.world.rsr_dir, version_file(RSR)))
        self.versions = {}
        self.stale = set(case["stale"])
        with open(os.path.join(self.world.rsr_dir, "rsr_viirs_Suomi-NPP.h5"), "wb") as fp:
            fp.write(rsr_bytes(ctx, 3.9))
        self.center = 3.9
        self.named = os.path.join(self.world.dir, "my own.h5")
        with open(self.named, "wb") as fp:
            fp.write(rsr_bytes(ctx, 10.8))
        self.kept = None
        self.needed = 0
        if not case["luts_exist"]:
            os.rmdir(self.world.rayleigh_dir)
        for item, how in case["start"]:
            self.write(item, how)

    def set_flag(self, flag):
        self.flag = flag
        self.world.settings.pop("download_from_internet", None)
        if flag is not None:
            self.world.settings["download_from_internet"] = flag
        self.world.apply()

    def folder(self, item):
        return self.world.rsr_dir if item == RSR else os.path.join(self.world.rayleigh_dir, item)

    def write(self, item, how):
        path = os.path.join(self.folder(item), version_file(item))
        if how == "absent":
            if os.path.exists(path):
                os.remove(path)
            self.versions.pop(item, None)
            return
        os.makedirs(self.folder(item), exist_ok=True)
        text = version_text(how, item)
        with open(path, "w", newline="") as fp:
            fp.write(text)
        self.versions[item] = text.split("\n")[0].strip()

    def outdated(self, item):
        old = self.versions.get(item) != required(item)
        self.needed += old
        return old

    def served_files(self, item):
        return contents(self.ctx, item, "v0.1.0" if item in self.stale else required(item))

    def served(self, item):
        return archive(self.served_files(item))

    def downloaded(self, item, dest=None):
        if dest is None:
            self.versions[item] = "v0.1.0" if item in self.stale else required(item)
            if item == RSR:
                self.center = 3.7


def read_center(rsr):
    return float(rsr.rsr["M12"]["det-1"]["central_wavelength"])


def perform(inst, op, k):
    """Do it; return the items that have to be downloaded: [(item, destination directory)]."""
    from pathlib import Path

    from pyspectral import rayleigh, utils
    from pyspectral import rsr_reader
    from pyspectral.radiance_tb_conversion import RadTbConverter
    from pyspectral.rsr_reader import RelativeSpectralResponse
    name = op["op"]
    dest = None
    if op.get("dest"):
        dest = os.path.join(inst.world.dir, f"dest{k}")
        os.makedirs(dest)
    where = dest if dest is None or op["dest"] == "str" else Path(dest)
    if name in ("reader", "converter"):
        expect = [(RSR, None)] if inst.outdated(RSR) and inst.flag else []
        for item, _ in expect:
            inst.downloaded(item)
        if name == "converter":
            RadTbConverter("Suomi-NPP", "viirs", "M12")
        elif op["known"]:
            got = read_center(RelativeSpectralResponse("Suomi-NPP", "viirs"))
            require(abs(got - inst.center) < 1e-9, "the reader does not hold the data of the installation", got=got, expected=inst.center)
        else:
            try:
                RelativeSpectralResponse("NOAA-21", "viirs")
            except OSError:
                pass
        return expect
    if name == "by name":
        inst.outdated(RSR)
        rsr = RelativeSpectralResponse(filename=inst.named)
        require(abs(read_center(rsr) - 10.8) < 1e-9, "wrong file read")
        return []
    if name == "check":
        if inst.kept is None or not op["keep"] or inst.kept[1] != inst.flag:
            inst.kept = (RelativeSpectralResponse(filename=inst.named), inst.flag)
        old = inst.outdated(RSR)
        rsr = inst.kept[0]
        require(bool(rsr.rsr_data_version_uptodate) is (not old), "rsr_data_version_uptodate", got=rsr.rsr_data_version_uptodate, expected=not old)
        kwargs = {} if not op["dry"] else {"dry_run": True}
        if dest:
            kwargs["dest_dir"] = where
        got = rsr.download_rsr_updates(**kwargs)
        require(bool(got) is old, "the check reports the wrong thing", got=got, expected=old)
        return [(RSR, dest)] if old and inst.flag and not op["dry"] else []
    if name == "rsr update":
        old = inst.outdated(RSR)
        if op["via"] == "function":
            rsr_reader.check_and_download(dest_dir=where, dry_run=op["dry"])
        else:
            args = (["-o", dest] if dest else []) + (["-d"] if op["dry"] else [])
            with script("download_rsr.py", *args):
                pass
        return [(RSR, dest)] if old and inst.flag and not op["dry"] else []
    if name == "rayleigh":
        aerosol = op["aerosol"] or "marine_clean_aerosol"
        old = inst.outdated(aerosol)
        kwargs = {"aerosol_type": op["aerosol"]} if op["aerosol"] else {}
        if op["atm"]:
            kwargs["atmosphere"] = op["atm"]
        rayleigh.Rayleigh("Suomi-NPP", "viirs", **kwargs)
        return [(aerosol, None)] if old and inst.flag else []
    if name == "lut update":
        which = op["which"] or None
        old = [a for a in (AEROSOLS if which is None else which) if inst.outdated(a)]
        if op["via"] == "function":
            rayleigh.check_and_download(dry_run=op["dry"], aerosol_types=tuple(which) if which and op["form"] == "tuple" else which)
        else:
            args = (["-a"] + which if which else []) + (["--dry_run"] if op["dry"] else [])
            with script("download_atm_correction_luts.py", *args):
                pass
        return [(a, None) for a in old] if not op["dry"] else []
    if name == "download rsr":
        utils.download_rsr(dest_dir=where, dry_run=op["dry"])
        return [(RSR, dest)] if not op["dry"] else []
    if name == "download luts":
        which, form = op["which"], op.get("form", "list")
        kwargs = {"aerosol_types": which}
        if which is not None:
            kwargs = {"aerosol_types": {"tuple": tuple, "iter": iter, "set": set}.get(form, list)(which)}
            if form.startswith("old") and which:
                which = which[:1] if form == "old single" else which
                kwargs = {"aerosol_type": {"old set": set(which), "old": which, "old single": which[0]}[form]}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            utils.download_luts(dry_run=op["dry"], **kwargs)
        return [(a, None) for a in (AEROSOLS if which is None else which)] if not op["dry"] else []
    raise ValueError(name)


@prop(lambda: CASES, quick=800, rule="histories on one installation")
def histories(case, ctx):
    inst = Install(ctx, case)
    os.environ["PSP_CONFIG_FILE"] = inst.world.config_path
    with Net(inst.served) as net:
        for k, op in enumerate(case["ops"]):
            if op["op"] == "version":
                inst.write(op["item"], op["how"])
                continue
            if op["op"] == "config":
                inst.set_flag(op["flag"])
                continue
            if op["op"] == "lut update" and not inst.flag and not op["dry"]:
                continue  # asking for it while downloads are disabled: not specified
            before = tree(inst.world.dir)
            del net.log[:]
            with quiet():
                expect = perform(inst, op, k)
            after = tree(inst.world.dir)
            what = f"operation {k} ({op['op']})"
            require(Counter(net.log) == Counter(item for item, _ in expect), f"{what}: network contacted for the wrong things",
                    got=net.log, expected=expect, versions=inst.versions, flag=inst.flag)
            want = files_of(before)
            for item, dest in expect:
                inst.downloaded(item, dest)
                folder = os.path.relpath(dest or inst.folder(item), inst.world.dir)
                for fname, content in inst.served_files(item).items():
                    want[os.path.join(folder, fname)] = content
            got = files_of(after)
            require(got == want, f"{what}: installed files", missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)),
                    different=sorted(k for k in set(got) & set(want) if got[k] != want[k]))
            if op.get("dry"):
                extra = set(after) - set(before) - {f"dest{k}", "rsr", "rayleigh"}  # reading the configuration makes the last two
                require(not extra, f"{what}: a dry run made directories", extra=extra)
            ctx.event(f"{op['op']}{' dry' if op.get('dry') else ''}: {'download' if expect else 'none'}")
    if not inst.needed:
        ctx.trivial("nothing outdated")


def each_item(tier):
    return [{"item": item, "how": how} for item in [RSR] + AEROSOLS for how in ("absent", "older", "newer", "longer", "second line", "upper case", "no v", "and a word", "current", "current with spaces", "current windows", "current no newline",
                        "current and more lines")]


@prop(None, examples=each_item, rule="each item alone: one download from its own address into its own directory, then none")
def each(case, ctx):
    from pyspectral import rayleigh, utils
    from pyspectral.rsr_reader import RelativeSpectralResponse
    item = case["item"]
    inst = Install(ctx, {"flag": True, "stale": [], "luts_exist": True, "start": [[item, case["how"]]]})
    os.environ["PSP_CONFIG_FILE"] = inst.world.config_path
    names = {a: address(a) for a in AEROSOLS}
    require(len(set(names.values())) == len(AEROSOLS) and address(RSR) not in names.values(), "addresses are not distinct", got=names)
    if item != RSR:
        part = {"rayleigh_only": "no_aerosol"}.get(item, item)
        require(address(item).endswith(f"_{part}.tgz"), "address of another aerosol type", item=item, got=address(item))
        require(sorted(utils.AEROSOL_TYPES) == AEROSOLS, "aerosol types", got=utils.AEROSOL_TYPES)
    with Net(inst.served) as net, quiet():
        for k in range(3):
            if item == RSR:
                RelativeSpectralResponse("Suomi-NPP", "viirs")
            else:
                rayleigh.Rayleigh("Suomi-NPP", "viirs", aerosol_type=item)
        require(net.log == ([] if "current" in case["how"] else [item]), "downloads over three constructions", got=net.log, **case)
    for other in [RSR] + AEROSOLS:
        there = os.path.exists(os.path.join(inst.folder(other), version_file(other)))
        require(there == (other == item), "files of another item", item=item, other=other, there=there)
    if "current" in case["how"]:
        ctx.trivial("up to date")
