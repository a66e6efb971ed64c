"""C21: failed downloads."""
import hashlib
import io
import os
import random
import tarfile

from hypothesis import strategies as st

from harness import faults, gen
from harness.checks import c20
from harness.checks.c20 import AEROSOLS, RSR, Net, archive, files_of, quiet, tree, version_file
from harness.core import prop, require

TECHNIQUE = "fault injection in generated histories (Hypothesis): HTTP and archive faults at generated points against a model of the installed files"
RULE = "Cases are histories of download attempts with injected faults on generated archives; non-trivial when an attempt fails and another follows."
ASSUMPTIONS = ["gzip compressed tar archives as published; the destination is writable.",
               "A process is killed before one of its file operations (creating, opening to write, renaming, removing); a disk is full for all files opened from then on.",
               "Updates at the same time: two or three threads of one process, switching at their file operations in generated orders.",
               "Flipped bytes lie behind the gzip header, whose time and operating system fields carry no data."]

NAMES = ["rsr_viirs_Suomi-NPP.h5", "rsr_abi_GOES-16.h5", "a.h5", "sub/b.h5", "sub/deeper/c.h5", "rayleigh_lut_tropical.h5", "README"]
MEMBERS = st.lists(st.tuples(st.sampled_from(NAMES), st.one_of(st.integers(0, 3000), st.sampled_from([0, 1, 511, 512, 513, 10240, 1500000]))).map(list),
                   min_size=0, max_size=5, unique_by=lambda x: x[0])
FAULTS = st.one_of(
    st.fixed_dictionaries({"kind": st.just("ok"), "how": st.sampled_from(["plain", "plain", "redirect", "length"])}),
    st.fixed_dictionaries({"kind": st.just("status"), "code": st.sampled_from([400, 401, 403, 404, 410, 429, 500, 502, 503, 504]),
                           "body": st.sampled_from(["", "html", "archive"])}),
    st.fixed_dictionaries({"kind": st.just("refused"), "how": st.sampled_from(["connection", "timeout", "ssl", "redirects"])}),
    st.fixed_dictionaries({"kind": st.sampled_from(["reset", "short"]), "at": st.floats(0, 1)}),
    st.fixed_dictionaries({"kind": st.just("truncated"), "at": st.one_of(st.floats(0, 1), st.integers(1, 64))}),
    st.fixed_dictionaries({"kind": st.just("flipped"), "at": st.one_of(st.floats(0, 1), st.integers(1, 16)), "bit": st.integers(0, 7)}),
    st.fixed_dictionaries({"kind": st.just("garbage"), "how": st.sampled_from(["html", "empty", "gzip of text", "random"])}),
    st.fixed_dictionaries({"kind": st.just("escape"), "how": st.sampled_from(["parent", "nested", "link", "abslink", "hardlink"]),
                           "pos": st.floats(0, 1)}),
)
CASES = st.fixed_dictionaries({
    "item": st.sampled_from([RSR, RSR, RSR] + AEROSOLS), "installed": MEMBERS, "seed": st.integers(0, 10 ** 6),
    "version": st.sampled_from([None, "v0.0.1"]),
    "attempts": st.lists(st.fixed_dictionaries({"fault": FAULTS, "members": MEMBERS, "order": st.integers(0, 1000),
                                                "via": st.sampled_from(["construct", "update", "function"])}), min_size=1, max_size=5)})


def content(seed, name, size, tag):
    """Not compressible, different for every seed, name and tag."""
    key = hashlib.sha256(f"{seed} {name} {tag}".encode()).digest()
    return random.Random(key).randbytes(size)


class Breaking(io.RawIOBase):
    """A body whose connection breaks."""

    def __init__(self, data):
        self.data = io.BytesIO(data)

    def readable(self):
        return True

    def readinto(self, buf):
        got = self.data.read(len(buf))
        if not got:
            import urllib3
            raise urllib3.exceptions.ProtocolError("Connection broken", ConnectionResetError(104, "Connection reset by peer"))
        buf[:len(got)] = got
        return len(got)


def position(at, size):
    """A fraction, counted from the end, or from the start."""
    if isinstance(at, dict):
        return min(size - 1, at["byte"])
    if isinstance(at, int) and at >= 1:
        return max(0, size - at)
    return min(size - 1, int(at * size))


def with_escape(files, order, how, pos, target):
    """An archive trying to reach the file *target* in the parent of the destination."""
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w:gz") as tar:
        names = list(order)
        names.insert(int(pos * len(names)), None)
        for name in names:
            data = files[name] if name is not None else b"evil"
            info = tarfile.TarInfo(name)if name is not None else tarfile.TarInfo("x")
            if name is None:
                if how == "parent":
                    info.name = "../" + target
                elif how == "nested":
                    info.name = "sub/../../" + target
                elif how == "link":
                    info.type, info.linkname, data = tarfile.SYMTYPE, "../" + target, b""
                elif how == "abslink":
                    info.type, info.linkname, data = tarfile.SYMTYPE, "/dev/null", b""
                elif how == "hardlink":
                    info.type, info.linkname, data = tarfile.LNKTYPE, "../" + target, b""
            info.size = len(data)
            tar.addfile(info, io.BytesIO(data))
    return buf.getvalue()


def answer(attempt, files, order, seed):
    """What the server says: body, or (status, headers, body), or an exception raised."""
    import requests
    fault = attempt["fault"]
    kind = fault["kind"]
    whole = archive(files, order)
    if kind == "ok":
        if fault["how"] == "length":
            return 200, {"Content-Length": str(len(whole)), "Content-Type": "application/octet-stream"}, whole
        if fault["how"] == "redirect":
            return 302, {"Location": "https://elsewhere.example/files/archive.tgz"}, b""
        return whole
    if kind == "status":
        return fault["code"], {}, {"": b"", "html": b"<html>error</html>", "archive": whole}[fault["body"]]
    if kind == "refused":
        raise {"connection": requests.exceptions.ConnectionError("refused"), "timeout": requests.exceptions.ConnectTimeout("slow"),
               "ssl": requests.exceptions.SSLError("bad certificate"), "redirects": requests.exceptions.TooManyRedirects("loop")}[fault["how"]]
    if kind == "reset":
        return 200, {}, io.BufferedReader(Breaking(whole[:position(fault["at"], len(whole))]))
    if kind == "short":
        return 200, {"Content-Length": str(len(whole))}, whole[:position(fault["at"], len(whole))]
    if kind == "truncated":
        return whole[:position(fault["at"], len(whole))]
    if kind == "flipped":
        at = max(10, position(fault["at"], len(whole)))
        return whole[:at] + bytes([whole[at] ^ (1 << fault["bit"])]) + whole[at + 1:]
    if kind == "garbage":
        import gzip
        return {"html": b"<html><body>please log in</body></html>" * 20, "empty": b"", "gzip of text": gzip.compress(b"no tar " * 200),
                "random": b"\x07" + content(seed, "garbage", 3000, "")}[fault["how"]]
    if kind == "escape":
        return with_escape(files, order, fault["how"], fault["pos"], "victim")
    raise ValueError(kind)


def sound(data):
    import gzip
    import zlib
    try:
        gzip.decompress(data)
    except (OSError, EOFError, zlib.error):
        return False
    return True


def run(item, via):
    from pyspectral import rayleigh, utils
    from pyspectral import rsr_reader
    if item == RSR:
        if via == "construct":
            rsr_reader.RelativeSpectralResponse("EOS-Aqua", "modis")
        elif via == "update":
            rsr_reader.check_and_download()
        else:
            utils.download_rsr()
    elif via == "construct":
        rayleigh.Rayleigh("Suomi-NPP", "viirs", aerosol_type=item)
    elif via == "update":
        rayleigh.check_and_download(aerosol_types=[item])
    else:
        utils.download_luts(aerosol_types=[item])


def uptodate(item, named):
    from pyspectral.rayleigh import RayleighConfigBaseClass
    from pyspectral.rsr_reader import RelativeSpectralResponse
    if item == RSR:
        return RelativeSpectralResponse(filename=named).rsr_data_version_uptodate
    return RayleighConfigBaseClass(item).lutfiles_version_uptodate


@prop(lambda: CASES, quick=500, rule="histories of failing and succeeding downloads")
def histories(case, ctx):
    import responses
    item = case["item"]
    world = gen.World(ctx, download=True)
    os.environ["PSP_CONFIG_FILE"] = world.config_path
    os.remove(os.path.join(world.rsr_dir, version_file(RSR)))
    dest = world.rsr_dir if item == RSR else os.path.join(world.rayleigh_dir, item)
    os.makedirs(dest, exist_ok=True)
    named = os.path.join(world.dir, "own.h5")
    with open(named, "wb") as fp:
        fp.write(c20.rsr_bytes(ctx, 10.8))
    for folder in (world.dir, world.rayleigh_dir):
        with open(os.path.join(folder, "victim"), "w") as fp:
            fp.write("precious")
    installed = {}
    for name, size in case["installed"]:
        installed[name] = content(case["seed"], name, size, "old")
    if item == RSR:
        installed["rsr_modis_EOS-Aqua.h5"] = c20.rsr_bytes(ctx, 3.9)
    if case["version"]:
        installed[version_file(item)] = (case["version"] + "\n").encode()
    for name, data in installed.items():
        os.makedirs(os.path.dirname(os.path.join(dest, name)), exist_ok=True)
        with open(os.path.join(dest, name), "wb") as fp:
            fp.write(data)
    prefix = os.path.relpath(dest, world.dir) + os.sep

    def split():
        everything = files_of(tree(world.dir))
        inside = {k[len(prefix):]: v for k, v in everything.items() if k.startswith(prefix)}
        return inside, {k: v for k, v in everything.items() if not k.startswith(prefix)}

    outside = split()[1]
    current = False
    failed = 0
    state = {}
    with Net(lambda _: state["answer"]()) as net, quiet():
        net.mock.add_callback(responses.GET, "https://elsewhere.example/files/archive.tgz", callback=lambda request: (200, {}, state["whole"]))
        for k, attempt in enumerate(case["attempts"]):
            files = {name: content(case["seed"], name, size, k) for name, size in attempt["members"]}
            files[version_file(item)] = (c20.required(item) + "\n").encode()
            order = sorted(files)
            random.Random(attempt["order"]).shuffle(order)
            state["whole"] = archive(files, order)
            state["answer"] = lambda: answer(attempt, files, order, case["seed"])  # noqa: B023
            del net.log[:]
            kind, via = attempt["fault"]["kind"], attempt["via"]
            if kind == "flipped" and sound(state["answer"]()):
                kind = "ok"  # an unused bit behind the compressed data
            what = f"attempt {k} ({kind}, {via})"
            wanted = via == "function" or not current
            error = None
            try:
                run(item, via)
            except Exception as err:  # any kind of error will do
                error = err
            inside, others = split()
            require(len(net.log) == (1 if wanted else 0), f"{what}: number of downloads", got=net.log, current=current)
            require(others == outside, f"{what}: files outside the destination touched",
                    changed=sorted(set(others) ^ set(outside)) or [n for n in others if others[n] != outside[n]])
            if not wanted:
                require(error is None, f"{what}: error without download", error=error)
                continue
            if kind == "ok":
                require(error is None, f"{what}: successful download raises", error=repr(error))
                installed.update(files)
                require(inside == installed, f"{what}: files after a successful download", missing=sorted(set(installed) - set(inside)),
                        extra=sorted(set(inside) - set(installed)), different=[n for n in inside if inside[n] != installed.get(n)])
                current = True
            else:
                failed += 1
                require(error is not None, f"{what}: no error for a failed download", fault=attempt["fault"])
                lost = [n for n in installed if inside.get(n) != installed[n]]
                require(not lost, f"{what}: installed files changed by a failed download", files=lost)
            require(bool(uptodate(item, named)) is current, f"{what}: considered up to date", expected=current)
            ctx.event(kind)
    if failed == 0 or len(case["attempts"]) < 2:
        ctx.trivial("no failure followed by another attempt")


def every_point(tier):
    step = 1 if tier == "thorough" else 7
    return [{"kind": kind, "start": s, "step": step * 12} for kind in ("truncated", "flipped") for s in range(0, step * 12, step)]


@prop(None, examples=every_point, rule="every (quick: every 7th) truncation point and flipped byte of one archive")
def points(case, ctx):
    members = [["a.h5", 300], ["b.h5", 700], ["README", 0]]
    for order in (0, 1):
        for at in range(case["start"], 1500, case["step"]):  # the archive has some 1250 bytes
            if case["kind"] == "flipped" and at < 10:
                continue
            histories({"item": RSR, "installed": [["a.h5", 40]], "seed": 1, "version": "v0.0.1",
                       "attempts": [{"fault": {"kind": case["kind"], "at": {"byte": at}, "bit": at % 8}, "members": members,
                                     "order": order, "via": "function"}]}, ctx)
    ctx.nontrivial = True


SMALL = st.lists(st.tuples(st.sampled_from(NAMES), st.integers(0, 600)).map(list), min_size=1, max_size=4, unique_by=lambda x: x[0])
SITES = st.fixed_dictionaries({"item": st.sampled_from([RSR, RSR] + AEROSOLS), "installed": SMALL, "members": SMALL, "seed": st.integers(0, 10 ** 6),
                               "version": st.sampled_from([None, "v0.0.1"]), "order": st.integers(0, 1000), "via": st.sampled_from(["update", "function"])})


class Site:
    """An installation, and the archive with its update."""

    def __init__(self, case, ctx):
        self.item, self.via = case["item"], case["via"]
        self.world = gen.World(ctx, download=True)
        os.environ["PSP_CONFIG_FILE"] = self.world.config_path
        os.remove(os.path.join(self.world.rsr_dir, version_file(RSR)))
        self.dest = self.world.rsr_dir if self.item == RSR else os.path.join(self.world.rayleigh_dir, self.item)
        os.makedirs(self.dest, exist_ok=True)
        self.named = os.path.join(self.world.dir, "own.h5")
        with open(self.named, "wb") as fp:
            fp.write(c20.rsr_bytes(ctx, 10.8))
        self.old = {name: content(case["seed"], name, size, "old") for name, size in case["installed"]}
        if case["version"]:
            self.old[version_file(self.item)] = (case["version"] + "\n").encode()
        for name, data in self.old.items():
            os.makedirs(os.path.dirname(os.path.join(self.dest, name)), exist_ok=True)
            with open(os.path.join(self.dest, name), "wb") as fp:
                fp.write(data)
        self.new = {name: content(case["seed"], name, size, "new") for name, size in case["members"]}
        self.new[version_file(self.item)] = (c20.required(self.item) + "\n").encode()
        order = sorted(self.new)
        random.Random(case["order"]).shuffle(order)
        self.archive = archive(self.new, order)

    def update(self):
        run(self.item, self.via)

    def files(self):
        return files_of(tree(self.dest))

    def torn(self, files=None):
        """Installed files that are neither the old nor the new ones."""
        out = []
        for name in sorted(set(self.old) | set(self.new)):
            try:
                with open(os.path.join(self.dest, name), "rb") as fp:
                    got = fp.read()
            except OSError:
                got = None
            if got not in [d[name] for d in (self.old, self.new) if name in d] and not (got is None and name not in self.old):
                out.append(name)
        return out

    def complete(self):
        files = self.files()
        want = dict(self.old, **self.new)
        return [n for n in want if files.get(n) != want[n]]

    def uptodate(self):
        return bool(uptodate(self.item, self.named))


@prop(lambda: st.fixed_dictionaries({"site": SITES, "at": st.floats(0, 1, exclude_max=True), "kind": st.sampled_from(["kill", "kill", "full"])}),
      quick=150, thorough=2000, rule="killed before, or disk full at, one of the file operations of an update, then an undisturbed one")
def stopped(case, ctx):
    import shutil
    site = Site(case["site"], ctx)
    spare = site.dest + " spare"
    with Net(lambda _: site.archive) as net, quiet():
        shutil.copytree(site.dest, spare)
        code, seen = faults.count(site.world.dir, site.update)
        require(code == 0, "undisturbed update failed", error=seen)
        require(not site.complete() and site.uptodate(), "undisturbed update", different=site.complete(), uptodate=site.uptodate())
        shutil.rmtree(site.dest)
        os.rename(spare, site.dest)
        total = seen[0] if case["kind"] == "kill" else seen[1]
        at = int(case["at"] * total)
        code, res = faults.strike(site.world.dir, site.update, at, case["kind"])
        what = f"{case['kind']} at operation {at + 1} of {total}"
        torn = site.torn()
        require(not torn, f"{what}: neither the old nor the new file", files=torn)
        current = site.uptodate()
        if case["kind"] == "full":
            require(code == 2, f"{what}: no error raised", code=code, result=res)
            files = site.files()
            lost = [n for n in site.old if files.get(n) != site.old[n]]
            require(not lost, f"{what}: installed files changed by a failed download", files=lost)
            require(not current, f"{what}: considered up to date")
        else:
            require(code == faults.KILLED, f"{what}: not stopped there", code=code, result=res)
        if current:
            require(not site.complete(), f"{what}: considered up to date with files missing or old", files=site.complete())
        del net.log[:]
        run(site.item, "update")
        require(len(net.log) == (0 if current else 1), f"{what}: downloads of the next update", got=net.log, current=current)
        require(not site.complete() and site.uptodate(), f"{what}: not repaired by the next update", files=site.complete(), uptodate=site.uptodate())
    ctx.event(case["kind"])
    ctx.event("up to date afterwards" if current else "not up to date afterwards")
    if at == 0:
        ctx.trivial("stopped before anything happened")


@prop(lambda: st.fixed_dictionaries({"site": SITES, "threads": st.integers(2, 3), "schedule": st.integers(0, 10 ** 6)}), quick=100, thorough=2000,
      rule="several updates of one installation at the same time")
def together(case, ctx):
    site = Site(case["site"], ctx)
    with Net(lambda _: site.archive), quiet():
        code, res = faults.interleaved(site.world.dir, [site.update] * case["threads"], case["schedule"], invariant=site.torn)
        require(code == 0, "child failed", error=res)
        results, broken, steps = res
        require(all(ok for ok, _ in results), "an update failed because of another one", results=results)
        require(not broken, "neither the old nor the new file during the updates", at=broken)
        require(not site.complete() and site.uptodate(), "after updates at the same time", files=site.complete(), uptodate=site.uptodate())
        want = dict(site.old, **site.new)
        require(set(site.files()) == set(want), "left behind", extra=sorted(set(site.files()) - set(want)))
    ctx.event(f"{case['threads']} threads")
    if steps < 5:
        ctx.trivial("no switches")
