"""C19: configuration."""
import copy
import os
from pathlib import Path

import yaml
from hypothesis import strategies as st

from harness.core import REPO, prop, require

TECHNIQUE = "model-based property testing (Hypothesis): histories of writing configuration files, changing the environment and reading"
RULE = "Cases are configuration contents and histories; non-trivial when at least one setting is nested or the source changes."
ASSUMPTIONS = ["Configuration files are YAML mappings (or empty) with string keys and plain values; directories are writable."]

KEYS = st.one_of(st.sampled_from(["download_from_internet", "tb2rad_dir", "tb2rad_filename", "EOS-Aqua-modis", "path", "ch1", "a", "b"]),
                 st.text("abcXYZ_-.0123456789 é", min_size=1, max_size=10))
SCALARS = st.one_of(st.none(), st.booleans(), st.integers(-1000, 1000), st.floats(-1e6, 1e6), st.text(max_size=12),
                    st.sampled_from(["~/x", "/path/to/data", "yes", "1.5", "null", "", "{}", "# no comment"]))
VALUES = st.recursive(SCALARS, lambda kids: st.one_of(st.lists(kids, max_size=3), st.dictionaries(KEYS, kids, max_size=3)), max_leaves=8)
SETTINGS = st.dictionaries(KEYS, VALUES, max_size=6)
DIRS = st.sampled_from([None, None, "abs", "home", "nested", "dollar", "tilde"])


@st.composite
def files(draw):
    return {"settings": draw(SETTINGS), "rsr": draw(DIRS), "ray": draw(DIRS), "flow": draw(st.sampled_from([False, True, None])),
            "empty": draw(st.integers(0, 19)) == 0}


def directory(how, root, name):
    return {"abs": os.path.join(root, name), "home": f"~/{name}", "nested": os.path.join(root, "deep", "er", name),
            "dollar": os.path.join(root, "$HOME %USER%", name), "tilde": os.path.join(root, "~", name)}[how]


MARKS = ["Q0Q0Q", "Q1Q1Q"]


def write(case, path, root):
    """Write it, return the settings that have to come back and the two directories."""
    if case["empty"]:
        with open(path, "w") as fp:
            fp.write("# nothing here\n")
        content = {}
    else:
        content = {k: copy.deepcopy(v) for k, v in case["settings"].items() if k not in ("rsr_dir", "rayleigh_dir")}
        if case["rsr"]:
            content["rsr_dir"] = directory(case["rsr"], root, "rsr data")
        if case["ray"]:
            content["rayleigh_dir"] = directory(case["ray"], root, "luts")
        content["mark"] = MARKS[0]
        with open(path, "w") as fp:
            yaml.safe_dump(content, fp, default_flow_style=case["flow"])
    return content


def data_home(root, xdg):
    os.environ["HOME"] = os.path.join(root, "home")
    os.makedirs(os.environ["HOME"], exist_ok=True)
    if xdg:
        os.environ["XDG_DATA_HOME"] = os.path.join(root, "xdg data")
        return os.path.join(root, "xdg data", "pyspectral")
    os.environ.pop("XDG_DATA_HOME", None)
    return os.path.join(root, "home", ".local", "share", "pyspectral")


def judge(got, content, default, what):
    want = copy.deepcopy(content)
    for key in ("rsr_dir", "rayleigh_dir"):
        path = content.get(key, default)
        if path.startswith("~"):
            path = os.environ["HOME"] + path[1:]
        want[key] = path
        require(isinstance(got.get(key), (str, os.PathLike)) and str(got[key]) == path, f"{what}: {key}", got=got.get(key), expected=path)
        require(os.path.isdir(path), f"{what}: directory does not exist", path=path)
    require(sorted(map(repr, got)) == sorted(map(repr, want)), f"{what}: settings lost or invented", got=sorted(map(repr, got)),
            expected=sorted(map(repr, want)))
    for key in want:
        if key not in ("rsr_dir", "rayleigh_dir"):
            require(same(got[key], want[key]), f"{what}: setting changed", key=key, got=got[key], expected=want[key])


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


@st.composite
def histories(draw):
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("write"), st.integers(0, 2), files()),
        st.tuples(st.just("tweak"), st.integers(0, 2)),
        st.tuples(st.just("env"), st.one_of(st.none(), st.integers(0, 2), st.sampled_from(["missing", "dir", "empty"]))),
        st.tuples(st.just("read")),
        st.tuples(st.just("explicit"), st.one_of(st.integers(0, 2), st.just("missing")), st.booleans()),
        st.tuples(st.just("spoil")),
        st.tuples(st.just("home"), st.booleans())), min_size=3, max_size=12))
    return {"first": draw(files()), "ops": [list(o) for o in ops]}


def packaged():
    with open(os.path.join(REPO, "pyspectral", "etc", "pyspectral.yaml")) as fp:
        return yaml.safe_load(fp) or {}


@prop(histories, quick=400, rule="sequences of writes, environment changes and reads")
def history(case, ctx):
    from pyspectral.config import get_config
    root = ctx.dir()
    default = data_home(root, False)
    os.environ.pop("PSP_CONFIG_FILE", None)
    contents = {}
    path = [os.path.join(root, f"conf {i}.yaml") for i in range(3)]
    contents[0] = write(case["first"], path[0], root)
    env = None
    last = None
    reads = 0
    kinds = set()
    for op in [["env", 0], ["read"]] + case["ops"] + [["read"]]:
        if op[0] == "write":
            contents[op[1]] = write(op[2], path[op[1]], root)
        elif op[0] == "tweak":  # a change which keeps the size of the file
            if contents.get(op[1], {}).get("mark") in MARKS:
                old = contents[op[1]]["mark"]
                contents[op[1]]["mark"] = MARKS[1 - MARKS.index(old)]
                with open(path[op[1]]) as fp:
                    text = fp.read()
                with open(path[op[1]], "w") as fp:
                    fp.write(text.replace(old, contents[op[1]]["mark"]))
        elif op[0] == "home":
            default = data_home(root, op[1])
        elif op[0] == "env":
            env = op[1]
            if env is None:
                os.environ.pop("PSP_CONFIG_FILE", None)
            else:
                os.environ["PSP_CONFIG_FILE"] = {"missing": os.path.join(root, "nothing.yaml"), "dir": root, "empty": ""}.get(
                    env, path[env] if isinstance(env, int) else "")
        elif op[0] == "spoil":
            if last:
                last.clear()
                last["rsr_dir"] = "spoiled"
        else:
            if op[0] == "explicit":
                source = op[1]
                args = os.path.join(root, "nope.yaml") if source == "missing" else path[source]
                args = (Path(args) if op[2] else args,)
            else:
                source, args = env, ()
            bad = source in ("missing", "dir", "empty") or (isinstance(source, int) and source not in contents)
            try:
                got = get_config(*args)
            except OSError:
                got = None
            if bad:
                require(got is None, "no error for a configuration file that does not exist", source=source, got=got)
            else:
                require(got is not None, "an error for an existing configuration file", source=source)
                judge(got, packaged() if source is None else contents[source], default, op[0])
                last = got
                reads += 1
                # nested settings are handed out for good
                for val in got.values():
                    if isinstance(val, dict):
                        val["spoiled"] = 1
            kinds.add(f"{op[0]} {'file' if isinstance(source, int) else source}")
    for kind in kinds:
        ctx.event(kind)
    if reads < 2:
        ctx.trivial("fewer than two reads")


@prop(lambda: st.fixed_dictionaries({"d": SETTINGS, "u": SETTINGS, "v": SETTINGS}), quick=400, rule="merging nested dictionaries")
def merging(case, ctx):
    from pyspectral.config import recursive_dict_update

    def conflict(d, u):
        return any(isinstance(u[k], dict) and k in d and (not isinstance(d[k], dict) or conflict(d[k], u[k])) for k in u)

    def merged(d, u):
        out = copy.deepcopy(d)
        for k, v in u.items():
            out[k] = merged(out.get(k, {}), v) if isinstance(v, dict) else copy.deepcopy(v)
        return out

    d, u = copy.deepcopy(case["d"]), copy.deepcopy(case["u"])
    if conflict(d, u):
        ctx.trivial("a plain value replaced by a mapping")
        return
    want = merged(d, u)
    keep = copy.deepcopy(u)
    got = recursive_dict_update(d, u)
    require(same(got, want), "merge", got=got, expected=want)
    require(same(u, keep), "the update was modified")
    v = copy.deepcopy(case.get("v", {}))
    if not conflict(want, v):
        want = merged(want, v)
        got = recursive_dict_update(got, v)
        require(same(got, want), "merging a third dictionary", got=got, expected=want)
        require(same(v, case.get("v", {})), "the second update was modified")
    both = set(case["d"]) & set(case["u"])
    if not both:
        ctx.trivial("nothing in common")
    ctx.event("common keys" if both else "disjoint")


@prop(lambda: st.fixed_dictionaries({"a": files(), "b": files(), "env": st.booleans()}), quick=80,
      rule="readers and corrections created afterwards use the configured directories")
def in_use(case, ctx):
    from pyspectral.rayleigh import Rayleigh
    from pyspectral.rsr_reader import check_and_download
    root = ctx.dir()
    default = data_home(root, False)
    for i, key in enumerate("ab"):
        case[key]["settings"] = {k: v for k, v in case[key]["settings"].items() if k != "download_from_internet"}
        path = os.path.join(root, f"{i}.yaml")
        content = write(case[key], path, root)
        os.environ["PSP_CONFIG_FILE"] = path
        want = {k: str(Path(content.get(k, default).replace("~", os.environ["HOME"], 1) if content.get(k, default).startswith("~")
                            else content.get(k, default))) for k in ("rsr_dir", "rayleigh_dir")}
        check_and_download()  # downloads are not enabled
        this = Rayleigh("Suomi-NPP", "viirs")
        require(str(this.reflectance_lut_filename).startswith(want["rayleigh_dir"] + os.sep), "Rayleigh directory",
                got=str(this.reflectance_lut_filename), expected=want["rayleigh_dir"])
        for folder in want.values():
            require(os.path.isdir(folder), "directory missing", folder=folder)
    ctx.event("two configurations")
