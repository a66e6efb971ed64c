"""seed_check.py [--check] [--seeds 1,2] [ID...]: validate planted bugs in scratch copies, and run their property's check against them.

A planted bug is seeded/<id>/{patch.diff, demo.sh, meta.json}; it is applied to a scratch copy of /repo, never to /repo itself.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)


def tests(tree, work):
    env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "XDG_DATA_HOME": work + "/data", "MPLCONFIGDIR": work + "/mpl",
           "PYTHONPATH": tree}
    out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", f"--basetemp={work}/pytest", "--timeout=300", "pyspectral/tests"], tree, env)
    match = re.search(r"(\d+) passed", out.stdout)
    return bool(match) and int(match.group(1)) >= 146 and "failed" not in out.stdout, out.stdout[-1500:]


def one(ident, args):
    folder = os.path.join(VERIF, "seeded", ident)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    work = tempfile.mkdtemp(prefix="seed_")
    res = {"id": ident, "property": meta["property"]}
    try:
        tree = os.path.join(work, "repo")
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), tree, symlinks=True)
        demo = os.path.join(work, "demo")
        shutil.copytree(folder, demo)
        env = {"PYTHONDONTWRITEBYTECODE": "1"}
        before = sh(["bash", os.path.join(demo, "demo.sh")], tree, env)
        applied = sh(["git", "apply", os.path.join(folder, "patch.diff")], tree)
        if applied.returncode:
            return dict(res, problem="patch does not apply: " + applied.stderr)
        after = sh(["bash", os.path.join(demo, "demo.sh")], tree, env)
        res["demo"] = [before.returncode, after.returncode]
        if before.returncode or not after.returncode:
            res["problem"] = "demo: " + before.stderr[-600:] + " | " + after.stdout[-300:] + after.stderr[-300:]
        if not args.skip_tests:
            ok, out = tests(tree, work)
            if not ok:
                res["problem"] = "tests: " + out
        if args.check:
            caught = []
            for seed in args.seeds.split(","):
                verif = os.path.join(work, "verif" + seed)
                shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
                out = sh([sys.executable, "run_check.py", meta["property"], "--tier", "quick"], verif,
                         {"VERIF_REPO": tree, "VERIF_SEED": seed, "VERIF_TIER": "quick"})
                hit = out.returncode == 1 and f"VIOLATION property={meta['property']}" in out.stdout
                caught.append(hit)
                if not hit:
                    res["out"] = out.stdout[-300:] + out.stderr[-300:]
            res["caught"] = caught
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--check", action="store_true")
    parser.add_argument("--skip-tests", action="store_true")
    parser.add_argument("--seeds", default="1")
    parser.add_argument("--jobs", type=int, default=3)
    parser.add_argument("ids", nargs="*")
    args = parser.parse_args()
    ids = args.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with ThreadPoolExecutor(args.jobs) as pool:
        for res in pool.map(lambda i: one(i, args), ids):
            print(json.dumps(res), flush=True)


if __name__ == "__main__":
    main()
