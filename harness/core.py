"""Runner: environment, Hypothesis driving, shrinking to replay files, evidence.

A check module (harness/checks/cNN.py) declares sub-properties with ``@prop``. Each sub-property is
a function ``f(case, ctx)`` over one *plain data* case (dicts, lists, numbers, strings), so that the
shrunk failing case can be stored as JSON and replayed without Hypothesis.
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
REGRESSIONS = os.path.join(VERIF, "regressions")


class Violation(AssertionError):
    """The property does not hold for the case at hand."""


class _Abort(BaseException):
    """Stop shrinking: the budget is used up."""


def require(cond, msg, **data):
    """Raise a Violation unless *cond*."""
    if not cond:
        if data:
            msg = msg + " | " + ", ".join(f"{k}={_short(v)}" for k, v in data.items())
        raise Violation(msg)


def _short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    """What a case may tell about itself."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.events = []
        self.nontrivial = True
        self._n = 0

    def event(self, label):
        """Classify the case."""
        self.events.append(label)

    def trivial(self, why=None):
        """Declare the case trivial."""
        self.nontrivial = False
        if why:
            self.events.append("trivial: " + why)

    def dir(self):
        """Return a fresh directory."""
        self._n += 1
        path = os.path.join(self.scratch, f"case{self._n}")
        os.makedirs(path)
        return path


class Prop:
    """One sub-property."""

    def __init__(self, func, strategy, quick, thorough, rule, examples, budget, isolate):
        self.func = func
        self.name = func.__name__
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.examples = examples
        self.budget = budget
        self.isolate = isolate


_REGISTRY: list[Prop] = []


def prop(strategy=None, quick=200, thorough=None, rule="", examples=None, budget=None, isolate=True):
    """Declare a sub-property.

    strategy: callable giving the Hypothesis strategy of plain-data cases (None: examples only).
    examples: callable giving cases which are run first, without Hypothesis (boundary cases, enumerations).
    """
    def deco(func):
        _REGISTRY.append(Prop(func, strategy, quick, thorough if thorough is not None else quick * 10,
                              rule, examples, budget, isolate))
        return func
    return deco


def setup_environment():
    """Make a scratch area and point everything pyspectral may write to into it."""
    base = tempfile.mkdtemp(prefix="verif_pyspectral_")
    for sub in ("home", "data", "tmp", "mpl", "pyc"):
        os.makedirs(os.path.join(base, sub))
    os.environ["HOME"] = os.path.join(base, "home")
    os.environ["XDG_DATA_HOME"] = os.path.join(base, "data")
    os.environ["TMPDIR"] = os.path.join(base, "tmp")
    os.environ["MPLCONFIGDIR"] = os.path.join(base, "mpl")
    os.environ["MPLBACKEND"] = "Agg"
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[var] = "1"
    for var in ("PSP_CONFIG_FILE", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"):
        os.environ.pop(var, None)
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(base, "pyc")  # never read a stale .pyc
    tempfile.tempdir = None
    # Hypothesis keeps its files in the scratch area
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(base, "hyp")

    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "pyspectral", "version.py")):
        import types
        mod = types.ModuleType("pyspectral.version")
        mod.version = mod.__version__ = "0.14.3"
        mod.version_tuple = mod.__version_tuple__ = (0, 14, 3)
        mod.commit_id = mod.__commit_id__ = None
        sys.modules["pyspectral.version"] = mod
    import pyspectral
    got = os.path.realpath(os.path.dirname(pyspectral.__file__))
    want = os.path.realpath(os.path.join(REPO, "pyspectral"))
    if got != want:
        raise RuntimeError(f"wrong pyspectral imported: {got} instead of {want}")
    _find_hypothesis(base)
    return base


def _find_hypothesis(base):
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    for path in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        if os.path.isdir(os.path.join(path, "hypothesis")):
            sys.path.append(path)
            break
    else:
        import glob
        import zipfile
        dest = os.path.join(base, "wheels")
        for pat in ("hypothesis-*cp312*.whl", "hypothesis-*any.whl", "sortedcontainers-*.whl"):
            for whl in glob.glob("/opt/veriftools/wheels/" + pat):
                zipfile.ZipFile(whl).extractall(dest)
        sys.path.append(dest)
    import hypothesis  # noqa: F401


# ------------------------------------------------------------------------------------------------
# running one sub-property (in a forked worker)

def _digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()


def _is_environment_problem(exc):
    if isinstance(exc, MemoryError):
        return True
    if isinstance(exc, OSError) and exc.errno in (28, 23, 24, 12):  # ENOSPC, ENFILE, EMFILE, ENOMEM
        return True
    return False


class Runner:
    """Runs one sub-property and collects statistics."""

    def __init__(self, cid, sub, tier, seed, base, outdir):
        self.cid, self.sub, self.tier, self.seed, self.base = cid, sub, tier, seed, base
        self.current = os.path.join(outdir, f"{sub.name}.current")
        self.evaluations = 0
        self.skipped = 0
        self.distinct = set()
        self.events = {}
        self.samples = []
        self.failure = None
        self.fail_time = None
        self.env_error = None
        self.start = time.monotonic()
        self.budget = None
        self.findings = _known_findings(cid)
        self.known_hits = {}

    def run_case(self, case, count=True):
        if self.fail_time is not None and time.monotonic() - self.fail_time > (40 if self.tier == "quick" else 120):
            raise _Abort
        if self.fail_time is None and self.budget and time.monotonic() - self.start > self.budget:
            self.skipped += 1
            return
        with open(self.current, "w") as fp:
            json.dump(case, fp)
        scratch = tempfile.mkdtemp(prefix="case_", dir=os.path.join(self.base, "tmp"))
        ctx = Ctx(scratch)
        env = dict(os.environ)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.sub.func(case, ctx)
        except Exception as exc:
            import hypothesis.errors
            if isinstance(exc, hypothesis.errors.UnsatisfiedAssumption):
                raise
            if _is_environment_problem(exc):
                self.env_error = traceback.format_exc()
                raise _Abort from exc
            known = self._match_known(case, exc)
            if known is not None:
                self.known_hits[known] = self.known_hits.get(known, 0) + 1
                return
            size = len(json.dumps(case))
            if self.failure is None or size <= self.failure["size"]:
                self.failure = {"case": case, "size": size, "error": f"{type(exc).__name__}: {exc}",
                                "traceback": traceback.format_exc()}
            if self.fail_time is None:
                self.fail_time = time.monotonic()
            raise
        finally:
            os.environ.clear()
            os.environ.update(env)
            shutil.rmtree(scratch, ignore_errors=True)
        if count and self.failure is None:
            self.evaluations += 1
            for ev in set(ctx.events):
                self.events[ev] = self.events.get(ev, 0) + 1
            if ctx.nontrivial:
                dig = _digest(case)
                if dig not in self.distinct:
                    self.distinct.add(dig)
                    # a deterministic spread of samples
                    if len(self.samples) < 2 or (len(self.samples) < 4 and dig[:2] == "00"):
                        self.samples.append(case)

    def _match_known(self, case, exc):
        for finding in self.findings:
            if finding.get("sub") == self.sub.name and finding.get("case_digest") == _digest(case):
                return finding["id"]
        return None

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings
        n = self.sub.quick if self.tier == "quick" else self.sub.thorough
        self.budget = self.sub.budget or (60 if self.tier == "quick" else 1500)
        try:
            if self.sub.examples is not None:
                for case in self.sub.examples(self.tier):
                    self.run_case(case)
            if self.sub.strategy is not None and n:
                sub_seed = int(hashlib.sha256(f"{self.seed}:{self.cid}:{self.sub.name}".encode()).hexdigest()[:12], 16)

                @hypothesis.seed(sub_seed)
                @settings(max_examples=n, deadline=None, database=None, derandomize=False,
                          report_multiple_bugs=False, print_blob=False,
                          suppress_health_check=list(HealthCheck),
                          phases=[Phase.generate, Phase.shrink])
                @hypothesis.given(self.sub.strategy())
                def test(case):
                    self.run_case(case)

                test()
        except _Abort:
            pass
        except Exception:
            if self.failure is None:
                raise
        if self.env_error:
            raise RuntimeError("environment problem: " + self.env_error)
        return {"name": self.sub.name, "evaluations": self.evaluations, "distinct": len(self.distinct),
                "events": self.events, "samples": self.samples, "failure": self.failure,
                "rule": self.sub.rule or (self.sub.func.__doc__ or "").strip(), "skipped": self.skipped,
                "wall_s": round(time.monotonic() - self.start, 2), "known_hits": self.known_hits}


def _known_findings(cid):
    if not os.path.exists(KNOWN):
        return []
    out = []
    with open(KNOWN) as fp:
        for line in fp:
            line = line.strip()
            if line:
                item = json.loads(line)
                if item.get("property") == cid and item.get("status") == "open":
                    out.append(item)
    return out


def _worker(cid, sub, tier, seed, base, outdir):
    out = os.path.join(outdir, f"{sub.name}.json")
    try:
        tmp = os.path.join(base, "tmp", sub.name)
        os.makedirs(tmp, exist_ok=True)
        home = os.path.join(base, "home_" + sub.name)
        os.makedirs(home, exist_ok=True)
        wbase = os.path.join(base, "w_" + sub.name)
        os.makedirs(os.path.join(wbase, "tmp"), exist_ok=True)
        os.environ["TMPDIR"] = os.path.join(wbase, "tmp")
        os.environ["HOME"] = home
        os.environ["XDG_DATA_HOME"] = os.path.join(wbase, "data")
        tempfile.tempdir = None
        import dask
        dask.config.set(scheduler="synchronous")
        import logging
        logging.getLogger("pyspectral").setLevel(logging.CRITICAL + 1)
        res = Runner(cid, sub, tier, seed, wbase, outdir).run()
        with open(out + ".tmp", "w") as fp:
            json.dump(res, fp)
        os.replace(out + ".tmp", out)
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)


def _clean(obj):
    """NaN and infinities are not JSON: write them as strings in the evidence."""
    if isinstance(obj, float) and not math.isfinite(obj):
        return str(obj)
    if isinstance(obj, dict):
        return {str(k): _clean(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        if len(obj) > 40:
            return [_clean(v) for v in obj[:40]] + [f"... {len(obj)} items"]
        return [_clean(v) for v in obj]
    return obj


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--only")
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    args = parser.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    base = None
    try:
        base = setup_environment()
        return _main(args, seed, base)
    except Exception:
        traceback.print_exc()
        print(f"ERROR: check {args.property} could not be carried out")
        return 2
    finally:
        if base:
            shutil.rmtree(base, ignore_errors=True)


def _main(args, seed, base):
    t0 = time.monotonic()
    cid = args.property
    mod = importlib.import_module(f"harness.checks.{cid.lower()}")
    subs = [s for s in _REGISTRY if s.func.__module__ == mod.__name__ and (not args.only or s.name == args.only)]
    if args.replay:
        return _replay(args, subs, base)
    level = getattr(mod, "LEVEL", "exploration")

    outdir = os.path.join(base, "out")
    os.makedirs(outdir)
    ctx = multiprocessing.get_context("fork")
    pending = list(subs)
    running = {}
    results, failures, errors = [], [], []
    while pending or running:
        while pending and len(running) < args.jobs:
            sub = pending.pop(0)
            proc = ctx.Process(target=_worker, args=(cid, sub, args.tier, seed, base, outdir))
            proc.start()
            running[sub.name] = (sub, proc)
        for name, (sub, proc) in list(running.items()):
            proc.join(0.05)
            if proc.is_alive():
                continue
            del running[name]
            out = os.path.join(outdir, f"{name}.json")
            if proc.exitcode == 0 and os.path.exists(out):
                with open(out) as fp:
                    res = json.load(fp)
                results.append(res)
                if res["failure"]:
                    failures.append((name, res["failure"]))
            elif proc.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL):
                with open(os.path.join(outdir, f"{name}.current")) as fp:
                    case = json.load(fp)
                failures.append((name, {"case": case, "error": f"process died with signal {-proc.exitcode}",
                                        "traceback": ""}))
            else:
                errors.append(f"sub-property {name}: worker exit code {proc.exitcode}")

    # committed regressions: shrunk cases of earlier failures, run without Hypothesis
    n_regr = 0
    regr_dir = os.path.join(REGRESSIONS, cid)
    if os.path.isdir(regr_dir) and not args.only:
        byname = {s.name: s for s in subs}
        for fname in sorted(os.listdir(regr_dir)):
            if not fname.endswith(".json"):
                continue
            with open(os.path.join(regr_dir, fname)) as fp:
                item = json.load(fp)
            sub = byname.get(item["sub"])
            if sub is None:
                continue
            n_regr += 1
            err = _run_single(sub, item["case"], base)
            if err:
                failures.append((sub.name, {"case": item["case"], "error": err[0], "traceback": err[1]}))

    for finding in _known_findings(cid):
        print(f"KNOWN-FINDING: property={cid} {finding['what']}")

    results.sort(key=lambda r: [s.name for s in subs].index(r["name"]))
    evaluations = sum(r["evaluations"] for r in results) + n_regr
    distinct = sum(r["distinct"] for r in results)
    samples = []
    for r in results:
        samples += [{"sub": r["name"], "case": c} for c in r["samples"][:2]]
    evidence = {
        "property": cid, "tier": args.tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": getattr(mod, "RULE", "") + " Sub-properties: " +
            "; ".join(f"{r['name']}: {' '.join(r['rule'].split())}" for r in results),
            "samples": _clean(samples) or ["none"],
            "regressions_replayed": n_regr,
            "per_sub_property": {r["name"]: {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct"],
                                             "events": r["events"], "not_run_time_budget": r["skipped"],
                                             "wall_s": r["wall_s"]} for r in results},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{cid}.json.tmp")
    with open(tmp, "w") as fp:
        json.dump(evidence, fp, indent=1)
        fp.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, f"{cid}.json"))

    if failures:
        rdir = os.path.join(EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for name, failure in failures:
            path = os.path.join(rdir, f"{cid}_{name}.json")
            with open(path, "w") as fp:
                json.dump({"property": cid, "sub": name, "case": failure["case"], "error": failure["error"]},
                          fp, indent=1)
            print(f"--- {cid}.{name} failed: {failure['error'][:1500]}")
            print("    minimal case: " + json.dumps(failure["case"])[:1500])
            if failure.get("traceback"):
                print("    " + failure["traceback"].strip().replace("\n", "\n    ")[-1800:])
        print(f"VIOLATION property={cid} replay={os.path.join(rdir, f'{cid}_{failures[0][0]}.json')}")
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    skipped = sum(r["skipped"] for r in results)
    print(f"{cid}: held on {evaluations} cases ({distinct} distinct non-trivial), "
          f"{len(results)} sub-properties, {evidence['wall_s']} s" + (f", {skipped} not run (budget)" if skipped else ""))
    return 0


def _run_single(sub, case, base):
    scratch = tempfile.mkdtemp(prefix="case_", dir=os.path.join(base, "tmp"))
    env = dict(os.environ)
    import dask
    import logging
    logging.getLogger("pyspectral").setLevel(logging.CRITICAL + 1)
    try:
        with warnings.catch_warnings(), dask.config.set(scheduler="synchronous"):
            warnings.simplefilter("ignore")
            sub.func(case, Ctx(scratch))
    except Exception as exc:
        return f"{type(exc).__name__}: {exc}", traceback.format_exc()
    finally:
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(scratch, ignore_errors=True)
    return None


def _replay(args, subs, base):
    with open(args.replay) as fp:
        item = json.load(fp)
    sub = {s.name: s for s in subs}[item["sub"]]
    err = _run_single(sub, item["case"], base)
    if err:
        print(err[1])
        print(f"VIOLATION property={args.property} replay={os.path.abspath(args.replay)}")
        return 1
    print("replayed case holds")
    return 0
