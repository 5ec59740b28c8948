"""Harness shared by all checks: case loop, verdicts, watchdogs, evidence.

A check module (checks/cNN.py) provides

    PROP   property id
    RULE   how cases are made and what makes one non-trivial (for the evidence)
    CASES  {"quick": n, "thorough": n}
    case(rng, mon)  runs one case; reports through `mon`

and optionally  PARALLEL = True  (the case starts worker processes: the watchdog
is wall-clock and inconclusive instead of CPU time and a violation), REQUIRED (the
counters that must be positive for the run to mean anything), CASE_CPU_S.
"""
import errno
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"

# No case needs more than a few seconds; these only fire on runaway code
CASE_CPU_S = 90.0
CASE_WALL_S = 240.0
# Total wall-clock caps: when reached, the run stops with what it has observed
RUN_WALL_S = {"quick": 420.0, "thorough": 3000.0}


class Violation(Exception):
    """The monitors refute the property on this case."""


class CaseTimeout(BaseException):
    """A single-process case used up its CPU budget."""


class WallTimeout(BaseException):
    """A case made no answer in its wall-clock budget: inconclusive."""


class Inconclusive(Exception):
    """The monitors could not decide."""


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if hasattr(x, "tolist"):
        return jsonable(x.tolist(), depth + 1)
    return repr(x)[:300]


PLAIN = (bool, int, float, str, type(None))


def same_types(a, b):
    """Whether equal values are made of plain values of the same types."""
    if isinstance(a, PLAIN) and isinstance(b, PLAIN):
        return type(a) is type(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return all(same_types(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same_types, a, b))
    return True


class Monitor:
    """Collects what a run observed; `require` is where a property is decided."""

    def __init__(self):
        self.counters = {}
        self.fingerprints = set()
        self.samples = []
        self.evaluations = 0
        self.case_desc = None
        self.case_nontrivial = False
        self.case_digest = None
        self.sets = {}

    # -- observations
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, name, item):
        """Adds to a set of distinct things observed; its size goes to evidence."""
        self.sets.setdefault(name, set()).add(
            hashlib.md5(repr(item).encode()).hexdigest()[:12]
        )

    def describe(self, desc, nontrivial=True):
        """What this case is (its generated input); used for samples and distinctness."""
        self.case_desc = desc
        self.case_nontrivial = nontrivial

    # -- verdicts
    def require(self, cond, msg, /, **witness):
        self.count("oracle_decisions")
        if not cond:
            raise Violation(
                msg + ("; " + json.dumps(jsonable(witness)) if witness else "")
            )

    def equal(self, got, want, msg, /, **witness):
        self.count("oracle_decisions")
        if not (got == want):
            raise Violation(
                f"{msg}; got {_short(got)} want {_short(want)}"
                + ("; " + json.dumps(jsonable(witness)) if witness else "")
            )

    def same(self, got, want, msg, /, **witness):
        """Equal, and made of values of the same types (1, 1.0 and True are equal)."""
        self.equal(got, want, msg, **witness)
        if not same_types(got, want):
            self.equal(repr(got), repr(want), msg + " (values of other types)", **witness)

    def raises(self, exc_types, fn, msg):
        self.count("oracle_decisions")
        try:
            fn()
        except exc_types:
            return
        raise Violation(msg)

    # -- bookkeeping
    def begin(self):
        self.case_desc = None
        self.case_nontrivial = False
        self.evaluations += 1

    def end(self, keep_sample):
        if self.case_desc is not None and self.case_nontrivial:
            digest = hashlib.md5(
                json.dumps(jsonable_full(self.case_desc), sort_keys=True).encode()
            ).hexdigest()[:16]
            self.fingerprints.add(digest)
            if keep_sample and len(self.samples) < 3:
                self.samples.append(jsonable(self.case_desc))

    def dump(self):
        return {
            "counters": self.counters,
            "fingerprints": sorted(self.fingerprints),
            "samples": self.samples,
            "evaluations": self.evaluations,
            "sets": {k: sorted(v) for k, v in self.sets.items()},
        }

    def absorb(self, d):
        for k, v in d["counters"].items():
            self.count(k, v)
        self.fingerprints.update(d["fingerprints"])
        self.samples = (self.samples + d["samples"])[:3]
        self.evaluations += d["evaluations"]
        for k, v in d["sets"].items():
            self.sets.setdefault(k, set()).update(v)


def jsonable_full(x):
    if isinstance(x, dict):
        return {str(k): jsonable_full(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable_full(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if hasattr(x, "tolist"):
        return jsonable_full(x.tolist())
    return repr(x)


def _short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def load_repo():
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    import pylattica  # noqa: F401
    import pylattica.core  # noqa: F401

    where = os.path.realpath(os.path.dirname(pylattica.core.__file__))
    if not where.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError(f"pylattica was imported from {where}, not from {src}")


INFRA_ERRNOS = {errno.ENOSPC, errno.EAGAIN, errno.ENOMEM, errno.EMFILE, errno.ENFILE}


def is_infrastructure(exc):
    if isinstance(exc, MemoryError):
        return True
    return isinstance(exc, OSError) and exc.errno in INFRA_ERRNOS


def run_case(mod, idx, mon, keep_sample, first_import=False):
    """Runs one case. Returns None or (kind, message)."""
    import numpy as np

    rng = random.Random(f"{mod.PROP}/{SEED}/{idx}")
    random.seed(rng.getrandbits(64))
    np.random.seed(rng.getrandbits(32))
    parallel = getattr(mod, "PARALLEL", False)

    def on_cpu(*_):
        raise CaseTimeout()

    def on_wall(*_):
        raise WallTimeout()

    signal.signal(signal.SIGPROF, on_cpu)
    signal.signal(signal.SIGALRM, on_wall)
    mon.begin()
    try:
        if not parallel:
            signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CASE_CPU_S", CASE_CPU_S))
        signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
        try:
            mod.case(rng, mon)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        return ("violation", str(e))
    except Inconclusive as e:
        return ("inconclusive", str(e))
    except CaseTimeout:
        return (
            "violation",
            f"the case did not terminate in {getattr(mod, 'CASE_CPU_S', CASE_CPU_S)} s "
            "of CPU time (cases take well under a second)",
        )
    except WallTimeout:
        return ("inconclusive", f"no answer in {CASE_WALL_S} s of wall-clock time")
    except Exception as e:  # noqa: BLE001
        if is_infrastructure(e):
            return ("inconclusive", f"infrastructure: {e!r}")
        tb = traceback.format_exc(limit=-6)
        return ("violation", f"a valid use of the library raised {e!r}\n{tb}")
    mon.end(keep_sample)
    return None


def write_evidence(mod, mon, t0, violations, note=None):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {
        "evaluations": mon.evaluations,
        "distinct_nontrivial": len(mon.fingerprints),
        "rule": mod.RULE,
        "samples": mon.samples,
        "observed": dict(sorted(mon.counters.items())),
        "distinct_observed": {k: len(v) for k, v in sorted(mon.sets.items())},
    }
    if note:
        cov["note"] = note
    ev = {
        "property": mod.PROP,
        "tier": TIER,
        "seed": SEED,
        "level": "exploration",
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    tmp = os.path.join(d, f".{mod.PROP}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, f"{mod.PROP}.json"))


def report_violation(mod, idx, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{mod.PROP}-{SEED}-{idx}.json")
    with open(path, "w") as f:
        json.dump(
            {"property": mod.PROP, "seed": SEED, "case": idx, "message": msg}, f, indent=1
        )
        f.write("\n")
    print(f"{mod.PROP} case {idx} (seed {SEED}): {msg}")
    print(f"VIOLATION property={mod.PROP} replay={path}", flush=True)


def run_range(mod, mon, indices, deadline):
    """Runs cases until one fails. Returns (idx, kind, message) or None."""
    for n, idx in enumerate(indices):
        if time.time() > deadline and n > 0:
            mon.count("stopped_at_wall_cap")
            break
        bad = run_case(mod, idx, mon, keep_sample=True)
        if bad:
            return (idx, *bad)
    return None


def shard_main(mod, shard, out):
    i, n = map(int, shard.split("/"))
    mon = Monitor()
    total = mod.CASES[TIER]
    bad = run_range(
        mod, mon, range(i, total, n), time.time() + RUN_WALL_S[TIER]
    )
    with open(out, "w") as f:
        json.dump({"mon": mon.dump(), "bad": bad}, f)
    return 0


def run_sharded(mod, mon, nshards, scratch):
    procs = []
    for i in range(nshards):
        out = os.path.join(scratch, f"shard{i}.json")
        log = open(os.path.join(scratch, f"shard{i}.log"), "w")
        p = subprocess.Popen(
            [
                sys.executable,
                os.path.join(HERE, "run.py"),
                mod.PROP,
                "--shard",
                f"{i}/{nshards}",
                "--out",
                out,
            ],
            stdout=log,
            stderr=log,
        )
        procs.append((p, out, log))
    bads = []
    for p, out, log in procs:
        rc = p.wait()
        log.close()
        if rc != 0 or not os.path.exists(out):
            with open(log.name) as f:
                tail = f.read()[-1500:]
            raise RuntimeError(f"shard failed with {rc}: {tail}")
        with open(out) as f:
            d = json.load(f)
        mon.absorb(d["mon"])
        if d["bad"]:
            bads.append(d["bad"])
    # a violation outranks an inconclusive case
    bads.sort(key=lambda b: (b[1] != "violation", b[0]))
    return bads[0] if bads else None


def main(argv):
    prop = argv[0]
    opts = dict(zip(argv[1::2], argv[2::2]))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vmon-{prop}-")
    os.chdir(scratch)
    try:
        return _main(prop, opts, t0, scratch)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"ERROR property={prop}: the check itself failed (exit 2)")
        return 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, opts, t0, scratch):
    global SEED
    try:
        load_repo()
        mod = importlib.import_module(f"checks.{prop.lower()}")
    except Exception as e:  # the code under test cannot even be imported
        if is_infrastructure(e):
            raise
        traceback.print_exc()
        print(f"ERROR property={prop}: cannot import the code under test: {e!r}")
        return 2

    if "--replay" in opts:
        with open(opts["--replay"]) as f:
            rep = json.load(f)
        SEED = rep["seed"]
        mon = Monitor()
        bad = run_case(mod, rep["case"], mon, True)
        print(json.dumps({"case": jsonable(mon.case_desc), "verdict": bad}, indent=1))
        return 1 if bad and bad[0] == "violation" else (2 if bad else 0)
    if "--shard" in opts:
        return shard_main(mod, opts["--shard"], opts["--out"])

    mon = Monitor()
    total = mod.CASES[TIER]
    nshards = 4 if TIER == "quick" else 7
    if getattr(mod, "PARALLEL", False):
        nshards = 2
    nshards = min(nshards, os.cpu_count() or 1, total)
    if nshards > 1:
        bad = run_sharded(mod, mon, nshards, scratch)
    else:
        bad = run_range(mod, mon, range(total), t0 + RUN_WALL_S[TIER])

    if bad and bad[1] == "violation":
        write_evidence(mod, mon, t0, 1, note=bad[2][:2000])
        report_violation(mod, bad[0], bad[2])
        return 1
    if bad:
        write_evidence(mod, mon, t0, 0, note="INCONCLUSIVE: " + bad[2][:2000])
        print(f"INCONCLUSIVE property={prop} case {bad[0]}: {bad[2]}")
        return 2
    missing = [
        c
        for c in ["oracle_decisions", *getattr(mod, "REQUIRED", [])]
        if not mon.counters.get(c)
    ]
    write_evidence(mod, mon, t0, 0)
    if missing or not mon.fingerprints:
        print(f"INCONCLUSIVE property={prop}: monitors never reached: {missing}")
        return 2
    print(
        f"OK property={prop} tier={TIER} seed={SEED}: {mon.evaluations} cases, "
        f"{len(mon.fingerprints)} distinct non-trivial, "
        f"{mon.counters['oracle_decisions']} oracle decisions, "
        f"{time.time() - t0:.1f} s"
    )
    return 0
