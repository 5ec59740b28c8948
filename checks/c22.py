"""C22: every module imports on its own, in any order, and offers the same names."""
import concurrent.futures
import json
import os
import subprocess
import sys

from vmon import core

PROP = "C22"
RULE = (
    "fresh interpreters, each importing one module of the package first and then all of "
    "the others in a random order; each case starts one interpreter per module. Every "
    "import must succeed, and the public names (and where they come from) of every module "
    "afterwards must be the same in all interpreters. Non-trivial: 2 or more modules"
)
CASES = {"quick": 2, "thorough": 24}
PARALLEL = True
REQUIRED = ["interpreters", "first_imports", "imports"]

SCRIPT = """
import importlib, json, sys
src, names = json.loads(sys.argv[1])
sys.path.insert(0, src)
for n in names:
    try:
        importlib.import_module(n)
    except BaseException as e:
        print("RESULT" + json.dumps({"failed": n, "error": repr(e)[:400]}))
        sys.exit(0)
offers = {}
def source(v):
    if callable(v) or type(v) is type(sys):
        return str(getattr(v, "__module__", None) or getattr(v, "__name__", "") or "")
    return type(v).__name__
for n in names:
    m = sys.modules[n]
    offers[n] = sorted([k, source(v)] for k, v in vars(m).items() if not k.startswith("_"))
print("RESULT" + json.dumps({"offers": offers}))
"""


def modules():
    src = os.path.join(core.REPO, "src")
    out = []
    for root, dirs, files in os.walk(os.path.join(src, "pylattica")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(root, f), src)[:-3].split(os.sep)
                out.append(".".join(rel[:-1] if rel[-1] == "__init__" else rel))
    return src, sorted(out)


def run(src, names):
    p = subprocess.run(
        [sys.executable, "-c", SCRIPT, json.dumps([src, names])],
        capture_output=True, text=True, timeout=200, check=False,
    )
    for line in p.stdout.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:])
    if p.returncode < 0:
        raise core.Inconclusive(f"an interpreter was killed by signal {-p.returncode}")
    return {"failed": names[0], "error": f"exit {p.returncode}: {p.stderr[-400:]}"}


def case(rng, mon):
    src, mods = modules()
    mon.require(len(mods) > 1, "no modules found")
    orders = []
    for first in mods:
        rest = [m for m in mods if m != first]
        rng.shuffle(rest)
        orders.append([first, *rest])
    with concurrent.futures.ThreadPoolExecutor(7) as pool:
        results = list(pool.map(lambda o: run(src, o), orders))
    reference = None
    for order, r in zip(orders, results):
        if "failed" in r:
            at = order.index(r["failed"])
            mon.require(
                False, "a module can't be imported", module=r["failed"], error=r["error"],
                imported_before=order[:at][-12:],
            )
        mon.count("interpreters")
        mon.count("imports", len(order))
        mon.count("first_imports")
        mon.seen("orders", order)
        reference = reference or r["offers"]
        for m in mods:
            mon.require(
                r["offers"][m] == reference[m],
                "the names a module offers depend on the order of imports",
                module=m, first=order[0],
                differs=[x for x in r["offers"][m] if x not in reference[m]]
                + [x for x in reference[m] if x not in r["offers"][m]],
            )
    mon.describe({"orders": [o[:4] for o in orders[:5]], "modules": len(mods)})
