#!/opt/venv/bin/python
"""Entry point of every check:  run.py <property id> [--replay FILE] [--shard I/N]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_REPO
(default /repo; only for trying the checks on a scratch copy).
Exit 0: held on everything explored; 1: VIOLATION line; 2: error of the check
or inconclusive.
"""
import os
import sys

# Before anything of the code under test is imported: never write bytecode and
# never read a stale one, keep numeric libraries single-threaded, no progress bars.
sys.dont_write_bytecode = True
sys.pycache_prefix = f"/nonexistent/vmon-pycache-{os.getpid()}"
_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "TQDM_DISABLE": "1",
    "PYTHONHASHSEED": "0",
}
if any(os.environ.get(k) != v for k, v in _ENV.items()):
    os.environ.update(_ENV)
    os.execv(sys.executable, [sys.executable, *sys.argv])

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vmon import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
