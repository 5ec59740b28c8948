"""What a process is like: its settings, children, files, random generators."""
import gc
import decimal
import locale
import logging
import multiprocessing as mp
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings

import numpy as np


PIXELS = int(1024 * 1024 * 1024 // 4 // 3)


def children():
    mp.active_children()  # (collects those that have ended)
    found = set()
    for t in os.listdir("/proc/self/task"):
        try:
            with open(f"/proc/self/task/{t}/children") as f:
                found |= set(f.read().split())
        except OSError:
            pass
    return found


def open_files():
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink(f"/proc/self/fd/{fd}"))
        except OSError:
            pass
    return sorted(x for x in out if not x.startswith("/proc/"))


def settings():
    mask = os.umask(0)
    os.umask(mask)
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": mask,
        "signal handlers": [
            signal.getsignal(s) for s in signal.valid_signals()
            if s not in (signal.SIGPROF, signal.SIGALRM)
        ],
        "warning filters": list(warnings.filters),
        "locale": locale.setlocale(locale.LC_ALL),
        "module path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "standard output": sys.stdout,
        "standard error": sys.stderr,
        "exception hook": sys.excepthook,
        "other hooks": [
            sys.displayhook, sys.unraisablehook, sys.breakpointhook, threading.excepthook,
            sys.gettrace(), sys.getprofile(), list(sys.path_hooks),
        ],
        "standard input": sys.stdin,
        "logging": (
            logging.getLogger().level, list(logging.getLogger().handlers),
            logging.root.manager.disable, logging.getLogger().disabled,
        ),
        "decimal context": repr(decimal.getcontext().copy().prec),
        "socket timeout": socket.getdefaulttimeout(),
        "temporary directory": tempfile.gettempdir(),
        "time zone": time.tzname,
        "priority": (os.getpriority(os.PRIO_PROCESS, 0), os.sched_getaffinity(0)),
        "limits": [
            resource.getrlimit(getattr(resource, k)) for k in dir(resource)
            if k.startswith("RLIMIT_")
        ],
        "pictures' limits": [
            getattr(sys.modules.get(m), k, default)
            for m, k, default in (
                ("PIL.Image", "MAX_IMAGE_PIXELS", PIXELS),
                ("PIL.ImageFile", "LOAD_TRUNCATED_IMAGES", False),
            )
        ],
        "start method": mp.get_start_method(allow_none=True) or mp.get_all_start_methods()[0],
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "numpy errors": np.geterr(),
        "numpy printing": str(np.get_printoptions()),
        "matplotlib": {
            k: repr(v) for k, v in getattr(sys.modules.get("matplotlib"), "rcParams", {}).items()
        },
    }


def figures():
    plt = sys.modules.get("matplotlib.pyplot")
    return list(plt.get_fignums()) if plt else []


def generators():
    st = np.random.get_state()
    return random.getstate(), (st[0], st[1].tobytes(), st[2:])
