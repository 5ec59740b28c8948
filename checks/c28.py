"""C28: a save or a load that can't be completed says so, and harms nothing."""
import contextlib
import gc
import gzip
import json
import os
import resource
import shutil
import signal
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from PIL import Image, ImageSequence
from pylattica.core import Simulation, SimulationResult, SimulationState
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder
from pylattica.visualization import DiscreteCellArtist, ResultArtist, SquareGridArtist2D

from vmon.model import apply_updates, random_ids, random_json_value, snapshot
from vmon.process import open_files

PROP = "C28"
RULE = (
    "random results, simulations, pictures and animations saved while writing fails at a "
    "chosen byte of the file (a file size limit, swept over the whole file and beyond its "
    "end), to folders that don't exist or in place of one, with values that can't be "
    "written, or by a process killed at any moment; and files cut short at any byte, "
    "emptied, missing or of other content loaded; results saved without a name by several "
    "processes or threads at once. A save that returns must have written a "
    "file that loads as what was saved (full disks: results and simulations), any other must raise, leave the object, the open "
    "files and the temporary folder as they were, and succeed when repeated without the "
    "fault. Non-trivial: the fault made the operation fail"
)
CASES = {"quick": 420, "thorough": 6000}
PARALLEL = True  # (animations are drawn in worker processes)
REQUIRED = ["failed_saves", "completed_saves", "results", "simulations", "pictures", "animations",
            "no_folders", "unwritable_values", "cut_files", "cut_archives", "missing_files", "other_files",
            "killed_savers", "unnamed_saves", "repeated_saves", "gone_on", "saves_at_once"]
PHASES = ["A", "B", "Na+", "void"]


@contextlib.contextmanager
def no_room_after(size):
    """No file can be made longer than that."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


class Thing:
    """What is saved: how, how it is read back, and what it is."""


def make_result(rng):
    ids = random_ids(rng, rng.choice([1, 2, 5, 12, 40]))
    model = {
        "SITES": {i: {"_site_id": i, "v": random_json_value(rng)} for i in ids},
        "GENERAL": {"g": random_json_value(rng)},
    }
    result = SimulationResult(SimulationState(model))
    hist = [model]
    for _ in range(rng.choice([0, 1, 3, 8])):
        sites = {i: {rng.choice("vw"): random_json_value(rng)} for i in ids if rng.random() < 0.6}
        result.add_step({"SITES": sites, "GENERAL": {"n": len(hist)}})
        hist.append(apply_updates(hist[-1], sites, {"n": len(hist)}))
    t = Thing()
    t.kind, t.object, t.ends = "results", result, [".json", ".json", ".json.gz", ""]
    t.save = result.to_file
    t.load = SimulationResult.from_file
    t.look = lambda r: [snapshot(r.get_step(k)) for k in range(len(r))]
    t.want = hist
    return t


def make_simulation(rng):
    struct = SimpleSquare2DStructureBuilder().build(rng.randint(1, 7))
    state = SimulationState()
    for i in struct.site_ids:
        state.set_site_state(i, {DISCRETE_OCCUPANCY: rng.choice(PHASES), "v": random_json_value(rng)})
    state.set_general_state({"g": random_json_value(rng)})
    sim = Simulation(state, struct)
    t = Thing()
    t.kind, t.object, t.ends = "simulations", sim, [".json", "", ".sim"]
    t.save = sim.to_file
    t.load = Simulation.from_file
    t.look = lambda s: [
        snapshot(s.state),
        [[x["_site_id"], x["_site_class"], [float(c) for c in x["_location"]]]
         for x in s.structure.sites()],
    ]
    t.want = t.look(sim)
    return t


def picture_parts(rng):
    struct = SimpleSquare2DStructureBuilder().build(rng.randint(1, 5))
    state = SimulationState()
    for i in struct.site_ids:
        state.set_site_state(i, {DISCRETE_OCCUPANCY: rng.choice(PHASES)})
    artist = SquareGridArtist2D(struct, DiscreteCellArtist.from_phase_list(PHASES))
    return struct, state, artist


def make_picture(rng):
    _, state, artist = picture_parts(rng)
    size = rng.choice([3, 8, 20])
    t = Thing()
    t.kind, t.object, t.ends = "pictures", state, [".png", ".bmp"]
    t.save = lambda path: artist.save_img(state, path, cell_size=size)

    def look(x):
        return np.asarray(x.convert("RGB")).tolist()

    def load(path):
        with Image.open(path) as f:
            return f.copy()

    t.load, t.look = load, look
    t.want = look(artist.get_img(state, cell_size=size))
    return t


def make_animation(rng):
    struct, state, artist = picture_parts(rng)
    result = SimulationResult(state)
    # (equal frames in a row are one frame of a GIF)
    for k in range(rng.choice([0, 1, 3])):
        i = rng.choice(struct.site_ids)
        now = result.last_step.get_site_state(i)[DISCRETE_OCCUPANCY]
        result.add_step({i: {DISCRETE_OCCUPANCY: rng.choice([p for p in PHASES if p != now])}})
    size = rng.choice([8, 20])
    t = Thing()
    t.kind, t.object, t.ends = "animations", result, [".gif"]
    t.save = lambda path: ResultArtist(artist, result).to_gif(path, cell_size=size)

    def load(path):
        with Image.open(path) as f:
            return [x.convert("RGB") for x in ImageSequence.Iterator(f)]

    def look(frames):
        return [np.asarray(x).tolist() for x in frames]

    t.load, t.look = load, look
    t.want = None  # (what a save without faults shows)
    return t


MAKERS = [make_result] * 6 + [make_simulation] * 5 + [make_picture] * 3 + [make_animation] * 2


def unchanged(t):
    o = t.object
    if t.kind == "results":
        return t.look(o)
    if t.kind == "simulations":
        return t.look(o)
    if t.kind == "pictures":
        return snapshot(o)
    return [snapshot(o.get_step(k)) for k in range(len(o))]


def failed(fn):
    """The error of a call, or None if it returned."""
    try:
        fn()
    except Exception as e:  # noqa: BLE001
        # (the error must not keep the call's files alive)
        return f"{type(e).__name__}: {e}"[:200]
    return None


def save_case(rng, mon):
    t = rng.choice(MAKERS)(rng)
    mon.count(t.kind)
    path = os.path.join(os.getcwd(), "saved" + rng.choice(t.ends))
    before = unchanged(t)
    t.save(path)
    size = os.path.getsize(path)
    if t.want is None:
        t.want = t.look(t.load(path))
    mon.same(t.look(t.load(path)), t.want, f"a saved file of {t.kind} shows something else")
    if rng.random() < 0.5:
        os.remove(path)
    gc.collect()
    files, temp = open_files(), sorted(os.listdir(tempfile.gettempdir()))
    here = set(os.listdir())

    fault = rng.choice(["room"] * 5 + ["folder", "is folder", "value", "kill"])
    if fault == "value" and t.kind not in ("results", "simulations"):
        fault = "room"
    if fault == "kill" and t.kind == "animations":
        fault = "room"
    limit, target, error = None, path, None
    if fault == "room":
        limit = rng.choice(
            [0, 1, size - 1, size - 1, size, size + 1, rng.randrange(size), rng.randrange(size),
             rng.randrange(size)]
        )
        with no_room_after(limit):
            error = failed(lambda: t.save(path))
    elif fault == "folder":
        target = os.path.join(os.getcwd(), "no such folder", "saved" + t.ends[0])
        error = failed(lambda: t.save(target))
        mon.require(error is not None, f"{t.kind} were saved in a folder that doesn't exist")
        mon.count("no_folders")
    elif fault == "is folder":
        target = os.path.join(os.getcwd(), "folder" + t.ends[0])
        os.mkdir(target)
        error = failed(lambda: t.save(target))
        mon.require(
            error is not None and os.path.isdir(target), f"{t.kind} were saved in place of a folder"
        )
        os.rmdir(target)
        mon.count("no_folders")
    elif fault == "value":
        bad = rng.choice([object(), [object()], {"deep": object()}])
        holder = t.object.initial_state if t.kind == "results" else t.object.state
        at = rng.choice(holder.site_ids())
        holder.set_site_state(at, {"unwritable": bad})
        error = failed(lambda: t.save(path))
        try:
            # (if it could be written after all, it must be there)
            shown = t.look(t.load(path)) if error is None else None
            mon.require(
                error is not None or shown == unchanged(t),
                "a value that can't be written was left out", value=repr(bad),
            )
        finally:
            # what can't be written is replaced
            holder.set_site_state(at, {"unwritable": None})
        before = unchanged(t)
        t.want = before
        mon.count("unwritable_values")
    else:
        kill_case(rng, mon, t, path)

    if fault == "room":
        if t.kind in ("pictures", "animations"):
            # (what becomes of a full disk is up to Pillow, which doesn't always notice)
            pass
        elif error is None:
            # it says that it is done
            mon.require(os.path.exists(path), "a save returned and left no file", kind=t.kind)
            mon.require(
                failed(lambda: t.load(path)) is None,
                f"a save of {t.kind} that returned left a file that can't be loaded",
                limit=limit, size=size,
            )
            mon.same(
                t.look(t.load(path)), t.want,
                f"a save of {t.kind} that returned wrote something else", limit=limit, size=size,
            )
            mon.count("completed_saves")
        elif t.kind in ("results", "simulations") and os.path.exists(path):
            # what such a save leaves isn't loaded as something else
            left = None
            with contextlib.suppress(Exception):
                left = t.load(path)
            mon.require(
                left is None or t.look(left) == t.want,
                f"half a file of {t.kind} was loaded", limit=limit, size=size,
            )
    if error is not None:
        mon.count("failed_saves")
    mon.same(unchanged(t), before, f"a failed save changed the {t.kind}", fault=fault)
    gc.collect()
    mon.equal(open_files(), files, f"a failed save of {t.kind} keeps files open", fault=fault)
    mon.equal(
        sorted(os.listdir(tempfile.gettempdir())), temp,
        f"a failed save of {t.kind} left temporary files", fault=fault,
    )
    new = set(os.listdir()) - here - {os.path.basename(path)}
    if fault == "kill":
        # (what a killed process had begun can't be tidied up)
        for name in new:
            os.remove(name)
        new = set()
    mon.equal(new, set(), f"a failed save of {t.kind} left other files", fault=fault)
    # once the fault is gone, it works
    t.save(path)
    mon.same(
        t.look(t.load(path)), t.want, f"{t.kind} can't be saved after a failed save", fault=fault
    )
    os.remove(path)
    mon.count("repeated_saves")
    go_on(rng, mon, t, path)
    mon.describe(
        {"kind": t.kind, "fault": fault, "limit": limit, "size": size, "error": error},
        nontrivial=error is not None,
    )


def go_on(rng, mon, t, path):
    """What was saved, or couldn't be, is used and saved on."""
    if t.kind not in ("results", "simulations") or rng.random() < 0.3:
        return
    if t.kind == "results":
        model, at = t.want[-1], rng.choice(list(t.want[0]["SITES"]))
    else:
        model, at = t.want[0], rng.choice(t.object.state.site_ids())
    sites, general = {at: {"later": 1}}, {"later": 2}
    after = apply_updates(model, sites, general)
    update = {"SITES": sites, "GENERAL": general}
    if t.kind == "results":
        t.object.add_step(update)
        want = [*t.want, after]
    else:
        t.object.state.batch_update(update)
        want = [after, t.want[1]]
    mon.same(t.look(t.object), want, f"{t.kind} don't go on after a save")
    t.save(path)
    mon.same(t.look(t.load(path)), want, f"{t.kind} that went on after a save are saved wrong")
    os.remove(path)
    mon.count("gone_on")


def kill_case(rng, mon, t, path):
    """The process that saves is killed at some moment."""
    wait = rng.choice([0, rng.uniform(0, 0.003), rng.uniform(0, 0.02)])
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            while True:
                t.save(path)
        finally:
            os._exit(0)
    time.sleep(wait)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    mon.count("killed_savers")
    if not os.path.exists(path):
        return
    if t.kind in ("results", "simulations"):
        got = None
        with contextlib.suppress(Exception):
            got = t.load(path)
        mon.require(
            got is None or t.look(got) == t.want, "half a file was loaded after a crash"
        )


def unnamed_case(rng, mon):
    """Saving a result without a name, while there is no room."""
    t = make_result(rng)
    os.mkdir("unnamed")
    os.chdir("unnamed")
    try:
        first = t.save()
        size = os.path.getsize(first)
        with open(first, "rb") as f:
            content = f.read()
        limit = rng.choice([0, size - 1, rng.randrange(size), size])
        with no_room_after(limit):
            error = failed(t.save)
        mon.require(error is not None or limit >= size, "an unnamed save that had no room returned")
        with open(first, "rb") as f:
            mon.equal(f.read(), content, "a failed save spoiled another file")
        again = t.save()
        mon.require(again != first, "an unnamed save took the name of another file")
        mon.same(t.look(t.load(again)), t.want, "an unnamed save wrote something else")
        mon.same(t.look(t.load(first)), t.want, "an unnamed save spoiled another file")
    finally:
        os.chdir("..")
        shutil.rmtree(os.path.join(os.getcwd(), "unnamed"))
    mon.count("unnamed_saves")
    mon.describe({"unnamed": size, "limit": limit}, nontrivial=error is not None)


def together_case(rng, mon):
    """Several processes or threads that save results without a name at the same time."""
    os.mkdir("unnamed")
    os.chdir("unnamed")
    try:
        things = [make_result(rng) for _ in range(rng.randint(2, 5))]
        saves = rng.choice([1, 1, 2, 4])
        start = time.monotonic() + rng.choice([0.005, 0.01, 0.02])

        def save_all(t):
            while time.monotonic() < start:
                pass
            return [t.save() for _ in range(saves)]

        if rng.random() < 0.5:
            how, names = "processes", []
            pipes = []
            for t in things:
                out, into = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.write(into, json.dumps(save_all(t)).encode())
                    finally:
                        os._exit(0)
                os.close(into)
                pipes.append((pid, out))
            for pid, out in pipes:
                with os.fdopen(out, "rb") as f:
                    text = f.read()
                os.waitpid(pid, 0)
                mon.require(text != b"", "an unnamed save failed as others were saved")
                names.append(json.loads(text))
        else:
            how = "threads"
            with ThreadPoolExecutor(len(things)) as pool:
                names = [x.result() for x in [pool.submit(save_all, t) for t in things]]
        flat = [n for ns in names for n in ns]
        mon.equal(
            len(set(flat)), len(flat), f"{how} that saved results without a name took the same one"
        )
        mon.equal(sorted(os.listdir()), sorted(flat), "unnamed saves left other files")
        for t, ns in zip(things, names):
            for n in ns:
                mon.same(t.look(t.load(n)), t.want, "an unnamed save wrote something else")
    finally:
        os.chdir("..")
        shutil.rmtree(os.path.join(os.getcwd(), "unnamed"))
    mon.count("saves_at_once", len(flat))
    mon.describe({"at once": how, "files": len(flat), "sizes": [len(t.want) for t in things]})


def load_case(rng, mon):
    t = rng.choice([make_result, make_simulation])(rng)
    end = rng.choice(t.ends)
    path = os.path.join(os.getcwd(), "loaded" + end)
    t.save(path)
    with open(path, "rb") as f:
        whole = f.read()
    gc.collect()
    files = open_files()
    how = rng.choice(["cut"] * 4 + ["missing", "other", "folder"])
    tried = []

    def refuse(what):
        got = []
        error = failed(lambda: got.append(t.load(path)))
        mon.require(
            error is not None, f"{what} was loaded as {t.kind}",
            loaded=str(type(got[0]).__name__ if got else None), file=end,
        )
        tried.append(error)

    if how == "cut":
        n = len(whole)
        cuts = {0, 1, n - 1, n // 2, *(rng.randrange(n) for _ in range(20))}
        if n > 4:
            cuts |= {n - 2, n - 4}
        # where a value, a step or a site ends
        ends = [i for i, c in enumerate(whole) if c in b"]},"]
        cuts |= set(rng.sample(ends, min(12, len(ends))))
        for cut in sorted(c for c in cuts if c < n):
            with open(path, "wb") as f:
                f.write(whole[:cut])
            refuse(f"a file cut after {cut} of {n} bytes")
            mon.count("cut_archives" if end.endswith("gz") else "cut_files")
    elif how == "missing":
        os.remove(path)
        refuse("a missing file")
        mon.require(not os.path.exists(path), "loading a missing file made one")
        mon.count("missing_files")
    elif how == "folder":
        os.remove(path)
        os.mkdir(path)
        refuse("a folder")
        os.rmdir(path)
        mon.count("missing_files")
    else:
        text = rng.choice([b"the user's notes", b"\x00" * 40, b"{", whole + b"}", whole[1:],
                           b"SITES: 3", whole + whole])
        if end.endswith("gz") and rng.random() < 0.5:
            text = gzip.compress(text[:12])
        if text == whole + whole and end.endswith("gz"):
            text = whole + b"more"
        if not text.startswith(b"SITES"):
            with open(path, "wb") as f:
                f.write(text)
            refuse("a file of something else")
        mon.count("other_files")
    gc.collect()
    mon.equal(open_files(), files, f"a failed load of {t.kind} keeps files open")
    # the next file is loaded as ever
    with open(path, "wb") as f:
        f.write(whole)
    mon.same(t.look(t.load(path)), t.want, "after a failed load, a good file isn't loaded")
    os.remove(path)
    mon.describe({"load": t.kind, "how": how, "file": end, "size": len(whole)}, nontrivial=bool(tried))


def case(rng, mon):
    for name in os.listdir():
        if os.path.isfile(name):
            os.remove(name)
    # temporary files of these operations only
    own = os.path.join(os.getcwd(), "temporary")
    shutil.rmtree(own, ignore_errors=True)
    os.mkdir(own)
    old, tempfile.tempdir = tempfile.tempdir, own
    try:
        r = rng.random()
        if r < 0.6:
            save_case(rng, mon)
        elif r < 0.66:
            unnamed_case(rng, mon)
        elif r < 0.74:
            together_case(rng, mon)
        else:
            load_case(rng, mon)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(own, ignore_errors=True)
