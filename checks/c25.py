"""C25: an error in the user's code reaches the caller, and everything goes on working."""
import copy
import json
import multiprocessing
import os
import pickle
import queue

import numpy as np
from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    Simulation,
    SimulationResult,
    SimulationState,
    StateAnalyzer,
    SynchronousRunner,
)
from pylattica.core.neighborhood_builders import (
    NeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
    StochasticNeighborhoodBuilder,
)
from pylattica.core.neighborhoods import (
    AbstractNeighborhood,
    SiteClassNeighborhood,
    StochasticNeighborhood,
)
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import GrowthSetup, SimpleSquare2DStructureBuilder
from pylattica.visualization import CellArtist, ResultArtist, SquareGridArtist2D

from vmon.model import GENERAL, SITES, SITE_ID, apply_updates, h, random_ids, snapshot

PROP = "C25"
RULE = (
    "faults of many types injected into the user's parts of an operation: update rules "
    "(serial, asynchronous, parallel; a chosen site and step), pre_run, instantiate_result, "
    "the choice of sites (k-th time asked), search criteria, colors and labels of drawings "
    "and animations (k-th cell), neighborhoods and their builders, and files that are missing, cut off or can't be written. "
    "The error that comes out is compared with the one injected; the same objects are then "
    "used again and compared with the reference. Non-trivial: the fault fired after some "
    "work had been done"
)
CASES = {"quick": 3500, "thorough": 18000}
PARALLEL = True
REQUIRED = ["rule_serial", "rule_async", "rule_parallel", "choice_faults", "pre_run_faults",
            "result_faults", "criterion_faults", "drawing_faults", "gif_faults", "cut_files",
            "unwritable", "steps_kept", "unsendable_errors", "passing_faults",
            "neighborhood_faults"]


class UserError(Exception):
    pass


class Stubborn(Exception):
    """Can be sent to another process, but not restored there."""

    def __init__(self, site, step):
        super().__init__(f"stuck at {site}")
        self.site, self.step = site, step


class Odd(Exception):
    """Can't be sent, or not restored, for reasons of its own."""

    def __init__(self, how):
        super().__init__(how)
        self.how = how

    def __reduce__(self):
        if self.how == "restoring":
            return _not_restored, (self.how,)
        raise {"value": ValueError, "key": KeyError, "pickling": pickle.PicklingError,
               "runtime": RuntimeError}[self.how]("can't be sent")


def _not_restored(how):
    raise LookupError(how)


def detailed(rng):
    """An error that says more than its arguments do."""
    e = UserError("user", rng.randrange(99))
    e.site, e.details = rng.randrange(99), {"at": [1.5, 2]}
    return e


OTHERS = [
    ArithmeticError, BlockingIOError, BrokenPipeError, BufferError, ChildProcessError,
    ConnectionResetError, Exception, FileExistsError, FileNotFoundError, FloatingPointError,
    ImportError, InterruptedError, LookupError, MemoryError, ModuleNotFoundError, NameError,
    OverflowError, PermissionError, RecursionError, ReferenceError, SyntaxError, SystemError,
    TimeoutError, UnboundLocalError, UnicodeError, UserWarning, DeprecationWarning,
    multiprocessing.TimeoutError, multiprocessing.ProcessError, pickle.PicklingError,
    queue.Empty, np.linalg.LinAlgError,
]


def random_error(rng, hard):
    makers = [
        lambda: ValueError("bad value", rng.randrange(99)),
        lambda: KeyError("missing"),
        lambda: KeyError(rng.randrange(9)),
        lambda: IndexError("list index out of range"),
        lambda: TypeError("unsupported", 1),
        lambda: AttributeError("no such attribute"),
        lambda: ZeroDivisionError("division by zero"),
        lambda: AssertionError("That site is already occupied"),
        lambda: RuntimeError("Controller provided no sites to update, ABORTING"),
        lambda: NotImplementedError(),
        lambda: OSError(2, "No such file or directory"),
        lambda: EOFError("no more"),
        lambda: UserError("user", rng.randrange(99)),
        lambda: UserError("user", rng.randrange(99)),
        *[lambda: rng.choice(OTHERS)("a less common one")] * 9,
    ]
    if hard:
        makers.append(lambda: KeyboardInterrupt("stop"))
    makers.append(lambda: Stubborn(rng.randrange(99), 2))
    makers.append(lambda: Odd(rng.choice(["value", "key", "pickling", "runtime", "restoring"])))
    makers.append(lambda: detailed(rng))
    makers.append(lambda: FileNotFoundError(2, "No such file or directory", "notes.txt"))
    return rng.choice(makers)()


def details(e):
    # (notes added on the way do no harm)
    return [str(e), repr({k: v for k, v in vars(e).items() if k != "__notes__"})]


def expect(mon, error, fn, what, workers=False, **info):
    """The error, and nothing else, comes out of fn."""
    mon.count("oracle_decisions")
    try:
        fn()
    except BaseException as e:  # noqa: BLE001
        if type(e) is type(error) and e.args == error.args:
            mon.require(
                details(e) == details(error),
                f"{what}: the error lost its details on the way", arrived=details(e),
                raised=details(error),
            )
            return
        if workers and isinstance(error, (Stubborn, Odd)) and isinstance(e, Exception):
            # it can't come out of another process as what it was, but has to come out
            mon.count("unsendable_errors")
            return
        if isinstance(e, Exception) or isinstance(error, KeyboardInterrupt):
            mon.require(False, f"{what}: another error reaches the caller",
                        got=repr(e), **{"injected": repr(error), **info})
        raise
    mon.require(False, f"{what}: the error doesn't reach the caller",
                **{"injected": repr(error), **info})


class Ctrl(BasicController):
    """Every site counts its own updates ("n"), so that (site, n) names an application."""

    def __init__(self, nbrs, order):
        self.nbrs, self.order = nbrs, order
        self.asked = 0
        self.error = None
        self.where = None
        self.made = []
        self.once = False

    def fail(self, *where):
        if self.where == where:
            if self.once:
                # (would succeed the second time)
                self.where = None
            raise self.error

    def pre_run(self, state):
        self.asked = 0
        self.made = []
        self.fail("pre_run")

    def instantiate_result(self, starting_state):
        self.fail("result")
        self.made.append(super().instantiate_result(starting_state))
        return self.made[-1]

    def get_random_site(self, _):
        self.fail("choice", self.asked)
        self.asked += 1
        return self.order[(self.asked - 1) % len(self.order)]

    def get_state_update(self, sid, st):
        own = st.get_site_state(sid)
        self.fail("rule", sid, own["n"])
        return new_values(self.nbrs, sid, lambda i: st.get_site_state(i))


def new_values(nbrs, sid, get):
    own = get(sid)
    return {"n": own["n"] + 1, "v": h(own["v"], [get(i)["v"] for i in nbrs[sid]]) % 7}


def reference(model, nbrs, order, how, steps):
    hist, visits = [model], []
    for k in range(steps):
        last = hist[-1]
        sites = [order[k % len(order)]] if how == "async" else list(last[SITES])
        visits.append([(i, last[SITES][i]["n"]) for i in sites])
        upd = {i: new_values(nbrs, i, last[SITES].get) for i in sites}
        hist.append(apply_updates(last, upd, {}))
    return hist, visits


def check_history(mon, result, hist, msg, **info):
    mon.equal(len(result), len(hist), msg + ": wrong number of steps", **info)
    for k, st in enumerate(result.steps()):
        mon.same(snapshot(st), hist[k], msg, step=k, **info)


def run_case(rng, mon):
    how = rng.choice(["serial"] * 4 + ["async"] * 4 + ["parallel"] * 2)
    n = rng.choice([1, 2, 4, 7, 12])
    if rng.random() < 0.01:
        n = rng.choice([60, 150])
    steps = rng.choice([1, 2, 3, 5]) * (min(n, 8) if how == "async" else 1)
    ids = random_ids(rng, n)
    nbrs = {i: rng.sample(ids, min(n, rng.randint(0, 3))) for i in ids}
    order = [rng.choice(ids) for _ in range(rng.randint(1, 7))]
    model = {
        SITES: {i: {SITE_ID: i, "n": 0, "v": rng.randrange(7)} for i in ids},
        GENERAL: {"name": "run"},
    }
    hist, visits = reference(model, nbrs, order, how, steps)
    ctrl = Ctrl(nbrs, order)
    error = ctrl.error = random_error(rng, hard=how != "parallel")
    kinds = ["rule"] * 4 + ["pre_run", "result"]
    if how == "async":
        kinds += ["choice"] * 2
    kind = rng.choice(kinds)
    done = 0
    if kind == "rule":
        done = rng.randrange(steps)
        where = ("rule", *rng.choice(visits[done]))
        # the first step that applies the rule there
        done = next(k for k, v in enumerate(visits) if where[1:] in v)
        mon.count("rule_" + how)
    elif kind == "choice":
        # the choice of the site after the last step isn't needed
        done = rng.randrange(steps)
        where = ("choice", done)
        mon.count("choice_faults")
    else:
        where = (kind,)
        mon.count(kind + "_faults")
    mon.describe(
        {"how": how, "n": n, "steps": steps, "where": where, "error": repr(error)},
        nontrivial=done > 0 or (n > 1 and kind == "rule"),
    )
    if how == "async":
        runner = AsynchronousRunner()
    else:
        runner = SynchronousRunner(
            parallel=how == "parallel", workers=rng.choice([1, 2, 3]) if how == "parallel" else None
        )
    state = SimulationState(copy.deepcopy(model))
    ctrl.where = where
    if rng.random() < 0.5:
        ctrl.once = True
        mon.count("passing_faults")
    info = {"how": how, "where": where, "injected": repr(error)}
    verbose = rng.random() < 0.3
    expect(mon, error, lambda: runner.run(state, ctrl, steps, verbose=verbose), "a run",
           workers=how == "parallel", **info)
    mon.same(snapshot(state), model, "a failed run changed the state it was given", **info)
    if ctrl.made:
        # what had been done is recorded
        check_history(mon, ctrl.made[0], hist[: done + 1], "the result of a failed run", **info)
        mon.count("steps_kept", done)
    kept = ctrl.made[0] if ctrl.made else None
    ctrl.where = None
    if rng.random() < 0.5:
        # the same simulation, with the error gone
        result = runner.run(state, ctrl, steps, verbose=verbose)
        check_history(mon, result, hist, "a run after a failed one", **info)
    elif kept is not None:
        # goes on from where the failed one stopped
        rest = steps - done
        start = hist[done]
        want, _ = reference(start, nbrs, order, how, rest)
        result = runner.run(kept.last_step, ctrl, rest)
        check_history(mon, result, want, "a run that continues a failed one", **info)
    if kept is not None:
        check_history(mon, kept, hist[: done + 1], "the result of the failed run, later", **info)


def search_case(rng, mon):
    struct = SimpleSquare2DStructureBuilder().build(rng.choice([2, 3, 5]))
    state = SimulationState.from_struct(struct)
    for i in struct.site_ids:
        state.set_site_state(i, {"v": rng.randrange(3)})
    analyzer = StateAnalyzer(struct if rng.random() < 0.5 else None)
    error = random_error(rng, hard=True)
    bad = rng.choice(struct.site_ids)
    mon.describe({"search": state.size, "bad": bad, "error": repr(error)}, nontrivial=bad > 0)

    once, passed = rng.random() < 0.4, []

    def picky(s):
        if s[SITE_ID] == bad and not (once and passed):
            passed.append(1)
            raise error
        return True

    crits = [lambda s: s["v"] < 3, picky]
    method = rng.choice([analyzer.get_sites, analyzer.get_site_count])
    expect(mon, error, lambda: method(state, state_criteria=crits), "a search")
    mon.equal(
        sorted(analyzer.get_sites(state, state_criteria=[lambda s: s["v"] > 0])),
        sorted(i for i in struct.site_ids if state.get_site_state(i)["v"] > 0),
        "a search after a failed one",
    )
    mon.count("criterion_faults")


COLORS = {"A": (250, 10, 10), "B": (10, 250, 10), "C": (10, 10, 250)}


class Picky(CellArtist):
    def __init__(self, what, bad, error):
        self.what, self.bad, self.error, self.on = what, bad, error, True

    def look(self, what, s):
        if self.on and self.what == what and s.get("bad") == self.bad:
            raise self.error

    def get_color_from_cell_state(self, s):
        self.look("color", s)
        return COLORS[s[DISCRETE_OCCUPANCY]]

    def get_cell_legend_label(self, s):
        self.look("label", s)
        return s[DISCRETE_OCCUPANCY]


def shown(img, cells, n, size):
    """The cells that an image shows in another color."""
    img = img.convert("RGB")
    wrong = []
    for (x, y), p in cells.items():
        got = img.getpixel((x * size + size // 2, (n - 1 - y) * size + size // 2))
        if max(abs(a - b) for a, b in zip(got, COLORS[p])) > 8:
            wrong.append((x, y))
    return wrong


def draw_case(rng, mon):
    from PIL import Image, ImageSequence

    n = rng.choice([2, 3, 4])
    size = 12
    struct = SimpleSquare2DStructureBuilder().build(n)
    at = {tuple(int(round(x)) for x in s["_location"]): s[SITE_ID] for s in struct.sites()}
    hist = []
    gif = rng.random() < 0.35
    for _ in range(rng.choice([1, 2, 4]) if gif else 1):
        hist.append({c: rng.choice("ABC") for c in at})
    when, bad = rng.randrange(len(hist)), rng.choice(sorted(at))
    result = None
    for k, cells in enumerate(hist):
        upd = {i: {DISCRETE_OCCUPANCY: cells[c], "bad": k == when and c == bad}
               for c, i in at.items()}
        if result is None:
            start = SimulationState.from_struct(struct)
            start.batch_update(upd)
            result = SimulationResult(start)
        else:
            result.add_step(upd)
    error = random_error(rng, hard=False)
    # every cell has a color; the legend may need only one cell's label of each phase
    colors = Picky("color", True, error)
    artist = SquareGridArtist2D(struct, colors)
    mon.describe({"draw": n, "frames": len(hist), "when": when, "error": repr(error)},
                 nontrivial=True)
    if not gif:
        state = result.get_step(0)
        method = rng.choice([
            lambda: artist.get_img(state, cell_size=size),
            lambda: artist.save_img(state, "failed.png", cell_size=size),
        ])
        expect(mon, error, method, "a drawing")
        mon.require(not os.path.exists("failed.png"), "a failed drawing wrote a file")
        colors.on = False
        img = artist.get_img(state, cell_size=size)
        mon.equal(shown(img, hist[0], n, size), [], "a drawing after a failed one")
        mon.count("drawing_faults")
        return
    old = rng.random() < 0.5
    if old:
        with open("out.gif", "w") as f:
            f.write("older file")
    expect(
        mon, error,
        lambda: ResultArtist(artist, result).to_gif("out.gif", cell_size=size),
        "an animation", workers=True, when=when,
    )
    if old:
        with open("out.gif") as f:
            mon.equal(f.read(), "older file", "a failed animation changed a file")
    else:
        mon.require(not os.path.exists("out.gif"), "a failed animation wrote a file")
    colors.on = False
    ResultArtist(artist, result).to_gif("out.gif", cell_size=size)
    with Image.open("out.gif") as img:
        frames = [fr.convert("RGB") for fr in ImageSequence.Iterator(img)]
    os.remove("out.gif")
    mon.equal(shown(frames[0], hist[0], n, size), [], "an animation after a failed one")
    mon.equal(shown(frames[-1], hist[-1], n, size), [], "an animation after a failed one")
    mon.count("gif_faults")


class Choosy(NeighborhoodBuilder):
    """A builder that knows its neighbors, but fails at one site."""

    def __init__(self, nbrs, bad, error, once):
        self.nbrs, self.bad, self.error, self.once, self.failed = nbrs, bad, error, once, 0

    def get_neighbors(self, site, struct):
        if site[SITE_ID] == self.bad and not (self.once and self.failed):
            self.failed += 1
            raise self.error
        return [(i, 1.5) for i in self.nbrs[site[SITE_ID]]]


class Moody(AbstractNeighborhood):
    def __init__(self, nbrs, bad, error, once):
        self.nbrs, self.bad, self.error, self.once, self.failed = nbrs, bad, error, once, 0

    def neighbors_of(self, site_id, include_weights=False):
        if site_id == self.bad and not (self.once and self.failed):
            self.failed += 1
            raise self.error
        nbs = self.nbrs[site_id]
        return [(i, 1.5) for i in nbs] if include_weights else list(nbs)


def neighborhood_case(rng, mon):
    n = rng.choice([2, 3, 5])
    struct = SimpleSquare2DStructureBuilder().build(n)
    (cls,) = struct.all_site_classes()
    ids = struct.site_ids
    # at least one neighbor each, and all in reach
    nbrs = {i: sorted({ids[i - 1], *rng.sample(ids, rng.randint(0, 3))} - {i}) for i in ids}
    bad, once = rng.choice(ids), rng.random() < 0.4
    error = random_error(rng, hard=True)
    how = rng.choice(["plain", "class", "stochastic", "by class", "growth", "setup", "asked", "asked"])
    mon.describe({"neighborhood": how, "size": n, "bad": bad, "once": once, "error": repr(error),
                  "nbrs": nbrs}, nontrivial=bad > 0)

    def check(nb, what):
        for i in ids:
            weights = rng.random() < 0.5
            mon.equal(
                sorted(nb.neighbors_of(i, include_weights=weights)),
                [(j, 1.5) for j in nbrs[i]] if weights else nbrs[i], what, site=i,
            )

    if how == "asked":
        part = Moody(nbrs, bad, error, once)
        nb = rng.choice([
            lambda: StochasticNeighborhood([part]),
            lambda: SiteClassNeighborhood(struct, {cls: part}),
            lambda: SiteClassNeighborhood(struct, {cls: StochasticNeighborhood([part, part])}),
        ])()
        expect(mon, error, lambda: nb.neighbors_of(bad, include_weights=rng.random() < 0.5),
               "a neighborhood")
        part.bad = None
        check(nb, "a neighborhood that failed once")
        mon.count("neighborhood_faults")
        return
    builder = Choosy(nbrs, bad, error, once)
    if how == "plain":
        user, build = builder, lambda: builder.get(struct)
    elif how == "class":
        user, build = builder, lambda: builder.get(struct, site_class=cls)
    elif how == "stochastic":
        user = StochasticNeighborhoodBuilder([builder, builder])
        build = lambda: user.get(struct)  # noqa: E731
    elif how == "by class":
        user = SiteClassNeighborhoodBuilder({cls: builder})
        build = lambda: user.get(struct)  # noqa: E731
    elif how == "growth":
        build = lambda: GrowthController(  # noqa: E731
            PhaseSet(["A", "B"]), struct, nb_builder=builder).nb_graph
    else:
        setup = GrowthSetup(PhaseSet(["A", "B"]))
        grow = lambda: setup.grow(n, 1, "bulk", {"A": 1}, builder, buffer=None)  # noqa: E731
        expect(mon, error, grow, "a growth setup")
        builder.bad = None
        grown = grow()
        mon.require(
            all(s[DISCRETE_OCCUPANCY] in ("A", "bulk") for s in grown.state.all_site_states()),
            "a growth setup after a failed one has other phases",
        )
        mon.count("neighborhood_faults")
        return
    expect(mon, error, build, "a neighborhood builder")
    builder.bad = None
    check(build(), "a neighborhood built after a failure")
    mon.count("neighborhood_faults")


def file_case(rng, mon):
    struct = SimpleSquare2DStructureBuilder().build(2)
    state = SimulationState.from_struct(struct)
    for i in struct.site_ids:
        state.set_site_state(i, {"v": rng.randrange(99)})
    result = SimulationResult(state)
    hist = [snapshot(state)]
    for k in range(rng.randint(0, 4)):
        result.add_step({k % 4: {"v": rng.randrange(99)}})
        hist.append(snapshot(result.last_step))
    sim = Simulation(state, struct)
    what, cls = rng.choice([(result, SimulationResult), (sim, Simulation)])
    how = rng.choice(["cut", "cut", "cut", "missing", "no folder"])
    mon.describe({"file": cls.__name__, "how": how, "steps": len(hist), "v": hist}, nontrivial=True)

    def fails(fn, msg):
        mon.count("oracle_decisions")
        try:
            fn()
        except Exception:  # noqa: BLE001
            return
        mon.require(False, msg, kind=cls.__name__)

    if how == "cut":
        what.to_file("cut.json")
        with open("cut.json") as f:
            text = f.read()
        with open("cut.json", "w") as f:
            f.write(text[: rng.randrange(len(text.rstrip()))])
        fails(lambda: cls.from_file("cut.json"), "half a file loads without an error")
        os.remove("cut.json")
        mon.count("cut_files")
    elif how == "missing":
        fails(lambda: cls.from_file("nowhere.json"), "a missing file loads without an error")
        mon.require(not os.path.exists("nowhere.json"), "loading a missing file makes one")
        mon.count("cut_files")
    else:
        fails(
            lambda: what.to_file(os.path.join("no", "such", "folder", "f.json")),
            "saving fails without an error",
        )
        mon.count("unwritable")
    what.to_file("good.json")
    back = cls.from_file("good.json")
    os.remove("good.json")
    if cls is SimulationResult:
        check_history(mon, back, hist, "a result saved after a failure")
    else:
        mon.same(snapshot(back.state), hist[0], "a simulation saved after a failure")
        json.dumps(back.as_dict())


def case(rng, mon):
    rng.choice([run_case] * 6 + [search_case] + [draw_case] + [file_case] + [neighborhood_case])(rng, mon)
