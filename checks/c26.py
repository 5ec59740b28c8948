"""C26: operations leave nothing behind, keep nothing alive and change no settings."""
import gc
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import weakref

import matplotlib.pyplot as plt
import numpy as np
from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter
from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    DistanceNeighborhoodBuilder,
    Lattice,
    MotifNeighborhoodBuilder,
    PeriodicStructure,
    Simulation,
    SimulationResult,
    SimulationState,
    StateAnalyzer,
    SynchronousRunner,
)
from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
    StochasticNeighborhoodBuilder,
)
from pylattica.core.neighborhoods import StochasticNeighborhood
from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer, PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.models.game_of_life import GameOfLifeController
from pylattica.models.growth import GrowthController
from pylattica.structures.honeycomb import HoneycombNeighborhoodBuilder, HoneycombTilingBuilder
from pylattica.structures.square_grid import (
    DiscreteGridSetup,
    GrowthSetup,
    MooreNbHoodBuilder,
    PseudoHexagonalNeighborhoodBuilder2D,
    PseudoPentagonalNeighborhoodBuilder,
    SimpleSquare2DStructureBuilder,
    SimpleSquare3DStructureBuilder,
    VonNeumannNbHood2DBuilder,
)
from pylattica.visualization import (
    DiscreteCellArtist,
    ResultArtist,
    SquareGridArtist2D,
    SquareGridArtist3D,
)

from vmon import core
from vmon.model import Rule, random_ids
from vmon.process import children, figures, generators, open_files, settings

PROP = "C26"
RULE = (
    "operations of every part of the library (runs of all kinds, finished or ended by an "
    "error of the rule; results, searches, plots, neighborhoods, setups, growth, Game of "
    "Life, drawings, animations, files, conversions; the first import of the package, in "
    "interpreters of its own), each carried out several times on new "
    "objects, with tools (runners, builders, setups) that are new or the same each time, in "
    "a scratch directory. Watched are: child processes, threads, open "
    "files, the scratch and the temporary directory, settings of the process, the state "
    "of the random generators, open figures, and weak references to all the objects used. "
    "Non-trivial: every case (each operation is a real one)"
)
CASES = {"quick": 200, "thorough": 3000}
PARALLEL = True
PHASES = ["A", "B", "C"]


class Boom(Exception):
    pass


class Ctrl(BasicController):
    def __init__(self, rule, fail_at=None):
        self.rule, self.calls, self.fail_at = rule, 0, fail_at

    def get_random_site(self, state):
        return self.rule.ids[self.calls % len(self.rule.ids)]

    def get_state_update(self, sid, st):
        self.calls += 1
        if self.calls == self.fail_at:
            raise Boom("stop")
        return self.rule.update(sid, st.get_site_state, st.get_general_state())


# Every operation returns the objects it worked with, the names of the files it was
# asked to write, and is given what is to be the same in all of its repetitions.
def op_run(rng, keep, how=None, fails=None):
    how = how or rng.choice(["serial", "async", "parallel"])
    rule = Rule(rng, random_ids(rng, rng.choice([1, 3, 6])), modes=["own", "perm"])
    state = SimulationState(rule.initial(rng))
    steps = rng.choice([2, 4, 8])
    fails = rng.random() < 0.4 if fails is None else fails
    # (every worker counts its own applications)
    fail_at = (1 if how == "parallel" else rng.choice([1, 2])) if fails else None
    ctrl = Ctrl(rule, fail_at)
    if how == "async":
        runner = keep("async", AsynchronousRunner)
    else:
        workers = rng.choice([1, 2, 3])
        runner = keep(how, lambda: SynchronousRunner(how == "parallel", workers))
    try:
        res = runner.run(state, ctrl, steps, verbose=rng.random() < 0.3)
    except Boom:
        return [state, ctrl, runner], []
    return [state, ctrl, runner, res, res.output, res.last_step], []


def op_parallel(rng, keep):
    return op_run(rng, keep, "parallel", False)


def op_failed_parallel(rng, keep):
    return op_run(rng, keep, "parallel", True)


def some_result(rng, struct, steps):
    start = SimulationState.from_struct(struct)
    for i in struct.site_ids:
        start.set_site_state(i, {DISCRETE_OCCUPANCY: rng.choice(PHASES)})
    res = SimulationResult(start)
    for _ in range(steps):
        res.add_step({rng.choice(struct.site_ids): {DISCRETE_OCCUPANCY: rng.choice(PHASES)}})
    return res


def op_result(rng, keep):
    struct = keep("squares", SimpleSquare2DStructureBuilder).build(3)
    res = some_result(rng, struct, 8)
    got = [res.get_step(k) for k in (0, 3, 8)] + list(res.steps())
    res.load_steps(rng.choice([1, 3]))
    return [struct, res, *got, res.last_step, res.get_step(4)], []


def op_files(rng, keep):
    struct = SimpleSquare2DStructureBuilder().build(2)
    res = some_result(rng, struct, 3)
    res.to_file("result.json")
    sim = Simulation(res.last_step, struct)
    sim.to_file("sim.json")
    back = SimulationResult.from_file("result.json")
    again = Simulation.from_file("sim.json")
    unnamed = res.to_file()
    return [struct, res, sim, sim.state, back, again, again.structure], [
        "result.json", "sim.json", unnamed]


def op_bad_file(rng, keep):
    with open("cut.json", "w") as f:
        f.write('{"state": {"SITES": {"1": {')
    for cls in (SimulationResult, Simulation):
        try:
            cls.from_file("cut.json")
        except Exception:  # noqa: BLE001
            pass
    return [], ["cut.json"]


def op_picture(rng, keep):
    struct = SimpleSquare2DStructureBuilder().build(3)
    res = some_result(rng, struct, 0)
    cells = DiscreteCellArtist.from_discrete_state(res.first_step)
    artist = SquareGridArtist2D(struct, cells)
    artist.save_img(res.first_step, "picture.png", cell_size=8)
    return [struct, res, cells, artist, artist.get_img(res.first_step)], ["picture.png"]


def op_picture_3d(rng, keep):
    struct = SimpleSquare3DStructureBuilder().build(2)
    res = some_result(rng, struct, 0)
    cells = keep("cells", lambda: DiscreteCellArtist.from_phase_list(PHASES))
    artist = SquareGridArtist3D(struct, cells)
    img = artist.get_img(res.first_step)
    return [struct, res, cells, artist, img], []


def op_gif(rng, keep):
    struct = SimpleSquare2DStructureBuilder().build(2)
    res = some_result(rng, struct, rng.choice([0, 3]))
    cells = DiscreteCellArtist.from_discrete_result(res)
    artist = ResultArtist(SquareGridArtist2D(struct, cells), res)
    artist.to_gif("film.gif", cell_size=6)
    return [struct, res, cells, artist], ["film.gif"]


class Failing(DiscreteCellArtist):
    def get_color_from_cell_state(self, cell_state):
        raise Boom("no color")


def op_failed_gif(rng, keep):
    struct = SimpleSquare2DStructureBuilder().build(2)
    res = some_result(rng, struct, 2)
    cells = Failing({})
    artist = ResultArtist(SquareGridArtist2D(struct, cells), res)
    try:
        artist.to_gif("film.gif", cell_size=6)
    except Boom:
        pass
    return [struct, res, cells, artist], []


def op_search(rng, keep):
    struct = SimpleSquare2DStructureBuilder().build(3)
    state = some_result(rng, struct, 0).first_step
    analyzer, steps = StateAnalyzer(struct), keep("steps", DiscreteStepAnalyzer)
    analyzer.get_sites(state, state_criteria=[lambda s: True])
    analyzer.get_site_count_where_equal(state, {DISCRETE_OCCUPANCY: "A"})
    steps.cell_fraction(state, "A")
    for i in struct.site_ids[:2]:
        state.set_site_state(i, {DISCRETE_OCCUPANCY: "B"})
    steps.cell_count(state, "B")
    steps.cell_ratio(state, "A", "B")
    steps.phases_present(state)
    steps.phase_count(state)
    keep("any", StateAnalyzer).get_sites(state, state_criteria=[lambda s: True])
    return [struct, state, analyzer, steps], []


def op_plot(rng, keep):
    struct = SimpleSquare2DStructureBuilder().build(2)
    res = some_result(rng, struct, rng.choice([3, 120]))
    analyzer = DiscreteResultAnalyzer(res)
    fig = analyzer.plot_phase_fractions()
    analyzer.final_phase_fractions()
    analyzer.all_phases()
    own = plt.figure()  # (the counts are drawn on the figure that is open)
    analyzer.plot_phase_counts()
    plt.close(own)
    analyzer.phase_fraction_at(1, "A")
    return [struct, res, analyzer, fig], []


def op_lattice(rng, keep):
    lat = Lattice([[3, 0.5], [0.2, 2]], periodic=rng.choice([True, False, (True, False)]))
    lat.cartesian_periodic_distance((0.1, 0.2), (2.9, 7))
    lat.get_fractional_coords(lat.get_periodized_cartesian_coords((9, -4)))
    big = lat.get_scaled_lattice([2, 3])
    struct = PeriodicStructure.build_from(lat, [2, 2], {"A": [(0, 0)], "B": [(1, 0.5)]})
    struct.site_at((0, 0))
    try:
        struct.add_site("A", (0, 0))
    except AssertionError:
        pass
    return [lat, big, struct], []


BUILDERS = [
    lambda: MotifNeighborhoodBuilder([(1, 0), (0, 1)]),
    lambda: DistanceNeighborhoodBuilder(1.5),
    lambda: AnnularNeighborhoodBuilder(0.5, 1.5),
    lambda: MooreNbHoodBuilder(1),
    lambda: VonNeumannNbHood2DBuilder(2),
    PseudoHexagonalNeighborhoodBuilder2D,
    PseudoPentagonalNeighborhoodBuilder,
    lambda: StochasticNeighborhoodBuilder(
        [MotifNeighborhoodBuilder([(1, 0)]), MotifNeighborhoodBuilder([(0, 1)])]
    ),
    lambda: SiteClassNeighborhoodBuilder(
        {SimpleSquare2DStructureBuilder.SITE_CLASS: MotifNeighborhoodBuilder([(1, 0)])}
    ),
]


def op_neighborhoods(rng, keep):
    out = []
    struct = SimpleSquare2DStructureBuilder().build(4)
    for k, make in enumerate(BUILDERS):
        b = keep(f"builder {k}", make)
        nb = b.get(struct)
        if not isinstance(nb, StochasticNeighborhood):
            for i in struct.site_ids:
                nb.neighbors_of(i, include_weights=True)
        out += [b, nb]
    comb = keep("comb", HoneycombTilingBuilder).build(3)
    nb = keep("comb neighbors", HoneycombNeighborhoodBuilder).get(comb)
    return [struct, comb, nb, *out], []


def op_setup(rng, keep):
    setup = keep("setup", lambda: DiscreteGridSetup(PhaseSet(PHASES), dim=2))
    sim = rng.choice([
        lambda: setup.setup_noise(4, PHASES),
        lambda: setup.setup_coords(4, "A", {"B": [(0, 1), (5, 2)]}),
        lambda: setup.setup_particle(5, 2, "A", "B"),
        lambda: setup.setup_random_sites(12, 2, "A", {"B": 1, "C": 1}, buffer=1),
        lambda: setup.setup_interface(4, "A", "B"),
        lambda: setup.setup_random_sites(6, 4, "A", {"B": 1, "C": 0}, buffer=None),
        lambda: setup.setup_random_particles(7, 1, 2, "A", ["B", "C"]),
    ])()
    return [setup, sim, sim.state, sim.structure], []


def op_failed_setup(rng, keep):
    setup = DiscreteGridSetup(PhaseSet(PHASES), dim=2)
    try:
        setup.setup_random_sites(3, 9, "A", {"B": 1}, buffer=2)
    except RuntimeError:
        pass
    return [setup], []


def op_growth(rng, keep):
    phases = keep("phases", lambda: PhaseSet(PHASES))
    setup = keep("setup", lambda: GrowthSetup(phases, dim=2))
    nbs = keep("neighbors", PseudoHexagonalNeighborhoodBuilder2D)
    sim = setup.grow(5, 3, "A", {"B": 2, "C": 1}, nb_builder=nbs, buffer=1)
    ctrl = GrowthController(phases, sim.structure, nb_builder=nbs, background_phase="A")
    res = keep("runner", SynchronousRunner).run(sim.state, ctrl, 2)
    return [setup, nbs, sim, ctrl, res], []


def op_life(rng, keep):
    phases = PhaseSet(["dead", "alive"])
    sim = DiscreteGridSetup(phases, dim=2).setup_noise(4, ["dead", "alive"])
    ctrl = GameOfLifeController(sim.structure)
    res = SynchronousRunner(rng.random() < 0.3, 2).run(sim.state, ctrl, 3)
    return [phases, sim, ctrl, res], []


def op_convert(rng, keep):
    lat = Lattice([[3, 0, 0], [0, 4, 0], [0, 0, 5]])
    struct = PeriodicStructure.build_from(lat, [1, 2, 1], {"Na": [(0, 0, 0)], "Cl": [(1, 1, 1)]})
    conv = keep("converter", PymatgenStructureConverter)
    pmg = conv.to_pymatgen_structure(struct)
    back, state = conv.to_pylattica_structure_and_state(pmg)
    builder = conv.to_pylattica_structure_builder(pmg)
    return [lat, struct, state, conv, pmg, back, builder, builder.build(2)], []


# kind -> (operation, does it involve chance, times it is repeated)
OPS = {
    "run": (op_run, False, 5),
    "parallel run": (op_parallel, False, 4),
    "failed parallel run": (op_failed_parallel, False, 4),
    "result": (op_result, False, 5),
    "files": (op_files, False, 5),
    "bad file": (op_bad_file, False, 5),
    "picture": (op_picture, False, 5),
    "3d picture": (op_picture_3d, False, 3),
    "gif": (op_gif, False, 4),
    "failed gif": (op_failed_gif, False, 4),
    "search": (op_search, False, 5),
    "plot": (op_plot, False, 4),
    "lattice": (op_lattice, False, 6),
    "neighborhoods": (op_neighborhoods, False, 4),
    "setup": (op_setup, True, 5),
    "failed setup": (op_failed_setup, True, 3),
    "growth": (op_growth, True, 4),
    "life": (op_life, True, 4),
    "conversion": (op_convert, False, 4),
}
REQUIRED = ["op_" + k.replace(" ", "_") for k in OPS] + ["objects_released", "tools_kept", "first_uses", "op_import"]


# ------------------------------------------------------------------ what is watched
def settle(probe, ok, seconds=20):
    """The probe's answer, as soon as it is one that is all right (or time is up)."""
    deadline = time.time() + seconds
    while True:
        got = probe()
        if ok(got) or time.time() > deadline:
            return got
        gc.collect()
        time.sleep(0.05)


def watch(obj, refs):
    try:
        refs.append((type(obj).__name__, weakref.ref(obj)))
    except TypeError:
        pass


class Keep:
    """Hands out the tools of an operation: new ones, or the same for all repetitions."""

    def __init__(self, shared):
        self.shared, self.tools = shared, {}

    def __call__(self, name, make):
        if not self.shared:
            return make()
        if name not in self.tools:
            self.tools[name] = make()
        return self.tools[name]

    def lasting(self, obj):
        return any(obj is t for t in self.tools.values())


def once(rng_seed, op, refs, keep):
    objs, files = op(random.Random(rng_seed), keep)
    for o in objs:
        if not keep.lasting(o):
            watch(o, refs)
    return objs, files


THIRD_PARTY = ("warning filters", "matplotlib", "environment", "module path")


def warm_up(mon, set0):
    """What is made once per process (fonts, locks, imports) is made before measuring."""
    for kind, (op, chance, _) in OPS.items():
        loaded = set(sys.modules)
        for k in range(2):
            gen0 = generators()
            once(k, op, [], Keep(False))
            if not chance:
                mon.require(
                    generators() == gen0,
                    f"{kind}: the random generators were used or reset at the first use",
                )
        # (importing another package, as plotly, changes what that package changes)
        if any(not m.startswith("pylattica") for m in set(sys.modules) - loaded):
            for name in THIRD_PARTY:
                set0[name] = settings()[name]
        for name, now in settings().items():
            mon.require(
                now == set0[name], f"{kind}: the {name} changed at the first use",
                before=repr(set0[name])[:300], after=repr(now)[:300],
            )
        mon.count("first_uses")


STATE = {"warm": False}


def case(rng, mon):
    if rng.random() < 0.04:
        import_case(mon)
        return
    top = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="vmon-c26-", dir=top)
    tmp = tempfile.mkdtemp(prefix="vmon-c26-tmp-", dir=top)
    old_tmp = tempfile.tempdir
    tempfile.tempdir = tmp
    os.chdir(scratch)
    try:
        if not STATE["warm"]:
            set0 = settings()
            warm_up(mon, set0)
            for f in os.listdir("."):
                os.remove(f)
            STATE["warm"] = True
        measure(rng, mon, tmp)
    finally:
        os.chdir(top)
        tempfile.tempdir = old_tmp
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


IMPORTER = """
import importlib, json, os, pkgutil, random, sys, threading
src, verif, others = json.loads(sys.argv[1])
import numpy as np
sys.path[:0] = [src, verif]
from vmon.process import children, figures, generators, open_files, settings
def look():
    return {**settings(), "random generators": generators(), "figures": figures(),
            "threads": threading.enumerate(), "processes": children(),
            "open files": open_files(), "files": sorted(os.listdir("."))}
loaded = []
for n in others or []:
    try:
        importlib.import_module(n)
        loaded.append(n)
    except Exception:
        pass
random.seed(5)
np.random.seed(5)
known, before = set(sys.modules), look()
import pylattica
names = ["pylattica"] + [
    m.name for m in pkgutil.walk_packages(pylattica.__path__, "pylattica.")]
for n in names:
    importlib.import_module(n)
after = look()
print("RESULT" + json.dumps({
    "new": [m for m in sys.modules if m not in known and m.split(".")[0] != "pylattica"],
    "modules": len(names),
    "differs": [[k, repr(before[k])[:300], repr(after[k])[:300]] for k in before
                if before[k] != after[k]]}))
"""


def importer(others):
    src = os.path.join(core.REPO, "src")
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run(
        [sys.executable, "-B", "-c", IMPORTER, json.dumps([src, verif, others])],
        capture_output=True, text=True, timeout=200, check=False,
    )
    for line in p.stdout.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:])
    raise core.Inconclusive(f"importing ended with {p.returncode}: {p.stderr[-300:]}")


def import_case(mon):
    """Importing all of the package, where what it imports itself was imported before."""
    mon.describe({"operation": "import"})
    others = importer(None)["new"]
    got = importer(others)
    for name, before, after in got["differs"]:
        # (what couldn't be imported alone may have changed its own settings)
        mon.require(
            bool(got["new"]) and name in THIRD_PARTY,
            f"importing the package changes the {name}", before=before, after=after,
        )
    mon.count("op_import")
    mon.count("modules_imported", got["modules"])


def measure(rng, mon, tmp):
    kind = rng.choice(sorted(OPS))
    op, chance, times = OPS[kind]
    seed = rng.getrandbits(40)
    mon.describe({"operation": kind, "seed": seed, "times": times})
    mon.count("op_" + kind.replace(" ", "_"))
    random.seed(rng.getrandbits(40))
    np.random.seed(rng.getrandbits(32))
    gc.collect()
    kids0, threads0 = children(), set(threading.enumerate())
    set0, figs0 = settings(), figures()
    files_seen, refs, keep = [], [], Keep(rng.random() < 0.6)
    mon.count("tools_kept" if keep.shared else "tools_new")
    for k in range(times):
        gen0 = generators()
        objs, wanted = once(seed + k, op, refs, keep)
        if not chance:
            mon.require(
                generators() == gen0, f"{kind}: the random generators were used or reset"
            )
        kids = settle(lambda: children() - kids0, lambda x: not x)
        mon.require(not kids, f"{kind}: processes are left behind", pids=sorted(kids))
        extra = settle(lambda: set(threading.enumerate()) - threads0, lambda x: not x)
        mon.require(not extra, f"{kind}: threads are left behind", threads=repr(extra))
        del objs
        mon.equal(
            sorted(os.listdir(".")), sorted(wanted), f"{kind}: other files than those asked for"
        )
        mon.equal(os.listdir(tmp), [], f"{kind}: temporary files are left behind")
        for f in wanted:
            os.remove(f)
        for name, now in settings().items():
            mon.require(
                now == set0[name], f"{kind}: the {name} changed",
                before=repr(set0[name])[:300], after=repr(now)[:300],
            )
        mon.equal(figures(), figs0, f"{kind}: figures are left open")
        gc.collect()
        files_seen.append(open_files())
        mon.count("operations")
    # what grows with every repetition is left behind
    counts = [len(f) for f in files_seen]
    if counts[-1] > counts[0]:
        gc.collect()
        counts.append(len(open_files()))
    grows = counts[-1] >= counts[0] + times - 1
    mon.require(not grows, f"{kind}: open files are left behind", counts=counts,
                new=[f for f in files_seen[-1] if f not in files_seen[0]])
    alive = settle(
        lambda: [n for n, r in refs if r() is not None], lambda x: not x, seconds=2
    )
    # (one object of a kind may be kept for later use)
    for name in set(alive):
        mon.require(
            alive.count(name) <= 1, f"{kind}: objects are kept alive",
            type=name, alive=alive.count(name), of=sum(n == name for n, _ in refs),
        )
    mon.count("objects_released", len(refs) - len(alive))
