"""C27: another process builds, computes and loads the same."""
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    sys.path.insert(0, HERE)

from vmon import core  # noqa: E402

if __name__ == "__main__":
    core.load_repo()

import numpy as np
from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    DistanceNeighborhoodBuilder,
    Lattice,
    PeriodicStructure,
    Simulation,
    SimulationResult,
    SimulationState,
    StateAnalyzer,
    StructureBuilder,
    SynchronousRunner,
)
from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder,
    MotifNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
)
from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer, PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.models.game_of_life import GameOfLifeController, Life, Maze, Seeds
from pylattica.models.growth import GrowthController
from pylattica.structures.honeycomb import HoneycombTilingBuilder
from pylattica.structures.square_grid import (
    DiscreteGridSetup,
    MooreNbHoodBuilder,
    SimpleSquare2DStructureBuilder,
    VonNeumannNbHood2DBuilder,
)
from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D

from vmon import geom
from vmon.model import Rule, digest, random_ids, random_json_value, snapshot

PROP = "C27"
RULE = (
    "structures, neighborhoods, setups, serial and asynchronous runs, searches, analyses and "
    "pictures without any randomness, made from one description in this process and in a fresh "
    "one with other string hashes, another working directory, other numbers drawn and library calls made before, "
    "and in another order; and states, structures, results and simulations that one of the two "
    "wrote to a file (or pickled) and the other one loads and continues. Both must come "
    "to the same. Non-trivial: a batch of jobs that both carried out"
)
CASES = {"quick": 28, "thorough": 240}
CASE_CPU_S = 120
REQUIRED = ["structures", "neighborhoods", "setups", "runs", "models", "searches", "pictures",
            "files_read_there", "files_read_here", "processes", "continued", "files_replaced"]
NAMES = ["A", "B", "Na+", "void", "x1", "Fe2O3", "liquid", "c"]


def jsonable(x):
    return json.loads(json.dumps(core.jsonable_full(x)))


def sites_of(struct):
    return [
        [s["_site_id"], s["_site_class"], [round(float(x), 3) + 0.0 for x in s["_location"]]]
        for s in struct.sites()
    ]


def some_structure(rng):
    dim = rng.choice([2, 2, 3])
    m = np.diag([float(rng.choice([1, 1.5, 2])) for _ in range(dim)])
    if rng.random() < 0.5:
        m[0][1] = 0.5
    periodic = rng.choice([True, tuple(rng.random() < 0.6 for _ in range(dim))])
    classes = rng.sample(NAMES, rng.randint(1, 5))
    spots = [[i / 4, j / 4, k / 4][:dim] for i in range(4) for j in range(4) for k in range(4)]
    spots = [s for n, s in enumerate(spots) if s not in spots[:n]]
    rng.shuffle(spots)
    motif = {c: [tuple(spots.pop()) for _ in range(rng.randint(1, 2))] for c in classes}
    b = StructureBuilder(Lattice(m.tolist(), periodic), motif)
    b.frac_coords = True
    size = tuple(rng.randint(1, 3) for _ in range(dim))
    return b.build(size)


def structure_job(rng):
    r = rng.random()
    if r < 0.2:
        struct = SimpleSquare2DStructureBuilder().build(rng.randint(2, 6))
    elif r < 0.4:
        struct = HoneycombTilingBuilder().build(rng.randint(1, 4))
    else:
        struct = some_structure(rng)
    places = [
        struct.id_at(tuple(float(x) for x in np.add(
            s["_location"], geom.lattice_point(struct.lattice.vecs, [1] * struct.dim)
        ))) for s in struct.sites()[:10]
    ]
    return [
        sites_of(struct), sorted(struct.all_site_classes()), places, struct.site_ids,
        [[s["_site_id"] for s in struct.sites(c)] for c in sorted(struct.all_site_classes())],
        np.round(struct.lattice.get_fractional_coords([0.3] * struct.dim), 9).tolist(),
    ]


def neighborhood_job(rng):
    struct = some_structure(rng)
    cut = rng.choice([0.8, 1.2, 1.9])
    offsets = [
        tuple(float(x) for x in geom.lattice_point(
            struct.lattice.vecs, [rng.choice([-0.25, 0, 0.25, 0.5]) for _ in range(struct.dim)]
        )) for _ in range(4)
    ]
    motif = MotifNeighborhoodBuilder(offsets)
    if rng.random() < 0.4:
        nb = SiteClassNeighborhoodBuilder({
            c: rng.choice([DistanceNeighborhoodBuilder(cut), motif])
            for c in sorted(struct.all_site_classes())
        })
    else:
        nb = rng.choice([
            DistanceNeighborhoodBuilder(cut), AnnularNeighborhoodBuilder(cut / 2, cut), motif,
        ])
    graph = nb.get(struct)
    return [
        sorted([n, round(float(w), 2)] for n, w in graph.neighbors_of(i, include_weights=True))
        for i in struct.site_ids
    ]


def setup_job(rng):
    phases = rng.sample(NAMES, 4)
    dim = rng.choice([2, 2, 3])
    setup = DiscreteGridSetup(PhaseSet(phases), dim=dim)
    size = rng.randint(3, 5)
    kind = rng.choice(["interface", "particle", "coords"])
    if kind == "interface":
        sim = setup.setup_interface(size, phases[0], phases[1])
    elif kind == "particle":
        sim = setup.setup_particle(size, rng.choice([1, 1.5, 2]), phases[0], phases[1])
    else:
        cells = [tuple(rng.randrange(size) for _ in range(dim)) for _ in range(9)]
        # (the later ones prevail)
        sim = setup.setup_coords(size, phases[0], {phases[1]: cells[:5], phases[2]: cells[3:]})
    return [sites_of(sim.structure), digest(snapshot(sim.state))]


class Ruled(BasicController):
    def __init__(self, rule, order):
        self.rule, self.order, self.asked = rule, order, 0

    def get_random_site(self, _):
        self.asked += 1
        return self.order[self.asked % len(self.order)]

    def get_state_update(self, site_id, state):
        return self.rule.update(site_id, state.get_site_state, state.get_general_state())


def ruled_run(rng):
    """A run of a generated rule, and what goes on from where it ends."""
    rule = Rule(rng, random_ids(rng, rng.choice([2, 5, 9])), modes=["own", "perm", "birth"])
    order = [rng.choice(rule.ids) for _ in range(5)]
    runner = rng.choice([SynchronousRunner, AsynchronousRunner])
    start, steps = SimulationState(rule.initial(rng)), rng.choice([1, 3, 7])

    def go_on(state):
        return runner().run(state, Ruled(rule, order), 3)

    return runner().run(start, Ruled(rule, order), steps), go_on


def history(result):
    return [digest(snapshot(s)) for s in result.steps()] + [digest(snapshot(result.last_step))]


def run_job(rng):
    result, go_on = ruled_run(rng)
    return history(result) + history(go_on(result.last_step))


def model_job(rng):
    size = rng.randint(4, 6)
    if rng.random() < 0.5:
        setup = DiscreteGridSetup(PhaseSet(["alive", "dead"]))
        cells = [(rng.randrange(size), rng.randrange(size)) for _ in range(size * size // 2)]
        sim = setup.setup_coords(size, "dead", {"alive": cells})
        ctrl = GameOfLifeController(sim.structure, variant=rng.choice([Life, Maze, Seeds]))
        return history(SynchronousRunner().run(sim.state, ctrl, 5))
    a, b = rng.sample(NAMES, 2)
    setup = DiscreteGridSetup(PhaseSet([a, b]))
    sim = setup.setup_coords(size, b, {a: [(rng.randrange(size), rng.randrange(size))]})
    ctrl = GrowthController(
        PhaseSet([a, b]), sim.structure, background_phase=b,
        nb_builder=rng.choice([MooreNbHoodBuilder(1), VonNeumannNbHood2DBuilder(1)]),
    )
    return history(SynchronousRunner().run(sim.state, ctrl, 3))


def painted(rng, n, phases):
    struct = SimpleSquare2DStructureBuilder().build(n)
    state = SimulationState()
    for i in struct.site_ids:
        state.set_site_state(i, {DISCRETE_OCCUPANCY: rng.choice(phases), "n": rng.randrange(3)})
    return struct, state


def search_job(rng):
    phases = rng.sample(NAMES, 3)
    struct, state = painted(rng, 4, phases)
    an, disc = StateAnalyzer(struct), DiscreteStepAnalyzer(struct)
    p = phases[0]
    result = SimulationResult(state)
    for _ in range(4):
        result.add_step({rng.randrange(16): {DISCRETE_OCCUPANCY: rng.choice(phases)}})
    whole = DiscreteResultAnalyzer(result)
    return [
        sorted(an.get_sites(state, state_criteria=[lambda s: s["n"] > 0])),
        sorted(an.get_sites_where_equal(state, {DISCRETE_OCCUPANCY: p, "n": 1})),
        disc.cell_count(state, p), round(disc.cell_fraction(state, p), 9),
        sorted(disc.phases_present(state)), disc.phase_count(state),
        [disc.cell_count(s, p) for s in result.steps()],
        sorted(whole.all_phases()),
        sorted([k, round(v, 9)] for k, v in whole.final_phase_fractions().items()),
        round(whole.phase_fraction_at(2, p), 9),
    ]


def picture_job(rng):
    phases = rng.sample(NAMES, rng.randint(2, 5))
    struct, state = painted(rng, rng.randint(2, 4), phases)
    colors = {p: (30 * i + 20, 200 - 30 * i, 90) for i, p in enumerate(phases)}
    artist = DiscreteCellArtist(colors)
    img = SquareGridArtist2D(struct, artist).get_img(state, cell_size=rng.choice([3, 20]))
    legend = artist.get_legend(state)
    return [list(img.size), digest({"SITES": {}, "GENERAL": {"px": img.tobytes()}}),
            sorted([k, list(v)] for k, v in legend.items())]


KINDS = {
    "structures": structure_job, "neighborhoods": neighborhood_job, "setups": setup_job,
    "runs": run_job, "models": model_job, "searches": search_job, "pictures": picture_job,
}


def carry_out(jobs):
    return [jsonable(KINDS[kind](random.Random(seed))) for kind, seed in jobs]


# ---------------------------------------------------------------- files
def thing(kind, rng):
    """What is written, and how it is summed up (and continued) wherever it is."""
    if kind == "simulation":
        struct = some_structure(rng)
        state = SimulationState.from_struct(struct)
        for i in struct.site_ids:
            state.set_site_state(i, {"v": random_json_value(rng)})
        state.set_general_state({"g": random_json_value(rng)})
        return Simulation(state, struct), lambda s: [
            digest(snapshot(s.state)), sites_of(s.structure),
            [repr(s.state_at(tuple(x["_location"]))) for x in s.structure.sites()],
        ]
    if kind == "structure":
        return some_structure(rng), lambda s: [
            sites_of(s), list(s.lattice.periodic), np.array(s.lattice.vecs).tolist(),
            [s.id_at(tuple(x["_location"])) for x in s.sites()], s.site_ids,
        ]
    result, go_on = ruled_run(rng)
    if kind == "state":
        return result.last_step, lambda s: [
            digest(snapshot(s)), s.size, history(go_on(s)),
        ]
    return result, lambda r: [len(r), history(r), history(go_on(r.last_step))]


def put(what, how, name):
    if how == "pickle":
        with open(name, "wb") as f:
            pickle.dump(what, f)
    elif hasattr(what, "to_file"):
        what.to_file(name)
    else:
        with open(name, "w") as f:
            json.dump(what.as_dict(), f)


def take(kind, how, name):
    if how == "pickle":
        with open(name, "rb") as f:
            return pickle.load(f)
    cls = {"simulation": Simulation, "structure": PeriodicStructure, "state": SimulationState,
           "result": SimulationResult}[kind]
    if hasattr(cls, "from_file"):
        return cls.from_file(name)
    with open(name) as f:
        return cls.from_dict(json.load(f))


def write_files(specs, folder):
    out = []
    for n, (kind, how, seed) in enumerate(specs):
        what, look = thing(kind, random.Random(seed))
        put(what, how, os.path.join(folder, f"{n}.json"))
        out.append(jsonable(look(what)))
    return out


def read_files(specs, folder):
    out = []
    for n, (kind, how, seed) in enumerate(specs):
        # (the description only tells how to look at it and go on)
        _, look = thing(kind, random.Random(seed))
        out.append(jsonable(look(take(kind, how, os.path.join(folder, f"{n}.json")))))
    return out


# ---------------------------------------------------------------- processes
def elsewhere(rng, task):
    home = tempfile.mkdtemp(dir=os.getcwd())
    try:
        p = subprocess.run(
            [sys.executable, "-W", "ignore", os.path.abspath(__file__), json.dumps(task)],
            capture_output=True, text=True, timeout=300, check=False, cwd=home,
            env={**os.environ, "PYTHONHASHSEED": str(rng.randrange(1, 2**32))},
        )
    finally:
        shutil.rmtree(home)
    lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
    if not lines and p.returncode < 0:
        raise core.Inconclusive(f"an interpreter was killed by signal {-p.returncode}")
    if not lines:
        raise core.Violation(f"the jobs failed in a fresh process: {p.stderr[-900:]}")
    return json.loads(lines[0][6:])


def specs(rng):
    return [
        [rng.choice(["simulation", "structure", "state", "result", "result"]),
         rng.choice(["file", "file", "pickle"]), rng.getrandbits(48)]
        for _ in range(8)
    ]


def case(rng, mon):
    jobs = [[k, rng.getrandbits(48)] for k in KINDS for _ in range(5)]
    ours, theirs = specs(rng), specs(rng)
    folder = tempfile.mkdtemp(dir=os.getcwd())
    try:
        os.mkdir(os.path.join(folder, "here"))
        os.mkdir(os.path.join(folder, "there"))
        wrote = write_files(ours, os.path.join(folder, "here"))
        # (some of the files to come replace older ones, which were read here)
        for n in rng.sample(range(len(theirs)), 4):
            kind, how, _ = theirs[n]
            old, look = thing(kind, random.Random(rng.getrandbits(48)))
            name = os.path.join(folder, "there", f"{n}.json")
            put(old, how, name)
            mon.equal(
                jsonable(look(take(kind, how, name))), jsonable(look(old)),
                "a file loads as something else", what=[kind, how],
            )
            mon.count("files_replaced")
        # other things are done there first, and the jobs in another order
        order = rng.sample(range(len(jobs)), len(jobs))
        there = elsewhere(rng, {
            "folder": folder, "ours": ours, "theirs": theirs,
            "draws": rng.randrange(50), "jobs": [jobs[i] for i in order],
        })
        here = carry_out(jobs)
        mon.equal(len(there["jobs"]), len(jobs), "jobs are missing")
        for i, got in zip(order, there["jobs"], strict=True):
            kind, seed = jobs[i]
            mon.equal(
                got, here[i], "another process came to something else", kind=kind, job=seed
            )
            mon.count(kind)
        for spec, mine, got in zip(ours, wrote, there["read"], strict=True):
            mon.equal(got, mine, "another process loads something else", what=spec[:2])
            mon.count("files_read_there")
            mon.count("continued", spec[0] in ("state", "result"))
        back = read_files(theirs, os.path.join(folder, "there"))
        for spec, mine, got in zip(theirs, there["wrote"], back, strict=True):
            mon.equal(got, mine, "what another process wrote loads as something else",
                      what=spec[:2])
            mon.count("files_read_here")
    finally:
        shutil.rmtree(folder)
    mon.count("processes")
    mon.describe({"jobs": jobs, "files": ours + theirs})


def main(task):
    for _ in range(task["draws"]):
        random.random()
        np.random.rand()
    read = read_files(task["ours"], os.path.join(task["folder"], "here"))
    jobs = carry_out(task["jobs"])
    wrote = write_files(task["theirs"], os.path.join(task["folder"], "there"))
    print("RESULT" + json.dumps({"jobs": jobs, "read": read, "wrote": wrote}), flush=True)


if __name__ == "__main__":
    main(json.loads(sys.argv[1]))
