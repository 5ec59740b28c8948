"""C17: Game of Life runs are the named cellular automaton on a torus."""

from pylattica.core import Lattice, PeriodicStructure, SimulationState, SynchronousRunner
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.models import game_of_life as gol
from pylattica.models.game_of_life import GameOfLifeController
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

from vmon.model import snapshot

PROP = "C17"
RULE = (
    "random B/S variants (0 to 8, empty halves) and the five named ones on square and "
    "rectangular tori of 3 to 9 cells a side, whose site IDs are in builder order or "
    "shuffled, from random soups of any density and from gliders; serial and parallel "
    "runs, also of one controller twice; every recorded generation is compared with a "
    "plain-array automaton. Non-trivial: 2 or more different generations"
)
CASES = {"quick": 500, "thorough": 2500}
PARALLEL = True
REQUIRED = ["generations", "named_variants", "parallel_runs", "rectangles", "births",
            "deaths", "survivals", "wrapped_gliders"]

NAMED = {
    "Life": ({3}, {2, 3}),
    "Anneal": ({4, 6, 7, 8}, {3, 5, 6, 7, 8}),
    "Diamoeba": ({3, 5, 6, 7, 8}, {5, 6, 7, 8}),
    "Seeds": ({2}, set()),
    "Maze": ({3}, {1, 2, 3, 4, 5}),
}


def step(cells, w, h, born, survive, mon):
    new = {}
    for x in range(w):
        for y in range(h):
            k = sum(
                cells[(x + dx) % w, (y + dy) % h]
                for dx in (-1, 0, 1)
                for dy in (-1, 0, 1)
                if (dx, dy) != (0, 0)
            )
            was = cells[x, y]
            now = k in survive if was else k in born
            new[x, y] = now
            if was and now:
                mon.count("survivals")
            elif was:
                mon.count("deaths")
            elif now:
                mon.count("births")
    return new


TWINS = [(9, 20), (20, 9), (10, 18), (18, 10), (12, 15), (15, 12)]


def make_struct(rng, mon, shape=None):
    hi = 9 if rng.random() < 0.97 else 18
    w = rng.randint(3, hi)
    h = w if rng.random() < 0.4 else rng.randint(3, hi)
    if shape:
        w, h = shape
    if w != h:
        mon.count("rectangles")
    if rng.random() < 0.5:
        b = SimpleSquare2DStructureBuilder()
        # the first lattice vector of the square grid is y
        return w, h, b.build(w) if w == h else b.build((h, w))
    struct = PeriodicStructure(Lattice([[w, 0], [0, h]]))
    spots = [(x, y) for x in range(w) for y in range(h)]
    rng.shuffle(spots)
    for p in spots:
        struct.add_site(rng.choice("AB"), p)
    return w, h, struct


def case(rng, mon):
    r = rng.random()
    if r < 0.012:
        one_case(rng, mon, rng.choice([(32, 33), (41, 26), (20, 52)]))
        mon.count("thousand_cells")
    elif r < 0.03:
        # several grids of as many cells, in other shapes and orders
        for shape in rng.sample(TWINS, 2):
            one_case(rng, mon, shape)
        mon.count("as_many_cells")
    else:
        one_case(rng, mon)


def one_case(rng, mon, shape=None):
    w, h, struct = make_struct(rng, mon, shape)
    at = {
        (int(round(s["_location"][0])), int(round(s["_location"][1]))): s["_site_id"]
        for s in struct.sites()
    }
    mon.equal(
        set(at), {(x, y) for x in range(w) for y in range(h)}, "the grid isn't w by h cells"
    )
    name = None
    if rng.random() < 0.5:
        name = rng.choice(sorted(NAMED))
        born, survive = NAMED[name]
        variant = getattr(gol, name)
        mon.count("named_variants")
    else:
        born = set(rng.sample(range(9), rng.randint(0, 5)))
        survive = set(rng.sample(range(9), rng.randint(0, 5)))
        digits = [sorted(born), sorted(survive)]
        if rng.random() < 0.3:
            for d in digits:
                rng.shuffle(d)
        variant = "B{}/S{}".format(*("".join(map(str, d)) for d in digits))
    steps = rng.randint(1, 8) if rng.random() < 0.97 else 40
    steps = min(steps, 3) if shape else steps
    glider = min(w, h) >= 5 and rng.random() < 0.15
    if glider:
        name, (born, survive) = "Life", NAMED["Life"]
        shape = [(0, 1), (1, 2), (2, 0), (2, 1), (2, 2)]
        ox, oy = rng.randrange(w), rng.randrange(h)
        alive = {((ox + x) % w, (oy + y) % h) for x, y in shape}
        cells = {p: p in alive for p in at}
        steps = 4 * rng.randint(1, 4)
        mon.count("wrapped_gliders")
    else:
        density = rng.choice([0.1, 0.3, 0.5, 0.5, 0.8])
        cells = {p: rng.random() < density for p in at}

    if glider and rng.random() < 0.5:
        controller = GameOfLifeController(struct)  # Life is the default
    elif rng.random() < 0.5 and not glider:
        controller = GameOfLifeController(struct, variant=variant)
    else:
        variant = gol.Life if glider else variant
        controller = GameOfLifeController(struct, variant)

    for run in range(rng.choice([1, 1, 2])):
        hist = [cells]
        for _ in range(steps):
            hist.append(step(hist[-1], w, h, born, survive, mon))
        state = SimulationState()
        order = list(at)
        rng.shuffle(order)
        for p in order:
            state.set_site_state(
                at[p], {DISCRETE_OCCUPANCY: "alive" if cells[p] else "dead"}
            )
        parallel = rng.random() < 0.12
        if parallel:
            mon.count("parallel_runs")
            runner = SynchronousRunner(parallel=True, workers=rng.choice([1, 2, 3, 5]))
        else:
            runner = SynchronousRunner()
        result = runner.run(state, controller, steps)
        mon.equal(len(result), steps + 1, "the run has another number of generations")
        for k, st in enumerate(result.steps()):
            snap = snapshot(st)["SITES"]
            mon.equal(len(snap), w * h, "a generation has other cells", generation=k)
            for p, sid in at.items():
                want = "alive" if hist[k][p] else "dead"
                mon.require(
                    snap[sid][DISCRETE_OCCUPANCY] == want,
                    "a cell isn't what the automaton makes it",
                    generation=k, cell=p, got=snap[sid][DISCRETE_OCCUPANCY], want=want,
                    variant=variant, torus=[w, h], parallel=parallel,
                )
            mon.count("generations")
        if glider:
            d = steps // 4
            moved = {((x + d) % w, (y + d) % h) for x, y in alive}
            mon.require(
                {p for p, v in hist[-1].items() if v} == moved, "reference glider went astray"
            )
        cells = hist[-1]
        if glider:
            break
    mon.describe(
        {
            "torus": [w, h], "variant": variant, "name": name, "steps": steps,
            "alive": sorted(p for p, v in hist[0].items() if v),
        },
        nontrivial=len({tuple(sorted(g.items())) for g in hist}) > 1,
    )
