"""C31: what users add by subclassing decides wherever the library's own would."""
import os
import random

from PIL import Image, ImageSequence
from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    Lattice,
    PeriodicStructure,
    SimulationResult,
    SimulationState,
    StructureBuilder,
    SynchronousRunner,
)
from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder,
    DistanceNeighborhoodBuilder,
    MotifNeighborhoodBuilder,
    NeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
    StochasticNeighborhoodBuilder,
)
from pylattica.core.neighborhoods import AbstractNeighborhood
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.models.game_of_life import GameOfLifeController
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder
from pylattica.visualization import CellArtist, DiscreteCellArtist, ResultArtist, SquareGridArtist2D
from pylattica.visualization.structure_artist import StructureArtist

from vmon.model import GENERAL, SITES, apply_updates, h, snapshot

PROP = "C31"
RULE = (
    "generated subclasses of everything that is made to be extended (neighborhood builders, "
    "neighborhoods, structure builders, controllers, results, cell and structure artists), whose "
    "answers are random tables, used on their own and inside of the library's own classes; what "
    "comes out must be what the tables say. Non-trivial: always"
)
CASES = {"quick": 1500, "thorough": 16000}
REQUIRED = ["builders", "neighborhoods", "structure_builders", "growth_subclasses", "life_subclasses",
            "own_results", "cell_artists", "structure_artists", "animations", "within_stochastic",
            "within_classes", "within_growth", "parallel_runs", "changed_attributes"]

WEIGHTS = [1, 0, -2, 1.5, None, "far", (1, 2), True, 10**20]


# -- neighborhoods


def sites_of(rng):
    """A structure and the classes of its sites."""
    n = rng.choice([1, 2, 3, 6, 12])
    s = PeriodicStructure(Lattice([(float(n), 0), (0, 1.0)], rng.random() < 0.5))
    for k in range(n):
        s.add_site(rng.choice("AAB"), (float(k), 0.0))
    return s


def random_table(rng, ids):
    ids = list(ids)
    table = {}
    for i in ids:
        # (itself, too; and not the other way around)
        to = rng.sample(ids, rng.randint(0, min(len(ids), 4)))
        table[i] = [(j, rng.choice(WEIGHTS)) for j in to]
    return table


class Tabled(NeighborhoodBuilder):
    """Neighbors by a table."""

    def __init__(self, table, form, asked=None):
        self.table, self.form, self.asked = table, form, asked

    def get_neighbors(self, curr_site, struct):
        if self.asked is not None:
            self.asked.append((curr_site["_site_id"], curr_site["_site_class"], struct))
        return self.form(self.table[curr_site["_site_id"]])


class Countable(Tabled):
    """One that is empty, as collections go."""

    def __len__(self):
        return 0


class Answers(AbstractNeighborhood):
    def __init__(self, table):
        self.table = table

    def neighbors_of(self, site_id, include_weights=False):
        return [(j, w) if include_weights else j for j, w in self.table[site_id]]


class Whole(NeighborhoodBuilder):
    """Makes a neighborhood of its own."""

    def __init__(self, table):
        self.table = table

    def get(self, struct, site_class=None):
        return Answers({
            i: v if site_class is None or struct.site_class(i) == site_class else []
            for i, v in self.table.items()
        })


class WholeStructure(Whole):
    """... always of all sites."""

    def get(self, struct):
        return Answers(self.table)


def random_builder(rng, table, asked=None, with_class=True):
    kind = rng.random()
    if kind < 0.55:
        return Tabled(table, rng.choice([list, tuple]), asked)
    if kind < 0.75:
        return Countable(table, list, asked)
    if kind < 0.9 or with_class:
        return Whole(table)
    return WholeStructure(table)


def key(nbs):
    return sorted(nbs, key=repr)


def neighborhood_case(rng, mon):
    s = sites_of(rng)
    ids = list(s.site_ids)
    tables = [random_table(rng, ids) for _ in range(rng.randint(1, 3))]
    asked = []
    how = rng.choice(["alone", "alone", "class", "stochastic", "stochastic class", "by class", "nested"])
    table = tables[0]
    if how in ("alone", "class"):
        cls = rng.choice("AB") if how == "class" else None
        b = random_builder(rng, table, asked)
        nb = b.get(s) if cls is None else b.get(s, site_class=cls)
        for i, c, st in asked:
            mon.require(st is s and s.site_class(i) == c, "a builder is asked about another site", site=i)
            mon.require(cls in (None, c), "a builder is asked about a site of another class", site=i)
        for i in ids:
            want = table[i] if cls is None or s.site_class(i) == cls else []
            check_answer(mon, nb, i, [want])
        mon.count("builders")
    elif how.startswith("stochastic"):
        cls = rng.choice("AB") if how.endswith("class") else None
        builders = [random_builder(rng, t, with_class=cls is not None) for t in tables]
        b = StochasticNeighborhoodBuilder(builders)
        nb = b.get(s) if cls is None else b.get(s, site_class=cls)
        for i in ids:
            listed = cls is None or s.site_class(i) == cls
            for _ in range(3):
                check_answer(mon, nb, i, [t[i] if listed else [] for t in tables])
        # (missing one of three: once in 10**17 cases)
        i = rng.choice(ids)
        seen = {repr(key(list(nb.neighbors_of(i, include_weights=True)))) for _ in range(100)}
        listed = cls is None or s.site_class(i) == cls
        mon.equal(sorted(seen), sorted({repr(key(t[i] if listed else [])) for t in tables}),
                  "not each of the user's builders is chosen", site=i)
        mon.count("within_stochastic")
    else:
        other = tables[-1]
        of_class = {"A": random_builder(rng, table), "B": random_builder(rng, other)}
        if rng.random() < 0.3:
            del of_class["B"]
        nb = SiteClassNeighborhoodBuilder(of_class).get(s)
        if how == "nested":
            nb = StochasticNeighborhoodBuilder([SiteClassNeighborhoodBuilder(of_class)]).get(s)
            mon.count("within_stochastic")
        for i in ids:
            c = s.site_class(i)
            want = table[i] if c == "A" else other[i] if "B" in of_class else []
            check_answer(mon, nb, i, [want])
        mon.count("within_classes")
    mon.count("neighborhoods", len(ids))
    mon.describe({"part": "neighborhoods", "how": how, "tables": tables})


def check_answer(mon, nb, i, wants):
    got = key(list(nb.neighbors_of(i, include_weights=True)))
    mon.require(any(got == key(w) and [type(x[1]) for x in got] == [type(x[1]) for x in key(w)]
                    for w in wants),
                "the neighbors aren't those the user's class gives", site=i, got=got, want=wants)
    got = sorted(nb.neighbors_of(i))
    mon.require(any(got == sorted(j for j, _ in w) for w in wants),
                "the neighbors (without weights) aren't those the user's class gives",
                site=i, got=got, want=wants)


# -- builders that are derived from the library's


class Near(DistanceNeighborhoodBuilder):
    """Like HoneycombNeighborhoodBuilder."""

    def __init__(self, cutoff):
        self.cutoff = cutoff


class Upwards(MotifNeighborhoodBuilder):
    """Some of the neighbors only, with other weights."""

    def get_neighbors(self, curr_site, struct):
        found = super().get_neighbors(curr_site, struct)
        return [(j, ["w", w]) for j, w in found if j > curr_site["_site_id"]]


def derived_case(rng, mon):
    n = rng.randint(2, 9)
    periodic = rng.random() < 0.5
    s = PeriodicStructure(Lattice([(float(n),)], periodic))
    for k in range(n):
        s.add_site("A", (float(k),))

    def far(i, j):
        d = abs(i - j)
        return min(d, n - d) if periodic else d

    kind = rng.choice(["near", "ring", "upwards"])
    if kind == "upwards":
        offsets = rng.sample(range(-4, 5), rng.randint(1, 4))
        nb = Upwards([(o,) for o in offsets]).get(s)
        for i in s.site_ids:
            want = {(i + o) % n if periodic else i + o for o in offsets}
            want = sorted(j for j in want if i < j < n)
            got = nb.neighbors_of(i, include_weights=True)
            mon.equal(sorted(j for j, _ in got), want, "the neighbors aren't those the subclass leaves", site=i)
            mon.require(all(w[0] == "w" for _, w in got), "the weights aren't the subclass's", got=got)
        mon.count("builders")
    else:
        b = Near(0.5) if kind == "near" else AnnularNeighborhoodBuilder(0.5, 1.5)
        for _ in range(3):
            hi = rng.choice([0.5, 1.5, 2.5, 3.5])
            lo = rng.choice([0.25, 1.25, 2.25]) if kind == "ring" else 0
            if kind == "near":
                b.cutoff = hi
            else:
                b.inner_radius, b.outer_radius = lo, hi
            nb = b.get(s)
            for i in s.site_ids:
                want = [j for j in s.site_ids if j != i and lo < far(i, j) < hi]
                mon.equal(sorted(nb.neighbors_of(i)), want,
                          "the neighbors aren't those in the range that was set", site=i, range=[lo, hi])
            mon.count("changed_attributes")
    mon.describe({"part": "derived", "kind": kind, "n": n, "periodic": periodic, "draw": rng.getrandbits(20)})


# -- structure builders


def structure_case(rng, mon):
    dim = rng.choice([1, 2, 3])
    spots = rng.sample([k / 8 for k in range(8)], rng.randint(1, 3))
    sides = [float(rng.randint(1, 3)) for _ in range(dim)]
    lat = Lattice([[sides[k] if k == j else 0.0 for j in range(dim)] for k in range(dim)])
    frac = rng.random() < 0.5
    parts = {}
    for x in spots:
        parts.setdefault(rng.choice("AB"), []).append(x)

    def motif_of(parts):
        return {c: [tuple(x if frac else x * a for a in sides) for x in xs] for c, xs in parts.items()}

    motif = motif_of(parts)
    if rng.random() < 0.5:
        class Own(StructureBuilder):
            lattice = lat
            frac_coords = frac

            def __init__(self):
                pass

        Own.motif = motif
    else:
        class Own(StructureBuilder):
            def __init__(self):
                self.lattice, self.motif, self.frac_coords = lat, motif, frac

    b = Own()
    for _ in range(2):
        size = rng.choice([1, 2, tuple(rng.randint(1, 3) for _ in range(dim))])
        cells = size if isinstance(size, tuple) else (size,) * dim
        s = b.build(size)
        total = 1
        for c in cells:
            total *= c
        mon.equal(len(s.sites()), total * sum(map(len, parts.values())), "the sites aren't the subclass's",
                  size=size)
        for c, xs in parts.items():
            for x in xs:
                at = [(x + rng.randrange(k)) * a for k, a in zip(cells, sides)]
                mon.equal(s.class_at(at), c, "a site of the subclass's motif isn't there", at=at, size=size)
        # as it is when building
        parts = {"C": [rng.choice(spots)]}
        b.motif = motif_of(parts)
        mon.count("changed_attributes")
    mon.count("structure_builders")
    mon.describe({"part": "structures", "dim": dim, "motif": motif, "frac": frac, "sides": sides})


# -- controllers and results


class Diary(SimulationResult):
    """Hears about every step."""

    def __init__(self, starting_state, note):
        super().__init__(starting_state)
        self.note, self.heard = note, []

    def add_step(self, updates):
        self.heard.append(updates)
        super().add_step(updates)


def run_case(rng, mon):
    """A controller of one's own, with things that can't be sent anywhere."""
    ids = rng.sample(range(100), rng.randint(1, 6))
    nbrs = {i: rng.choice(ids) for i in ids}
    seed = rng.getrandbits(20)
    made = []
    # some rules come to rest
    nothing = rng.choice([None, {}])
    lazy = rng.choice([0, 0, 4, 6])

    def rests(site_id, v):
        return v < lazy


    class Own(BasicController):
        def __init__(self):
            self.function = lambda *a: h(seed, *a) % 7
            self.prepared = 0

        def pre_run(self, initial_state):
            self.prepared += 1

        def instantiate_result(self, starting_state):
            made.append(Diary(starting_state, f"note {len(made)}"))
            return made[-1]

        def get_random_site(self, state):
            return list(ids)

        def get_state_update(self, site_id, prev_state):
            if rests(site_id, prev_state.get_site_state(site_id)["v"]):
                return nothing
            return {"v": self.function(prev_state.get_site_state(site_id)["v"],
                                       prev_state.get_site_state(nbrs[site_id])["v"], self.prepared)}

    kind = rng.choice(["sync", "sync", "async", "async", "parallel"])
    model = {SITES: {i: {"_site_id": i, "v": rng.randrange(7)} for i in ids}, GENERAL: {}}
    runner = (AsynchronousRunner() if kind == "async" else
              SynchronousRunner(parallel=kind == "parallel", workers=2 if kind == "parallel" else None))
    controller = Own()
    for run in range(1, 3 if kind != "parallel" else 2):
        steps = rng.randint(0, 5)
        result = runner.run(SimulationState(model), controller, steps)
        mon.require(result is made[-1] and len(made) == run, "a run's result isn't the controller's")
        mon.equal(controller.prepared, run, "the preparation isn't made once a run")
        mon.require(len(result) == steps + 1 == len(result.heard) + 1, "a result doesn't hear about every step",
                    steps=steps, heard=len(result.heard), length=len(result))
        now = model
        for k in range(steps):
            def value(i, now=now, run=run):
                if rests(i, now[SITES][i]["v"]):
                    return now[SITES][i]["v"]
                return h(seed, now[SITES][i]["v"], now[SITES][nbrs[i]]["v"], run) % 7

            todo = ids if kind != "async" else [ids[k % len(ids)]]
            now = apply_updates(now, {i: {"v": value(i)} for i in todo}, {})
            mon.equal(snapshot(result.get_step(k + 1)), now, "a step isn't what the controller's rule makes",
                      step=k + 1, kind=kind)
        mon.equal(snapshot(result.output), now, "the output isn't the last step")
    mon.count("own_results")
    if kind == "parallel":
        mon.count("parallel_runs")
    mon.describe({"part": "runs", "kind": kind, "ids": ids, "seed": seed})


def growth_case(rng, mon):
    """Growth by a table of neighbors, with cells that never change."""
    s = sites_of(rng)
    ids = list(s.site_ids)
    table = {i: [(j, w) for j, w in v if j != i] for i, v in random_table(rng, ids).items()}
    frozen = {i for i in ids if rng.random() < 0.2}
    rocky = rng.random() < 0.5

    class Rocky(GrowthController):
        def get_state_update(self, site_id, prev_state):
            if rocky and site_id in frozen:
                return None
            return super().get_state_update(site_id, prev_state)

    model = {SITES: {i: {"_site_id": i, DISCRETE_OCCUPANCY: rng.choice(["void", "void", "X", "Y"])} for i in ids},
             GENERAL: {}}
    controller = Rocky(PhaseSet(["void", "X", "Y"]), s, background_phase="void",
                       nb_builder=random_builder(rng, table, with_class=False))
    steps = rng.randint(1, 4)
    parallel = rng.random() < 0.08
    result = SynchronousRunner(parallel=parallel, workers=2).run(SimulationState(model), controller, steps)
    if parallel:
        mon.count("parallel_runs")
    was = model[SITES]
    for k in range(1, steps + 1):
        now = snapshot(result.get_step(k))[SITES]
        for i in ids:
            old, new = was[i][DISCRETE_OCCUPANCY], now[i][DISCRETE_OCCUPANCY]
            around = [was[j][DISCRETE_OCCUPANCY] for j, _ in table[i]]
            counts = {p: around.count(p) for p in "XY" if p in around}
            if old != "void" or not counts or (rocky and i in frozen):
                want = {old}
            else:
                want = {p for p, c in counts.items() if c == max(counts.values())}
            mon.require(new in want, "growth isn't what the user's neighborhood and rule make it",
                        step=k, site=i, was=old, now=new, around=around, rocky=rocky and i in frozen)
        was = now
    mon.count("growth_subclasses")
    mon.count("within_growth")
    mon.describe({"part": "growth", "table": table, "steps": steps, "rocky": sorted(frozen) if rocky else None,
                  "draw": rng.getrandbits(20)})


def life_case(rng, mon):
    """A variant of its own, with cells that never die."""
    n = rng.randint(3, 6)
    s = SimpleSquare2DStructureBuilder().build(n)
    born = sorted(rng.sample(range(9), rng.randint(0, 4)))
    survive = sorted(rng.sample(range(9), rng.randint(0, 4)))
    immortal = {i for i in s.site_ids if rng.random() < 0.15}

    class Mine(GameOfLifeController):
        variant = f"B{''.join(map(str, born))}/S{''.join(map(str, survive))}"

        def get_state_update(self, site_id, curr_state):
            own = curr_state.get_site_state(site_id)[DISCRETE_OCCUPANCY]
            if site_id in immortal and own == "alive":
                return {}
            return super().get_state_update(site_id, curr_state)

    at = {tuple(int(v) for v in x["_location"]): x["_site_id"] for x in s.sites()}
    live = {p for p in at if rng.random() < 0.4}
    state = SimulationState()
    for p, i in at.items():
        state.set_site_state(i, {DISCRETE_OCCUPANCY: "alive" if p in live else "dead"})
    steps = rng.randint(1, 4)
    parallel = rng.random() < 0.06
    result = SynchronousRunner(parallel=parallel, workers=2).run(state, Mine(s), steps)
    if parallel:
        mon.count("parallel_runs")
    for k in range(1, steps + 1):
        new = set()
        for (x, y), i in at.items():
            c = sum(((x + a) % n, (y + b) % n) in live
                    for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0))
            if (x, y) in live and (i in immortal or c in survive) or (x, y) not in live and c in born:
                new.add((x, y))
        live = new
        step = result.get_step(k)
        got = {p for p, i in at.items() if step.get_site_state(i)[DISCRETE_OCCUPANCY] == "alive"}
        mon.equal(sorted(got), sorted(live), "a generation isn't what the subclass's rule makes",
                  step=k, variant=Mine.variant, immortal=sorted(immortal))
    mon.count("life_subclasses")
    mon.describe({"part": "life", "n": n, "variant": Mine.variant, "immortal": sorted(immortal), "steps": steps})


# -- artists


def cells_of(img, n, cell):
    pixels = img.convert("RGB").load()
    return {(x, y): {pixels[x * cell + a, (n - 1 - y) * cell + b] for a in (0, cell - 1) for b in (0, cell - 1)}
            for x in range(n) for y in range(n)}


def color(rng):
    return tuple(rng.randrange(256) for _ in range(3))


def cell_artist_case(rng, mon):
    """Colors by any part of a cell's state."""
    n, cell = rng.randint(1, 5), rng.choice([4, 8])
    s = SimpleSquare2DStructureBuilder().build(n)
    table = [color(rng) for _ in range(6)]
    by = rng.choice(["sum", "id", "list"])

    def index(x):
        if by == "sum":
            return (x["v"] + x["w"]) % 6
        if by == "id":
            return x["_site_id"] % 6
        return x["deep"]["k"][-1]

    base = rng.choice([CellArtist, DiscreteCellArtist])
    own_legend = {"one": color(rng), "two": color(rng)} if rng.random() < 0.3 else None
    labels = ["kind %d" % k for k in range(6)]

    class Mine(base):
        def get_color_from_cell_state(self, cell_state):
            return table[index(cell_state)]

        def get_cell_legend_label(self, cell_state):
            return labels[index(cell_state)]

    if own_legend is not None:
        Mine.get_legend = lambda self, state: own_legend

    def make_state():
        st = SimulationState()
        for i in rng.sample(list(s.site_ids), n * n):
            st.set_site_state(i, {"v": rng.randrange(9), "w": rng.randrange(9), "deep": {"k": [rng.randrange(6)]}})
        return st

    state = make_state()
    # (colors and labels that are there for who doesn't override)
    mine = Mine() if base is CellArtist else Mine({k: color(rng) for k in labels + [0, 1, 2]}, "v")
    artist = SquareGridArtist2D(s, mine)
    at = {tuple(int(v) for v in x["_location"]): x["_site_id"] for x in s.sites()}

    def check(img, st, what):
        got = cells_of(img, n, cell)
        for p, i in at.items():
            want = table[index(st.get_site_state(i))]
            mon.require(got[p] == {want}, f"a cell {what} isn't in the user's color", cell=p,
                        got=sorted(got[p]), want=want, by=by)

    check(artist.get_img(state, cell_size=cell), state, "of a picture")
    legend = mine.get_legend(state)
    present = {index(x) for x in state.all_site_states()}
    want = own_legend if own_legend is not None else {labels[k]: table[k] for k in present}
    mon.equal(dict(legend), want, "the legend isn't of the user's labels and colors")
    drawn = {c for _, c in artist.get_img(state, cell_size=cell).crop((n * cell + 5, 0, (n + 6) * cell, 9999))
             .convert("RGB").getcolors(10**6)}
    mon.require(set(want.values()) <= drawn, "a legend's color isn't drawn", want=want)
    mon.count("cell_artists")
    if rng.random() < 0.04:
        result = SimulationResult(state)
        for _ in range(2):
            result.add_step({SITES: {i: {"v": rng.randrange(9)} for i in list(s.site_ids)[::2]}, GENERAL: {}})
        name = f"c31-{os.getpid()}.gif"
        try:
            imgs = frames(ResultArtist(artist, result), name, cell_size=12)
        finally:
            if os.path.exists(name):
                os.remove(name)
        mon.equal(len(imgs), 3, "an animation hasn't all frames")
        mon.count("animations")
    mon.describe({"part": "cell artists", "n": n, "by": by, "table": table, "base": base.__name__,
                  "own_legend": own_legend})


def frames(artist, name, **kwargs):
    artist.to_gif(name, **kwargs)
    with Image.open(name) as gif:
        return [f.convert("RGB").copy() for f in ImageSequence.Iterator(gif)]


def structure_artist_case(rng, mon):
    """Pictures of any kind."""
    size = (rng.randint(1, 20), rng.randint(1, 20))
    seen = []

    class Flag(StructureArtist):
        """One color per state, chosen by a function that can't be sent anywhere."""

        def _draw_image(self, state, **kwargs):
            seen.append((snapshot(state), kwargs))
            paint = self.cell_artist.get_color_from_cell_state
            return Image.new("RGB", size, paint(state.get_site_state(3)))

    shades = [color(rng) for _ in range(5)]

    class Paint(CellArtist):
        def __init__(self):
            self.of = lambda x: shades[x["v"]]

        def get_color_from_cell_state(self, cell_state):
            return self.of(cell_state)

    values = [rng.randrange(5) for _ in range(rng.randint(1, 4))]
    state = SimulationState({SITES: {3: {"_site_id": 3, "v": values[0]}}, GENERAL: {}})
    artist = Flag(None, Paint())
    options = {k: rng.choice([1, "x", None, (1, 2)]) for k in rng.sample(["label", "zoom", "cell_size", "mode"], 2)}
    img = artist.get_img(state, **options)
    mon.require(seen and seen[-1] == (snapshot(state), options), "a user's artist isn't given the state and options",
                given=seen[-1:], options=options)
    mon.equal(img.getpixel((0, 0)), shades[values[0]], "get_img isn't what the user's artist drew")
    name = f"c31-{os.getpid()}"
    try:
        artist.save_img(state, name + ".png", **options)
        mon.require(seen[-1] == (snapshot(state), options), "a user's artist isn't given the options when saving",
                    given=seen[-1], options=options)
        with Image.open(name + ".png") as f:
            mon.equal((f.size, f.convert("RGB").getpixel((0, 0))), (size, shades[values[0]]),
                      "the saved picture isn't what the user's artist drew")
        if rng.random() < 0.15:
            result = SimulationResult(state)
            for v in values[1:]:
                result.add_step({3: {"v": v}})
            got = [f.getpixel((0, 0)) for f in frames(ResultArtist(artist, result), name + ".gif")]
            want = [shades[v] for v in values]
            # (equal frames that follow each other may be joined in the file)
            mon.require(joined(got) == joined(want), "the frames aren't what the user's artist drew",
                        got=got, want=want)
            mon.count("animations")
    finally:
        for end in (".png", ".gif"):
            if os.path.exists(name + end):
                os.remove(name + end)
    mon.count("structure_artists")
    mon.describe({"part": "structure artists", "values": values, "size": size, "shades": shades})


def joined(xs):
    return [x for k, x in enumerate(xs) if k == 0 or xs[k - 1] != x]


PARTS = [
    (neighborhood_case, 5), (derived_case, 2), (structure_case, 2), (run_case, 1), (growth_case, 3),
    (life_case, 2), (cell_artist_case, 3), (structure_artist_case, 2),
]


def case(rng, mon):
    random.seed(rng.getrandbits(30))
    part = rng.choices([p for p, _ in PARTS], [w for _, w in PARTS])[0]
    part(rng, mon)
