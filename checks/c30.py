"""C30: equivalent descriptions of a system give the same system."""
import itertools

import numpy as np
from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    Lattice,
    PeriodicStructure,
    SimulationState,
    StateAnalyzer,
    StructureBuilder,
    SynchronousRunner,
)
from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder,
    DistanceNeighborhoodBuilder,
    MotifNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
)
from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer, PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.models.game_of_life import Anneal, Diamoeba, GameOfLifeController, Life, Maze, Seeds
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import (
    DiscreteGridSetup,
    MooreNbHoodBuilder,
    SimpleSquare2DStructureBuilder,
    SimpleSquare3DStructureBuilder,
    VonNeumannNbHood2DBuilder,
    VonNeumannNbHood3DBuilder,
)
from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D

from vmon.model import h

PROP = "C30"
RULE = (
    "random systems (places on a grid of 1/8, so that rounding plays no role) described twice: "
    "axes permuted and mirrored, origin moved, lattice vectors reordered or combined, sites "
    "added in another order at other images, supercells, classes and phases and keys renamed; "
    "lookups, distances, neighborhoods, searches, synchronous and asynchronous runs must agree "
    "site by site. Grids: Game of Life, growth, fractions and pictures of a turned, moved or "
    "repeated state are those of the state, turned, moved or repeated. "
    "Non-trivial: the two descriptions differ"
)
CASES = {"quick": 2400, "thorough": 30000}
REQUIRED = ["turned", "moved_origin", "other_cell", "supercells", "renamed_classes", "lookups",
            "empty_places", "distances", "neighborhoods", "sync_runs", "async_runs", "searches",
            "life_runs", "growth_runs", "pictures", "repeated_grids", "fractions", "setups"]


NAMES = ["A", "a", "A ", "AA", "_A", "x", "X", "0", "00", "", "Zn", "zn", "None", "B", "void", "Void"]


# -- structures


def signed_permutation(rng, dim):
    m = np.zeros((dim, dim))
    for i, j in enumerate(rng.sample(range(dim), dim)):
        m[i, j] = rng.choice([1, -1])
    return m


def vectors(rng, dim):
    while True:
        m = np.diag([rng.choice([1.0, 1.5, 2.0, 3.0]) for _ in range(dim)])
        if dim > 1 and rng.random() < 0.6:
            for i, j in itertools.permutations(range(dim), 2):
                if rng.random() < 0.5:
                    m[i, j] = rng.choice([0.5, -0.5, 1.0])
        m = m[rng.sample(range(dim), dim)]
        if abs(np.linalg.det(m)) >= 0.75:
            return m


def other_cell(rng, full, periodic):
    """Other vectors with the same lattice along the periodic directions."""
    m = full.copy()
    along = [k for k, p in enumerate(periodic) if p]
    for _ in range(rng.randint(1, 3)):
        i = rng.randrange(len(m))
        others = [k for k in along if k != i]
        if others:
            m[i] += rng.choice([1, -1, 1, 2]) * m[rng.choice(others)]
        if i in along and rng.random() < 0.3:
            m[i] = -m[i]
    return m


class Fractional(StructureBuilder):
    frac_coords = True


def tuple_of(x):
    return tuple(float(v) for v in x)


class Twice:
    """One structure, and another description of it."""

    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        dim = self.dim = rng.choice([1, 2, 2, 2, 3, 3])
        vecs = vectors(rng, dim)
        self.periodic = [rng.random() < 0.75 for _ in range(dim)]
        cells = [rng.randint(1, 3 if dim < 3 else 2) for _ in range(dim)]
        spots = rng.sample(list(itertools.product([0, 0.25, 0.5, 0.75], repeat=dim)),
                           rng.randint(1, min(4, 4**dim)))
        classes = rng.choice([["A"], ["A", "B"], ["_A", "Fe 3+"], rng.sample(NAMES, 3)])
        self.motif = {}
        for f in spots:
            self.motif.setdefault(rng.choice(classes), []).append(f)
        self.a = self.build(vecs, cells, self.periodic, self.motif)
        self.full = vecs * np.array(cells)[:, None]

        # the other description: x -> x @ turn + shift
        self.turn = signed_permutation(rng, dim) if rng.random() < 0.7 else np.eye(dim)
        self.shift = np.zeros(dim)
        if rng.random() < 0.5:
            self.shift = np.array([rng.randint(-20, 20) / 8 for _ in range(dim)])
            mon.count("moved_origin")
        if not np.array_equal(self.turn, np.eye(dim)):
            mon.count("turned")
        # (names that only a careless comparison takes for each other)
        others = rng.sample(NAMES, len(self.motif))
        names = {c: c for c in self.motif} if rng.random() < 0.2 else dict(zip(sorted(self.motif), others))
        self.names = names
        mon.count("renamed_classes", sum(k != v for k, v in names.items()))
        how = self.how = rng.choice(["motif", "supercell", "cell", "cell"])
        getattr(self, "by_" + how)(vecs, cells)
        self.match()

    def build(self, vecs, cells, periodic, motif):
        """One of the ways to build a structure."""
        rng = self.rng
        flags = rng.choice([tuple, list])(periodic)
        if len(set(periodic)) == 1 and rng.random() < 0.5:
            flags = periodic[0]
        lat = Lattice(rng.choice([np.array, lambda v: v.tolist()])(vecs), flags)
        frac = rng.random() < 0.5
        if not frac:
            motif = {c: [tuple_of(np.dot(f, vecs)) for f in fs] for c, fs in motif.items()}
        if rng.random() < 0.5:
            return PeriodicStructure.build_from(lat, cells, motif, frac_coords=frac)
        return (Fractional if frac else StructureBuilder)(lat, motif).build(tuple(cells))

    def renamed(self, motif, order, shift):
        out = {}
        for c in self.rng.sample(sorted(motif), len(motif)):
            fs = [tuple(np.array(f)[order] + shift[order]) for f in motif[c]]
            out.setdefault(self.names[c], []).extend(self.rng.sample(fs, len(fs)))
        return out

    def by_motif(self, vecs, cells):
        order = self.rng.sample(range(self.dim), self.dim)
        shift = np.dot(self.shift, np.linalg.inv(vecs @ self.turn))
        self.b = self.build((vecs @ self.turn)[order], [cells[k] for k in order],
                            [self.periodic[k] for k in order],
                            self.renamed(self.motif, order, shift))

    def by_supercell(self, vecs, cells):
        rng = self.rng
        order = rng.sample(range(self.dim), self.dim)
        by = [rng.choice([k for k in range(1, n + 1) if n % k == 0]) for n in cells]
        large = vecs * np.array(by)[:, None]
        motif = {
            c: [tuple((np.array(f) + at) / by) for f in fs
                for at in itertools.product(*[range(k) for k in by])]
            for c, fs in self.motif.items()
        }
        shift = np.dot(self.shift, np.linalg.inv(large @ self.turn))
        self.b = self.build((large @ self.turn)[order], [cells[k] // by[k] for k in order],
                            [self.periodic[k] for k in order],
                            self.renamed(motif, order, shift))
        self.mon.count("supercells")

    def by_cell(self, vecs, cells):
        rng = self.rng
        order = rng.sample(range(self.dim), self.dim)
        m = (other_cell(rng, self.full, self.periodic) @ self.turn)[order]
        self.b = PeriodicStructure(Lattice(m, [self.periodic[k] for k in order]))
        sites = self.a.sites()
        for site in rng.sample(sites, len(sites)):
            self.b.add_site(self.names[site["_site_class"]],
                            rng.choice([tuple, list, np.array])(self.place(self.image(site["_location"]))))
        self.mon.count("other_cell")

    def place(self, x):
        return tuple_of(np.dot(x, self.turn) + self.shift)

    def image(self, x, far=2):
        k = [self.rng.randint(-far, far) if p else 0 for p in self.periodic]
        return np.array(x, dtype=float) + np.dot(k, self.full)

    def match(self):
        """Which site is which, by their places."""
        mon, a, b = self.mon, self.a, self.b
        self.to = {}
        for i in a.site_ids:
            j = b.id_at(self.place(a.site_location(i)))
            mon.require(j is not None, "a site isn't found in another description", **self.show(i))
            self.to[i] = j
            mon.require(
                b.site_class(j) == self.names[a.site_class(i)],
                "a site has another class in another description", **self.show(i),
            )
            j = b.id_at(self.place(self.image(a.site_location(i))))
            mon.require(j == self.to[i], "an image of a site is another site", **self.show(i))
            mon.count("lookups", 2)
        mon.equal(sorted(self.to.values()), sorted(b.site_ids), "the structures differ in their sites")
        for _ in range(6):
            x = np.array([self.rng.randint(-40, 40) / 8 for _ in range(self.dim)])
            i, j = a.id_at(tuple_of(x)), b.id_at(self.place(x))
            mon.require(
                (i is None) == (j is None) and (i is None or self.to[i] == j),
                "another site is found at a place", place=x.tolist(), found=[i, j], **self.show(None),
            )
            mon.count("empty_places", i is None)

    def show(self, i):
        return {
            "site": i, "how": self.how, "vectors": [self.a.lattice.vecs.tolist(), self.b.lattice.vecs.tolist()],
            "periodic": [self.a.lattice.periodic, self.b.lattice.periodic],
            "turn": self.turn.tolist(), "shift": self.shift.tolist(), "motif": self.motif,
        }

    # -- what is asked of both

    def distances(self):
        rng = self.rng
        a, b = self.a, self.b
        for _ in range(6):
            x = a.site_location(rng.choice(a.site_ids))
            y = rng.choice([
                lambda: a.site_location(rng.choice(a.site_ids)),
                lambda: np.array([rng.uniform(-6, 6) for _ in range(self.dim)]),
            ])()
            d = float(a.lattice.cartesian_periodic_distance(x, y))
            e = float(b.lattice.cartesian_periodic_distance(
                self.place(self.image(x)), self.place(self.image(y))))
            self.mon.require(abs(d - e) <= 1.1e-3, "a distance differs", distances=[d, e],
                             places=[list(map(float, x)), list(map(float, y))], **self.show(None))
            self.mon.count("distances")

    def cutoff(self):
        """A distance that none of the structure's is near to."""
        a = self.a
        i = self.rng.choice(a.site_ids)
        some = sorted({float(a.lattice.cartesian_periodic_distance(a.site_location(i), a.site_location(j)))
                       for j in a.site_ids})
        top = some[-1] + 1
        for _ in range(40):
            c = self.rng.uniform(0.3, min(top, 4))
            # (all are square roots of multiples of 1/64)
            if abs(c * c * 64 - round(c * c * 64)) > 0.25:
                return c
        return None

    def builders(self):
        """The same neighborhood builder for both descriptions."""
        rng = self.rng
        kind = rng.choice(["distance", "ring", "offsets", "offsets"])
        if kind == "offsets":
            offsets = []
            for _ in range(rng.randint(1, 6)):
                i, j = rng.choice(self.a.site_ids), rng.choice(self.a.site_ids)
                offsets.append(tuple_of(self.image(self.a.site_location(j), 1) - self.a.site_location(i)))
            turned = [tuple_of(np.dot(o, self.turn)) for o in offsets]
            return kind, MotifNeighborhoodBuilder(offsets), MotifNeighborhoodBuilder(
                rng.sample(turned, len(turned)))
        c = self.cutoff()
        if kind == "distance" or c is None:
            return "distance", DistanceNeighborhoodBuilder(c or 1.01), DistanceNeighborhoodBuilder(c or 1.01)
        d = self.cutoff() or 0.01
        lo, hi = min(c, d), max(c, d)
        return kind, AnnularNeighborhoodBuilder(lo, hi), AnnularNeighborhoodBuilder(lo, hi)

    def neighborhoods(self):
        rng, mon = self.rng, self.mon
        kind, one, two = self.builders()
        cls = rng.choice(sorted(self.motif))
        form = rng.random()
        if form < 0.6:
            nb, other = one.get(self.a), two.get(self.b)
        elif form < 0.8:
            nb, other = one.get(self.a, site_class=cls), two.get(self.b, site_class=self.names[cls])
        else:
            _, more, more2 = self.builders()
            rest = [c for c in sorted(self.motif) if c != cls]
            kind = "by class"
            nb = SiteClassNeighborhoodBuilder({cls: one, **{c: more for c in rest}}).get(self.a)
            other = SiteClassNeighborhoodBuilder(
                {**{self.names[c]: more2 for c in rest}, self.names[cls]: two}).get(self.b)
        for i in self.a.site_ids:
            x = nb.neighbors_of(i, include_weights=True)
            y = other.neighbors_of(self.to[i], include_weights=True)
            mon.equal(
                sorted(self.to[j] for j, _ in x), sorted(j for j, _ in y),
                "a site has other neighbors in another description", kind=kind, **self.show(i),
            )
            if kind in ("distance", "ring"):
                w = {self.to[j]: float(v) for j, v in x}
                mon.require(all(abs(w[j] - float(v)) <= 1.1e-3 for j, v in y),
                            "a neighbor has another weight", kind=kind, **self.show(i))
            mon.count("neighborhoods")
        return nb, other


class Local(BasicController):
    """A site's value from its own and its neighbors', under any key."""

    def __init__(self, seed, key, ids, nb, order=None):
        self.seed, self.key, self.ids, self.nb, self.order = seed, key, ids, nb, order

    def get_random_site(self, state):
        return list(self.order)

    def get_state_update(self, site_id, prev_state):
        around = sorted(prev_state.get_site_state(j)[self.key] for j in self.nb.neighbors_of(site_id))
        own = prev_state.get_site_state(site_id)[self.key]
        return {self.key: h(self.seed, own, around) % 5}


def structure_case(rng, mon):
    t = Twice(rng, mon)
    t.distances()
    nbs = t.neighborhoods()
    keys = rng.choice([("v", "v"), ("v", "value"), ("a b", "_v"), (DISCRETE_OCCUPANCY, "v")])
    states = [SimulationState.from_struct(s) if rng.random() < 0.5 else SimulationState() for s in (t.a, t.b)]
    for i in rng.sample(list(t.a.site_ids), len(t.to)):
        v = rng.randrange(5)
        states[0].set_site_state(i, {keys[0]: v})
        states[1].set_site_state(t.to[i], {keys[1]: v})
    steps = rng.randint(1, 4)
    seed = rng.getrandbits(20)
    order = [rng.choice(t.a.site_ids) for _ in range(rng.randint(1, 6))]
    asynchronous = rng.random() < 0.4
    runner = AsynchronousRunner() if asynchronous else SynchronousRunner()
    results = [
        runner.run(
            states[k],
            Local(seed, keys[k], s.site_ids, nbs[k], order if k == 0 else [t.to[i] for i in order]),
            steps * (4 if asynchronous else 1),
        )
        for k, s in enumerate((t.a, t.b))
    ]
    mon.equal(len(results[0]), len(results[1]), "the runs' lengths differ")
    for n, (x, y) in enumerate(zip(results[0].steps(), results[1].steps())):
        for i in t.a.site_ids:
            v, w = x.get_site_state(i)[keys[0]], y.get_site_state(t.to[i])[keys[1]]
            mon.require(v == w, "a run differs in another description", step=n, values=[v, w], **t.show(i))
    mon.count("async_runs" if asynchronous else "sync_runs")
    states = [r.last_step for r in results]
    v, cls = rng.randrange(5), rng.choice([None, *sorted(t.motif)])
    found = [
        StateAnalyzer(s).get_sites_where_equal(
            states[k], {keys[k]: v}, site_class=cls if cls is None or k == 0 else t.names[cls])
        for k, s in enumerate((t.a, t.b))
    ]
    mon.equal(sorted(t.to[i] for i in found[0]), sorted(found[1]),
              "a search finds other sites in another description", cls=cls, **t.show(None))
    mon.count("searches")
    mon.describe({"kind": "structure", "how": t.how, "dim": t.dim, "sites": len(t.to), "turn": t.turn.tolist(),
                  "shift": t.shift.tolist(), "vectors": t.full.tolist()})


# -- grids


def grid(extent):
    builder = SimpleSquare2DStructureBuilder() if len(extent) == 2 else SimpleSquare3DStructureBuilder()
    s = builder.build(tuple(extent))
    # (the vectors aren't in the order of the axes)
    got = tuple(int(round(1 + max(float(x["_location"][k]) for x in s.sites()))) for k in range(len(extent)))
    if got != tuple(extent):
        swapped = (extent[1], extent[0], *extent[2:])
        s = builder.build(tuple(swapped))
    return s


def where(s):
    """Place to site ID."""
    return {tuple(int(round(float(x))) for x in site["_location"]): site["_site_id"] for site in s.sites()}


class Turned:
    """A grid turned, mirrored, moved across its edges and repeated."""

    def __init__(self, rng, mon, extent):
        dim = len(extent)
        self.extent = extent
        self.perm = rng.sample(range(dim), dim)
        self.sign = [rng.choice([1, -1]) for _ in range(dim)]
        self.move = [rng.randint(-5, 5) for _ in range(dim)]
        self.times = [1] * dim
        if rng.random() < 0.4:
            self.times = [rng.randint(1, 3 if dim == 2 else 2) for _ in range(dim)]
            mon.count("repeated_grids")
        self.to_extent = tuple(extent[p] * k for p, k in zip(self.perm, self.times))

    def source(self, y):
        """The place in the original that a place in the other grid is of."""
        x = [0] * len(y)
        for k, p in enumerate(self.perm):
            x[p] = (self.sign[k] * (y[k] - self.move[k])) % self.extent[p]
        return tuple(x)

    def show(self):
        return {"extent": self.extent, "perm": self.perm, "sign": self.sign, "move": self.move,
                "times": self.times}


def filled(rng, s, at):
    state = SimulationState()
    cells = list(where(s).items())
    if rng.random() < 0.5:
        # (a state lists its sites in any order)
        rng.shuffle(cells)
    for x, i in cells:
        state.set_site_state(i, {DISCRETE_OCCUPANCY: at(x)})
    return state


def life_or_growth(rng, mon):
    life = rng.random() < 0.5
    dim = 2 if life or rng.random() < 0.75 else 3
    reach = 1 if life else rng.choice([1, 1, 2])
    least = 2 * reach + 1
    extent = tuple(rng.randint(least, 8 if dim == 2 else least + 1) for _ in range(dim))
    if dim == 2 and rng.random() < 0.05 and least <= 4:
        # as many cells as a square has
        extent = rng.choice([(4, 9), (9, 4), (3, 12), (12, 3)] if least <= 3 else [(9, 4), (4, 9)])
    t = Turned(rng, mon, extent)
    s, u = grid(extent), grid(t.to_extent)
    at, there = where(s), where(u)
    phases = ["alive", "dead"]
    same = {p: p for p in phases}
    background = None
    if not life:
        phases = rng.sample([*NAMES, "VACANT", "alive", "Fe2O3"], rng.choice([2, 2, 3, 4]))
        background = phases[0]
        others = rng.sample([*NAMES, "VACANT", "vacant", "dead"], len(phases))
        same = dict(zip(phases, others)) if rng.random() < 0.6 else {p: p for p in phases}
    density = rng.choice([0.1, 0.3, 0.5]) if not life else rng.choice([0.2, 0.4, 0.6])
    chosen = {x: (rng.choice(phases[1:]) if rng.random() < density else background) if not life
              else ("alive" if rng.random() < density else "dead") for x in sorted(at)}
    states = [filled(rng, s, chosen.get), filled(rng, u, lambda y: same[chosen[t.source(y)]])]
    steps = rng.randint(1, 5)
    if life:
        variant = rng.choice([Life, Anneal, Diamoeba, Seeds, Maze, "B36/S125", "B1357/S1357", "B0/S8", "B/S"])
        controllers = [GameOfLifeController(x, variant) for x in (s, u)]
    else:
        nb = rng.choice(["moore", "von", None] if dim == 2 or reach == 1 else ["moore", "von"])
        if nb is None:
            make = lambda: None  # noqa: E731
        elif nb == "moore":
            make = lambda: MooreNbHoodBuilder(reach, dim=dim)  # noqa: E731
        else:
            make = lambda: (VonNeumannNbHood2DBuilder if dim == 2 else VonNeumannNbHood3DBuilder)(reach)  # noqa: E731
        controllers = [
            GrowthController(PhaseSet(phases), s, background_phase=background, nb_builder=make()),
            GrowthController(PhaseSet([same[p] for p in phases]), u, background_phase=same[background],
                             nb_builder=make()),
        ]
    results = [SynchronousRunner().run(x, c, steps) for x, c in zip(states, controllers)]
    exact = life or len(phases) == 2
    for n, (x, y) in enumerate(zip(results[0].steps(), results[1].steps())):
        for place, i in there.items():
            v = x.get_site_state(at[t.source(place)])[DISCRETE_OCCUPANCY]
            w = y.get_site_state(i)[DISCRETE_OCCUPANCY]
            # (which phase a tie goes to is nobody's business here)
            agree = same[v] == w if exact else (v == background) == (w == same[background])
            mon.require(agree, "a run on the turned or repeated grid isn't the turned or repeated run",
                        step=n, cell=place, values=[v, w], names=same, **t.show())
    mon.count("life_runs" if life else "growth_runs")
    times = int(np.prod(t.times))
    n = rng.randint(0, steps)
    if exact:
        analyses = [DiscreteResultAnalyzer(r) for r in results]
        mon.equal(sorted(same[p] for p in analyses[0].all_phases()), sorted(analyses[1].all_phases()),
                  "the phases differ", **t.show())
        counter = DiscreteStepAnalyzer()
        for p in phases:
            f, g = (a.phase_fraction_at(n, q) for a, q in zip(analyses, (p, same[p])))
            mon.require(abs(f - g) < 1e-9, "a fraction differs", phase=p, fractions=[f, g], **t.show())
            c, d = (counter.cell_count(r.get_step(n), q) for r, q in zip(results, (p, same[p])))
            mon.require(c * times == d, "a count differs", phase=p, counts=[c, d], **t.show())
        mon.count("fractions")
    if dim == 2 and rng.random() < 0.6:
        pictures(rng, mon, t, s, u, results[0].get_step(n), phases)
    mon.describe({"kind": "grid", "life": life, "steps": steps, **t.show()})


def colors_of(img, extent, cell):
    pixels = img.convert("RGB").load()
    return {
        (x, y): {pixels[x * cell + a, (extent[1] - 1 - y) * cell + b]
                 for a in (0, cell - 1) for b in (0, cell // 2, cell - 1)}
        for x in range(extent[0]) for y in range(extent[1])
    }


def pictures(rng, mon, t, s, u, state, phases):
    colors = {p: tuple(rng.randrange(256) for _ in range(3)) for p in phases}
    cell = rng.choice([4, 5, 9])
    at, there = where(s), where(u)
    placed = {x: state.get_site_state(i)[DISCRETE_OCCUPANCY] for x, i in at.items()}
    other = filled(rng, u, lambda y: placed[t.source(y)])
    both = []
    for x, st, extent in ((s, state, t.extent), (u, other, t.to_extent)):
        artist = SquareGridArtist2D(x, DiscreteCellArtist(colors))
        both.append(colors_of(artist.get_img(st, cell_size=cell), extent, cell))
    for y in there:
        mon.require(both[1][y] == both[0][t.source(y)],
                    "a picture of the turned or repeated state isn't the turned or repeated picture",
                    cell=y, colors=[sorted(both[0][t.source(y)]), sorted(both[1][y])], **t.show())
    mon.count("pictures")


def setups(rng, mon):
    """Setups named in other phases, and symmetric ones."""
    dim = rng.choice([2, 2, 3])
    n = rng.randint(1, 9 if dim == 2 else 5)
    a, b = rng.sample(NAMES, 2)
    p, q = rng.sample([*NAMES, "VACANT"], 2)
    same = {a: p, b: q}
    kinds = ["interface", "particle", "coords"]
    kind = rng.choice(kinds)
    radius = rng.choice([0, 1, 1.5, 2, 3])
    spots = [tuple(rng.randrange(n) for _ in range(dim)) for _ in range(3)]

    def make(x, y):
        setup = DiscreteGridSetup(PhaseSet([x, y]), dim=dim)
        if kind == "interface":
            return setup.setup_interface(n, x, y)
        if kind == "particle":
            return setup.setup_particle(n, radius, x, y)
        return setup.setup_coords(n, x, {y: list(spots)})

    sims = [make(a, b), make(p, q)]
    got = [{x: s.state.get_site_state(i)[DISCRETE_OCCUPANCY] for x, i in where(s.structure).items()}
           for s in sims]
    mon.equal({x: same[v] for x, v in got[0].items()}, got[1], "a setup differs in other phases",
              setup=kind, size=n, names=same)
    if kind == "particle":
        order = rng.sample(range(dim), dim)
        signs = [rng.choice([1, -1]) for _ in range(dim)]
        for x, v in got[0].items():
            y = tuple((signs[k] * x[order[k]]) % n for k in range(dim))
            mon.require(got[0][y] == v, "a particle isn't round", size=n, radius=radius, cells=[x, y])
    mon.count("setups")
    mon.describe({"kind": "setup", "setup": kind, "size": n, "radius": radius, "spots": spots, "names": same})


def case(rng, mon):
    draw = rng.random()
    if draw < 0.5:
        structure_case(rng, mon)
    elif draw < 0.9:
        life_or_growth(rng, mon)
    else:
        setups(rng, mon)
