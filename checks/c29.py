"""C29: what is passed in stays as it was, and answers belong to the caller."""
import random

import numpy as np
from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    Lattice,
    PeriodicStructure,
    Simulation,
    SimulationResult,
    SimulationState,
    StateAnalyzer,
    StructureBuilder,
    SynchronousRunner,
)
from pylattica.core.coordinate_utils import get_points_in_box, get_points_in_cube
from pylattica.core.distance_map import EuclideanDistanceMap, ManhattanDistanceMap
from pylattica.core.lattice import pbc_diff_cart, pbc_diff_frac_vec, periodize
from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder,
    DistanceNeighborhoodBuilder,
    MotifNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
    StochasticNeighborhoodBuilder,
)
from pylattica.core.neighborhoods import AbstractNeighborhood
from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer, PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import (
    DiscreteGridSetup,
    MooreNbHoodBuilder,
    SimpleSquare2DStructureBuilder,
    VonNeumannNbHood2DBuilder,
)
from pylattica.visualization import DiscreteCellArtist, SquareGridArtist2D

from vmon.model import random_json_value, snapshot

PROP = "C29"
RULE = (
    "calls of every part of the library with random arguments (arrays, also read-only ones, "
    "lists, dictionaries, states, structures, ...), each made twice: fingerprints of all "
    "arguments before and after, the first answer spoiled by the caller (its lists, arrays and "
    "dictionaries emptied or overwritten) before the call is repeated, then the arguments "
    "spoiled after something was built from them. Arguments must be unchanged, the second "
    "answer equal to what the first one was, and what was built must not follow. "
    "Non-trivial: always"
)
CASES = {"quick": 2600, "thorough": 30000}
REQUIRED = ["coordinates", "lattices", "structures", "neighborhoods", "setups", "analyses", "results",
            "drawings", "runs", "spoiled_answers", "spoiled_arguments", "read_only_arguments"]
PHASES = ["A", "B", "Fe2O3", "void", "x"]


# -- fingerprints


def frozen(x):
    """All there is to see of an argument or an answer."""
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return ("dict", [(frozen(k), frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, SimulationState):
        return ("state", frozen(snapshot(x)))
    if isinstance(x, SimulationResult):
        return ("result", [frozen(snapshot(x.get_step(k))) for k in range(len(x))])
    if isinstance(x, Lattice):
        return ("lattice", frozen(x.vecs), frozen(x.periodic), frozen(x.matrix),
                frozen(list(x.vec_lengths)), x.dim)
    if isinstance(x, PeriodicStructure):
        return ("structure", frozen(x.lattice), frozen(x.sites()), frozen(list(x.site_ids)),
                [x.id_at(s["_location"]) for s in x.sites()])
    if isinstance(x, Simulation):
        return ("simulation", frozen(x.state), frozen(x.structure))
    if isinstance(x, PhaseSet):
        return ("phases", sorted(x.phases))
    if isinstance(x, Around):
        return ("neighbors", x.all())
    if hasattr(x, "tobytes") and hasattr(x, "size"):
        return ("picture", x.size, x.tobytes())
    if hasattr(x, "data") and hasattr(x, "layout"):
        return ("figure", [[t.name, list(t.x), list(t.y)] for t in x.data])
    return x


class Around:
    """A neighborhood, and what it answers for all sites."""

    def __init__(self, nb, ids):
        self.nb, self.ids = nb, ids

    def all(self):
        # (in no particular order)
        return [sorted(self.nb.neighbors_of(i, include_weights=True)) for i in self.ids]


def spoil(x):
    """What a caller may do with its own lists, arrays and dictionaries (at any depth)."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = 7 if x.dtype != bool else ~x
            return True
        return False
    if isinstance(x, dict):
        did = [spoil(v) for v in x.values()]
        x.clear()
        x["SPOILED"] = 1
        return True or did
    if isinstance(x, list):
        for v in x:
            spoil(v)
        if x:
            x[0] = x[-1]
            del x[len(x) // 2:]
        x.append(x[0] if x else 5)
        return True
    if isinstance(x, tuple):
        return any([spoil(v) for v in x])
    return False


def spoil_top(x):
    """Only the list itself: what it holds is shared (sites)."""
    if isinstance(x, (list, set)):
        x.clear()
        return True
    return False


def push(x, value):
    if isinstance(x, list):
        x.append(value)


def read_only(x):
    if isinstance(x, np.ndarray):
        x.setflags(write=False)
        return 1
    if isinstance(x, (list, tuple)):
        return sum(read_only(v) for v in x)
    if isinstance(x, dict):
        return sum(read_only(v) for v in x.values())
    return 0


class Probe:
    def __init__(self, rng, mon):
        self.rng, self.mon, self.log = rng, mon, []

    def call(self, what, fn, *args, spoiler=spoil, seed=None, **kwargs):
        """A call, twice, with the first answer spoiled in between."""
        mon = self.mon
        if self.rng.random() < 0.25 and read_only([args, kwargs]):
            mon.count("read_only_arguments")
        before = frozen([args, kwargs])

        def go():
            if seed is not None:
                random.seed(seed)
                np.random.seed(seed)
            return fn(*args, **kwargs)

        answer = go()
        mon.require(frozen([args, kwargs]) == before, f"{what} changed what it was given")
        seen = frozen(answer)
        if spoiler(answer):
            mon.count("spoiled_answers")
        mon.require(
            frozen([args, kwargs]) == before, f"the answer of {what} is (part of) its argument"
        )
        second = go()
        mon.require(
            frozen(second) == seen,
            f"{what} answers otherwise after its first answer was changed by the caller",
            first=seen, second=frozen(second),
        )
        mon.require(frozen([args, kwargs]) == before, f"{what} changed what it was given, later")
        self.log.append(what)
        return second

    def build(self, what, fn, *args, look=frozen, seed=None, keep=(), **kwargs):
        """Something built from arguments, which are spoiled afterwards."""
        mon = self.mon
        before = frozen([args, kwargs])
        if seed is not None:
            random.seed(seed)
            np.random.seed(seed)
        built = fn(*args, **kwargs)
        mon.require(frozen([args, kwargs]) == before, f"{what} changed what it was given")
        seen = look(built)
        mon.require(frozen([args, kwargs]) == before, f"{what}: using it changed what it was given")
        did = [spoil(a) for k, a in enumerate(args) if k not in keep]
        did += [spoil(a) for a in kwargs.values()]
        if any(did):
            mon.count("spoiled_arguments")
        mon.require(
            look(built) == seen, f"{what} follows its arguments, changed by the caller later"
        )
        self.log.append(what)
        return built


# -- arguments


def vectors(rng, dim, form=None):
    """Lattice vectors, in some form."""
    m = np.diag([rng.choice([1.0, 2.0, 1.5, 4.0]) for _ in range(dim)])
    if dim > 1 and rng.random() < 0.5:
        m[rng.randrange(1, dim), 0] = rng.choice([0.5, -0.5, 0.25])
    form = form or rng.choice(["array", "lists", "tuples", "arrays", "ints"])
    if form == "array":
        return m
    if form == "ints":
        return np.diag([rng.randint(1, 4) for _ in range(dim)])
    if form == "lists":
        return m.tolist()
    if form == "arrays":
        return list(m.copy())
    return [tuple(v) for v in m.tolist()]


def location(rng, dim, span=6):
    loc = [rng.uniform(-span, span) for _ in range(dim)]
    if rng.random() < 0.4:
        loc = [float(round(x)) for x in loc]
    return rng.choice([np.array, list, tuple])(loc)


def locations(rng, dim):
    if rng.random() < 0.6:
        return location(rng, dim)
    return np.array([list(location(rng, dim)) for _ in range(rng.randint(1, 5))])


def periodicity(rng, dim):
    p = [rng.random() < 0.6 for _ in range(dim)]
    return rng.choice([True, False, p, tuple(p)])


def motif(rng, dim):
    spots = [[a / 4 for a in divmod(k, 4)][:dim] + [0.0] * (dim - 2) for k in range(4 if dim == 1 else 16)]
    if dim == 1:
        spots = [[k / 4] for k in range(4)]
    chosen = rng.sample(spots, rng.randint(1, 4))
    form = rng.choice([list, tuple, np.array])
    parts = {}
    for k, s in enumerate(chosen):
        parts.setdefault("AB"[k % 2], []).append(form(s))
    if rng.random() < 0.4:
        return [s for v in parts.values() for s in v]
    return parts


def make_lattice(rng, dim=None):
    dim = dim or rng.choice([1, 2, 2, 3])
    return Lattice(vectors(rng, dim), periodicity(rng, dim))


def make_structure(rng, dim=None):
    lat = make_lattice(rng, dim)
    cells = [rng.randint(1, 3) for _ in range(lat.dim)]
    return PeriodicStructure.build_from(lat, cells, motif(rng, lat.dim), frac_coords=True)


def discrete_state(rng, ids, phases=PHASES):
    state = SimulationState()
    for i in ids:
        state.set_site_state(
            i, {DISCRETE_OCCUPANCY: rng.choice(phases), "v": rng.randrange(3), "w": random_json_value(rng)}
        )
    state.set_general_state({"g": random_json_value(rng)})
    return state


def make_result(rng, state):
    result = SimulationResult(state)
    for k in range(rng.randint(0, 4)):
        ids = [i for i in state.site_ids() if rng.random() < 0.4]
        result.add_step({
            "SITES": {i: {DISCRETE_OCCUPANCY: rng.choice(PHASES)} for i in ids},
            "GENERAL": {"n": k},
        })
    return result


# -- the parts


def coordinates_case(rng, mon, p):
    lat = make_lattice(rng)
    dim = lat.dim
    p.call("get_cartesian_coords", lat.get_cartesian_coords, locations(rng, dim))
    p.call("get_fractional_coords", lat.get_fractional_coords, locations(rng, dim))
    p.call("get_periodized_cartesian_coords", lat.get_periodized_cartesian_coords, location(rng, dim))
    p.call("periodize", periodize, np.array(location(rng, dim)), tuple(lat.periodic))
    p.call("periodize", periodize, np.array(location(rng, dim)), rng.random() < 0.5)
    a, b = locations(rng, dim), location(rng, dim)
    p.call("pbc_diff_frac_vec", pbc_diff_frac_vec, a, b, np.array(lat.periodic, dtype=int))
    p.call("pbc_diff_cart", pbc_diff_cart, location(rng, dim), b, lat)
    p.call("cartesian_periodic_distance", lat.cartesian_periodic_distance, location(rng, dim), b)
    p.call("get_closest_image", lat.get_closest_image, np.array(location(rng, dim)))
    lo = [rng.randint(-3, 2) for _ in range(dim)]
    hi = [x + rng.randint(0, 3) for x in lo]
    form = rng.choice([list, np.array, tuple])
    p.call("get_points_in_box", get_points_in_box, form(lo), form(hi))
    p.call("get_points_in_cube", get_points_in_cube, lo[0], hi[0], dim)
    locs = [tuple(rng.randint(-3, 3) for _ in range(dim)) for _ in range(rng.randint(1, 6))]
    maps = rng.choice([EuclideanDistanceMap, ManhattanDistanceMap])
    ask = list(locs)
    p.build("a distance map", maps, locs, look=lambda m: [m.get_dist(x) for x in ask])


def lattice_case(rng, mon, p):
    dim = rng.choice([1, 2, 3])
    asked = [np.array(location(rng, dim)) for _ in range(4)]

    def look(lat):
        return [frozen(lat), [lat.get_fractional_coords(x).tolist() for x in asked],
                [float(lat.cartesian_periodic_distance(x, asked[0])) for x in asked],
                [lat.get_periodized_cartesian_coords(x).tolist() for x in asked]]

    lat = p.build("a lattice", Lattice, vectors(rng, dim), periodicity(rng, dim), look=look)
    p.call("Lattice.as_dict", lat.as_dict)
    p.build("a loaded lattice", Lattice.from_dict, lat.as_dict(), look=look)
    cells = rng.choice([list, np.array])([rng.randint(1, 4) for _ in range(dim)])
    before = look(lat)
    p.build("a scaled lattice", lat.get_scaled_lattice, cells, look=look)
    scaled = lat.get_scaled_lattice([rng.choice([1, 2])] * dim)
    if scaled.vecs.flags.writeable:
        # (what is written to it, is written to it only)
        scaled.vecs[...] = 99
    mon.require(look(lat) == before, "a lattice follows one that was scaled from it")


def structure_case(rng, mon, p):
    dim = rng.choice([1, 2, 2, 3])
    lat = make_lattice(rng, dim)
    cells = [rng.randint(1, 3) for _ in range(dim)]
    frac = rng.random() < 0.5
    if rng.random() < 0.5:
        # (whole unit cells, such that nothing coincides)
        frac, m = True, motif(rng, dim)
    else:
        frac, m = False, [rng.choice([list, np.array])([0.0] * dim)]
    given = rng.choice([list, tuple, np.array])(cells)
    s = p.build("a structure", PeriodicStructure.build_from, lat, given, m, frac_coords=frac, keep=(0,))
    m2 = motif(rng, dim)

    class Fractional(StructureBuilder):
        frac_coords = True

    builder = Fractional(lat, m2)
    fresh = frozen(m2)
    built = p.call("StructureBuilder.build", builder.build, tuple(cells) if rng.random() < 0.5 else 2,
                   spoiler=lambda x: False)
    mon.require(frozen(m2) == fresh, "building changed the motif")
    p.call("StructureBuilder.build", builder.build, 1, spoiler=lambda x: False)
    # one structure of a builder has nothing to do with the next one
    shape = frozen(built)
    other = builder.build(tuple(cells))
    with_more = other.add_site("new", np.array([0.111] * dim))
    mon.require(
        other.site_class(with_more) == "new" and frozen(built) == shape,
        "a structure follows another one of its builder",
    )
    loc = location(rng, dim)
    spot = np.array(loc, dtype=float)
    if s.site_at(loc) is None:
        n = frozen(loc)
        i = s.add_site("late", loc)
        mon.require(frozen(loc) == n, "add_site changed the location it was given")
        at = s.site_location(i).tolist()
        spoil(loc)
        mon.require(
            s.site_location(i).tolist() == at and s.id_at(spot) == i,
            "a site follows the location it was added at",
        )
    p.call("site_at", s.site_at, location(rng, dim), spoiler=lambda x: False)
    p.call("id_at", s.id_at, location(rng, dim))
    p.call("sites", s.sites, spoiler=spoil_top)
    p.call("sites of a class", s.sites, rng.choice(["A", "B", "late"]), spoiler=spoil_top)
    classes = s.all_site_classes()
    n = sorted(classes)
    push(classes, "A")
    spoil_top(classes)
    mon.equal(sorted(s.all_site_classes()), n, "the classes follow the list given out")
    p.call("PeriodicStructure.as_dict", s.as_dict)
    p.build("a loaded structure", PeriodicStructure.from_dict, s.as_dict())
    p.call("SimulationState.from_struct", SimulationState.from_struct, s, spoiler=spoil_state)


def spoil_state(state):
    for i in state.site_ids():
        state.set_site_state(i, {"SPOILED": 1})
    return True


def neighborhood_case(rng, mon, p):
    s = make_structure(rng, rng.choice([1, 2, 2, 3]))
    dim, ids = s.dim, list(s.site_ids)
    form = rng.choice([list, tuple, np.array])
    offsets = [form([float(rng.randint(-1, 1)) for _ in range(dim)]) for _ in range(rng.randint(1, 5))]

    def look(builder):
        return Around(builder.get(s), ids).all()

    whole = frozen(s)
    p.build("a motif neighborhood builder", MotifNeighborhoodBuilder, offsets, look=look)
    fixed = [tuple(float(rng.randint(-1, 1)) for _ in range(dim)) for _ in range(3)]
    parts = [MotifNeighborhoodBuilder(fixed), DistanceNeighborhoodBuilder(1.1),
             AnnularNeighborhoodBuilder(0.2, 2.1)]
    rng.shuffle(parts)
    kw = {"site_class": "A"} if rng.random() < 0.4 else {}
    nb = parts[0].get(s, **kw)
    for i in rng.sample(ids, min(3, len(ids))):
        # (listed in no particular order)
        for weights in [False, True, False]:
            got = nb.neighbors_of(i, include_weights=weights)
            n = sorted(got)
            push(got, (10**6, 1) if weights else 10**6)
            mon.equal(
                sorted(nb.neighbors_of(i, include_weights=weights)), n,
                "the neighbors follow the list given out",
            )
    # neighborhoods of neighborhoods
    one = [parts[0]]
    many = StochasticNeighborhoodBuilder(one).get(s)
    first = Around(many, ids).all()
    for i in ids:
        push(many.neighbors_of(i), 3)
        spoil_top(many.neighbors_of(i))
    one[0] = parts[1]
    mon.equal(Around(many, ids).all(), first, "a stochastic neighborhood follows its arguments")
    table = {"A": parts[0], "B": parts[1]}
    of_class = SiteClassNeighborhoodBuilder(table).get(s)
    first = Around(of_class, ids).all()
    for i in ids:
        push(of_class.neighbors_of(i), 3)
    mon.equal(list(table), ["A", "B"], "the builders of classes were changed")
    table["A"], table["C"] = parts[2], parts[0]
    mon.equal(Around(of_class, ids).all(), first, "a class neighborhood follows its arguments")
    mon.require(isinstance(of_class, AbstractNeighborhood), "no neighborhood")
    # sites without any neighbors have lists of their own as well
    alone = SiteClassNeighborhoodBuilder({}).get(s)
    push(alone.neighbors_of(ids[0]), 1)
    mon.equal(list(alone.neighbors_of(ids[-1])), [], "the neighbors follow the list given out")
    mon.require(frozen(s) == whole, "building neighborhoods changed the structure")


def setup_case(rng, mon, p):
    size, dim = rng.randint(4, 6), rng.choice([2, 2, 3])
    names = rng.sample(PHASES, rng.randint(2, 4))
    ps = p.build("a phase set", PhaseSet, list(names))
    setup = DiscreteGridSetup(ps, dim=dim)
    seed = rng.getrandbits(32)
    spots = [tuple(rng.randrange(size) for _ in range(dim)) for _ in range(5)]
    where = {n: [rng.choice([list, tuple, np.array])(s) for s in rng.sample(spots, 2)] for n in names}
    p.call("setup_coords", setup.setup_coords, size, names[0], where, spoiler=spoil_simulation)
    p.build("setup_coords", setup.setup_coords, size, names[0], where)
    p.call("setup_noise", setup.setup_noise, size, list(names), seed=seed, spoiler=spoil_simulation)
    amounts = {n: rng.choice([1, 2, 0.5]) for n in names[1:]}
    p.call("setup_random_sites", setup.setup_random_sites, size, 2, names[0], amounts,
           buffer=rng.choice([1, None]), seed=seed, spoiler=spoil_simulation)
    p.build("setup_random_sites", setup.setup_random_sites, size, 2, names[0], amounts, buffer=1, seed=seed)
    p.call("setup_random_particles", setup.setup_random_particles, size, 2, 2, names[0],
           list(names[1:]), seed=seed, spoiler=spoil_simulation)
    p.call("setup_interface", setup.setup_interface, size, *names[:2], spoiler=spoil_simulation)
    p.call("setup_particle", setup.setup_particle, size, 2, *names[:2], spoiler=spoil_simulation)
    s = p.call("build_structure", setup.build_structure, size, spoiler=lambda x: False)
    p.call("setup_solid_phase", setup.setup_solid_phase, s, names[0], spoiler=spoil_state)
    state = setup.setup_solid_phase(s, names[0])
    center = rng.choice([list, tuple, np.array])([rng.randrange(size) for _ in range(dim)])
    kept = frozen([s, center])
    setup.add_particle_to_state(s, state, center, 2, names[1])
    mon.require(frozen([s, center]) == kept, "adding a particle changed the structure or its center")


def spoil_simulation(sim):
    spoil_state(sim.state)
    sim.state.set_general_state({"SPOILED": 1})
    sim.structure.add_site("SPOILED", np.array([0.123] * sim.structure.dim))
    return True


def analysis_case(rng, mon, p):
    s = make_structure(rng)
    state = discrete_state(rng, s.site_ids)
    structured = rng.random() < 0.7
    a = StateAnalyzer(s if structured else None)
    kw = {"site_class": rng.choice(["A", None])} if structured else {}
    criteria = [lambda x: x["v"] > 0, lambda x: x[DISCRETE_OCCUPANCY] != "x"][: rng.randint(0, 2)]
    p.call("get_sites", a.get_sites, state, state_criteria=criteria, **kw)
    p.call("get_site_count", a.get_site_count, state, state_criteria=criteria, **kw)
    pairs = {"v": rng.randrange(3), DISCRETE_OCCUPANCY: rng.choice(PHASES)}
    p.call("get_sites_where_equal", a.get_sites_where_equal, state, pairs, **kw)
    p.call("get_site_count_where_equal", a.get_site_count_where_equal, state, search_pairs=pairs, **kw)
    d = DiscreteStepAnalyzer()
    here = d.phases_present(state)
    there = sorted(here)
    spoil_top(here)
    mon.equal(sorted(d.phases_present(state)), there, "the phases follow the list given out")
    p.call("cell_count", d.cell_count, state, rng.choice(PHASES))
    p.call("cell_fraction", d.cell_fraction, state, rng.choice(PHASES))
    p.call("phase_count", d.phase_count, state)
    r = make_result(rng, state)
    ra = DiscreteResultAnalyzer(r)
    before = frozen(r)
    everything = ra.all_phases()
    there = sorted(everything)
    spoil_top(everything)
    mon.equal(sorted(ra.all_phases()), there, "the phases follow the list given out")
    ends = ra.final_phase_fractions()
    there = sorted(ends.items())
    spoil(ends)
    mon.equal(sorted(ra.final_phase_fractions().items()), there, "the fractions follow those given out")
    p.call("phase_fraction_at", ra.phase_fraction_at, rng.randrange(len(r)), rng.choice(PHASES))
    if rng.random() < 0.3:
        ra.plot_phase_fractions()
        ra.plot_phase_counts()
    mon.require(frozen(r) == before, "analyzing a result changed it")


def result_case(rng, mon, p):
    s = make_structure(rng)
    state = discrete_state(rng, s.site_ids)
    r = make_result(rng, state)
    p.call("SimulationResult.as_dict", r.as_dict)
    p.build("a loaded result", SimulationResult.from_dict, r.as_dict())
    sim = Simulation(state, s)
    p.call("Simulation.as_dict", sim.as_dict)
    p.build("a loaded simulation", Simulation.from_dict, sim.as_dict())
    p.call("state_at", sim.state_at, location(rng, s.dim), spoiler=lambda x: False)
    p.call("SimulationState.as_dict", state.as_dict)
    p.build("a loaded state", SimulationState.from_dict, state.as_dict())
    p.call("site_ids", state.site_ids)
    p.call("all_site_states", state.all_site_states, spoiler=spoil_top)
    update = {"SITES": {i: {"v": [i, {"deep": 1}]} for i in state.site_ids()[:3]}, "GENERAL": {"u": [1]}}
    before = frozen(update)
    r.add_step(update)
    mon.require(frozen(update) == before, "add_step changed the update")
    seen = frozen(r)
    mon.require(frozen(update) == before, "reading a result changed the update")
    spoil(update)
    mon.require(frozen(r) == seen, "a result follows an update that was given to it")
    # (states share the values of updates, but not the dictionaries)
    update = {"SITES": {i: {"v": i + 1} for i in state.site_ids()[:3]}, "GENERAL": {"u": 1}}
    before, other = frozen(update), state.copy()
    other.batch_update(update)
    mon.require(frozen(update) == before, "batch_update changed the update")
    seen = frozen(other)
    spoil(update)
    mon.require(frozen(other) == seen, "a state follows an update that was given to it")


def drawing_case(rng, mon, p):
    s = SimpleSquare2DStructureBuilder().build(rng.randint(1, 4))
    state = discrete_state(rng, s.site_ids)
    names = list(PHASES)
    ask = [{DISCRETE_OCCUPANCY: n} for n in PHASES]
    p.build("an artist's colors", DiscreteCellArtist.from_phase_list, names,
            look=lambda a: [a.get_color_from_cell_state(x) for x in ask])
    colors = {n: tuple(rng.randrange(256) for _ in range(3)) for n in PHASES}
    legend = rng.choice([None, {"one": (1, 2, 3), "two": (9, 9, 9)}])
    kept = frozen([colors, legend])
    cells = DiscreteCellArtist(colors, legend=legend)
    artist = SquareGridArtist2D(s, cells)
    options = {"cell_size": rng.choice([4, 9]), "include_legend": rng.random() < 0.5, "label": "Step"}
    p.call("get_img", artist.get_img, state, spoiler=spoil_picture, **options)
    if legend is None:
        p.call("get_legend", cells.get_legend, state)
    else:
        cells.get_legend(state)
    p.call("get_cell_legend_label", cells.get_cell_legend_label, ask[0])
    mon.require(frozen([colors, legend]) == kept, "drawing changed the colors or the legend")


def spoil_picture(img):
    img.paste((1, 2, 3), (0, 0, *img.size))
    return True


class Rule(BasicController):
    """Gives out the same dictionaries and lists again and again."""

    def __init__(self, rng, ids, follow):
        self.follow = follow
        self.updates = {
            i: rng.choice([
                {"v": [i, {"deep": 1}], "w": i}, {"SITES": {i: {"v": i}}, "GENERAL": {"g": [1]}},
                {j: {"v": j} for j in ids[:2]}, {},
            ])
            for i in ids
        }
        self.next = {i: [ids[0]] * rng.randint(0, 2) for i in ids}
        self.choices = list(ids)

    def get_random_site(self, state):
        return self.choices

    def get_state_update(self, site_id, prev_state):
        if self.follow:
            return self.updates[site_id], self.next[site_id]
        return self.updates[site_id]


def run_case(rng, mon, p):
    s = make_structure(rng)
    ids = list(s.site_ids)
    state = discrete_state(rng, ids)
    asynchronous = rng.random() < 0.5
    runner = AsynchronousRunner() if asynchronous else SynchronousRunner()
    rule = Rule(rng, ids, asynchronous)
    own = frozen([rule.updates, rule.next, rule.choices])
    result = p.call("run", runner.run, state, rule, rng.randint(1, 4), spoiler=spoil_result)
    mon.require(
        frozen([rule.updates, rule.next, rule.choices]) == own,
        "a run changed the updates or sites its controller gives out",
    )
    seen = frozen(result)
    spoil([rule.updates, rule.next, rule.choices])
    mon.require(frozen(result) == seen, "a result follows the dictionaries of the rule")
    phases = PhaseSet(PHASES)
    GrowthController(phases, SimpleSquare2DStructureBuilder().build(3), background_phase="void",
                     nb_builder=rng.choice([MooreNbHoodBuilder(1), VonNeumannNbHood2DBuilder(1)]))
    mon.equal(sorted(phases.phases), sorted(PHASES), "a growth model changed the phases")


def spoil_result(result):
    spoil_state(result.initial_state)
    result.add_step({"SITES": {}, "GENERAL": {"SPOILED": 1}})
    spoil_state(result.output)
    return True


PARTS = {
    "coordinates": coordinates_case, "lattices": lattice_case, "structures": structure_case,
    "neighborhoods": neighborhood_case, "setups": setup_case, "analyses": analysis_case,
    "results": result_case, "drawings": drawing_case, "runs": run_case,
}


def case(rng, mon):
    name = rng.choice(list(PARTS))
    p = Probe(rng, mon)
    PARTS[name](rng, mon, p)
    mon.count(name)
    mon.describe({"part": name, "calls": p.log, "draw": rng.getrandbits(30)})
