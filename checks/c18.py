"""C18: growth fills empty cells from their neighbors and never touches occupied ones."""
import collections
import itertools
import math

import numpy as np
from pylattica.core import Lattice, PeriodicStructure, SimulationState, SynchronousRunner
from pylattica.core.neighborhood_builders import (
    MotifNeighborhoodBuilder,
    StochasticNeighborhoodBuilder,
)
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY, VACANT
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import (
    GrowthSetup,
    MooreNbHoodBuilder,
    PseudoHexagonalNeighborhoodBuilder2D,
    PseudoHexagonalNeighborhoodBuilder3D,
    PseudoPentagonalNeighborhoodBuilder,
    VonNeumannNbHood2DBuilder,
    VonNeumannNbHood3DBuilder,
)

from vmon import geom
from vmon.model import snapshot

PROP = "C18"
RULE = (
    "growth runs (serial and parallel) on random grids of 2 and 3 dimensions, periodic or "
    "not, with up to 4 phases and any background phase, with the default Moore, named, "
    "custom and stochastic neighborhoods, from random seeds; every step is compared cell "
    "by cell with the majority rule over neighbors computed by hand. GrowthSetup.grow on "
    "random sizes, phases and ratios: everything filled where the neighborhood reaches, no "
    "phase but the nuclei's, no more regions than nuclei. Non-trivial: some cell changed "
    "while another was already occupied"
)
CASES = {"quick": 340, "thorough": 2500}
PARALLEL = True
REQUIRED = ["grown_cells", "kept_cells", "contested_cells", "isolated_cells", "grow_calls",
            "ties", "parallel_runs", "stochastic_runs", "default_nb", "custom_background",
            "vacant_as_a_phase", "crowded", "long_ways"]


def box(size, dim):
    return [v for v in itertools.product(range(-size, size + 1), repeat=dim) if any(v)]


def vn(size, dim):
    return [v for v in box(size, dim) if sum(map(abs, v)) <= size]


def neg(v):
    return tuple(-x for x in v)


HEX2 = [vn(1, 2) + [v, neg(v)] for v in [(1, 1), (1, -1)]]
HEX3 = [vn(1, 3) + [v, neg(v)] for v in [(1, 1, 1), (1, 1, -1), (1, -1, 1), (-1, 1, 1)]]
PENTA = [[v for v in box(1, 2) if v[i] != s] for i in (0, 1) for s in (1, -1)]


def pick_nb(rng, dim):
    """(builder or None for the default, list of constituents' offsets)"""
    r = rng.random()
    if r < 0.3:
        return None, [box(1, dim)]
    if r < 0.55:
        size = rng.choice([1, 1, 2])
        cls = VonNeumannNbHood2DBuilder if dim == 2 else VonNeumannNbHood3DBuilder
        return rng.choice(
            [
                (cls(size), [vn(size, dim)]),
                (MooreNbHoodBuilder(size, dim=dim), [box(size, dim)]),
            ]
        )
    if r < 0.75:
        offs = rng.sample(box(1, dim), rng.randint(1, 5))
        return MotifNeighborhoodBuilder(offs), [offs]
    if r < 0.85:
        parts = [rng.sample(box(1, dim), rng.randint(1, 4)) for _ in range(2)]
        return StochasticNeighborhoodBuilder(
            [MotifNeighborhoodBuilder(p) for p in parts]
        ), parts
    if dim == 3:
        return PseudoHexagonalNeighborhoodBuilder3D(), HEX3
    return rng.choice(
        [
            (PseudoHexagonalNeighborhoodBuilder2D(), HEX2),
            (PseudoPentagonalNeighborhoodBuilder(), PENTA),
        ]
    )


def run_case(rng, mon):
    dim = rng.choice([2, 2, 3])
    cells = [rng.randint(3, 8 if dim == 2 else 4) for _ in range(dim)]
    if rng.random() < 0.02:
        cells = [16, 13] if dim == 2 else [6, 5, 6]
    arg, periodic = geom.random_periodic(rng, dim)
    full = np.diag(cells).astype(float).tolist()
    struct = PeriodicStructure(Lattice(full, arg))
    spots = list(itertools.product(*[range(n) for n in cells]))
    rng.shuffle(spots)
    for p in spots[: rng.choice([len(spots), int(len(spots) * 0.9)])]:
        struct.add_site("A", p)
    ids = struct.site_ids
    background = rng.choice([VACANT, VACANT, "empty", "A", 0])
    if background != VACANT:
        mon.count("custom_background")
    phases = [p for p in rng.sample(
        ["A", "B", "C", VACANT, "Na+", "a", "AB"] + rng.choice([[], [], [0, 1, "", "0", "empty2", "Empty", "A ", "vacant", "VACANT "]]),
        rng.randint(1, 4))
              if p != background] or ["E"]
    if VACANT in phases:
        mon.count("vacant_as_a_phase")
    builder, parts = pick_nb(rng, dim)
    wants = [
        {s: set(n) for s, n in geom.motif_neighbors(struct, o, full, periodic)[0].items()}
        for o in parts
    ]
    kw = {}
    if builder is not None:
        kw["nb_builder"] = builder
    else:
        mon.count("default_nb")
    if background != VACANT or rng.random() < 0.5:
        kw["background_phase"] = background
    # the phases of the controller's set don't decide what grows
    listed = rng.choice([[*phases, background]] * 3 + [phases, phases[1:] or ["other"]])
    controller = GrowthController(PhaseSet(listed), struct, **kw)

    density = rng.choice([0.03, 0.1, 0.3, 0.6])
    start = {
        s: rng.choice(phases) if rng.random() < density else background for s in ids
    }
    start[rng.choice(ids)] = rng.choice(phases)
    state = SimulationState()
    for s in ids:
        state.set_site_state(s, {DISCRETE_OCCUPANCY: start[s], "mark": s})
    steps = rng.randint(1, 5) if rng.random() < 0.97 else 20
    parallel = rng.random() < 0.12
    if parallel:
        mon.count("parallel_runs")
        runner = SynchronousRunner(parallel=True, workers=rng.choice([2, 3, 5]))
    else:
        runner = SynchronousRunner()
    if len(parts) > 1:
        mon.count("stochastic_runs")
    result = runner.run(state, controller, steps)
    mon.equal(len(result), steps + 1, "wrong number of steps")
    prev = None
    changed = kept = 0
    for k, st in enumerate(result.steps()):
        sites = snapshot(st)["SITES"]
        mon.equal(sorted(sites), sorted(ids), "a step has other sites")
        for s in ids:
            mon.equal(sites[s].get("mark"), s, "growth changed another value of a site")
        occ = {s: sites[s][DISCRETE_OCCUPANCY] for s in ids}
        if k == 0:
            mon.equal(occ, start, "the run starts from another state")
            prev = occ
            continue
        for s in ids:
            if prev[s] != background:
                mon.require(
                    occ[s] == prev[s], "an occupied cell changed",
                    step=k, site=s, was=prev[s], now=occ[s],
                )
                kept += 1
                mon.count("kept_cells")
                continue
            allowed = set()
            for want in wants:
                t = collections.Counter(
                    prev[n] for n in want[s] if prev[n] != background
                )
                if not t:
                    allowed.add(background)
                    mon.count("isolated_cells")
                else:
                    best = max(t.values())
                    top = {p for p, c in t.items() if c == best}
                    allowed |= top
                    if len(t) > 1:
                        mon.count("contested_cells")
                    if len(top) > 1:
                        mon.count("ties")
            mon.require(
                occ[s] in allowed,
                "an empty cell didn't become its neighbors' commonest phase",
                step=k, site=s, now=occ[s], allowed=sorted(map(str, allowed)),
                parallel=parallel,
            )
            if occ[s] != background:
                changed += 1
                mon.count("grown_cells")
        prev = occ
    mon.describe(
        {
            "grid": cells, "periodic": periodic, "nb": parts, "background": background,
            "start": sorted((s, p) for s, p in start.items() if p != background), "steps": steps,
        },
        nontrivial=changed > 0 and kept > 0,
    )


def regions(occ, nbrs):
    """Connected components of equal phase: counts by phase."""
    seen, count = set(), collections.Counter()
    for s in occ:
        if s in seen:
            continue
        count[occ[s]] += 1
        stack = [s]
        seen.add(s)
        while stack:
            for n in nbrs[stack.pop()]:
                if n not in seen and occ[n] == occ[s]:
                    seen.add(n)
                    stack.append(n)
    return count


def grow_case(rng, mon):
    dim = rng.choice([2, 2, 3])
    size = rng.randint(4, 12) if dim == 2 else rng.randint(3, 5)
    far = rng.random() < 0.2
    if far:
        # one nucleus has a long way to go
        size = rng.randint(14, 30) if dim == 2 else rng.randint(6, 9)
        mon.count("long_ways")
    buffer = rng.choice([None, 1, 2]) if size > 5 else rng.choice([None, 1])
    n = 1 if far else rng.randint(1, 5 if dim == 2 else 3)
    # room enough that a place is left for every nucleus wherever the others are
    while buffer and (n - 1) * (2 * buffer + 1) ** dim * 1.3 > size**dim:
        n -= 1
    if dim == 2:
        builder, offsets = rng.choice(
            [
                (MooreNbHoodBuilder(1), box(1, 2)),
                (VonNeumannNbHood2DBuilder(1), vn(1, 2)),
                (PseudoHexagonalNeighborhoodBuilder2D(), box(1, 2)),
                (MooreNbHoodBuilder(2), box(2, 2)),
            ]
        )
    else:
        builder, offsets = rng.choice(
            [
                (MooreNbHoodBuilder(1, dim=3), box(1, 3)),
                (VonNeumannNbHood3DBuilder(1), vn(1, 3)),
                (VonNeumannNbHood3DBuilder(2), vn(2, 3)),
                (PseudoHexagonalNeighborhoodBuilder3D(), box(1, 3)),
            ]
        )
    if rng.random() < (0.7 if far else 0.15):
        # growth in one direction only along each axis
        steps = [tuple(rng.choice([1, -1]) * (i == j) for j in range(dim)) for i in range(dim)]
        builder = MotifNeighborhoodBuilder(steps)
        offsets = steps + [tuple(-x for x in v) for v in steps]
    phases = rng.sample(["A", "B", "C"], rng.randint(1, 3))
    amts = {p: rng.choice([1, 1, 2, 0.5]) for p in phases}
    background = rng.choice([VACANT, "bg"])
    kw = {} if buffer == 2 and rng.random() < 0.5 else {"buffer": buffer}
    setup = GrowthSetup(PhaseSet([*phases, background]), **({} if dim == 2 else {"dim": 3}))
    if rng.random() < 0.15:
        # on a torus of 2 b + 1 cells no two are more than b apart
        b = rng.choice([1, 2, 2, 3]) if dim == 2 else rng.choice([1, 2])
        given = {} if b == 2 and rng.random() < 0.7 else {"buffer": b}
        mon.raises(
            RuntimeError,
            lambda: setup.grow(2 * b + 1, 2, background, dict(amts), builder, **given),
            f"two nuclei {b} apart or less (buffer {given or 'by default 2'})",
        )
        mon.count("crowded")
    sim = setup.grow(size, n, background, amts, builder, **kw)
    mon.count("grow_calls")
    sites = snapshot(sim.state)["SITES"]
    mon.equal(len(sites), size**dim, "the grown state has another number of sites")
    mon.equal(sorted(sites), sorted(sim.structure.site_ids), "sites and structure differ")
    full = np.array(sim.structure.lattice.vecs, dtype=float).tolist()
    mon.require(
        abs(abs(np.linalg.det(np.array(full))) - size**dim) < 1e-6, "wrong size of the box"
    )
    occ = {s: v[DISCRETE_OCCUPANCY] for s, v in sites.items()}
    mon.require(
        set(occ.values()) <= set(phases),
        "a cell was left empty or took a phase that isn't growing",
        found=sorted(set(occ.values())), phases=phases, size=size, background=background,
    )
    hits, _ = geom.motif_neighbors(sim.structure, offsets, full, (True,) * dim)
    count = regions(occ, {s: list(h) for s, h in hits.items()})
    total = sum(amts.values())
    nuclei = {p: math.ceil(n * a / total - 1e-9) for p, a in amts.items()}
    for p, c in count.items():
        mon.require(
            c <= nuclei[p],
            "a phase has more separate regions than nuclei",
            phase=p, regions=c, nuclei=nuclei[p],
        )
    mon.require(sum(count.values()) <= n, "more separate regions than nuclei", regions=dict(count))
    for p, a in amts.items():
        if n - sum(v for q, v in nuclei.items() if q != p) >= 1:
            mon.require(count[p] > 0, "a phase with nuclei is missing", phase=p, n=n,
                        amts=amts, dim=dim, size=size, buffer=buffer)
    mon.describe(
        {"grow": size, "dim": dim, "n": n, "amts": amts, "buffer": buffer,
         "result": [occ[s] for s in sorted(occ)][:60]},
        nontrivial=n > 1,
    )


def case(rng, mon):
    if rng.random() < 0.75:
        run_case(rng, mon)
    else:
        grow_case(rng, mon)
