"""C14: motif neighborhoods (Moore, von Neumann, custom) are exactly the offset sites."""
import itertools
import math

import numpy as np
from pylattica.core import Lattice, PeriodicStructure, StructureBuilder
from pylattica.core.coordinate_utils import get_points_in_box, get_points_in_cube
from pylattica.core.distance_map import EuclideanDistanceMap, ManhattanDistanceMap
from pylattica.core.neighborhood_builders import MotifNeighborhoodBuilder
from pylattica.structures.square_grid import (
    MooreNbHoodBuilder,
    SimpleSquare2DStructureBuilder,
    SimpleSquare3DStructureBuilder,
    VonNeumannNbHood2DBuilder,
    VonNeumannNbHood3DBuilder,
)

from vmon import geom

PROP = "C14"
RULE = (
    "Moore and von Neumann neighborhoods of random size on square and rectangular grids "
    "in 2 and 3 dimensions, and custom motifs (tuples or lists, directed, with and "
    "without the zero vector, some pointing at no site) on grids with missing sites, "
    "several site classes, skewed cells and any periodicity, all on multiples of 0.05; "
    "every site's neighbors and weights are compared with offsets applied by hand modulo "
    "the lattice. Non-trivial: some offset crosses the boundary of the cell"
)
CASES = {"quick": 1040, "thorough": 9000}
REQUIRED = [
    "moore", "von_neumann", "custom", "wrapped_offsets", "missing_positions", "one_class",
    "nonperiodic_cases", "list_motifs", "maps_and_boxes", "large_motifs", "other_dimensions",
]


def box(size, dim):
    return itertools.product(range(-size, size + 1), repeat=dim)


def moore(size, dim):
    return [v for v in box(size, dim) if any(v)]


def von_neumann(size, dim):
    return [v for v in box(size, dim) if 0 < sum(abs(x) for x in v) <= size]


def judge(mon, struct, nb, offsets, full, periodic, cls=None):
    """Every site's neighbors against its offsets; returns how many wrapped."""
    wanted, missing = geom.motif_neighbors(struct, offsets, full, periodic)
    mon.count("missing_positions", missing)
    wrapped = 0
    sites = struct.sites()
    for s in sites:
        sid = s["_site_id"]
        want = {}
        if cls is None or s["_site_class"] == cls:
            for tid, hits in wanted[sid].items():
                want[tid] = [math.sqrt(sum(x * x for x in v)) for v, _ in hits]
                wrapped += sum(w for _, w in hits)
        ids = nb.neighbors_of(sid)
        mon.require(
            sorted(ids) == sorted(want),
            "the neighbors aren't the sites at the motif's offsets",
            site=sid, location=list(s["_location"]), got=sorted(ids), want=sorted(want),
            offsets=offsets, vectors=full, periodic=periodic,
        )
        weighted = nb.neighbors_of(sid, include_weights=True)
        mon.require(
            sorted(x for x, _ in weighted) == sorted(want),
            "the neighbors with and without weights differ",
            site=sid,
        )
        for tid, w in weighted:
            mon.require(
                any(abs(float(w) - d) <= 0.0051 for d in want[tid]),
                "a neighbor's weight isn't the length of the offset to it",
                site=sid, other=tid, weight=float(w), lengths=want[tid],
            )
    mon.count("wrapped_offsets", wrapped)
    mon.count("sites_judged", len(sites))
    return wrapped


def named_case(rng, mon):
    dim = rng.choice([2, 2, 3])
    b = SimpleSquare2DStructureBuilder() if dim == 2 else SimpleSquare3DStructureBuilder()
    hi = 8 if dim == 2 else 4
    if rng.random() < 0.06:
        hi = 15 if dim == 2 else 7
    if rng.random() < 0.5:
        sizes = (rng.randint(2, hi),) * dim
        struct = b.build(sizes[0])
    else:
        sizes = tuple(rng.randint(1, hi) for _ in range(dim))
        struct = b.build(sizes)
    # the builder's lattice vectors are the axes, the first two exchanged
    extent = (sizes[1], sizes[0], *sizes[2:])
    full = np.diag(extent).astype(float).tolist()
    size = rng.randint(1, 3 if dim == 2 else 2)
    if rng.random() < 0.06:
        size = rng.choice([4, 5, 6, 8, 11]) if dim == 2 else rng.choice([3, 4, 5, 6])
        # (long in one direction, to tell the offsets from their images)
        sizes = [rng.randint(1, 4 if dim == 2 else 2) for _ in range(dim)]
        sizes[rng.randrange(dim)] = 2 * size + rng.randint(1, 3)
        sizes = tuple(sizes)
        struct = b.build(sizes)
        extent = (sizes[1], sizes[0], *sizes[2:])
        full = np.diag(extent).astype(float).tolist()
        mon.count("large_sizes")
    if rng.random() < 0.5:
        builder, offsets = MooreNbHoodBuilder(size, dim=dim), moore(size, dim)
        if size == 1 and dim == 2 and rng.random() < 0.3:
            builder = MooreNbHoodBuilder()
        mon.count("moore")
        name = "moore"
    else:
        cls = VonNeumannNbHood2DBuilder if dim == 2 else VonNeumannNbHood3DBuilder
        builder, offsets = cls(size), von_neumann(size, dim)
        if size == 1 and dim == 2 and rng.random() < 0.3:
            builder = VonNeumannNbHood2DBuilder()
        mon.count("von_neumann")
        name = "von Neumann"
    if rng.random() < 0.03:
        # other dimensions
        dim = rng.choice([1, 4])
        sizes = tuple(rng.randint(1, 4) for _ in range(dim))
        extent = sizes
        size = 1 if dim == 4 else rng.randint(1, 3)
        full = np.diag(sizes).astype(float).tolist()
        b = StructureBuilder(Lattice(np.eye(dim).tolist()), {"A": [(0,) * dim]})
        struct = b.build(sizes)
        builder, offsets = MooreNbHoodBuilder(size, dim=dim), moore(size, dim)
        mon.count("other_dimensions")
    nb = builder.get(struct)
    wrapped = judge(mon, struct, nb, offsets, full, (True,) * dim)
    if min(extent) > 2 * size:
        # every cell of a large enough periodic grid has all its neighbors
        for s in struct.sites():
            mon.equal(
                len(nb.neighbors_of(s["_site_id"])), len(offsets), "wrong number of neighbors"
            )
    if rng.random() < 0.4:
        # the same builder serves another grid, of as many cells or of others
        turned = rng.sample(sizes, dim)
        if rng.random() < 0.3:
            turned = [rng.randint(1, 5) for _ in range(dim)]
        other = b.build(tuple(turned))
        full = np.array(other.lattice.vecs, dtype=float).tolist()
        judge(mon, other, builder.get(other), offsets, full, (True,) * dim)
        mon.count("builders_reused")
    mon.describe({"nb": name, "size": size, "grid": list(extent)}, nontrivial=wrapped > 0)


def cell_matrix(rng, dim):
    """Lattice vectors with entries on the 0.05 grid; some skewed or permuted."""
    kind = rng.choice(["unit", "ortho", "skew", "skew", "permuted", "rotated"])
    step = lambda lo, hi: rng.randint(int(lo * 20), int(hi * 20)) / 20
    d = [1.0 if kind == "unit" else step(0.8, 2.5) for _ in range(dim)]
    m = np.diag(d)
    if kind == "skew" and dim > 1:
        i, j = rng.sample(range(dim), 2)
        m[i] = m[i] + rng.choice([0.5, 1, -1, 0.25]) * np.eye(dim)[j]
    if kind in ("permuted", "rotated"):
        m = m[rng.sample(range(dim), dim)]
    if kind == "rotated" and dim > 1:
        m = m * rng.choice([1, -1])
    return [[float(round(x, 4)) for x in r] for r in m]


def custom_case(rng, mon):
    dim = rng.choice([1, 2, 2, 2, 3])
    m = geom.stretched(rng, mon, cell_matrix(rng, dim))
    arg, periodic = geom.random_periodic(rng, dim)
    if not all(periodic):
        mon.count("nonperiodic_cases")
    cells = [rng.randint(1, 5 if dim < 3 else 3) for _ in range(dim)]
    if rng.random() < 0.02:
        cells = {1: [50], 2: [9, 12], 3: [5, 4, 6]}[dim]
    full = geom.scaled(m, cells)
    struct = PeriodicStructure(Lattice(full, arg))
    # one or two kinds of positions in every cell, some of them left out
    basis = [[0.0] * dim]
    if rng.random() < 0.6:
        basis.append([rng.choice([0.25, 0.3, 0.4, 0.5]) * 1.0 for _ in range(dim)])
        basis[1] = [round(x, 3) for x in basis[1]]
    keep = rng.choice([1.0, 1.0, 0.8, 0.5])
    placed = []
    names = rng.choice(["AB", ["A", 0], [0, 1], [1, "1"], ["A", "AA"], ["a", "A"]])
    # (in a direction that isn't periodic, the cell is no limit)
    away = [0] * dim
    if not all(periodic) and rng.random() < 0.3:
        away = [0 if x else rng.randint(-6, 6) for x in periodic]
        mon.count("outside_open_cells")
    for c in itertools.product(*[range(n) for n in cells]):
        for k, off in enumerate(basis):
            if rng.random() > keep and placed:
                continue
            c = [a + b for a, b in zip(c, away)]
            p = [o + x for o, x in zip(geom.lattice_point(m, c), off)]
            if any(geom.same_place(p, q, full, periodic, 0.04) for q in placed):
                continue
            placed.append(p)
            struct.add_site(names[k] if rng.random() < 0.9 else "C", tuple(p))
    # offsets: lattice translations, translations plus the basis difference, and junk
    offsets = []
    many = rng.random() < 0.02
    if many:
        mon.count("large_motifs")
    for _ in range(110 if many else rng.choice([1, 2, 3, 4, 5, 6, 7, 16])):
        t = geom.lattice_point(m, [rng.randint(-2, 2) * (1 + many) for _ in range(dim)])
        r = rng.random()
        if len(basis) > 1 and r < 0.4:
            t = [a + rng.choice([1, -1]) * b for a, b in zip(t, basis[1])]
        elif r > 0.9:
            t = [a + 0.1 for a in t]
        t = tuple(round(x, 4) + 0.0 for x in t)
        if t not in offsets:
            offsets.append(t)
    if rng.random() < 0.2:
        offsets.append((0.0,) * dim)
    form = rng.choice(["tuple", "list", "array"])
    motif = {
        "tuple": list,
        "list": lambda o: [list(v) for v in o],
        "array": lambda o: [np.array(v) for v in o],
    }[form](offsets)
    if form == "list":
        mon.count("list_motifs")
    builder = MotifNeighborhoodBuilder(motif)
    cls = None
    if rng.random() < 0.3:
        cls = rng.choice(sorted(struct.all_site_classes(), key=repr))
        mon.count("one_class")
        nb = builder.get(struct, site_class=cls)
    else:
        nb = builder.get(struct)
    mon.count("custom")
    wrapped = judge(mon, struct, nb, offsets, full, periodic, cls)
    if rng.random() < 0.3:
        # the same builder serves another structure, without a trace of the first
        other = PeriodicStructure(Lattice(full, arg))
        rng.shuffle(placed)
        for p in placed[: rng.choice([len(placed), rng.randint(1, len(placed))])]:
            other.add_site("A", tuple(p))
        judge(mon, other, builder.get(other), offsets, full, periodic)
        mon.count("builders_reused")
    mon.describe(
        {
            "vectors": full, "periodic": periodic, "sites": len(placed), "offsets": offsets,
            "class": cls,
        },
        nontrivial=wrapped > 0,
    )


def maps_case(rng, mon):
    """Distance maps and boxes of points."""
    dim = rng.choice([1, 2, 2, 3, 3, 4])
    whole = rng.random() < 0.5
    offsets = {
        tuple(rng.randint(-6, 6) if whole else rng.uniform(-9, 9) for _ in range(dim))
        for _ in range(rng.choice([1, 2, 5, 30]))
    }
    offsets = list(offsets | {(0,) * dim} if rng.random() < 0.3 else offsets)
    euclid, manhattan = EuclideanDistanceMap(offsets), ManhattanDistanceMap(offsets)
    for o in offsets:
        want = math.sqrt(sum(x * x for x in o))
        mon.require(
            abs(float(euclid.get_dist(o)) - want) <= 0.0051,
            "a distance map gives another distance", offset=o, got=euclid.get_dist(o),
        )
        want = sum(abs(x) for x in o)
        mon.require(
            abs(float(manhattan.get_dist(o)) - want) <= 1e-9,
            "a Manhattan distance map gives another distance", offset=o,
            got=manhattan.get_dist(o),
        )
    lows = [rng.randint(-4, 3) for _ in range(dim)]
    highs = [x + rng.choice([0, 1, 2, 3, 5]) for x in lows]
    if rng.random() < 0.4:
        lows, highs = [lows[0]] * dim, [highs[0]] * dim
        got = get_points_in_cube(lows[0], highs[0], dim)
    else:
        got = get_points_in_box(lows, highs)
    mon.equal(
        sorted(map(tuple, got)),
        sorted(itertools.product(*[range(a, b) for a, b in zip(lows, highs)])),
        "a box doesn't list its integer points", lows=lows, highs=highs,
    )
    mon.describe({"offsets": offsets, "box": [lows, highs]}, nontrivial=len(got) > 1)
    mon.count("maps_and_boxes")


def case(rng, mon):
    if rng.random() < 0.05:
        maps_case(rng, mon)
    elif rng.random() < 0.4:
        named_case(rng, mon)
    else:
        custom_case(rng, mon)
