"""C13: distance and annular neighborhoods hold exactly the sites in range."""
import numpy as np
from pylattica.core import DistanceNeighborhoodBuilder, Lattice, PeriodicStructure
from pylattica.core.neighborhood_builders import AnnularNeighborhoodBuilder
from pylattica.structures.honeycomb import (
    HoneycombNeighborhoodBuilder,
    HoneycombTilingBuilder,
)
from pylattica.structures.square_grid import (
    SimpleSquare2DStructureBuilder,
    SimpleSquare3DStructureBuilder,
)
from pylattica.structures.square_grid.neighborhoods import CircularNeighborhoodBuilder

from vmon import geom

PROP = "C13"
RULE = (
    "random structures (1-3 dimensions, any lattice shape and periodicity, tiled or "
    "irregular, several classes) with random cutoffs and rings, also for one site class, "
    "plus the library's grids with cutoffs at exactly representable distances and the "
    "honeycomb neighborhood; every pair is compared with the brute-force minimum-image "
    "distance (pairs within 0.002 of a cutoff are not judged unless the distance is exact). "
    "Non-trivial: some pairs are neighbors and some are not"
)
CASES = {"quick": 1040, "thorough": 9000}
REQUIRED = ["pairs_in", "pairs_out", "exact_boundary_pairs", "honeycombs", "one_class",
            "crowds", "close_sites"]
BAND = 0.002


def judge(mon, struct, nb, full, periodic, inner, outer, cls=None, exact=False):
    sites = struct.sites()
    stats = {"in": 0, "out": 0}
    pairs = {}
    for s in sites:
        sid = s["_site_id"]
        got = nb.neighbors_of(sid, include_weights=True)
        ids = [x for x, _ in got]
        mon.equal(
            sorted(ids),
            sorted(nb.neighbors_of(sid)),
            "the neighbors with and without weights differ",
        )
        mon.equal(len(set(ids)), len(ids), "a neighbor is listed twice", site=sid)
        weights = dict(got)
        if cls is not None and s["_site_class"] != cls:
            mon.equal(ids, [], "a site of another class got neighbors", site=sid)
            continue
        for t in sites:
            tid = t["_site_id"]
            if tid == sid:
                mon.require(tid not in weights, "a site is its own neighbor", site=sid)
                continue
            key = (min(sid, tid), max(sid, tid))
            if key not in pairs:
                pairs[key] = geom.min_image(
                    np.subtract(s["_location"], t["_location"]), full, periodic
                )
            d = pairs[key]
            edges = [e for e in (inner, outer) if e is not None and abs(d - e) < BAND]
            if edges and not exact:
                continue
            if exact:
                d = round(d, 3)
                if any(abs(d - e) < 1e-9 for e in (inner, outer) if e is not None):
                    mon.count("exact_boundary_pairs")
            want = d < outer and (inner is None or d > inner)
            mon.require(
                (tid in weights) == want,
                "a site in range isn't a neighbor"
                if want
                else "a site out of range is a neighbor",
                site=sid, other=tid, distance=d, inner=inner, outer=outer,
                locations=[list(s["_location"]), list(t["_location"])],
                vectors=full, periodic=periodic,
            )
            if want:
                mon.require(
                    abs(float(weights[tid]) - d) <= 0.0011,
                    "the weight isn't the distance",
                    weight=float(weights[tid]), distance=d, site=sid, other=tid,
                )
            stats["in" if want else "out"] += 1
        extra = [x for x in ids if struct.get_site(x) is None]
        mon.equal(extra, [], "a neighbor that isn't a site")
    mon.count("pairs_in", stats["in"])
    mon.count("pairs_out", stats["out"])
    return stats


def random_builder(rng, lo, hi):
    if rng.random() < 0.6:
        c = rng.uniform(lo, hi)
        cls = rng.choice([DistanceNeighborhoodBuilder, CircularNeighborhoodBuilder])
        return cls(c), None, c
    a, b = sorted([rng.uniform(lo / 2, hi), rng.uniform(lo / 2, hi)])
    return AnnularNeighborhoodBuilder(a, b), a, b


def random_case(rng, mon):
    kind, m = geom.random_matrix(rng)
    m = geom.stretched(rng, mon, m)
    dim = len(m)
    arg, periodic = geom.random_periodic(rng, dim)
    cells = [rng.randint(1, 3 if dim < 3 else 2) for _ in range(dim)]
    full = geom.scaled(m, cells)
    if rng.random() < 0.6:
        frac = rng.random() < 0.5
        motif = geom.random_motif(rng, dim, m, periodic, cells, frac, rng.choice([2, 3, 5]))
        struct = PeriodicStructure.build_from(Lattice(m, arg), cells, motif, frac_coords=frac)
    else:
        struct = PeriodicStructure(Lattice(full, arg))
        outside = not all(periodic) and rng.random() < 0.4
        if outside:
            mon.count("outside_open_cells")

        def spot():
            return [
                rng.uniform(-2.5, 3.5) if outside and not p else rng.uniform(0.02, 0.97)
                for p in periodic
            ]

        names = rng.choice(["AB", ["A", 0], [0, 1], [1, "1"], ["A", "AA"], ["a", "A"]])
        for p in geom.separated_points(
            rng, rng.randint(2, 10) if rng.random() < 0.97 else 40, dim, full, periodic, 0.02,
            lambda: geom.lattice_point(full, spot()),
        ):
            struct.add_site(rng.choice(names), tuple(p))
    size = float(np.linalg.norm(full, axis=1).max())
    reach = rng.choice([0.4, 0.6, 0.8, 1])
    if not all(periodic) and rng.random() < 0.3:
        reach = rng.choice([2, 4, 7])
    builder, inner, outer = random_builder(rng, 0.2, size * reach)
    cls = None
    if rng.random() < 0.25:
        cls = rng.choice(sorted(struct.all_site_classes(), key=repr))
        nb = builder.get(struct, site_class=cls)
        mon.count("one_class")
    else:
        nb = builder.get(struct)
    stats = judge(mon, struct, nb, full, periodic, inner, outer, cls)
    if rng.random() < 0.15:
        # the same builder serves another structure, of the same sites in another order
        other = PeriodicStructure(Lattice(full, arg))
        sites = struct.sites()
        for s in rng.sample(sites, rng.choice([len(sites), rng.randint(1, len(sites))])):
            other.add_site(s["_site_class"], tuple(s["_location"]))
        judge(mon, other, builder.get(other), full, periodic, inner, outer)
        mon.count("builders_reused")
    mon.describe(
        {
            "kind": kind, "vectors": full, "periodic": periodic, "sites": len(struct.sites()),
            "inner": inner, "outer": outer, "class": cls,
        },
        nontrivial=stats["in"] > 0 and stats["out"] > 0,
    )


def grid_case(rng, mon):
    dim = rng.choice([2, 2, 3])
    size = rng.randint(2, 7 if dim == 2 else 3)
    crowded = rng.random() < 0.02
    if crowded or rng.random() < 0.05:
        size = rng.choice([12, 13]) if dim == 2 else rng.choice([5, 6])
        mon.count("large_grids")
    b = SimpleSquare2DStructureBuilder() if dim == 2 else SimpleSquare3DStructureBuilder()
    struct = b.build(size)
    full = (np.eye(dim) * size).tolist()
    if crowded or rng.random() < 0.6:
        inner, outer = None, float(rng.choice([1, 2, 3, 5]))
        if crowded:
            # nearly or really everything is in range
            outer = float(rng.choice([7, 8, 20]))
            mon.count("crowds")
        builder = DistanceNeighborhoodBuilder(outer)
    else:
        inner = float(rng.choice([1, 2, 3]))
        outer = inner + rng.choice([1, 2, 0.5])
        builder = AnnularNeighborhoodBuilder(inner, outer)
    stats = judge(mon, struct, builder.get(struct), full, (True,) * dim, inner, outer, exact=True)
    mon.describe(
        {"grid": size, "dim": dim, "inner": inner, "outer": outer},
        nontrivial=stats["in"] > 0 and stats["out"] > 0,
    )


def close_case(rng, mon):
    """Sites a few thousandths apart, and neighborhoods as small."""
    dim = rng.choice([1, 2, 3])
    full = (np.eye(dim) * rng.choice([1, 2, 0.05])).tolist()
    _, periodic = geom.random_periodic(rng, dim)
    struct = PeriodicStructure(Lattice(full, tuple(periodic)))
    first = [rng.randint(2, 20) / 1000 for _ in range(dim)]
    axis = rng.randrange(dim)
    for k in rng.sample(range(0, 24), rng.randint(2, 9)):
        p = list(first)
        p[axis] = round(p[axis] + k / 1000, 3)
        struct.add_site(rng.choice("AB"), tuple(p))
    inner = rng.choice([None, None, rng.choice([0, 0.0015, 0.0025, 0.0045])])
    outer = (inner or 0) + rng.choice([0.0015, 0.0035, 0.0075, 0.0125, 0.0495])
    outer = round(outer, 6)
    builder = (
        DistanceNeighborhoodBuilder(outer) if inner is None
        else AnnularNeighborhoodBuilder(inner, outer)
    )
    # (the outer radius is no whole number of thousandths, or much larger)
    stats = judge(mon, struct, builder.get(struct), full, periodic, inner, outer, exact=True)
    mon.count("close_sites")
    mon.describe(
        {"close": sorted(list(map(float, s["_location"])) for s in struct.sites()),
         "inner": inner, "outer": outer},
        nontrivial=stats["in"] > 0 and stats["out"] > 0,
    )


def honeycomb_case(rng, mon):
    size = rng.choice([rng.randint(3, 6), (rng.randint(3, 6), rng.randint(3, 6))])
    struct = HoneycombTilingBuilder().build(size)
    nb = HoneycombNeighborhoodBuilder().get(struct)
    full = np.array(struct.lattice.vecs, dtype=float).tolist()
    stats = judge(mon, struct, nb, full, (True, True), None, 1.01)
    for s in struct.sites():
        mon.equal(
            len(nb.neighbors_of(s["_site_id"])), 6, "a cell of the honeycomb hasn't 6 neighbors"
        )
    mon.count("honeycombs")
    mon.describe({"honeycomb": size}, nontrivial=stats["out"] > 0)


def case(rng, mon):
    r = rng.random()
    if r < 0.04:
        close_case(rng, mon)
    elif r < 0.7:
        random_case(rng, mon)
    elif r < 0.92:
        grid_case(rng, mon)
    else:
        honeycomb_case(rng, mon)
