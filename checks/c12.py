"""C12: a site is found at every periodic image of its place, and nowhere else."""
import numpy as np
from pylattica.core import Lattice, PeriodicStructure, Simulation, SimulationState

from vmon import geom
from vmon.model import snapshot

PROP = "C12"
RULE = (
    "random lattices (1-3 dimensions, any shape and periodicity) filled by tiling motifs or "
    "site by site (also given by images outside the cell), then looked up with id_at, "
    "site_at, class_at and Simulation.state_at at random images of every site (exact and "
    "stored locations), at places 0.003 or more off, and across directions that aren't "
    "periodic; adding a site at an image of an occupied place must fail without a trace. "
    "Non-trivial: 2 or more sites"
)
CASES = {"quick": 2000, "thorough": 20000}
REQUIRED = ["hits", "misses", "rejected", "boundary_sites", "across_open_boundary"]


def occupant(p, sites, m, periodic, tol):
    """The ids of the sites with an image within tol of p."""
    return [sid for sid, _, q in sites if geom.min_image(np.subtract(p, q), m, periodic) <= tol]


def case(rng, mon):
    kind, m = geom.random_matrix(rng, 4 if rng.random() < 0.02 else None)
    m = geom.stretched(rng, mon, m)
    dim = len(m)
    arg, periodic = geom.random_periodic(rng, dim)
    cells = [rng.randint(1, 3 if dim < 4 else 2) for _ in range(dim)]
    many = False
    if rng.random() < 0.03 and dim < 4:
        cells = {1: [60], 2: [8, 10], 3: [4, 3, 5]}[dim]
        many = True
        rng.shuffle(cells)
        mon.count("large_structures")
    odd = not many and rng.random() < 0.25
    if odd:
        cells = [1] * dim
        # middles of the cell and its edges lie halfway between rounded places
        m = [[(round(x * 1000) // 2 * 2 + 1) / 1000 if x else 0.0 for x in r] for r in m]
    sites = []  # (id, class, exact location)
    if not odd and (many or rng.random() < 0.6):
        frac = rng.random() < 0.5
        motif = geom.random_motif(rng, dim, m, periodic, cells, frac)
        tiling = geom.Tiling(m, periodic, cells, motif, frac)
        struct = PeriodicStructure.build_from(Lattice(m, arg), cells, motif, frac_coords=frac)
        full = tiling.matrix
        match = geom.check_sites(mon, struct, tiling)
        sites = [(sid, *tiling.sites[i]) for sid, i in match.items()]
    else:
        full = geom.scaled(m, cells)
        struct = PeriodicStructure(Lattice(full, arg))
        # (in a direction that isn't periodic, the cell is no limit)
        outside = not odd and not all(periodic) and rng.random() < 0.4
        if outside:
            mon.count("outside_open_cells")
        pts = geom.separated_points(
            rng,
            rng.randint(1, 10),
            dim,
            full,
            periodic,
            0.02,
            lambda: geom.lattice_point(
                full,
                [
                    rng.uniform(-2.5, 3.5) if outside and not per
                    else rng.choice([0.0, 0.5] + [rng.uniform(0.02, 0.97)] * (0 if odd else 2))
                    for per in periodic
                ],
            ),
        )
        for p in pts:
            k = [rng.randint(-2, 2) if x else 0 for x in periodic]
            at = [a + b for a, b in zip(p, geom.lattice_point(full, k))]
            cls = rng.choice(["A", "B", "C", "", 0, 1, "0", "1", "a", "AB"])
            sid = struct.add_site(cls, rng.choice([tuple, list, np.array])(at))
            mon.require(
                sid not in [s for s, _, _ in sites], "add_site gives an id twice", id=sid
            )
            sites.append((sid, cls, p))
    mon.describe(
        {
            "kind": kind,
            "vectors": full,
            "periodic": periodic,
            "sites": [(s, c, list(map(float, p))) for s, c, p in sites[:4]],
            "n": len(sites),
        },
        nontrivial=len(sites) >= 2,
    )
    state = SimulationState.from_struct(struct)
    for sid, _, _ in sites:
        state.set_site_state(sid, {"mark": f"m{sid}"})
    sim = Simulation(state, struct)

    for sid, cls, p in rng.sample(sites, min(len(sites), 14)):
        if any(abs(x - round(x)) < 1e-9 for x in geom.frac_of(p, full)):
            mon.count("boundary_sites")
        for _ in range(3):
            reach = rng.choice([3] * 12 + [200, 3000])
            k = [rng.randint(-reach, reach) if x else 0 for x in periodic]
            base = p if rng.random() < 0.6 else struct.site_location(sid)
            loc = tuple(float(a + b) for a, b in zip(base, geom.lattice_point(full, k)))
            w = dict(site=sid, location=loc, image=k, vectors=full, periodic=periodic)
            mon.equal(struct.id_at(loc), sid, "a site isn't found at an image", **w)
            got = struct.site_at(loc)
            mon.require(
                got is not None and got["_site_id"] == sid and got["_site_class"] == cls,
                "site_at gives another site",
                **w,
            )
            mon.require(
                geom.same_place(got["_location"], p, full, periodic, 1.6e-3),
                "site_at gives another location",
                **w,
            )
            mon.equal(struct.class_at(loc), cls, "class_at gives another class", **w)
            st = sim.state_at(loc)
            mon.require(
                st is not None and st.get("mark") == f"m{sid}",
                "state_at gives another site's state",
                **w,
            )
            mon.count("hits")

    def miss(loc, why):
        loc = tuple(float(x) for x in loc)
        w = dict(location=loc, vectors=full, periodic=periodic)
        mon.equal(struct.id_at(loc), None, why, **w)
        mon.equal(struct.site_at(loc), None, why, **w)
        mon.equal(struct.class_at(loc), None, why, **w)
        mon.equal(sim.state_at(loc), None, why, **w)
        mon.count("misses")

    for _ in range(40 if many else 6):
        sid, cls, p = rng.choice(sites)
        if rng.random() < 0.5:
            off = [0.0] * dim
            off[rng.randrange(dim)] = rng.choice([-1, 1]) * rng.choice(
                [0.003, 0.0035, 0.004, rng.uniform(0.003, 0.02)]
            )
            loc = np.add(p, off)
        else:
            loc = geom.lattice_point(full, [rng.uniform(-1, 2) for _ in range(dim)])
        if not occupant(loc, sites, full, periodic, 0.0029):
            miss(loc, "a site is found where there is none")
        open_dirs = [i for i, x in enumerate(periodic) if not x]
        if open_dirs:
            k = [rng.randint(-1, 1) if x else 0 for x in periodic]
            k[rng.choice(open_dirs)] = rng.choice([-2, -1, 1, 2])
            loc = np.add(p, geom.lattice_point(full, k))
            if not occupant(loc, sites, full, periodic, 0.0029):
                miss(loc, "a site is found across a boundary that isn't periodic")
                mon.count("across_open_boundary")

    before = [
        (s["_site_id"], s["_site_class"], list(map(float, s["_location"])))
        for s in struct.sites()
    ]
    for sid, cls, p in rng.sample(sites, min(3, len(sites))):
        k = [rng.randint(-2, 2) if x else 0 for x in periodic]
        loc = tuple(float(a + b) for a, b in zip(p, geom.lattice_point(full, k)))
        mon.raises(
            Exception,
            lambda: struct.add_site(rng.choice([cls, "other"]), loc),
            f"a second site is accepted at an image of site {sid}: {loc}",
        )
        mon.count("rejected")
    after = [
        (s["_site_id"], s["_site_class"], list(map(float, s["_location"])))
        for s in struct.sites()
    ]
    mon.equal(after, before, "a rejected site leaves a trace")
    mon.equal(sorted(struct.site_ids), sorted(s for s, _, _ in sites), "site_ids changed")
    # and a free place can still be filled
    for _ in range(10):
        loc = geom.lattice_point(full, [rng.uniform(0.03, 0.96) for _ in range(dim)])
        if not occupant(loc, sites, full, periodic, 0.02):
            sid = struct.add_site("New", tuple(loc))
            mon.require(sid not in [s for s, _, _ in sites], "a new site takes an old id")
            mon.equal(struct.id_at(tuple(loc)), sid, "a new site isn't found")
            for s, _, p in sites[:5]:
                mon.equal(struct.id_at(tuple(map(float, p))), s, "a new site hides another")
            break
    mon.require(snapshot(state) is not None, "state")
