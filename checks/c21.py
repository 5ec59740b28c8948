"""C21: conversion to and from pymatgen keeps lattice, species, places and periodicity."""
import itertools
import warnings

import numpy as np
from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter
from pylattica.core import Lattice, PeriodicStructure
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pymatgen.core.lattice import Lattice as PmgLattice
from pymatgen.core.structure import Structure as PmgStructure

from vmon import geom
from vmon.model import snapshot

warnings.filterwarnings("ignore")

PROP = "C21"
RULE = (
    "random 3D lattices of any shape (cubic to triclinic, permuted axes) and periodicity, "
    "with 1 to 8 elements or ions at fractional coordinates inside, on the boundary and "
    "outside of the cell, converted to pylattica (lattice, builder with supercells, "
    "structure and state), from pylattica, and there and back; sites are matched one to one "
    "by species and place modulo the periodic lattice vectors. Non-trivial: 2 or more sites"
)
CASES = {"quick": 2600, "thorough": 12000}
REQUIRED = ["lattices", "to_pylattica", "to_pymatgen", "round_trips", "supercells",
            "partly_periodic", "outside_cell", "ions", "sites_matched", "stretched_cells"]
SPECIES = ["Na", "Cl", "O", "Fe", "H", "Na+", "Cl-", "O2-", "Fe3+", "Si", "D+", "Cu+", "Cu2+",
           "S2-", "U", "X0+"]


def match(mon, got, want, matrix, periodic, what, tol=2e-3):
    """got, want: lists of (species, cartesian place)"""
    mon.equal(len(got), len(want), f"{what}: wrong number of sites")
    left = list(range(len(want)))
    for sp, p in got:
        for i in left:
            if want[i][0] == sp and geom.same_place(p, want[i][1], matrix, periodic, tol):
                left.remove(i)
                mon.count("sites_matched")
                break
        else:
            mon.require(
                False, f"{what}: a site without counterpart", species=sp, place=list(p),
                wanted=[want[i] for i in left], vectors=matrix, periodic=periodic,
            )


def check_matrix(mon, got, want, what):
    mon.require(
        np.shape(got) == np.shape(want) and np.allclose(got, want, atol=1e-8),
        f"{what}: other lattice vectors", got=got, want=want,
    )


def random_sites(rng, mon, m, periodic, n=None, tiled=False):
    def draw():
        f = []
        for p in periodic:
            r = rng.random()
            x = rng.choice([0.0, 0.5, 0.25, 1 / 3, 2 / 3]) if r < 0.45 else rng.uniform(0.02, 0.97)
            # outside of the cell, where there are images
            if rng.random() < 0.1:
                x += rng.choice([-1, 1, 2])
            f.append(x)
        return geom.lattice_point(m, f)

    pts = geom.separated_points(
        rng, n or (rng.randint(1, 8) if rng.random() < 0.95 else 25), 3, m, (True,) * 3 if tiled else periodic, 0.15, draw
    )
    pool = rng.sample(SPECIES, rng.choice([rng.randint(1, 4)] * 4 + [len(SPECIES)]))
    out = [(rng.choice(pool), [float(x) for x in p]) for p in pts]
    if any(not -1e-9 <= x < 1 for _, p in out for x in geom.frac_of(p, m)):
        mon.count("outside_cell")
    if any(s[-1] in "+-" for s, _ in out):
        mon.count("ions")
    return out


def make_pmg(rng, m, periodic, sites):
    lat = PmgLattice(m, pbc=tuple(periodic))
    species = [s for s, _ in sites]
    if rng.random() < 0.5:
        return PmgStructure(
            lat, species, [list(geom.frac_of(p, m)) for _, p in sites], validate_proximity=False
        )
    return PmgStructure(lat, species, [p for _, p in sites], coords_are_cartesian=True)


def pmg_sites(struct):
    return [(s.species_string, [float(x) for x in s.coords]) for s in struct]


def pyl_sites(struct):
    return [(s["_site_class"], [float(x) for x in s["_location"]]) for s in struct.sites()]


def check_state(mon, struct, state):
    want = {
        s["_site_id"]: {"_site_id": s["_site_id"], DISCRETE_OCCUPANCY: s["_site_class"]}
        for s in struct.sites()
    }
    mon.same(snapshot(state)["SITES"], want, "the state isn't each site's species")


def case(rng, mon):
    kind, m = geom.random_matrix(rng, dim=3)
    if rng.random() < 0.6:
        m = geom.stretched(rng, mon, [[2 * x for x in r] for r in m], 0.15)
    arg, periodic = geom.random_periodic(rng, 3)
    if not all(periodic):
        mon.count("partly_periodic")
    conv = PymatgenStructureConverter()

    # lattices, both ways and back
    pmg_lat = conv.to_pymatgen_lattice(Lattice(m, arg))
    check_matrix(mon, pmg_lat.matrix, m, "to pymatgen")
    mon.equal(tuple(map(bool, pmg_lat.pbc)), periodic, "to pymatgen: other periodicity")
    pyl_lat = conv.to_pylattica_lattice(PmgLattice(m, pbc=periodic))
    back = conv.to_pylattica_lattice(pmg_lat)
    for lat in (pyl_lat, back):
        check_matrix(mon, np.array(lat.vecs, dtype=float), m, "to pylattica")
        mon.equal(tuple(map(bool, lat.periodic)), periodic, "to pylattica: other periodicity")
        mon.equal(lat.dim, 3, "to pylattica: not three-dimensional")
    mon.count("lattices")

    how = rng.choice(["to_pylattica", "to_pymatgen", "round", "supercell"])
    tiled = how == "supercell"
    sites = random_sites(rng, mon, m, periodic, rng.randint(1, 3) if tiled else None, tiled)
    if how in ("to_pylattica", "round"):
        pmg = make_pmg(rng, m, periodic, sites)
        struct, state = conv.to_pylattica_structure_and_state(pmg)
        check_matrix(mon, np.array(struct.lattice.vecs, dtype=float), m, "to pylattica")
        mon.equal(tuple(map(bool, struct.lattice.periodic)), periodic, "other periodicity")
        match(mon, pyl_sites(struct), sites, m, periodic, "to pylattica")
        check_state(mon, struct, state)
        match(mon, pmg_sites(pmg), sites, m, periodic, "the pymatgen structure was changed")
        mon.count("to_pylattica")
        if how == "round":
            again = conv.to_pymatgen_structure(struct)
            check_matrix(mon, again.lattice.matrix, m, "there and back")
            mon.equal(tuple(map(bool, again.lattice.pbc)), periodic, "other periodicity")
            match(mon, pmg_sites(again), sites, m, periodic, "there and back")
            mon.count("round_trips")
    elif how == "to_pymatgen":
        struct = PeriodicStructure(Lattice(m, arg))
        for sp, p in sites:
            struct.add_site(sp, tuple(p))
        pmg = conv.to_pymatgen_structure(struct)
        check_matrix(mon, pmg.lattice.matrix, m, "to pymatgen")
        mon.equal(tuple(map(bool, pmg.lattice.pbc)), periodic, "other periodicity")
        match(mon, pmg_sites(pmg), sites, m, periodic, "to pymatgen")
        mon.count("to_pymatgen")
        if rng.random() < 0.5:
            again, state = conv.to_pylattica_structure_and_state(pmg)
            match(mon, pyl_sites(again), sites, m, periodic, "there and back")
            check_state(mon, again, state)
            mon.count("round_trips")
    else:
        builder = conv.to_pylattica_structure_builder(make_pmg(rng, m, periodic, sites))
        cells = tuple(rng.randint(1, 3) for _ in range(3))
        if rng.random() < 0.3:
            cells = (cells[0],) * 3
        struct = builder.build(cells[0] if len(set(cells)) == 1 and rng.random() < 0.5 else cells)
        full = geom.scaled(m, cells)
        check_matrix(mon, np.array(struct.lattice.vecs, dtype=float), full, "supercell")
        mon.equal(tuple(map(bool, struct.lattice.periodic)), periodic, "other periodicity")
        want = []
        for c in itertools.product(*[range(k) for k in cells]):
            o = geom.lattice_point(m, c)
            want += [(sp, [a + b for a, b in zip(o, p)]) for sp, p in sites]
        match(mon, pyl_sites(struct), want, full, periodic, "supercell")
        mon.count("supercells")
    mon.describe(
        {"kind": kind, "vectors": m, "periodic": periodic, "sites": sites, "how": how},
        nontrivial=len(sites) > 1,
    )
