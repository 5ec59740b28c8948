"""C11: a built structure has exactly the motif's sites in every cell."""
import numpy as np
from pylattica.core import Lattice, PeriodicStructure, StructureBuilder
from pylattica.structures.honeycomb import HoneycombTilingBuilder
from pylattica.structures.square_grid import (
    SimpleSquare2DStructureBuilder,
    SimpleSquare3DStructureBuilder,
)

from vmon import geom

PROP = "C11"
RULE = (
    "random lattices (1-3 dimensions, any shape and periodicity), motifs with several "
    "classes in Cartesian or fractional coordinates (also reaching outside the cell), and "
    "numbers of cells per direction, built through build_from, StructureBuilder (int and "
    "tuple sizes) and the library's square and honeycomb builders; sites are matched one "
    "to one with a tiling computed from the definition. Non-trivial: 2 or more sites"
)
CASES = {"quick": 3200, "thorough": 20000}
REQUIRED = ["structures", "sites_matched", "size_errors", "oblique", "fractional",
            "moved_motifs", "builders_reused",
            "built_again", "four_dimensions",
            "moved_in_the_open"]


def inspect(mon, rng, struct, tiling):
    near = np.allclose
    mon.require(
        near(struct.lattice.matrix, tiling.matrix, rtol=0, atol=1e-9)
        and tuple(bool(x) for x in struct.lattice.periodic) == tiling.periodic,
        "the structure's lattice isn't the scaled lattice",
        got=np.array(struct.lattice.matrix).tolist(),
        want=tiling.matrix,
    )
    mon.equal(struct.dim, len(tiling.matrix), "wrong dimension")
    geom.check_sites(mon, struct, tiling)
    mon.count("sites_matched", len(tiling.sites))
    classes = sorted({c for c, _ in tiling.sites}, key=repr)
    mon.equal(sorted(struct.all_site_classes(), key=repr), classes, "wrong site classes")
    by_class = {}
    for s in struct.sites():
        sid = s["_site_id"]
        by_class.setdefault(s["_site_class"], []).append(sid)
        loc = np.asarray(s["_location"], dtype=float)
        mon.equal(struct.site_class(sid), s["_site_class"], "site_class differs")
        mon.require(
            near(struct.site_location(sid), loc, rtol=0, atol=1e-12),
            "site_location differs",
        )
        mon.equal(struct.get_site(sid)["_site_id"], sid, "get_site gives another site")
        # in the cell, along the directions that have one
        f = geom.frac_of(loc, tiling.matrix)
        slack = 0.0015 * np.abs(np.linalg.inv(np.array(tiling.matrix))).sum(axis=0)
        for i, per in enumerate(tiling.periodic):
            if per:
                mon.require(
                    -slack[i] <= f[i] < 1 + slack[i],
                    "a site is stored outside the cell",
                    frac=f.tolist(),
                )
    for c in classes:
        mon.equal(
            sorted(s["_site_id"] for s in struct.sites(site_class=c)),
            sorted(by_class[c]),
            "sites(site_class) differs from the sites of that class",
        )
    mon.equal(struct.sites(site_class="no such class"), [], "sites of a class there isn't")
    for sid in (10**9, -1, len(tiling.sites)):
        mon.equal(struct.get_site(sid), None, "a site for an id there isn't", id=sid)
    mon.count("structures")


def case(rng, mon):
    r = rng.random()
    if r < 0.15:
        return library_case(rng, mon)
    huge = rng.random() < 0.003
    kind, m = geom.random_matrix(rng, 4 if not huge and rng.random() < 0.02 else None)
    m = geom.stretched(rng, mon, m)
    dim = len(m)
    if dim == 4:
        mon.count("four_dimensions")
    arg, periodic = geom.random_periodic(rng, dim)
    cells = [rng.randint(1, 4 if dim < 3 else 3 if dim == 3 else 2) for _ in range(dim)]
    if rng.random() < 0.15:
        cells = [cells[0]] * dim
    if rng.random() < 0.02 and dim < 4:
        cells = {1: [70], 2: [11, 8], 3: [5, 6, 4]}[dim]
        rng.shuffle(cells)
        mon.count("large_tilings")
    if huge:
        cells = {1: [1100], 2: [34, 31], 3: [11, 9, 11]}[dim]
        rng.shuffle(cells)
        mon.count("thousand_sites")
    frac = rng.random() < 0.5
    motif = geom.random_motif(rng, dim, m, periodic, cells, frac, 1 if huge else 4)
    if rng.random() < 0.3:
        # some sites given by an image outside the unit cell
        moved = {}
        for c, vecs in motif.items():
            moved[c] = []
            for v in vecs:
                # (periodic or not: elsewhere only the whole tiling moves along)
                k = [rng.randint(-2, 3) for _ in cells]
                if rng.random() < 0.3:
                    k = [n * x for n, x in zip(cells, k)]
                off = k if frac else geom.lattice_point(m, k)
                moved[c].append(tuple(a + b for a, b in zip(v, off)))
        motif = moved
        mon.count("moved_motifs")
        if not all(periodic):
            mon.count("moved_in_the_open")
    tiling = geom.Tiling(m, periodic, cells, motif, frac)
    given = {c: [tuple(v) for v in vs] for c, vs in motif.items()}
    if len(given) == 1 and rng.random() < 0.4:
        motif_arg = list(given.values())[0]
        only = True
    else:
        motif_arg, only = given, False
    mon.describe(
        {
            "kind": kind,
            "vectors": m,
            "periodic": periodic,
            "cells": cells,
            "motif": given,
            "fractional": frac,
        },
        nontrivial=len(tiling.sites) >= 2,
    )
    lat = Lattice(m, arg)
    if rng.random() < 0.5 and not only:
        b = StructureBuilder(lat, motif_arg)
        b.frac_coords = frac
        equal_sizes = len(set(cells)) == 1
        size = cells[0] if equal_sizes and rng.random() < 0.7 else tuple(cells)
        if isinstance(size, int) and rng.random() < 0.2:
            size = np.int64(size)
            mon.count("numpy_sizes")
        struct = b.build(size)
        bad = tuple(cells) + (1,) if rng.random() < 0.5 else tuple(cells)[:-1]
        mon.raises(
            ValueError, lambda: b.build(bad), "a size of the wrong dimension is accepted"
        )
        mon.count("size_errors")
        if rng.random() < 0.3:
            built_again(rng, mon, b, size, tiling)
        if rng.random() < 0.3:
            rebuild(rng, mon, b, m, periodic, motif, frac)
    else:
        struct = PeriodicStructure.build_from(
            lat, rng.choice([list, tuple])(cells), motif_arg, frac_coords=frac
        )
    if only:
        # a plain list of sites makes sites of a single class, whatever its name
        names = struct.all_site_classes()
        mon.equal(len(names), 1, "a motif without classes makes several classes")
        tiling.sites = [(names[0], p) for _, p in tiling.sites]
    inspect(mon, rng, struct, tiling)
    mon.require(
        np.allclose(lat.matrix, m, rtol=0, atol=0), "building changed the unit lattice"
    )
    if kind in ("oblique", "triclinic", "sheared"):
        mon.count("oblique")
    if frac:
        mon.count("fractional")


def built_again(rng, mon, builder, size, tiling):
    """What becomes of a structure is no matter of those built later."""
    first = builder.build(size)
    spot = tuple(geom.lattice_point(tiling.matrix, [0.0137] * first.dim))
    if first.id_at(spot) is None:
        first.add_site("late", spot)
    first.get_site(first.site_ids[0])["_site_class"] = "changed"
    second = builder.build(size)
    geom.check_sites(mon, second, tiling)
    mon.equal(
        len(second.site_ids), len(tiling.sites), "another structure's sites were built"
    )
    mon.count("built_again")


def rebuild(rng, mon, builder, m, periodic, motif, frac):
    """The same builder makes structures of other sizes, one after another."""
    dim = len(m)
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.4:
            size = rng.randint(1, 5 if dim < 3 else 3)
            cells = [size] * dim
        else:
            cells = [rng.randint(1, 3) for _ in range(dim)]
            if rng.random() < 0.3:
                cells = [1] * dim
                cells[rng.randrange(dim)] = rng.randint(8, 15)
            size = tuple(cells)
        tiling = geom.Tiling(m, periodic, cells, motif, frac)
        full = tiling.matrix
        spots = [p for _, p in tiling.sites]
        if len(spots) > 60 or any(
            geom.min_image(np.subtract(p, q), full, periodic) < 0.02
            for i, p in enumerate(spots) for q in spots[:i]
        ):
            continue
        inspect(mon, rng, builder.build(size), tiling)
        mon.count("builders_reused")


def library_case(rng, mon):
    which = rng.choice(["2d", "2d", "3d", "honeycomb"])
    b = {
        "2d": SimpleSquare2DStructureBuilder,
        "3d": SimpleSquare3DStructureBuilder,
        "honeycomb": HoneycombTilingBuilder,
    }[which]()
    dim = 3 if which == "3d" else 2
    cells = [rng.randint(1, 6 if dim == 2 else 4) for _ in range(dim)]
    if rng.random() < 0.5:
        cells = [cells[0]] * dim
        size = cells[0] if rng.random() < 0.8 else tuple(cells)
    else:
        size = tuple(cells)
    if rng.random() < 0.4:
        # of another size first
        other = [rng.randint(1, 12 if dim == 2 else 5) for _ in range(dim)]
        mon.equal(
            len(b.build(tuple(other)).sites()), int(np.prod(other)), "wrong number of sites"
        )
        mon.count("builders_reused")
    struct = b.build(size)
    m = np.array(b.lattice.vecs, dtype=float).tolist()
    cls = struct.all_site_classes()
    mon.equal(len(cls), 1, "the grid has several site classes")
    pos = (0.5, 0.5) if which == "honeycomb" else (0.0,) * dim
    tiling = geom.Tiling(m, (True,) * dim, cells, {cls[0]: [pos]}, which == "honeycomb")
    mon.describe(
        {"library": which, "size": size}, nontrivial=len(tiling.sites) >= 2
    )
    inspect(mon, rng, struct, tiling)
    if which != "honeycomb":
        # one site at every integer point
        mon.equal(
            sorted(tuple(map(float, s["_location"])) for s in struct.sites()),
            sorted(
                tuple(map(float, p))
                for p in np.ndindex(
                    *[
                        int(round(max(abs(np.array(tiling.matrix)[:, j]))))
                        for j in range(dim)
                    ]
                )
            ),
            "the grid's sites aren't the integer points",
        )
    mon.raises(
        ValueError,
        lambda: b.build(tuple([2] * (dim + 1))),
        "a size of the wrong dimension is accepted",
    )
    mon.count("size_errors")
