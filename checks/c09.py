"""C09: fractional and Cartesian coordinates, periodization and scaling agree."""
import math

import numpy as np
from pylattica.core import Lattice
from pylattica.core.lattice import pbc_diff_frac_vec, periodize
from pylattica.structures.honeycomb import RhombohedralLattice
from pylattica.structures.square_grid.lattice import (
    SquareGridLattice2D,
    SquareGridLattice3D,
)

from vmon import geom

PROP = "C09"
RULE = (
    "random lattices (1-3 dimensions; orthogonal, permuted, hexagonal, fcc, bcc, sheared, "
    "triclinic; any periodicity given as bool, tuple or list; unit cells and scaled "
    "lattices; the library's own square and rhombohedral lattices) and points inside, far "
    "outside and on the boundary of the cell, single and in arrays, as tuples, lists and "
    "numpy arrays; non-trivial: 2 or more dimensions"
)
CASES = {"quick": 10000, "thorough": 100000}
REQUIRED = ["points", "partially_periodic", "scalings", "siblings", "boundary_points", "differences"]


def as_type(rng, p):
    return rng.choice([tuple, list, np.array])(p)


def near(a, b, scale, what, mon, **w):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    mon.require(
        a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * scale),
        what,
        got=a.tolist(),
        want=b.tolist(),
        **w,
    )


def check_lattice(mon, rng, lat, m, periodic):
    dim = len(m)
    M = np.array(m)
    scale = 50.0 * (1 + np.abs(M).max()) * (1 + np.abs(np.linalg.inv(M)).max())
    mon.equal(lat.dim, dim, "wrong dimension")
    mon.equal(tuple(bool(x) for x in lat.periodic), periodic, "wrong periodicity")
    near(lat.vecs, M, 1, "other lattice vectors", mon)
    near(lat.matrix, M, 1, "other matrix", mon)
    near(np.dot(lat.matrix, lat.inv_matrix), np.eye(dim), scale, "wrong inverse", mon)
    near(lat.vec_lengths, np.sqrt((M**2).sum(axis=1)), scale, "wrong lengths", mon)

    pts = []
    for _ in range(rng.randint(1, 5)):
        f = [
            rng.choice(
                [rng.uniform(-3, 3), rng.uniform(0, 1), float(rng.randint(-3, 3)), 0.5]
                + [rng.uniform(-1e5, 1e5)] * (rng.random() < 0.1)
            )
            for _ in range(dim)
        ]
        pts.append(f)
    for f in pts:
        c = geom.lattice_point(m, f)
        mon.count("points")
        near(
            lat.get_cartesian_coords(as_type(rng, f)), c, scale,
            "a fractional point isn't that combination of the lattice vectors", mon,
            frac=f, vectors=m,
        )
        near(
            lat.get_fractional_coords(as_type(rng, c)), f, scale,
            "fractional coordinates don't give the point back", mon, frac=f, vectors=m,
        )
        p = np.asarray(lat.get_periodized_cartesian_coords(as_type(rng, c)))
        pf = geom.frac_of(p, m)
        boundary = False
        for i in range(dim):
            if periodic[i]:
                mon.require(
                    -1e-9 * scale <= pf[i] <= 1 + 1e-9 * scale,
                    "a periodized point is outside the cell along a periodic direction",
                    frac=f, periodized=pf.tolist(), axis=i, vectors=m,
                )
                d = f[i] - pf[i]
                mon.require(
                    abs(d - round(d)) <= 1e-9 * scale,
                    "periodizing moves a point by something else than lattice vectors",
                    frac=f, periodized=pf.tolist(), axis=i, vectors=m,
                )
                boundary |= f[i] == int(f[i])
            else:
                mon.require(
                    abs(f[i] - pf[i]) <= 1e-9 * scale,
                    "periodizing moves a point along a direction that isn't periodic",
                    frac=f, periodized=pf.tolist(), axis=i, vectors=m,
                )
        if boundary:
            mon.count("boundary_points")
        mon.require(
            geom.min_image(np.subtract(lat.get_periodized_cartesian_coords(tuple(p)), p), m, periodic)
            <= 1e-9 * scale,
            "periodizing twice gives another place",
        )
    # many points at once
    arr = np.array(pts)
    near(lat.get_cartesian_coords(arr), arr @ M, scale, "an array of points differs", mon)
    near(lat.get_fractional_coords(arr @ M), arr, scale, "an array of points differs", mon)


def check_periodize(mon, rng):
    dim = rng.randint(1, 4)
    f = np.array([rng.choice([rng.uniform(-4, 4), float(rng.randint(-2, 2))]) for _ in range(dim)])
    arg, flags = geom.random_periodic(rng, dim)
    if isinstance(arg, list):
        arg = tuple(arg)
    before = f.copy()
    out = np.asarray(periodize(f, arg))
    mon.require(np.array_equal(f, before), "periodize changed its argument")
    for i in range(dim):
        want = f[i] - math.floor(f[i]) if flags[i] else f[i]
        mon.require(
            abs(out[i] - want) < 1e-12, "periodize gives another coordinate",
            coords=f.tolist(), periodic=flags, got=out.tolist(),
        )


def check_difference(mon, rng):
    dim = rng.randint(1, 4)
    _, flags = geom.random_periodic(rng, dim)
    shape = (dim,) if rng.random() < 0.6 else (rng.randint(1, 4), dim)
    a, b = (
        np.array([rng.choice([rng.uniform(-4, 4), rng.randint(-8, 8) / 4]) for _ in range(np.prod(shape))])
        .reshape(shape)
        for _ in range(2)
    )
    before = a.copy(), b.copy()
    give = rng.choice([lambda x: x, lambda x: x.tolist()])
    d = np.asarray(pbc_diff_frac_vec(give(a), give(b), rng.choice([tuple, list, np.array])(flags)))
    mon.require(
        np.array_equal(a, before[0]) and np.array_equal(b, before[1]),
        "a difference changed its arguments",
    )
    mon.equal(d.shape, shape, "the difference has another shape")
    moved = (a - b) - d
    for i in range(dim):
        m = moved[..., i]
        if flags[i]:
            ok = np.all(np.abs(m - np.round(m)) < 1e-9) and np.all(np.abs(d[..., i]) <= 0.5 + 1e-9)
        else:
            ok = np.all(np.abs(m) < 1e-9)
        mon.require(
            ok, "the difference modulo the periodic directions is another one",
            a=a.tolist(), b=b.tolist(), periodic=flags, got=d.tolist(), axis=i,
        )
    mon.count("differences")


def case(rng, mon):
    check_difference(mon, rng)
    r = rng.random()
    if r < 0.06:
        lat = rng.choice([SquareGridLattice2D, SquareGridLattice3D])()
        dim = lat.dim
        m = np.array(lat.vecs, dtype=float).tolist()
        mon.equal(
            sorted(map(tuple, np.abs(m).tolist())),
            sorted(map(tuple, np.eye(dim).tolist())),
            "the square grid's vectors aren't the unit vectors",
        )
        kind, arg, periodic = "square-grid", True, (True,) * dim
    elif r < 0.12:
        lat = RhombohedralLattice()
        m = np.array(lat.vecs, dtype=float).tolist()
        mon.require(
            np.allclose(np.linalg.norm(m, axis=1), 1)
            and abs(abs(np.dot(m[0], m[1])) - 0.5) < 1e-9,
            "the rhombohedral lattice isn't made of unit vectors at 60 degrees",
        )
        kind, arg, periodic, dim = "rhombohedral", True, (True, True), 2
    else:
        kind, m = geom.random_matrix(rng, 4 if rng.random() < 0.02 else None)
        m = geom.stretched(rng, mon, m)
        dim = len(m)
        arg, periodic = geom.random_periodic(rng, dim)
        vecs = rng.choice([list, np.array, lambda x: [tuple(v) for v in x]])(m)
        lat = Lattice(vecs, arg)
    mon.describe({"kind": kind, "vectors": m, "periodic": periodic}, nontrivial=dim >= 2)
    if len(set(periodic)) == 2:
        mon.count("partially_periodic")
    check_lattice(mon, rng, lat, m, periodic)
    if rng.random() < 0.3:
        m2, arg2, periodic2 = geom.sibling(rng, m, arg, periodic)
        check_lattice(mon, rng, Lattice(m2, arg2), m2, periodic2)
        check_lattice(mon, rng, lat, m, periodic)
        mon.count("siblings")
    cells = [rng.randint(1, 5) for _ in range(dim)]
    big = lat.get_scaled_lattice(rng.choice([list, tuple, np.array])(cells))
    check_lattice(mon, rng, big, geom.scaled(m, cells), periodic)
    near(lat.vecs, m, 1, "scaling a lattice changed it", mon)
    mon.count("scalings")
    again = Lattice.from_dict(lat.as_dict())
    check_lattice(mon, rng, again, m, periodic)
    check_periodize(mon, rng)
