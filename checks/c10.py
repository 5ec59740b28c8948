"""C10: the periodic distance is the distance to the closest periodic image."""
import numpy as np
from pylattica.core import Lattice
from pylattica.core.lattice import pbc_diff_cart

from vmon import geom

PROP = "C10"
RULE = (
    "random lattices as in C09, also needlessly skewed and partially periodic ones, and "
    "pairs of points in and outside the cell (also near the half-way points between "
    "images); the distance is compared with a brute-force search over every image that "
    "could be closer, and checked to be symmetric and the same for every image of either "
    "point. Non-trivial: the closest image isn't the point itself"
)
CASES = {"quick": 16000, "thorough": 150000}
REQUIRED = ["far_points", "pairs", "skewed", "partially_periodic", "images", "siblings", "mirrored"]
TOL = 0.0005 + 1e-6  # distances are reported to 3 decimals


def check_distances(rng, mon, lat, m, periodic):
    dim = len(m)
    other = False
    for _ in range(rng.randint(1, 4)):
        f = [rng.uniform(-0.2, 1.2) for _ in range(dim)]
        g = (
            [x + rng.choice([0.5, -0.5, 0.49, 0.51, 0.0, 1.0]) for x in f]
            if rng.random() < 0.4
            else [rng.uniform(-1.5, 2.5) for _ in range(dim)]
        )
        if rng.random() < 0.2:
            # two points close to each other, but far from the origin
            far = [rng.choice([1, -1]) * rng.choice([30, 1e3, 2e4]) * rng.random() for _ in range(dim)]
            f = [x + y for x, y in zip(f, far)]
            g = [x + rng.choice([0.0, 0.0101, -0.05, 0.3]) for x in f]
            mon.count("far_points")
        p, q = geom.lattice_point(m, f), geom.lattice_point(m, g)
        want = geom.min_image(np.subtract(p, q), m, periodic)
        other |= want < np.linalg.norm(np.subtract(p, q)) - 1e-6
        conv = rng.choice([tuple, list, np.array])
        got = float(lat.cartesian_periodic_distance(conv(p), conv(q)))
        mon.require(
            abs(got - want) <= TOL,
            "the distance isn't the one to the closest image",
            got=got, want=want, p=p, q=q, vectors=m, periodic=periodic,
        )
        back = float(lat.cartesian_periodic_distance(conv(q), conv(p)))
        mon.require(abs(back - want) <= TOL, "the distance isn't symmetric", p=p, q=q, vectors=m)
        mon.require(
            abs(float(pbc_diff_cart(np.array(p), np.array(q), lat)) - want) <= TOL,
            "pbc_diff_cart isn't the distance to the closest image",
            p=p, q=q, vectors=m, periodic=periodic,
        )
        for _ in range(2):
            k = [rng.randint(-3, 3) if x else 0 for x in periodic]
            moved = [a + b for a, b in zip(q, geom.lattice_point(m, k))]
            got = float(lat.cartesian_periodic_distance(conv(p), conv(moved)))
            mon.require(
                abs(got - want) <= TOL,
                "the distance isn't the same for every image of a point",
                p=p, q=q, image=k, got=got, want=want, vectors=m, periodic=periodic,
            )
            mon.count("images")
        if rng.random() < 0.15:
            # as far apart in every coordinate, but another way
            signs = [rng.choice([1, -1]) for _ in range(dim)]
            back = [a - z * (a - b) for a, b, z in zip(p, q, signs)]
            far = geom.min_image(np.subtract(p, back), m, periodic)
            got = float(lat.cartesian_periodic_distance(conv(p), conv(back)))
            mon.require(
                abs(got - far) <= TOL,
                "the distance to a mirrored point isn't the one to the closest image",
                p=p, q=back, got=got, want=far, vectors=m, periodic=periodic,
            )
            mon.count("mirrored")
        # not periodic: a plain distance
        if not any(periodic):
            mon.count("plain_distances")
        mon.count("pairs")
    mon.equal(float(lat.cartesian_periodic_distance(tuple(p), tuple(p))), 0.0, "d(p, p) isn't 0")
    return other, p, q


def case(rng, mon):
    kind, m = geom.random_matrix(rng, 4 if rng.random() < 0.02 else None)
    m = geom.stretched(rng, mon, m)
    dim = len(m)
    arg, periodic = geom.random_periodic(rng, dim)
    if rng.random() < 0.4:
        cells = [rng.randint(1, 4) for _ in range(dim)]
        lat = Lattice(m, arg).get_scaled_lattice(cells)
        m = geom.scaled(m, cells)
    else:
        lat = Lattice(m, arg)
    if len(set(periodic)) == 2:
        mon.count("partially_periodic")
    if kind in ("sheared", "triclinic", "oblique"):
        mon.count("skewed")
    other, p, q = check_distances(rng, mon, lat, m, periodic)
    if rng.random() < 0.25:
        m2, arg2, periodic2 = geom.sibling(rng, m, arg, periodic)
        check_distances(rng, mon, Lattice(m2, arg2), m2, periodic2)
        check_distances(rng, mon, lat, m, periodic)
        mon.count("siblings")
    mon.describe(
        {"kind": kind, "vectors": m, "periodic": periodic, "p": p, "q": q}, nontrivial=other
    )
