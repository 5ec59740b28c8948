"""Generated lattices and structures, and brute-force geometry to check against.

The oracles use only numpy on plain matrices (rows are lattice vectors).
"""
import itertools
import math

import numpy as np


# ---------------------------------------------------------------- generators
def random_matrix(rng, dim=None, kind=None, scale=None):
    """A well-conditioned matrix of lattice vectors: (kind, rows as lists)."""
    dim = dim or rng.choice([1, 2, 2, 2, 3, 3])
    kinds = {
        1: ["line"],
        2: ["square", "rect", "permuted", "hex", "oblique", "oblique", "sheared"],
        3: ["cubic", "ortho", "permuted", "fcc", "bcc", "hex", "triclinic", "sheared"],
        4: ["permuted", "triclinic", "sheared"],
    }[dim]
    kind = kind or rng.choice(kinds)
    a, b, c = (round(rng.uniform(0.8, 4.5), rng.choice([0, 1, 2, 4])) for _ in range(3))
    a, b, c = max(a, 0.8), max(b, 0.8), max(c, 0.8)
    r3 = math.sqrt(3)
    if kind == "line":
        rows = [[rng.choice([a, 1.0, 3.0])]]
    elif kind == "square":
        a = rng.choice([1.0, a])
        rows = [[a, 0], [0, a]]
    elif kind == "rect":
        rows = [[a, 0], [0, b]]
    elif kind == "cubic":
        a = rng.choice([1.0, a])
        rows = [[a, 0, 0], [0, a, 0], [0, 0, a]]
    elif kind == "ortho":
        rows = [[a, 0, 0], [0, b, 0], [0, 0, c]]
    elif kind == "permuted":
        d = [a, b, c, a + 0.5][:dim]
        p = list(range(dim))
        rng.shuffle(p)
        rows = [
            [(d[i] * rng.choice([1, 1, -1])) if j == p[i] else 0 for j in range(dim)]
            for i in range(dim)
        ]
    elif kind == "hex":
        rows = [[a, 0], [a / 2, a * r3 / 2]]
        if dim == 3:
            rows = [[a, 0, 0], [a * rng.choice([0.5, -0.5]), a * r3 / 2, 0], [0, 0, c]]
    elif kind == "fcc":
        rows = [[0, a, a], [a, 0, a], [a, a, 0]]
    elif kind == "bcc":
        rows = [[-a, a, a], [a, -a, a], [a, a, -a]]
    elif kind == "sheared":
        # a rectangular lattice described by a needlessly skewed cell
        d = [a, b, c, a + 0.5][:dim]
        rows = [[d[i] if i == j else 0 for j in range(dim)] for i in range(dim)]
        i, j = rng.sample(range(dim), 2)
        s = rng.choice([-2, -1, 1, 1, 2, 0.5, 1.3])
        rows[i] = [x + s * y for x, y in zip(rows[i], rows[j])]
    else:  # oblique / triclinic
        while True:
            rows = [
                [round(rng.uniform(-3.5, 3.5), 3) for _ in range(dim)] for _ in range(dim)
            ]
            m = np.array(rows)
            lens = np.linalg.norm(m, axis=1)
            if lens.min() > 0.8 and abs(np.linalg.det(m)) > 0.35 * np.prod(lens):
                break
    if scale:
        rows = [[x * scale for x in r] for r in rows]
    if rng.random() < 0.7 and all(float(x).is_integer() for r in rows for x in r):
        # whole numbers as users write them
        return kind, [[int(x) for x in r] for r in rows]
    return kind, [[float(x) for x in r] for r in rows]


def stretched(rng, mon, matrix, chance=0.07):
    """Sometimes much larger in all directions or along one vector."""
    if rng.random() > chance:
        return matrix
    mon.count("stretched_cells")
    by = rng.choice([7.3, 40, 250])
    if rng.random() < 0.5:
        return [[x * by for x in r] for r in matrix]
    rows = [list(r) for r in matrix]
    i = rng.randrange(len(rows))
    rows[i] = [x * min(by, 40) for x in rows[i]]
    return rows


def sibling(rng, matrix, arg, periodic):
    """A lattice that differs little from another one: (matrix, argument, flags)."""
    rows = [list(r) for r in matrix]
    if rng.random() < 0.5:
        i, j = rng.randrange(len(rows)), rng.randrange(len(rows))
        rows[i][j] += rng.choice([1, -1]) * rng.choice([1e-6, 1e-4, 2e-3, 0.04])
    if rng.random() < 0.5:
        arg, periodic = random_periodic(rng, len(rows))
    return rows, arg, periodic


def random_periodic(rng, dim):
    """(argument to pass, tuple of flags it means)"""
    r = rng.random()
    if r < 0.55:
        return True, (True,) * dim
    if r < 0.65:
        return False, (False,) * dim
    flags = tuple(rng.random() < 0.5 for _ in range(dim))
    return (flags if rng.random() < 0.7 else list(flags)), flags


def separated_points(rng, n, dim, matrix, periodic, min_dist, draw, tries=60):
    """Up to n points from draw() that are min_dist apart, images included."""
    pts = []
    for _ in range(tries):
        if len(pts) == n:
            break
        p = draw()
        if all(
            min_image(np.subtract(p, q), matrix, periodic) > min_dist for q in pts
        ):
            pts.append(p)
    return pts


# ------------------------------------------------------------------- oracles
def min_image(diff, matrix, periodic):
    """Length of the shortest of diff + k.matrix over all integers k along the
    periodic directions, by enumerating every k that could do better."""
    diff = np.asarray(diff, dtype=float)
    rows = np.array([r for r, p in zip(matrix, periodic) if p], dtype=float)
    if len(rows) == 0:
        return float(np.linalg.norm(diff))
    pinv = np.linalg.pinv(rows)
    t = diff @ pinv
    start = diff - np.round(t) @ rows
    best = float(np.linalg.norm(start))
    # the length along the rows' span bounds each coefficient
    norms = np.linalg.norm(pinv, axis=0)
    t0 = start @ pinv
    ranges = [
        range(math.ceil(-x - best * nn - 1e-9), math.floor(-x + best * nn + 1e-9) + 1)
        for x, nn in zip(t0, norms)
    ]
    ks = np.array(list(itertools.product(*ranges)), dtype=float)
    if len(ks) == 0:
        return best
    return float(min(best, np.linalg.norm(start + ks @ rows, axis=1).min()))


def same_place(p, q, matrix, periodic, tol=2e-3):
    return min_image(np.subtract(p, q), matrix, periodic) <= tol


def scaled(matrix, cells):
    return [[x * n for x in row] for row, n in zip(matrix, cells)]


def lattice_point(matrix, coeffs):
    return [
        sum(c * row[j] for c, row in zip(coeffs, matrix)) for j in range(len(matrix[0]))
    ]


def frac_of(point, matrix):
    return np.linalg.solve(np.array(matrix, dtype=float).T, np.asarray(point, dtype=float))


class Tiling:
    """A structure as it ought to be: sites of a motif in every cell of a tiling."""

    def __init__(self, matrix, periodic, cells, motif, frac):
        self.unit = matrix
        self.periodic = periodic
        self.cells = cells
        self.matrix = scaled(matrix, cells)
        self.sites = []  # (class, cartesian location)
        for c in itertools.product(*[range(n) for n in cells]):
            origin = lattice_point(matrix, c)
            for cls, vecs in motif.items():
                for v in vecs:
                    off = lattice_point(matrix, v) if frac else v
                    self.sites.append((cls, [o + x for o, x in zip(origin, off)]))


# anything can be a site class
CLASSES = ["A", "B", "AB", "_A", "Na+", "Na", "1", "12", 1, 0, 2.5, "", "a", "A ", "NA"]


def random_motif(rng, dim, matrix, periodic, cells, frac, max_sites=4):
    """A motif whose sites are well apart, well inside the cell or exactly on its
    boundary, so that no site is within rounding of the point where it wraps."""
    full = scaled(matrix, cells)

    def draw_frac():
        f = []
        for _ in range(dim):
            r = rng.random()
            if r < 0.3:
                f.append(0.0)
            elif r < 0.5:
                f.append(rng.choice([0.5, 0.25, 1 / 3, 2 / 3, 0.75]))
            else:
                f.append(rng.uniform(0.03, 0.95))
        return f

    n = rng.randint(1, max_sites)
    cart = separated_points(
        rng, n, dim, full, periodic, 0.1, lambda: lattice_point(matrix, draw_frac())
    )
    vecs = [list(frac_of(p, matrix)) if frac else p for p in cart]
    # exactly 0 stays exactly 0
    vecs = [[0.0 if abs(x) < 1e-12 else x for x in v] for v in vecs]
    classes = rng.sample(CLASSES, rng.randint(1, min(3, len(vecs))))
    motif = {}
    for i, v in enumerate(vecs):
        c = classes[i] if i < len(classes) else rng.choice(classes)
        motif.setdefault(c, []).append(tuple(v))
    return motif


def motif_neighbors(struct, offsets, full, periodic):
    """{site: {neighbor: [(offset, wrapped)]}}, and how many positions hold no site."""
    sites = struct.sites()
    box = np.array(full, dtype=float)
    inv = np.linalg.inv(box)
    locs = np.array([s["_location"] for s in sites], dtype=float)
    flags = np.array(periodic, dtype=bool)
    want, missing = {}, 0
    for s in sites:
        mine = want[s["_site_id"]] = {}
        for v in offsets:
            target = np.array(s["_location"], dtype=float) + np.array(v, dtype=float)
            f = (locs - target) @ inv
            shift = np.where(flags, np.round(f), 0)
            d = np.linalg.norm((f - shift) @ box, axis=1)
            hits = np.nonzero(d < 2e-3)[0]
            if len(hits) == 0:
                missing += 1
                continue
            i = int(hits[0])
            tid = sites[i]["_site_id"]
            if tid != s["_site_id"]:
                mine.setdefault(tid, []).append((tuple(v), bool(shift[i].any())))
    return want, missing


def distance_neighbors(struct, cutoff, full, periodic):
    """{site: {neighbor: distance}}; None if some pair is too close to the cutoff to call."""
    sites = struct.sites()
    want = {s["_site_id"]: {} for s in sites}
    for s, t in itertools.combinations(sites, 2):
        d = min_image(np.subtract(s["_location"], t["_location"]), full, periodic)
        if abs(d - cutoff) < 0.002:
            return None
        if d < cutoff:
            want[s["_site_id"]][t["_site_id"]] = d
            want[t["_site_id"]][s["_site_id"]] = d
    return want


def check_sites(mon, struct, tiling, tol=1.6e-3):
    """Matches the structure's sites one to one with the tiling's; returns id -> index."""
    sites = struct.sites()
    mon.equal(len(sites), len(tiling.sites), "wrong number of sites")
    ids = [s["_site_id"] for s in sites]
    mon.equal(len(set(ids)), len(ids), "two sites share an id")
    mon.equal(sorted(struct.site_ids), sorted(ids), "site_ids differs from the sites")
    if len(sites) > 150:
        return match_many(mon, sites, tiling, tol)
    left = {i: s for i, s in enumerate(tiling.sites)}
    match = {}
    for s in sites:
        loc = s["_location"]
        hit = None
        for i, (cls, p) in left.items():
            if cls == s["_site_class"] and same_place(
                loc, p, tiling.matrix, tiling.periodic, tol
            ):
                hit = i
                break
        mon.require(
            hit is not None,
            "a site is where the motif has none (or of another class)",
            site=s["_site_class"],
            location=list(loc),
        )
        del left[hit]
        match[s["_site_id"]] = hit
    return match


def match_many(mon, sites, tiling, tol):
    """The same for many sites (those of a motif are much farther apart than tol)."""
    box = np.array(tiling.matrix, dtype=float)
    inv = np.linalg.inv(box)
    spots = np.array([p for _, p in tiling.sites], dtype=float)
    flags = np.array(tiling.periodic, dtype=bool)
    left = np.ones(len(spots), dtype=bool)
    match = {}
    for s in sites:
        f = (spots - np.asarray(s["_location"], dtype=float)) @ inv
        away = np.linalg.norm((f - np.where(flags, np.round(f), 0)) @ box, axis=1)
        hit = [
            i for i in np.nonzero((away <= tol) & left)[0]
            if tiling.sites[i][0] == s["_site_class"]
        ]
        mon.require(
            len(hit) > 0,
            "a site is where the motif has none (or of another class)",
            site=s["_site_class"],
            location=list(s["_location"]),
        )
        left[hit[0]] = False
        match[s["_site_id"]] = int(hit[0])
    return match
