"""C15: stochastic and site-class neighborhoods are composed of whole constituents."""
import itertools
import math

import numpy as np
from pylattica.core import DistanceNeighborhoodBuilder, Lattice, PeriodicStructure
from pylattica.core.neighborhood_builders import (
    MotifNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder,
    StochasticNeighborhoodBuilder,
)
from pylattica.core.neighborhoods import SiteClassNeighborhood, StochasticNeighborhood
from pylattica.structures.square_grid import (
    PseudoHexagonalNeighborhoodBuilder2D,
    PseudoHexagonalNeighborhoodBuilder3D,
    PseudoPentagonalNeighborhoodBuilder,
    SimpleSquare2DStructureBuilder,
    SimpleSquare3DStructureBuilder,
)

from vmon import geom

PROP = "C15"
RULE = (
    "random grids with several site classes and missing sites, with stochastic, "
    "site-class and nested builders of random motif and distance constituents, and the "
    "pseudo-hexagonal (2D, 3D) and pseudo-pentagonal neighborhoods; hundreds of answers "
    "per site are compared with the constituents' neighbor sets computed by hand. "
    "Non-trivial: some site has two constituents whose neighbor sets differ"
)
CASES = {"quick": 520, "thorough": 4000}
REQUIRED = [
    "stochastic", "site_class", "pseudo_hex_2d", "pseudo_hex_3d", "pseudo_pentagonal",
    "answers", "unlisted_class_sites", "stochastic_for_a_class", "nested",
    "direct_site_class",
]


def axis(dim):
    return [
        tuple(s if i == j else 0 for i in range(dim)) for j in range(dim) for s in (1, -1)
    ]


def negated(v):
    return tuple(-x for x in v)


HEX2 = [axis(2) + [v, negated(v)] for v in [(1, 1), (1, -1)]]
HEX3 = [
    axis(3) + [v, negated(v)] for v in [(1, 1, 1), (1, 1, -1), (1, -1, 1), (-1, 1, 1)]
]
MOORE = [v for v in itertools.product((-1, 0, 1), repeat=2) if any(v)]
PENTA = [
    [v for v in MOORE if v[i] != side] for i in (0, 1) for side in (1, -1)
]


class Part:
    """A constituent: how to build it, and the neighbors it must give every site."""

    def __init__(self, rng, struct, full, periodic, offsets=None):
        dim = len(full)
        want = None
        if offsets is None and rng.random() < 0.3:
            cutoff = rng.uniform(0.6, 2.9)
            want = geom.distance_neighbors(struct, cutoff, full, periodic)
            if want is not None:
                self.builder = DistanceNeighborhoodBuilder(cutoff)
                self.want = {
                    s: {t: [d] for t, d in nbs.items()} for s, nbs in want.items()
                }
                self.desc = cutoff
        if want is None:
            if offsets is None:
                pool = [v for v in itertools.product((-1, 0, 1, 2), repeat=dim) if any(v)]
                offsets = rng.sample(pool, min(len(pool), rng.randint(1, 5)))
            self.builder = MotifNeighborhoodBuilder(offsets)
            hits, _ = geom.motif_neighbors(struct, offsets, full, periodic)
            self.want = {
                s: {t: [math.hypot(*v) for v, _ in h] for t, h in nbs.items()}
                for s, nbs in hits.items()
            }
            self.desc = offsets


def which(want_sets, answer):
    """Indices of the constituents a weighted answer is exactly that of."""
    ids = sorted(t for t, _ in answer)
    out = []
    for i, want in enumerate(want_sets):
        if ids == sorted(want) and all(
            any(abs(float(w) - d) < 0.0061 for d in want[t]) for t, w in answer
        ):
            out.append(i)
    return out


def judge(mon, nb, sites, want_of):
    """want_of(site) -> the constituents' {neighbor: lengths}, one of which is each answer."""
    differ = False
    for s in sites:
        sid = s["_site_id"]
        sets = want_of(s)
        if not sets:
            mon.equal(nb.neighbors_of(sid), [], "a site of an unlisted class has neighbors")
            mon.equal(
                list(nb.neighbors_of(sid, include_weights=True)),
                [],
                "a site of an unlisted class has neighbors",
            )
            mon.count("unlisted_class_sites")
            continue
        distinct = {tuple(sorted(w)) for w in sets}
        differ = differ or len(distinct) > 1
        n = 1 if len(distinct) == 1 else 40 * len(sets)
        plain, weighted = set(), set()
        for _ in range(n):
            got = tuple(sorted(nb.neighbors_of(sid)))
            mon.require(
                got in distinct,
                "an answer isn't the whole neighbor set of one constituent",
                site=sid, got=got, constituents=sorted(distinct),
            )
            plain.add(got)
            ans = nb.neighbors_of(sid, include_weights=True)
            hit = which(sets, ans)
            mon.require(
                bool(hit),
                "an answer with weights isn't that of one constituent",
                site=sid, got=[(t, float(w)) for t, w in ans], constituents=sets,
            )
            weighted.add(tuple(sorted(t for t, _ in ans)))
            mon.count("answers", 2)
        for seen, how in ((plain, "without"), (weighted, "with")):
            mon.require(
                seen == distinct,
                f"a constituent never answered a site's requests {how} weights",
                site=sid, requests=n, seen=sorted(seen), constituents=sorted(distinct),
            )
    return differ


def random_struct(rng, dim):
    cells = [rng.randint(2, 5 if dim == 2 else 3) for _ in range(dim)]
    if rng.random() < 0.02:
        cells = [10, 11] if dim == 2 else [5, 4, 5]
    arg, periodic = geom.random_periodic(rng, dim)
    full = np.diag(cells).astype(float).tolist()
    struct = PeriodicStructure(Lattice(full, arg))
    classes = rng.sample(
        ["A", "B", "C", "_x", 0, 1, "", "0", "1", "a", "AB"],
        rng.choice([1, 2, 3] * 3 + [5, 8]),
    )
    keep = rng.choice([1.0, 0.8])
    for i, c in enumerate(itertools.product(*[range(n) for n in cells])):
        if i < len(classes):
            struct.add_site(classes[i], c)
        elif rng.random() < keep:
            struct.add_site(rng.choice(classes), c)
    return struct, full, periodic, classes


def sample_sites(rng, struct, n=8):
    sites = struct.sites()
    return sites if len(sites) <= n else rng.sample(sites, n)


def stochastic_case(rng, mon):
    struct, full, periodic, classes = random_struct(rng, rng.choice([2, 2, 3]))
    parts = [Part(rng, struct, full, periodic) for _ in range(rng.choice([1, 2, 3, 4] * 3 + [5, 7, 10]))]
    direct = rng.random() < 0.2
    builder = StochasticNeighborhoodBuilder([p.builder for p in parts])
    cls = None
    if direct:
        nb = StochasticNeighborhood([p.builder.get(struct) for p in parts])
    elif rng.random() < 0.3:
        cls = rng.choice(classes)
        nb = builder.get(struct, site_class=cls)
        mon.count("stochastic_for_a_class")
    else:
        nb = builder.get(struct)
    mon.count("stochastic")

    def want_of(s):
        if cls is not None and s["_site_class"] != cls:
            return []
        return [p.want[s["_site_id"]] for p in parts]

    differ = judge(mon, nb, sample_sites(rng, struct), want_of)
    mon.describe(
        {"box": full, "periodic": periodic, "parts": [p.desc for p in parts], "class": cls},
        nontrivial=differ,
    )


def site_class_case(rng, mon):
    struct, full, periodic, classes = random_struct(rng, rng.choice([2, 2, 3]))
    spec, wants, desc = {}, {}, {}
    direct = rng.random() < 0.4
    for c in classes:
        if rng.random() < (0.4 if direct and len(classes) > 1 else 0.25):
            mon.count("classes_without")
            continue
        parts = [
            Part(rng, struct, full, periodic)
            for _ in range(rng.choice([1, 1, rng.randint(2, 3)]))
        ]
        if len(parts) == 1 and rng.random() < 0.8:
            spec[c] = parts[0].builder
        else:
            spec[c] = StochasticNeighborhoodBuilder([p.builder for p in parts])
            mon.count("stochastic_for_a_class")
        wants[c] = parts
        desc[c] = [p.desc for p in parts]
    if rng.random() < 0.2:
        spec["absent class"] = Part(rng, struct, full, periodic).builder
    if direct:
        # from neighborhoods that were made on their own
        nb = SiteClassNeighborhood(struct, {c: b.get(struct) for c, b in spec.items()})
        mon.count("direct_site_class")
    else:
        nb = SiteClassNeighborhoodBuilder(spec).get(struct)
    mon.count("site_class")
    differ = judge(
        mon,
        nb,
        sample_sites(rng, struct, 14),
        lambda s: [p.want[s["_site_id"]] for p in wants.get(s["_site_class"], [])],
    )
    flat = {repr(d) for d in desc.values()}
    mon.describe(
        {"box": full, "periodic": periodic, "spec": desc}, nontrivial=differ or len(flat) > 1
    )


def nested_case(rng, mon):
    """A choice between site-class neighborhoods."""
    struct, full, periodic, classes = random_struct(rng, 2)
    options = []
    for _ in range(rng.randint(2, 3)):
        options.append({c: Part(rng, struct, full, periodic) for c in classes})
    nb = StochasticNeighborhoodBuilder(
        [SiteClassNeighborhoodBuilder({c: p.builder for c, p in o.items()}) for o in options]
    ).get(struct)
    mon.count("nested")
    differ = judge(
        mon,
        nb,
        sample_sites(rng, struct),
        lambda s: [o[s["_site_class"]].want[s["_site_id"]] for o in options],
    )
    mon.describe(
        {
            "box": full, "periodic": periodic,
            "options": [{c: p.desc for c, p in o.items()} for o in options],
        },
        nontrivial=differ,
    )


def named_case(rng, mon):
    name, builder, options, dim = rng.choice(
        [
            ("pseudo_hex_2d", PseudoHexagonalNeighborhoodBuilder2D, HEX2, 2),
            ("pseudo_hex_3d", PseudoHexagonalNeighborhoodBuilder3D, HEX3, 3),
            ("pseudo_pentagonal", PseudoPentagonalNeighborhoodBuilder, PENTA, 2),
        ]
    )
    b = SimpleSquare2DStructureBuilder() if dim == 2 else SimpleSquare3DStructureBuilder()
    sizes = tuple(rng.randint(3, 6 if dim == 2 else 4) for _ in range(dim))
    struct = b.build(sizes)
    full = np.diag((sizes[1], sizes[0], *sizes[2:])).astype(float).tolist()
    parts = [Part(rng, struct, full, (True,) * dim, o) for o in options]
    differ = judge(
        mon,
        builder().get(struct),
        sample_sites(rng, struct, 5),
        lambda s: [p.want[s["_site_id"]] for p in parts],
    )
    mon.count(name)
    mon.describe({"named": name, "grid": sizes}, nontrivial=differ)


def case(rng, mon):
    r = rng.random()
    if r < 0.35:
        stochastic_case(rng, mon)
    elif r < 0.65:
        site_class_case(rng, mon)
    elif r < 0.75:
        nested_case(rng, mon)
    else:
        named_case(rng, mon)
