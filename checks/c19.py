"""C19: grid setups produce exactly the arrangement they name."""
import collections
import itertools
import math

import numpy as np
from pylattica.core import Lattice, PeriodicStructure
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.structures.square_grid import DiscreteGridSetup

from vmon.model import snapshot

PROP = "C19"
RULE = (
    "random calls of every DiscreteGridSetup method in 2 and 3 dimensions with random "
    "sizes, radii (whole and half, so that cells lie exactly on the edge), centers, phases, "
    "ratios (whole shares included) and buffers, also with more sites than can fit, and "
    "repeated calls to see every cell and phase drawn; every cell of the result is compared "
    "with the arrangement computed by hand. Non-trivial: 2 or more phases in the result"
)
CASES = {"quick": 2400, "thorough": 8000}
REQUIRED = ["solid", "interface", "particle", "random_particles", "add_particle", "coords",
            "noise", "random_sites", "impossible", "whole_shares", "edge_cells",
            "spread_calls", "wide_grids", "buffer_pairs", "empty_shares", "image_coords",
            "setups_reused"]
NAMES = ["A", "B", "C", "D", "VACANT", "Na+", "x y", "a", "AB", "A ", "vacant"]


def grid_cells(size, dim):
    return list(itertools.product(range(size), repeat=dim))


def read(mon, sim, size, dim):
    """{cell: phase} of a simulation, after checking the grid it lies on."""
    shared.get("made", []).append(sim)
    struct, state = sim.structure, sim.state
    out = {}
    for s in struct.sites():
        cell = tuple(int(round(x)) for x in s["_location"])
        mon.require(
            max(abs(x - c) for x, c in zip(s["_location"], cell)) < 1e-3,
            "a site isn't on a cell of the grid",
        )
        st = state.get_site_state(s["_site_id"])
        mon.require(st is not None, "a cell has no state", cell=cell)
        out[cell] = st[DISCRETE_OCCUPANCY]
    mon.equal(len(struct.sites()), size**dim, "wrong number of cells")
    mon.equal(sorted(out), grid_cells(size, dim), "the grid's cells aren't size x ... x size")
    mon.equal(
        sorted(snapshot(state)["SITES"]), sorted(struct.site_ids), "state and structure differ"
    )
    return out


def compare(mon, got, want, what, **info):
    for c, p in want.items():
        mon.require(
            got[c] == p, f"{what}: a cell has another phase", cell=c, got=got[c], want=p, **info
        )


def ball(mon, cells, center, radius):
    """Cells nearer than radius; those too near to call are left out of the second set."""
    inside, unsure = set(), set()
    exact = all(float(2 * x).is_integer() for x in (*center, radius))
    for c in cells:
        s = sum((a - b) ** 2 for a, b in zip(c, center))
        if abs(s - radius**2) < 1e-9:
            if exact:
                mon.count("edge_cells")
                continue
            unsure.add(c)
        elif s < radius**2:
            inside.add(c)
    return inside, unsure


# what the calls of a case share, when they are made one after another on one setup
shared = {}


def setup_of(rng, phases):
    if shared:
        return shared["dim"], shared["setup"]
    dim = rng.choice([2, 2, 3])
    kw = {} if dim == 2 and rng.random() < 0.5 else {"dim": dim}
    # the set may have more phases than the setup is asked for
    phases = phases + rng.sample(["more", "spare", "E"], rng.choice([0, 0, 1, 3]))
    return dim, DiscreteGridSetup(PhaseSet(phases), **kw)


def pick_size(rng, dim, lo=1):
    if shared:
        return shared["size"]
    if rng.random() < 0.03:
        return rng.randint(lo, 24 if dim == 2 else 8)
    size = rng.randint(lo, 9 if dim == 2 else 5)
    return np.int64(size) if rng.random() < 0.05 else size


def solid(rng, mon):
    phases = rng.sample(NAMES, 3)
    dim, setup = setup_of(rng, phases)
    size = pick_size(rng, dim)
    if rng.random() < 0.5:
        struct = setup.build_structure(size)
        mon.equal(len(struct.sites()), size**dim, "build_structure made another size")
    else:
        struct = PeriodicStructure(Lattice(np.eye(2) * 9))
        for i in range(rng.randint(1, 9)):
            struct.add_site(rng.choice("AB"), (i, rng.choice([0, 0.5, 3])))
    state = setup.setup_solid_phase(struct, phases[0])
    want = {i: {"_site_id": i, DISCRETE_OCCUPANCY: phases[0]} for i in struct.site_ids}
    mon.same(snapshot(state)["SITES"], want, "a solid phase isn't that phase on every site")
    return {"solid": len(want)}, {0}


def interface(rng, mon):
    p1, p2, *_ = phases = rng.sample(NAMES, 3)
    dim, setup = setup_of(rng, phases)
    size = pick_size(rng, dim)
    got = read(mon, setup.setup_interface(size, p1, p2), size, dim)
    want = {c: p1 if c[0] < size // 2 else p2 for c in grid_cells(size, dim)}
    compare(mon, got, want, "interface", size=size, dim=dim)
    return {"interface": size, "dim": dim}, set(got.values())


def pick_radius(rng, size):
    return rng.choice([0, 0.3, 0.5, 1, 1.5, 2, 2.5, 3, 5, round(rng.uniform(0, size), 3), size])


def particle(rng, mon):
    bulk, part, *_ = phases = rng.sample(NAMES, 3)
    dim, setup = setup_of(rng, phases)
    size = pick_size(rng, dim)
    radius = pick_radius(rng, size)
    got = read(mon, setup.setup_particle(size, radius, bulk, part), size, dim)
    inside, unsure = ball(mon, got, (size / 2,) * dim, radius)
    want = {c: part if c in inside else bulk for c in got if c not in unsure}
    compare(mon, got, want, "particle", size=size, dim=dim, radius=radius)
    return {"particle": size, "dim": dim, "radius": radius}, set(got.values())


def add_particle(rng, mon):
    phases = rng.sample(NAMES, 4)
    dim, setup = setup_of(rng, phases)
    size = pick_size(rng, dim, 2)
    sim = setup.setup_noise(size, phases[:3])
    struct, state = sim.structure, sim.state
    got = read(mon, sim, size, dim)
    state.set_site_state(struct.site_ids[0], {"extra": 5})
    trail = []
    for _ in range(rng.randint(1, 3)):
        center = tuple(
            rng.choice([rng.randrange(size), size / 2, -1, 0.5, round(rng.uniform(0, size), 2)])
            for _ in range(dim)
        )
        radius = pick_radius(rng, size)
        p = rng.choice(phases)
        inside, unsure = ball(mon, got, center, radius)
        want = {c: p if c in inside else v for c, v in got.items()}
        state = setup.add_particle_to_state(struct, state, center, radius, p)
        sim.state = state
        got = read(mon, sim, size, dim)
        compare(
            mon, got, {c: v for c, v in want.items() if c not in unsure}, "added particle",
            center=center, radius=radius,
        )
        trail.append([center, radius, p])
    mon.equal(
        state.get_site_state(struct.site_ids[0]).get("extra"),
        5,
        "adding a particle removed another value of a site",
    )
    return {"add": trail, "size": size, "dim": dim}, set(got.values())


def random_particles(rng, mon):
    bulk, *parts = phases = rng.sample(NAMES, rng.randint(2, 4))
    dim, setup = setup_of(rng, phases)
    size = pick_size(rng, dim)
    n = rng.choice([0, 1, 1, 1, 2, 5])
    radius = rng.choice([0.5, 1]) if n > 1 else rng.choice([0.5, 1, 1.5, 2, 3])
    got = read(
        mon, setup.setup_random_particles(size, radius, n, bulk, list(parts)), size, dim
    )
    changed = {c for c, p in got.items() if p != bulk}
    mon.require(
        set(got.values()) <= {bulk, *parts}, "a phase nobody asked for", got=list(got.values())
    )
    if n == 1:
        shapes = [ball(mon, got, c, radius)[0] for c in got]
        mon.require(changed in shapes, "not a particle around a cell", changed=sorted(changed))
        mon.equal(len({got[c] for c in changed}), 1, "one particle has two phases")
    else:
        # each of these particles is one cell
        mon.require(
            (n > 0) <= len(changed) <= n, "not the number of particles", n=n, got=len(changed)
        )
    return {"particles": n, "size": size, "dim": dim, "radius": radius,
            "at": sorted(changed)}, set(got.values())


def coords(rng, mon):
    bg, *others = phases = rng.sample(NAMES, rng.randint(2, 5))
    dim, setup = setup_of(rng, phases)
    size = pick_size(rng, dim)
    if dim == 2 and rng.random() < 0.2:
        size = rng.randint(10, 16)
    cells = grid_cells(size, dim)
    spec, want = {}, dict.fromkeys(cells, bg)
    free = rng.sample(cells, len(cells))
    for p in others:
        for _ in range(min(rng.randint(0, 4), len(free))):
            c = free.pop()
            want[c] = p
            if rng.random() < 0.2:
                c = tuple(x + rng.choice([-1, 1, 2]) * size for x in c)
                mon.count("image_coords")
            spec.setdefault(p, []).append(c)
    got = read(mon, setup.setup_coords(size, bg, spec), size, dim)
    compare(mon, got, want, "coords", spec=spec, size=size)
    return {"coords": spec, "size": size, "dim": dim}, set(got.values())


def noise(rng, mon):
    phases = rng.sample(NAMES, rng.randint(1, 4))
    dim, setup = setup_of(rng, phases)
    size = pick_size(rng, dim)
    got = read(mon, setup.setup_noise(size, list(phases)), size, dim)
    k, cells = len(phases), size**dim
    found = set(got.values())
    mon.require(found <= set(phases), "a phase nobody asked for", found=sorted(map(str, found)))
    if k * (1 - 1 / k) ** cells < 1e-12:
        mon.require(found == set(phases), "a phase never appears", cells=cells)
    return {"noise": phases, "cells": [got[c] for c in sorted(got)]}, found


def random_sites(rng, mon):
    bg, *nuc = phases = rng.sample(NAMES, rng.randint(2, 5))
    dim, setup = setup_of(rng, phases)
    size = pick_size(rng, dim, 2)
    buffer = rng.choice([None, 0, 1, 2, 3])
    block = (2 * (buffer or 0) + 1) ** dim
    most = max(1, int(size**dim / (1.3 * block)) + 1)
    n = rng.randint(0, min(most, 40))
    if rng.random() < 0.4:
        parts = [rng.randint(1, 6) for _ in nuc]
        den = rng.choice([1, 10, 100, 3])
        g = math.gcd(*parts)
        unit = sum(parts) // g
        n = unit * (n // unit)
        whole = n > 0
        amts = {p: a / den for p, a in zip(nuc, parts)}
    else:
        whole = len(nuc) == 1
        amts = {p: rng.choice([1, 2, 0.5, 0.3, round(rng.uniform(0.1, 3), 3)]) for p in nuc}
    kw = {} if buffer == 2 and rng.random() < 0.5 else {"buffer": buffer}
    spare = [p for p in ("more", "spare", "E", "none") if p not in phases]
    if rng.random() < 0.15:
        # asked for, with no share
        amts[rng.choice(spare)] = 0
        amts = {p: amts[p] for p in rng.sample(sorted(amts), len(amts))}
        mon.count("empty_shares")
    ask = n + rng.choice([0.2, -0.2]) if n and rng.random() < 0.1 else n
    got = read(
        mon,
        setup.setup_random_sites(size, ask, background_spec=bg, nuc_amts=dict(amts), **kw),
        size,
        dim,
    )
    placed = [c for c, p in got.items() if p != bg]
    info = {"n": n, "amts": amts, "size": size, "dim": dim, "buffer": buffer}
    mon.require(len(placed) == n, "another number of sites than desired", got=len(placed), **info)
    count = collections.Counter(got[c] for c in placed)
    mon.require(set(count) <= set(amts), "a phase nobody asked for", **info)
    total = sum(amts.values())
    if whole:
        mon.count("whole_shares")
    for p, a in amts.items():
        share = n * a / total
        if whole:
            mon.require(
                count[p] == round(share), "a phase hasn't its exact share of the sites",
                phase=p, got=count[p], share=share, **info,
            )
        mon.require(
            count[p] < share + 1 + 1e-6, "a phase has a site more than its share allows",
            phase=p, got=count[p], share=share, **info,
        )
    if buffer is not None:
        for a, b in itertools.combinations(placed, 2):
            d = max(min(abs(x - y), size - abs(x - y)) for x, y in zip(a, b))
            mon.require(
                d > buffer, "two sites are nearer than the buffer", sites=[a, b], distance=d,
                **info,
            )
            mon.count("buffer_pairs")
    return {**info, "at": sorted(placed)}, set(got.values())


def shares(rng, mon):
    """Whole shares of ratios written as decimals, thirds, ...: many draws."""
    bg, *nuc = phases = rng.sample(NAMES, rng.randint(3, 5))
    setup = DiscreteGridSetup(PhaseSet(phases))
    size = rng.choice([6, 7])
    done = []
    for _ in range(12):
        parts = [rng.randint(1, 9) for _ in nuc]
        den = rng.choice([10, 100, 3, 7])
        unit = sum(parts) // math.gcd(*parts)
        if unit > size**2 - 6:
            continue
        n = unit * rng.randint(1, (size**2 - 6) // unit)
        amts = {p: a / den for p, a in zip(nuc, parts)}
        sim = setup.setup_random_sites(size, n, bg, dict(amts), buffer=None)
        got = collections.Counter(
            s[DISCRETE_OCCUPANCY] for s in snapshot(sim.state)["SITES"].values()
        )
        want = {p: n * a // sum(parts) for p, a in zip(nuc, parts)}
        want[bg] = size**2 - n
        mon.equal(
            dict(got), want, "a phase hasn't its exact share of the sites", amts=amts, n=n
        )
        mon.count("whole_shares")
        done.append([amts, n])
    return {"shares": done}, {0, 1}


def impossible(rng, mon):
    bg, nuc = rng.sample(NAMES, 2)
    dim, setup = setup_of(rng, [bg, nuc])
    size = rng.randint(2, 5 if dim == 2 else 3)
    buffer = rng.choice([None, 1, 2])
    w = (buffer or 0) + 1
    most = 1 if size < w else int((size / w) ** dim)
    n = most + rng.randint(1, 2)
    mon.raises(
        RuntimeError,
        lambda: setup.setup_random_sites(size, n, bg, {nuc: 1}, buffer=buffer),
        f"{n} sites were placed where {most} fit (size {size}, {dim}D, buffer {buffer})",
    )
    return {"impossible": n, "size": size, "dim": dim, "buffer": buffer}, {0, 1}


def wide(rng, mon):
    """Large grids: every cell can be drawn, the last free one too."""
    bg, nuc = rng.sample(NAMES, 2)
    setup = DiscreteGridSetup(PhaseSet([bg, nuc]))
    size = rng.randint(17, 26)
    if rng.random() < 0.6:
        sim = setup.setup_random_sites(size, size**2, bg, {nuc: 1}, buffer=None)
        got = read(mon, sim, size, 2)
        mon.equal(set(got.values()), {nuc}, "not every site was filled", size=size)
    else:
        # a column is missed by all of them with a chance below 1e-13
        size = min(size, 19)
        got = read(mon, setup.setup_random_particles(size, 1, 600, bg, [nuc]), size, 2)
        hit = [c for c, p in got.items() if p == nuc]
        for k in (0, 1):
            mon.equal(
                {c[k] for c in hit}, set(range(size)), "some cells are never drawn", size=size
            )
    mon.count("wide_grids")
    return {"wide": size, "got": [got[c] for c in sorted(got)]}, {0, 1}


def spread(rng, mon):
    """Every cell and every phase is drawn at some time."""
    dim = rng.choice([2, 2, 3])
    size = rng.choice([2, 3]) if dim == 2 else 2
    bg, *nuc = phases = rng.sample(NAMES, 3)
    setup = DiscreteGridSetup(PhaseSet(phases), dim=dim)
    cells = size**dim
    how = rng.choice(["sites", "particles"])
    calls = 33 * cells * (2 if how == "particles" else 1)
    seen, used = set(), set()
    for _ in range(calls):
        if how == "sites":
            sim = setup.setup_random_sites(size, 1, bg, {nuc[0]: 1}, buffer=None)
        else:
            sim = setup.setup_random_particles(size, 1, 1, bg, list(nuc))
        for s in sim.structure.sites():
            p = sim.state.get_site_state(s["_site_id"])[DISCRETE_OCCUPANCY]
            if p != bg:
                seen.add(tuple(int(round(x)) for x in s["_location"]))
                used.add((tuple(int(round(x)) for x in s["_location"]), p))
    mon.equal(len(seen), cells, f"some cell is never drawn ({how}, {calls} calls)")
    if how == "particles":
        mon.equal(
            len(used), cells * 2,
            "some phase is never drawn at some cell", calls=calls, drawn=sorted(used),
        )
    return {"spread": how, "size": size, "dim": dim, "phases": phases}, {0, 1}


KINDS = {
    "solid": (1, solid),
    "interface": (3, interface),
    "particle": (4, particle),
    "add_particle": (3, add_particle),
    "random_particles": (4, random_particles),
    "coords": (3, coords),
    "noise": (2, noise),
    "random_sites": (8, random_sites),
    "shares": (3, shares),
    "impossible": (1, impossible),
    "spread_calls": (1, spread),
    "wide_grids": (0.4, wide),
}


def several(rng, mon, name):
    """Calls on one setup; what becomes of their results is no matter of later ones."""
    dim = rng.choice([2, 2, 3])
    shared.update(
        dim=dim, setup=DiscreteGridSetup(PhaseSet(NAMES + ["more", "spare", "E"]), dim=dim),
        size=rng.randint(2, 9 if dim == 2 else 5), made=[],
    )
    try:
        for _ in range(rng.randint(2, 3)):
            desc, found = KINDS[name][1](rng, mon)
            for sim in shared["made"]:
                for sid in list(sim.structure.site_ids):
                    sim.state.set_site_state(sid, {DISCRETE_OCCUPANCY: "SPOILED"})
                if len(sim.structure.site_ids) == shared["size"] ** dim:
                    sim.structure.add_site("late", (0.37,) * dim)
            name = rng.choice([name, "interface", "coords", "random_sites"])
            mon.count("setups_reused")
    finally:
        shared.clear()
    return desc, found


def case(rng, mon):
    name = rng.choices(list(KINDS), [w for w, _ in KINDS.values()])[0]
    shared.clear()
    if name not in ("spread_calls", "shares", "impossible", "wide_grids") and rng.random() < 0.3:
        desc, found = several(rng, mon, name)
    else:
        desc, found = KINDS[name][1](rng, mon)
    mon.count(name)
    mon.describe(desc, nontrivial=len(found) > 1)
