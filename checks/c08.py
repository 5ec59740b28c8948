"""C08: simulations, structures, lattices and states load as they were saved."""
import copy
import json
import os
import sys

import numpy as np
from pylattica.core import (
    DistanceNeighborhoodBuilder,
    Lattice,
    PeriodicStructure,
    Simulation,
    SimulationState,
)

from vmon import geom
from vmon.model import GENERAL, SITE_ID, SITES, random_json_value, snapshot

PROP = "C08"
RULE = (
    "random lattices (1-3 dimensions, orthogonal to triclinic, any periodicity), structures "
    "(tiled motifs or sites added one by one, several classes) and states with JSON values, "
    "bound as Simulations and taken through as_dict/from_dict, JSON text, files (also "
    "read-only ones), twice in a row; ids, classes, locations, lattice, distances, lookups "
    "at periodic images and neighborhoods are compared. Non-trivial: at least 2 sites"
)
CASES = {"quick": 2600, "thorough": 12000}
REQUIRED = ["round_trips", "file_round_trips", "lookups", "neighborhoods"]


# (the checks run as root, whom no file permission stops: what counts is how files
# are opened)
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR
opened_for_writing = []


def on_event(event, args):
    if event == "open" and isinstance(args[2], int) and args[2] & WRITE_FLAGS:
        opened_for_writing.append(str(args[0]))


sys.addaudithook(on_event)


def same_lattice(mon, a, b, rng, msg):
    mon.equal(a.dim, b.dim, msg + ": dim")
    mon.equal(tuple(a.periodic), tuple(b.periodic), msg + ": periodicity")
    mon.require(
        np.array_equal(np.array(a.vecs), np.array(b.vecs)), msg + ": vectors differ"
    )
    mon.require(np.allclose(a.matrix, b.matrix, rtol=0, atol=0), msg + ": matrix differs")
    for _ in range(3):
        p = [rng.uniform(-5, 5) for _ in range(a.dim)]
        q = [rng.uniform(-5, 5) for _ in range(a.dim)]
        mon.equal(
            float(a.cartesian_periodic_distance(p, q)),
            float(b.cartesian_periodic_distance(p, q)),
            msg + ": distances differ",
        )


def same_structure(mon, a, b, rng, msg):
    same_lattice(mon, a.lattice, b.lattice, rng, msg)
    mon.equal(sorted(a.site_ids), sorted(b.site_ids), msg + ": ids")
    mon.equal(
        sorted(map(repr, a.all_site_classes())),
        sorted(map(repr, b.all_site_classes())),
        msg + ": classes",
    )
    for sid in a.site_ids:
        mon.same(a.site_class(sid), b.site_class(sid), msg + ": class of a site")
        mon.require(
            np.allclose(a.site_location(sid), b.site_location(sid), rtol=0, atol=1e-9),
            msg + ": location of a site",
            site=sid,
        )
    for sid in rng.sample(a.site_ids, min(4, len(a.site_ids))):
        k = [
            rng.randint(-2, 2) if p else 0 for p in a.lattice.periodic
        ]
        loc = np.array(a.site_location(sid)) + np.array(
            geom.lattice_point(np.array(a.lattice.vecs).tolist(), k)
        )
        mon.equal(b.id_at(tuple(loc)), a.id_at(tuple(loc)), msg + ": lookup at an image")
        mon.count("lookups")


def same_neighborhood(mon, a, b, msg):
    cutoff = 1.3
    na = DistanceNeighborhoodBuilder(cutoff).get(a)
    nb = DistanceNeighborhoodBuilder(cutoff).get(b)
    for sid in a.site_ids:
        mon.equal(
            sorted(na.neighbors_of(sid, include_weights=True)),
            sorted(nb.neighbors_of(sid, include_weights=True)),
            msg + ": neighborhoods differ",
        )
    mon.count("neighborhoods")


SITE_CLASSES = [
    "A", "A", "B", "1", 1, 0, "10", "007", "1.5", "1e3", "-2", "true", "None", "null", "",
    " A ", "a", "é", "Fe3+", "SITES", "_site_id", True, None, 2.5, 10**12,
]


def random_structure(rng, mon):
    dim = rng.choice([1, 2, 2, 3])
    kind, m = geom.random_matrix(rng, dim)
    m = geom.stretched(rng, mon, m)
    arg, periodic = geom.random_periodic(rng, dim)
    lat = Lattice(m, arg)
    if rng.random() < 0.6:
        cells = [rng.randint(1, 3 if dim < 3 else 2) for _ in range(dim)]
        if rng.random() < 0.02:
            cells = {1: [60], 2: [9, 12], 3: [5, 3, 4]}[dim]
        if rng.random() < 0.004:
            cells = {1: [1100], 2: [40, 27], 3: [11, 10, 10]}[dim]
            mon.count("thousand_sites")
        frac = rng.random() < 0.5
        motif = geom.random_motif(rng, dim, m, periodic, cells, frac, 3)
        st = PeriodicStructure.build_from(lat, cells, motif, frac_coords=frac)
    else:
        st = PeriodicStructure(lat)
        pts = geom.separated_points(
            rng,
            rng.randint(1, 8),
            dim,
            m,
            periodic,
            0.05,
            lambda: geom.lattice_point(m, [rng.uniform(0.02, 0.97) for _ in range(dim)]),
        )
        for p in pts:
            st.add_site(rng.choice(SITE_CLASSES), tuple(p))
    return kind, st


def spoil_deep(d):
    for k, v in list(d.items()) if isinstance(d, dict) else enumerate(list(d)):
        if isinstance(v, (dict, list)):
            spoil_deep(v)
        elif not str(k).startswith("@"):
            d[k] = "SPOILED"
    if isinstance(d, list):
        d.append("SPOILED")


def case(rng, mon):
    kind, struct = random_structure(rng, mon)
    state = SimulationState.from_struct(struct)
    for sid in struct.site_ids:
        if rng.random() < 0.7:
            state.set_site_state(
                sid,
                {k: random_json_value(rng) for k in rng.sample("abcd", rng.randint(0, 3))},
            )
    state.set_general_state({"g": random_json_value(rng), "h": random_json_value(rng)})
    want = copy.deepcopy(snapshot(state))
    sim = Simulation(state, struct)
    mon.describe(
        {
            "kind": kind,
            "periodic": list(struct.lattice.periodic),
            "sites": len(struct.site_ids),
            "first": list(struct.site_location(struct.site_ids[0])),
        },
        nontrivial=len(struct.site_ids) >= 2,
    )
    loaded = sim
    chain = []
    for _ in range(rng.choice([1, 1, 2])):
        via = rng.choice(["dict", "json", "file", "file", "readonly"])
        chain.append(via)
        if via == "dict":
            d = loaded.as_dict()
            before = copy.deepcopy(d)
            loaded = Simulation.from_dict(d)
            mon.equal(d, before, "loading changed the dictionary loaded from")
            if rng.random() < 0.5:
                # what becomes of the dictionary is no matter of the simulations
                spoil_deep(d)
                mon.count("spoiled_dictionaries")
        elif via == "json":
            loaded = Simulation.from_dict(json.loads(json.dumps(loaded.as_dict(), sort_keys=rng.random() < 0.5))
            )
        else:
            path = os.path.join(os.getcwd(), "sim.json")
            if rng.random() < 0.5:
                with open(path, "w") as f:
                    f.write("y" * 50000)
            loaded.to_file(path)
            if via == "readonly":
                os.chmod(path, 0o444)
            before = open(path, encoding="utf-8").read()
            opened_for_writing.clear()
            loaded = Simulation.from_file(path)
            mon.require(
                path not in opened_for_writing,
                "loading opens the file for writing: one that may only be read can't be loaded",
            )
            mon.equal(
                open(path, encoding="utf-8").read(), before, "loading changed the file"
            )
            os.chmod(path, 0o644)
            os.remove(path)
            mon.count("file_round_trips")
        mon.count("round_trips")
        mon.same(snapshot(loaded.state), want, "another state", via=chain)
        mon.require(loaded.state == state, "the loaded state isn't equal", via=chain)
        same_structure(mon, struct, loaded.structure, rng, "/".join(chain))
    for sid in struct.site_ids:
        mon.equal(
            loaded.state_at(tuple(struct.site_location(sid))),
            want[SITES][sid],
            "state_at differs after loading",
        )
    if len(struct.site_ids) <= 20:
        if len(struct.site_ids) < 300:
            same_neighborhood(mon, struct, loaded.structure, "/".join(chain))
    # the parts on their own
    same_lattice(
        mon,
        struct.lattice,
        Lattice.from_dict(json.loads(json.dumps(struct.lattice.as_dict()))),
        rng,
        "lattice",
    )
    same_structure(
        mon,
        struct,
        PeriodicStructure.from_dict(json.loads(json.dumps(struct.as_dict(), sort_keys=rng.random() < 0.5))
        ),
        rng,
        "structure",
    )
    back = SimulationState.from_dict(json.loads(json.dumps(state.as_dict())))
    mon.same(snapshot(back), want, "state")
    # saving leaves the saved simulation as it was, and loading gives it nothing to share
    loaded.state.set_site_state(struct.site_ids[0], {"a": "CHANGED"})
    free = _free_place(loaded.structure)
    if free is None:
        return
    loaded.structure.add_site("Z", tuple(free))
    mon.same(snapshot(state), want, "the loaded simulation shares its original's state")
    mon.equal(
        len(struct.sites()),
        len(loaded.structure.sites()) - 1,
        "the loaded simulation shares its original's sites",
    )
    assert SITE_ID and GENERAL


def _free_place(struct):
    m = np.array(struct.lattice.vecs).tolist()
    best = None
    for i in range(30):
        p = geom.lattice_point(m, [((i * 0.37 + j * 0.21) % 0.9) + 0.05 for j in range(struct.dim)])
        d = min(
            geom.min_image(np.subtract(p, s["_location"]), m, struct.lattice.periodic)
            for s in struct.sites()
        )
        if best is None or d > best[0]:
            best = (d, p)
    return best[1] if best[0] > 0.01 else None
