"""C06: a state is a map that updates merge into, key by key."""
import copy

from pylattica.core import Lattice, PeriodicStructure, SimulationState

from vmon.model import (
    GENERAL, SITE_ID, SITES, Holder, change_in_place, random_ids, random_value, snapshot,
)

PROP = "C06"
RULE = (
    "random histories of set_site_state, set_general_state, batch_update (every documented "
    "form), copy, construction from dictionaries and structures over sparse ids, with "
    "several live states at once; after every operation each live state is read back "
    "through every public accessor and compared with a dictionary model. Non-trivial: at "
    "least 3 mutating operations over at least 2 sites"
)
CASES = {"quick": 6000, "thorough": 60000}
REQUIRED = ["operations", "read_backs", "copies", "equalities", "near_misses"]

KEYS = ["v", "w", "u", "a b", "GENERAL", "SITES", "0"]


def upd(rng):
    if rng.random() < 0.04:
        # many keys at once
        keys = KEYS + [str(i) for i in range(1, 8)] + [f"key {i}" for i in range(12)]
        return {k: random_value(rng) for k in rng.sample(keys, rng.randint(5, 24))}
    return {k: random_value(rng) for k in rng.sample(KEYS, rng.randint(0, 4))}


def changed_later(u):
    """The caller goes on using a dictionary given to a state."""
    change_in_place(u)
    u["v"] = "CHANGED"


def read_back(mon, state, model, ids, op):
    mon.same(snapshot(state), model, "the state isn't what was stored", op=op)
    mon.equal(
        sorted(state.site_ids()), sorted(model[SITES]), "wrong site ids", op=op
    )
    mon.equal(state.size, len(model[SITES]), "wrong size", op=op)
    got = state.all_site_states()
    mon.equal(len(got), len(model[SITES]), "all_site_states gives another number", op=op)
    mon.equal(
        {d[SITE_ID]: d for d in got if SITE_ID in d},
        {i: d for i, d in model[SITES].items() if SITE_ID in d},
        "all_site_states differs from the site states", op=op,
    )
    nameless = [d for d in model[SITES].values() if SITE_ID not in d]
    mon.require(
        all(d in nameless for d in got if SITE_ID not in d)
        and all(d in got for d in nameless),
        "all_site_states differs from the site states", op=op,
    )
    mon.equal(state.get_general_state(), model[GENERAL], "wrong general state", op=op)
    for sid in ids:
        mon.equal(
            state.get_site_state(sid), model[SITES].get(sid), "wrong site state", op=op
        )
    mon.count("read_backs")


def put(model, sid, u):
    if sid not in model[SITES]:
        model[SITES][sid] = {SITE_ID: sid}
    model[SITES][sid].update(copy.deepcopy(u))


def spoil_deep(d):
    for k, v in list(d.items()):
        if isinstance(v, dict):
            spoil_deep(v)
        elif isinstance(v, (list, tuple, set, Holder)):
            change_in_place(v)
        elif not k.startswith("@"):
            d[k] = "SPOILED"


def case(rng, mon):
    ids = random_ids(rng, rng.choice([1, 2, 3, 6, 10] * 16 + [150, 300]))
    live = []
    ops, touched = [], set()
    for _ in range(rng.randint(3, 25) if rng.random() < 0.98 else 120):
        op = rng.choice(
            ["new", "site", "site", "site", "general", "batch", "batch", "copy", "eq", "dict",
             "in place"]
        )
        if not live or (op == "new" and len(live) < 4):
            kind = rng.choice(["empty", "dict", "struct"])
            if kind == "empty":
                live.append([SimulationState(), {SITES: {}, GENERAL: {}}])
            elif kind == "dict":
                d = {
                    SITES: {i: {SITE_ID: i, **upd(rng)} for i in rng.sample(ids, len(ids) // 2)},
                    GENERAL: upd(rng),
                }
                for i in d[SITES]:
                    if rng.random() < 0.05:
                        # nothing is known of the site
                        d[SITES][i] = {}
                        mon.count("empty_sites")
                m = copy.deepcopy(d)
                if rng.random() < 0.25:
                    # without one of the parts
                    part = rng.choice([SITES, GENERAL])
                    m[part] = {}
                    mon.count("partial_dictionaries")
                    live.append([SimulationState({k: v for k, v in d.items() if k != part}), m])
                elif rng.random() < 0.25:
                    # as it comes out of JSON text
                    saved = {"state": {SITES: {str(i): s for i, s in d[SITES].items()},
                                       GENERAL: d[GENERAL]}}
                    if rng.random() < 0.3:
                        part = rng.choice([SITES, GENERAL])
                        m[part] = {}
                        del saved["state"][part]
                        mon.count("loaded_partial")
                    before = copy.deepcopy(saved)
                    live.append([SimulationState.from_dict(saved), m])
                    mon.equal(saved, before, "loading a state changed its dictionary")
                    mon.count("loaded_states")
                else:
                    live.append([SimulationState(d), m])
                # the dictionary stays the caller's own
                for s in d[SITES].values():
                    changed_later(s)
                changed_later(d[GENERAL])
                d[GENERAL]["v"] = "CHANGED"
                d[SITES][777] = {}
            else:
                struct = PeriodicStructure(Lattice([[8.0, 0.0], [0.0, 8.0]]))
                k = rng.randint(1, 6)
                for j in range(k):
                    struct.add_site("ab"[j % 2], (j + 0.25, 0.5))
                live.append(
                    [
                        SimulationState.from_struct(struct),
                        {SITES: {i: {SITE_ID: i} for i in struct.site_ids}, GENERAL: {}},
                    ]
                )
            op = "new-" + kind
        elif op == "site":
            st, m = rng.choice(live)
            sid, u = rng.choice(ids), upd(rng)
            before = copy.deepcopy(u)
            st.set_site_state(sid, u)
            mon.equal(u, before, "set_site_state changed its argument")
            put(m, sid, u)
            changed_later(u)
            touched.add(sid)
        elif op == "general":
            st, m = rng.choice(live)
            u = upd(rng)
            before = copy.deepcopy(u)
            st.set_general_state(u)
            mon.equal(u, before, "set_general_state changed its argument")
            m[GENERAL].update(copy.deepcopy(u))
            changed_later(u)
        elif op == "batch":
            st, m = rng.choice(live)
            sites = {i: upd(rng) for i in rng.sample(ids, rng.randint(0, len(ids)))}
            form = rng.choice(["both", "sites", "general", "plain"])
            g = upd(rng) if form in ("both", "general") else None
            if form == "both":
                batch = {SITES: sites, GENERAL: g}
            elif form == "sites":
                batch = {SITES: sites}
            elif form == "general":
                batch = {GENERAL: g}
            else:
                batch = sites
            before = copy.deepcopy(batch)
            st.batch_update(batch)
            mon.equal(batch, before, "batch_update changed its argument", form=form)
            if form != "general":
                for sid, u in sites.items():
                    put(m, sid, u)
                    touched.add(sid)
            if g is not None:
                m[GENERAL].update(copy.deepcopy(g))
            for u in [*sites.values(), g or {}]:
                changed_later(u)
            op += "-" + form
        elif op == "copy":
            st, m = rng.choice(live)
            c = st.copy()
            mon.require(c == st, "a copy isn't equal to its original")
            live.append([c, copy.deepcopy(m)])
            if len(live) > 5:
                live.pop(0)
            mon.count("copies")
        elif op == "dict":
            st, m = rng.choice(live)
            d = st.as_dict()
            again = SimulationState.from_dict(d)
            mon.require(again == st, "a state made from a state's dictionary isn't equal")
            # what becomes of the dictionary is no matter of the states
            spoil_deep(d)
            live.append([again, copy.deepcopy(m)])
            if len(live) > 5:
                live.pop(0)
            mon.count("dictionaries")
        elif op == "in place":
            # whether that changes the state or not, it changes no other one
            pair = rng.choice(live)
            st = pair[0]
            where = rng.choice(["site", "all", "general"])
            if where == "site":
                changed = [st.get_site_state(i) for i in st.site_ids()]
            elif where == "all":
                changed = st.all_site_states()
            else:
                changed = [st.get_general_state()]
            for d in changed:
                changed_later(d)
            pair[1] = copy.deepcopy(snapshot(st))
            mon.count("changes_in_place")
        elif op == "eq":
            (a, ma), (b, mb) = rng.choice(live), rng.choice(live)
            mon.equal(bool(a == b), ma == mb, "equality isn't equality of the contents")
            mon.count("equalities")
            # the same content put together in another order
            def shuffled(d):
                return dict(rng.sample(list(d.items()), len(d)))

            c = shuffled({SITES: shuffled({i: shuffled(s) for i, s in ma[SITES].items()}),
                          GENERAL: shuffled(ma[GENERAL])})
            mon.require(
                SimulationState(c) == a and a == SimulationState(c),
                "a state of the same content isn't equal",
            )
            # nearly the same content
            i = rng.choice(list(ma[SITES]) or [None])
            how = rng.choice(["value", "site", "key", "general", "gone"])
            c = copy.deepcopy(ma)
            if how == "general" or i is None:
                c[GENERAL]["another"] = 1
            elif how == "value":
                c[SITES][i]["v"] = "another value"
            elif how == "site":
                c[SITES][-98765] = {SITE_ID: -98765}
            elif how == "key":
                c[SITES][i]["another"] = None
            else:
                del c[SITES][i]
            near = SimulationState(c)
            mon.require(
                not (near == a) and not (a == near) and near != a,
                "a state of other content is equal", how=how, site=i,
            )
            mon.count("near_misses")
        ops.append(op)
        mon.count("operations")
        for st, m in live:
            read_back(mon, st, m, ids + [123456789], op)
    mon.describe(
        {"ids": ids, "ops": ops}, nontrivial=len(ops) >= 3 and len(touched) >= 2
    )
