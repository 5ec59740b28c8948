"""C07: a saved result loads as the same result."""
import copy
import datetime
import json
import os

from monty.serialization import loadfn
from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    SimulationResult,
    SimulationState,
    SynchronousRunner,
)

from vmon.model import (
    GENERAL,
    SITES,
    Rule,
    apply_updates,
    digest,
    random_ids,
    random_json_value,
    snapshot,
)

PROP = "C07"
RULE = (
    "results recorded by serial/asynchronous runs of generated rules (site and general "
    "updates, new sites, empty steps) or put together from every update form with JSON "
    "values of all kinds, taken through as_dict/from_dict, through JSON text, and through "
    "to_file + from_file / monty's loadfn (explicit and default file name), twice in a row, "
    "before or after load_steps; the loaded history is compared state by state with the "
    "reference. Non-trivial: at least 2 differing states"
)
CASES = {"quick": 2400, "thorough": 25000}
REQUIRED = ["round_trips", "file_round_trips", "general_updates", "states_compared",
            "unnamed_neighbors", "results_of_own_class"]


class Diary(SimulationResult):
    """A user's own class of results."""

    def entries(self):
        return len(self) - 1


class Ctrl(BasicController):
    def __init__(self, rule, order=None, kind=SimulationResult):
        self.rule, self.order, self.at, self.kind = rule, order, 0, kind

    def instantiate_result(self, starting_state):
        return self.kind(starting_state)

    def get_random_site(self, _):
        self.at += 1
        return self.order[(self.at - 1) % len(self.order)]

    def get_state_update(self, sid, st):
        return self.rule.update(sid, st.get_site_state, st.get_general_state())


def values(rng):
    if rng.random() < 0.04:
        keys = [*"vw1", "a b", "é", "12", "-3", "007", "state", "diffs", "SITES", "GENERAL", "x"]
        return {k: random_json_value(rng) for k in rng.sample(keys, rng.randint(5, len(keys)))}
    return {
        k: random_json_value(rng)
        for k in rng.sample(["v", "w", "a b", "é", "state", "diffs", "7", "", "SITES"], rng.randint(0, 4))
    }


def make(rng, mon):
    n = rng.choice([1, 2, 4, 9])
    steps = rng.choice([0, 1, 2, 4, 7])
    if rng.random() < 0.015:
        n, steps = rng.choice([(100, 2), (2, 150), (1, 300), (4, 60)])
        mon.count("large_results")
    ids = random_ids(rng, n)
    rule = Rule(rng, ids, modes=["own", "perm", "birth"])
    model = rule.initial(rng)
    how = rng.choice(["sync", "async", "manual", "manual"])
    kind = Diary if rng.random() < 0.2 else SimulationResult
    hist = [copy.deepcopy(model)]
    if how == "sync":
        hist = rule.sync_run(model, steps)
        result = SynchronousRunner().run(SimulationState(model), Ctrl(rule, kind=kind), steps)
    elif how == "async":
        order = [rng.choice(ids) for _ in range(5)]
        for k in range(steps):
            s, g = rule.effect(order[k % 5], hist[-1][SITES].get, hist[-1][GENERAL])
            hist.append(apply_updates(hist[-1], s, g))
        result = AsynchronousRunner().run(
            SimulationState(model), Ctrl(rule, order, kind), steps
        )
    else:
        for s in model[SITES].values():
            s.update(values(rng))
        model[GENERAL] = values(rng)
        hist = [copy.deepcopy(model)]
        result = kind(SimulationState(model))
        for _ in range(steps):
            sites = {i: values(rng) for i in rng.sample(ids, rng.randint(0, n))}
            if rng.random() < 0.2:
                sites[10**6 + rng.randrange(9)] = values(rng)
            gen = values(rng) if rng.random() < 0.4 else None
            if gen is not None:
                update = {SITES: sites, GENERAL: gen}
                if rng.random() < 0.3:
                    sites, update = {}, {GENERAL: gen}
            elif rng.random() < 0.3:
                update = {SITES: sites}
            else:
                update = sites
            result.add_step(copy.deepcopy(update))
            hist.append(apply_updates(hist[-1], sites, gen or {}))
    if any(a[GENERAL] != b[GENERAL] for a, b in zip(hist, hist[1:])):
        mon.count("general_updates")
    if kind is Diary:
        mon.count("results_of_own_class")
    return how, hist, result


def compare(mon, result, hist, via, kind):
    mon.require(
        type(result) is kind, "what was loaded isn't a result of the same class", via=via,
        got=type(result).__name__, want=kind.__name__,
    )
    mon.equal(len(result), len(hist), "another number of states", via=via)
    for k, m in enumerate(hist):
        mon.same(snapshot(result.get_step(k)), m, "another state", step=k, via=via)
        mon.count("states_compared")
    mon.same(snapshot(result.initial_state), hist[0], "another initial state", via=via)
    mon.same(snapshot(result.last_step), hist[-1], "another last state", via=via)
    for k, st in enumerate(result.steps()):
        mon.same(snapshot(st), hist[k], "steps() differs", step=k, via=via)
    mon.count("round_trips")


def spoil_deep(d):
    for k, v in list(d.items()) if isinstance(d, dict) else enumerate(list(d)):
        if isinstance(v, (dict, list)):
            spoil_deep(v)
        elif not str(k).startswith("@"):
            d[k] = "SPOILED"
    if isinstance(d, list):
        d.append("SPOILED")


NAMES = ["r.json"] * 8 + ["res ult.json"] * 3 + [
    "r", "ré.json", "r.json.gz", "r.JSON", "r.v1.2", "r.txt", "yaml.json", ".json",
]


def through(rng, mon, result):
    via = rng.choice(["dict", "json", "file", "file-loadfn", "file-default"])
    if via == "dict":
        d = result.as_dict()
        before = copy.deepcopy(d)
        loaded = type(result).from_dict(d)
        mon.equal(d, before, "loading changed the dictionary loaded from")
        # what becomes of the dictionary is no matter of the results
        if rng.random() < 0.5:
            spoil_deep(d)
            mon.count("spoiled_dictionaries")
        return via, loaded
    if via == "json":
        d = result.as_dict()
        text = json.dumps(d, sort_keys=rng.random() < 0.5)
        return via, type(result).from_dict(json.loads(text))
    if via == "file-default":
        # a file of this name, and a result saved in the same minute, stay what they are
        others = {}
        for k in range(rng.choice([0, 1, 1, 2, 4])):
            if rng.random() < 0.7:
                name = SimulationResult(
                    SimulationState({SITES: {k: {"_site_id": k, "v": k}}, GENERAL: {}})
                ).to_file()
            else:
                name = datetime.datetime.now().strftime("%m-%d-%Y-%H-%M.json")
                if not os.path.exists(name):
                    with open(name, "w") as f:
                        f.write(f"file {k} of the user")
            with open(name) as f:
                others.setdefault(name, f.read())
        path = result.to_file()
        mon.require(
            isinstance(path, str) and os.path.exists(path),
            "to_file doesn't return the file it wrote",
            path=path,
        )
        for name, text in others.items():
            with open(name) as f:
                mon.equal(
                    f.read(), text, "saving without a name overwrites a file", file=name
                )
            os.remove(name)
            mon.count("unnamed_neighbors")
    else:
        path = os.path.join(os.getcwd(), rng.choice(NAMES))
        if rng.random() < 0.5:
            # an older, longer file of that name
            with open(path, "w") as f:
                f.write("x" * 100000)
        back = result.to_file(path)
        mon.equal(back, path, "to_file doesn't return the file it wrote")
    mon.count("file_round_trips")
    try:
        loaded = loadfn(path) if via == "file-loadfn" else SimulationResult.from_file(path)
    finally:
        os.remove(path)
    return via, loaded


def case(rng, mon):
    how, hist, result = make(rng, mon)
    mon.describe(
        {"how": how, "states": len(hist), "first": digest(hist[0]), "last": digest(hist[-1])},
        nontrivial=any(a != b for a, b in zip(hist, hist[1:])),
    )
    if rng.random() < 0.3:
        result.load_steps(rng.choice([1, 2]))
    chain = []
    loaded = result
    for _ in range(rng.choice([1, 1, 2])):
        via, loaded = through(rng, mon, loaded)
        chain.append(via)
        if rng.random() < 0.3:
            loaded.load_steps(rng.choice([1, 2]))
        compare(mon, loaded, hist, chain, type(result))
    # saving leaves the saved result as it was
    compare(mon, result, hist, "original after " + "+".join(chain), type(result))
    # and the loaded one goes on recording
    sid = next(iter(hist[-1][SITES]))
    loaded.add_step({sid: {"v": "later"}})
    mon.equal(
        snapshot(loaded.last_step),
        apply_updates(hist[-1], {sid: {"v": "later"}}, {}),
        "a loaded result doesn't go on recording",
    )
    mon.equal(len(result), len(hist), "the loaded result is tied to the original")
