"""C04: the recorded history is the evolution, however it is asked for."""
import copy

import numpy as np
from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    SimulationResult,
    SimulationState,
    SynchronousRunner,
)

from vmon.model import GENERAL, SITES, Rule, apply_updates, digest, random_ids, snapshot

PROP = "C04"
RULE = (
    "results recorded by serial and asynchronous runs of generated rules, or put together "
    "with add_step from every documented update form, then queried in a random interleaving "
    "of get_step (any order), steps() generators (several at once, partly consumed), "
    "load_steps with random intervals (repeatedly), first_step, last_step, len and further "
    "add_step calls; states handed out are changed by the monitor. Every answer is compared "
    "with a reference history. Non-trivial: 2 or more recorded states that differ"
)
CASES = {"quick": 10000, "thorough": 50000}
REQUIRED = ["queries", "loads", "mutations", "nested_mutations", "generator_states", "appended"]


class Sync(BasicController):
    def __init__(self, rule):
        self.rule = rule

    def get_state_update(self, sid, st):
        return self.rule.update(sid, st.get_site_state, st.get_general_state())


class Async(Sync):
    def __init__(self, rule, order):
        super().__init__(rule)
        self.order = order
        self.at = 0

    def get_random_site(self, _):
        self.at += 1
        return self.order[(self.at - 1) % len(self.order)]


def random_update(rng, ids):
    sites = {
        i: {
            k: rng.choice([0, 1, "x", None, 2.5, True, [1], {"a": [2]}])
            for k in rng.sample(["v", "w", "u"], rng.randint(0, 3))
        }
        for i in rng.sample(ids, rng.randint(0, min(4, len(ids))))
    }
    if rng.random() < 0.15:
        sites[10**5 + rng.randrange(50)] = {"v": "new"}
    gen = {rng.choice("abc"): rng.choice([0, 3, [4]])} if rng.random() < 0.4 else {}
    if gen and not sites and rng.random() < 0.5:
        return {}, gen, {GENERAL: copy.deepcopy(gen)}
    if gen or rng.random() < 0.3:
        return sites, gen, {SITES: copy.deepcopy(sites), GENERAL: copy.deepcopy(gen)}
    if rng.random() < 0.3:
        return sites, gen, {SITES: copy.deepcopy(sites)}
    return sites, gen, copy.deepcopy(sites)


def spoil_update(upd):
    """The caller goes on using the dictionary of an update already recorded."""
    for v in list(upd.values()):
        if isinstance(v, list):
            v.append("SPOILED")
        elif isinstance(v, dict):
            spoil_update(v)
    if upd and set(upd) <= set("vwu"):
        upd["v"] = "SPOILED"


def make(rng):
    n = rng.choice([1, 2, 4, 7, 12])
    ids = random_ids(rng, n)
    rule = Rule(rng, ids, modes=["own", "perm", "birth"])
    model = rule.initial(rng)
    steps = rng.choice([0, 1, 2, 3, 5, 8, 13])
    if rng.random() < 0.012:
        steps, n = rng.choice([(70, 4), (130, 2), (270, 1), (3, 120)])
        ids = random_ids(rng, n)
        rule = Rule(rng, ids, modes=["own", "perm", "birth"])
        model = rule.initial(rng)
    how = rng.choice(["sync", "async", "manual"])
    hist = [copy.deepcopy(model)]
    if how == "sync":
        hist = rule.sync_run(model, steps)
        result = SynchronousRunner().run(SimulationState(model), Sync(rule), steps)
    elif how == "async":
        order = [rng.choice(ids) for _ in range(5)]
        for k in range(steps):
            s, g = rule.effect(
                order[k % 5], hist[-1][SITES].get, hist[-1][GENERAL]
            )
            hist.append(apply_updates(hist[-1], s, g))
        result = AsynchronousRunner().run(
            SimulationState(model), Async(rule, order), steps
        )
    else:
        result = SimulationResult(SimulationState(model))
        for _ in range(steps):
            s, g, upd = random_update(rng, ids)
            hist.append(apply_updates(hist[-1], s, g))
            result.add_step(upd)
            if rng.random() < 0.5:
                spoil_update(upd)
    return ids, how, hist, result


def spoil(rng, mon, state):
    """What a user may do to a state they were handed."""
    ids = state.site_ids()
    for d in [*state.all_site_states(), state.get_general_state()]:
        for v in d.values():
            if isinstance(v, list):
                v.append("SPOILED")
                mon.count("nested_mutations")
            elif isinstance(v, dict):
                v["SPOILED"] = 1
                mon.count("nested_mutations")
    for sid in rng.sample(ids, min(2, len(ids))):
        state.set_site_state(sid, {"v": "SPOILED", "extra": 1})
    state.set_site_state(987654321, {"v": "SPOILED"})
    state.set_general_state({"tick": "SPOILED"})
    state.batch_update({SITES: {ids[0]: {"w": "SPOILED"}} if ids else {}, GENERAL: {"s": 1}})
    mon.count("mutations")


def case(rng, mon):
    ids, how, hist, result = make(rng)
    mon.describe(
        {"how": how, "n": len(ids), "ids": ids[:8], "states": len(hist), "d": digest(hist[-1])},
        nontrivial=len(hist) >= 2 and any(a != b for a, b in zip(hist, hist[1:])),
    )
    if how != "manual":
        mon.same(snapshot(result.output), hist[-1], "the output isn't the last state")
        if rng.random() < 0.5:
            spoil(rng, mon, result.output)
    gens = []
    for q in range(rng.randint(4, 14)):
        op = rng.choice(
            ["get", "get", "get", "steps", "gen", "load", "first", "last", "len", "add"]
        )
        where = {"query": q, "op": op, "how": how}
        if op == "get":
            k = rng.randrange(len(hist))
            st = result.get_step(np.int64(k) if rng.random() < 0.1 else k)
            mon.same(snapshot(st), hist[k], "get_step gives another state", step=k, **where)
            if rng.random() < 0.6:
                spoil(rng, mon, st)
        elif op == "steps":
            states = list(result.steps())
            mon.equal(len(states), len(hist), "steps() gives another number of states")
            for k, st in enumerate(states):
                mon.same(snapshot(st), hist[k], "steps() gives another state", step=k, **where)
                mon.count("generator_states")
            if rng.random() < 0.5:
                spoil(rng, mon, rng.choice(states))
        elif op == "gen":
            if len(gens) < 2:
                gens.append([iter(result.steps()), 0])
            g = rng.choice(gens)
            for _ in range(rng.randint(1, 3)):
                st = next(g[0], None)
                if st is None:
                    mon.require(
                        g[1] >= len(hist), "steps() ends before the last state", at=g[1]
                    )
                    gens.remove(g)
                    break
                mon.require(g[1] < len(hist), "steps() gives more states than recorded")
                mon.same(snapshot(st), hist[g[1]], "interleaved steps() differ", step=g[1])
                g[1] += 1
                mon.count("generator_states")
                if rng.random() < 0.4:
                    spoil(rng, mon, st)
        elif op == "load":
            result.load_steps(rng.choice([1, 1, 2, 3, 5, 20]))
            mon.count("loads")
        elif op == "first":
            st = result.first_step
            mon.same(snapshot(st), hist[0], "first_step isn't the first state", **where)
            if rng.random() < 0.5:
                spoil(rng, mon, st)
        elif op == "last":
            st = result.last_step
            mon.same(snapshot(st), hist[-1], "last_step isn't the last state", **where)
            if rng.random() < 0.5:
                spoil(rng, mon, st)
        elif op == "len":
            mon.equal(len(result), len(hist), "len isn't the number of states", **where)
        elif op == "add" and not gens:
            s, g, upd = random_update(rng, ids)
            hist.append(apply_updates(hist[-1], s, g))
            result.add_step(upd)
            if rng.random() < 0.5:
                spoil_update(upd)
            mon.count("appended")
        mon.count("queries")
    # whatever was asked before, the whole history is still there
    mon.equal(len(result), len(hist), "len isn't the number of states")
    for k in rng.sample(range(len(hist)), len(hist)):
        mon.same(snapshot(result.get_step(k)), hist[k], "history changed by queries", step=k)
        mon.seen("states", digest(hist[k]))
    mon.same(snapshot(result.initial_state), hist[0], "initial_state changed by queries")
