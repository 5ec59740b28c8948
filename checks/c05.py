"""C05: runs don't touch what they were given, and don't touch each other."""
import copy
import multiprocessing as mp
import time

from pylattica.core import (
    AsynchronousRunner,
    BasicController,
    SimulationResult,
    SimulationState,
    SynchronousRunner,
)

from vmon.model import (
    GENERAL, SITES, Rule, apply_updates, change_in_place, random_ids, random_value, snapshot,
)

PROP = "C05"
RULE = (
    "runs (serial, asynchronous, parallel) of generated rules over states with nested "
    "values, combined into scenarios: the caller's and the result's states are deeply "
    "changed after the run; the same runner and controller run again; an update rule runs "
    "another simulation on the state it was given; an update rule raises at a random "
    "application (fault injection) and a run follows. Deep snapshots of every state before "
    "and after are compared. Non-trivial: the run changed the state or the fault fired"
)
CASES = {"quick": 2100, "thorough": 20000}
PARALLEL = True
REQUIRED = ["nested_runs", "nested_in_own_runner", "faults_fired", "reruns", "deep_changes", "parallel_runs",
            "own_results", "runs_without_steps"]


class Boom(Exception):
    pass


class OwnResult(SimulationResult):
    """A controller's own kind of result: it also counts the steps."""

    def __init__(self, starting_state):
        super().__init__(starting_state)
        self.added = 0

    def add_step(self, updates):
        self.added += 1
        super().add_step(updates)


class Ctrl(BasicController):
    def __init__(self, rule, order=None, fail_at=None, inner=None, setup=None):
        self.rule = rule
        self.order = order or [0]
        self.fail_at = fail_at
        self.inner = inner
        self.setup = setup
        self.calls = 0
        self.asked = 0
        self.own_result = False
        self.at_once = None
        self.made = []

    def pre_run(self, state):
        self.calls = 0
        self.asked = 0
        if self.setup:
            state.batch_update(copy.deepcopy(self.setup))

    def instantiate_result(self, starting_state):
        if not self.own_result:
            return super().instantiate_result(starting_state)
        self.made.append(OwnResult(starting_state))
        return self.made[-1]

    def get_random_site(self, _):
        sites = [
            self.order[(self.asked + k) % len(self.order)] for k in range(self.at_once or 1)
        ]
        self.asked += len(sites)
        return sites if self.at_once else sites[0]

    def get_state_update(self, sid, st):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            raise Boom(f"application {self.calls}")
        if self.inner and self.calls == 2:
            self.inner(st)
        return self.rule.update(sid, st.get_site_state, st.get_general_state())


def reference(rule, how, model, steps, order):
    if how != "async":
        return rule.sync_run(model, steps)
    hist = [copy.deepcopy(model)]
    for k in range(steps):
        s, g = rule.effect(
            order[k % len(order)], hist[-1][SITES].get, hist[-1][GENERAL]
        )
        hist.append(apply_updates(hist[-1], s, g))
    return hist


def make_runner(rng, how):
    if how == "async":
        return AsynchronousRunner()
    if how == "parallel":
        return SynchronousRunner(parallel=True, workers=rng.choice([1, 2, 3]))
    return SynchronousRunner()


def deep_change(rng, mon, state):
    """Changes a state through everything a user can reach, nested values included."""
    for sid in state.site_ids():
        s = state.get_site_state(sid)
        for v in list(s.values()):
            change_in_place(v)
        if rng.random() < 0.5:
            s["direct"] = "CHANGED"
        if rng.random() < 0.5:
            state.set_site_state(sid, {"v": "CHANGED"})
    g = state.get_general_state()
    for v in list(g.values()):
        change_in_place(v)
    g["direct"] = "CHANGED"
    state.set_general_state({"tick": "CHANGED"})
    mon.count("deep_changes")


def nested_initial(rng, rule):
    model = rule.initial(rng)
    for s in model[SITES].values():
        if rng.random() < 0.6:
            s["nest"] = rng.choice([[1, [2]], {"a": [1]}, [], random_value(rng)])
    model[GENERAL]["list"] = rng.choice([[1, {"b": 2}], random_value(rng)])
    return model


def deep(state):
    return copy.deepcopy(snapshot(state))


def check_result(mon, result, hist, how):
    mon.equal(len(result), len(hist), "wrong number of recorded states", how=how)
    mon.same(snapshot(result.output), hist[-1], "wrong output", how=how)
    for k, m in enumerate(hist):
        mon.same(snapshot(result.get_step(k)), m, "wrong state", step=k, how=how)


def check_answers(mon, rule):
    mon.equal(rule.changed_answers()[:3], [], "a run changed the rule's own updates")
    mon.count("updates_kept", len(rule.kept))


def check_history(mon, result, hist, msg):
    for k, m in enumerate(hist):
        mon.same(snapshot(result.get_step(k)), m, msg, step=k)


def case(rng, mon):
    how = rng.choice(["serial"] * 5 + ["async"] * 5 + ["parallel"])
    n = rng.choice([2, 3, 5, 9])
    steps = rng.choice([1, 2, 4])
    if rng.random() < 0.01:
        n, steps = rng.choice([(60, 2), (120, 1), (2, 40)])
    if how == "async":
        steps *= min(n, 12)
    rule = Rule(rng, random_ids(rng, n), modes=["own", "perm"])
    order = [rng.choice(rule.ids) for _ in range(6)]
    model = nested_initial(rng, rule)
    hist = reference(rule, how, model, steps, order)
    scenario = rng.choice(["after", "after", "rerun", "nested", "fault", "setup", "own result"])
    if scenario in ("after", "rerun", "setup", "own result") and rng.random() < 0.15:
        steps = 0
        hist = reference(rule, how, model, 0, order)
        mon.count("runs_without_steps")
    mon.describe(
        {"how": how, "scenario": scenario, "n": n, "steps": steps, **rule.describe()},
        nontrivial=hist[0] != hist[-1] or scenario == "fault" or not steps,
    )
    mon.count(how + "_runs")
    given = copy.deepcopy(model)
    state = SimulationState(given)
    runner = make_runner(rng, how)

    if scenario == "after":
        result = runner.run(state, Ctrl(rule, order), steps)
        mon.same(deep(state), model, "the run changed the state it was given")
        mon.equal(given, model, "the run changed the dictionary of its state")
        check_result(mon, result, hist, how)
        check_answers(mon, rule)
        # the caller goes on using the state they passed in
        deep_change(rng, mon, state)
        check_history(mon, result, hist, "the caller's later changes reach the result")
        for answer in rule.kept.values():
            change_in_place(answer)
        check_history(mon, result, hist, "changing the rule's own updates changes the result")
        mon.equal(
            snapshot(result.output), hist[-1], "the caller's later changes reach the output"
        )
        # ... and a copy of the output
        out = result.output.copy()
        deep_change(rng, mon, out)
        mon.same(snapshot(result.output), hist[-1], "changing a copy changes the state")
        # ... and the output itself
        if rng.random() < 0.5:
            deep_change(rng, mon, result.output)
            check_history(mon, result, hist, "changing the output changes the result")
        # ... and a step
        k = rng.randrange(len(hist))
        deep_change(rng, mon, result.get_step(k))
        check_history(mon, result, hist, "changing a step changes the result")
        # ... and the initial state's copy
        first = result.get_step(0)
        deep_change(rng, mon, first)
        mon.equal(
            snapshot(result.initial_state), hist[0], "changing a step changes the result"
        )
        mon.same(snapshot(result.get_step(0)), hist[0], "changing a step changes the result")
        # ... and builds on a state made from the same dictionary
        other = SimulationState(given)
        deep_change(rng, mon, other)
        mon.equal(given, model, "a state shares data with the dictionary it was made from")
    elif scenario == "rerun":
        ctrl = Ctrl(rule, order)
        results = [runner.run(state, ctrl, steps) for _ in range(2)]
        steps2 = rng.choice([0, 1, 2])
        results.append(runner.run(results[0].output, ctrl, steps2))
        mon.equal(len({id(r) for r in results}), 3, "two runs have one and the same result")
        for r in results[:2]:
            check_result(mon, r, hist, how)
        hist2 = reference(rule, how, hist[-1], steps2, order)
        check_result(mon, results[2], hist2, how)
        mon.same(deep(state), model, "the runs changed the state they were given")
        check_answers(mon, rule)
        mon.equal(
            snapshot(results[0].output), hist[-1], "a run changed the state it was given"
        )
        mon.count("reruns")
    elif scenario == "nested":
        rule2 = Rule(rng, rule.ids, modes=["own", "perm"])
        how2 = rng.choice(["serial", "async"])
        seen = []
        # the runner of the outer run does as well
        runner2 = runner if how == how2 and rng.random() < 0.6 else make_runner(rng, how2)
        if runner2 is runner:
            mon.count("nested_in_own_runner")
        outer, ctrl2 = Ctrl(rule, order), Ctrl(rule2, order)
        outer.at_once, ctrl2.at_once = rng.choice([None, 3]), rng.choice([None, 2, 3])

        def inner(st):
            before = deep(st)
            ref = reference(rule2, how2, before, 3, order)
            res = runner2.run(st, ctrl2, 3)
            seen.append(
                deep(st) == before
                and [snapshot(res.get_step(k)) for k in range(4)] == ref
            )
            if not seen[-1]:
                raise Boom("an inner run is wrong or changed the state it was given")

        outer.inner = inner
        try:
            result = runner.run(state, outer, steps)
        except Boom as e:
            mon.require(False, str(e), how=how, inner=how2)
        check_result(mon, result, hist, how)
        mon.same(deep(state), model, "the run changed the state it was given")
        mon.count("nested_runs")
    elif scenario == "fault":
        total = steps if how == "async" else steps * n
        # in a parallel run every worker counts its own applications
        fail_at = 1 if how == "parallel" else rng.randint(1, total)
        mon.raises(
            Boom,
            lambda: runner.run(state, Ctrl(rule, order, fail_at=fail_at), steps),
            "an exception of the update rule doesn't reach the caller",
        )
        mon.count("faults_fired")
        mon.same(deep(state), model, "a failed run changed the state it was given")
        if how == "parallel":
            deadline = time.time() + 20
            while mp.active_children() and time.time() < deadline:
                time.sleep(0.05)
            mon.require(
                not mp.active_children(), "a failed run leaves worker processes behind"
            )
        result = runner.run(state, Ctrl(rule, order), steps)
        check_result(mon, result, hist, how)
    elif scenario == "own result":
        ctrl = Ctrl(rule, order)
        ctrl.own_result = True
        result = runner.run(state, ctrl, steps)
        mon.require(
            len(ctrl.made) == 1 and result is ctrl.made[0],
            "the run's result isn't the one its controller made",
            how=how, made=len(ctrl.made), got=type(result).__name__,
        )
        mon.equal(result.added, steps, "the controller's result got other steps", how=how)
        check_result(mon, result, hist, how)
        mon.same(deep(state), model, "the run changed the state it was given")
        mon.count("own_results")
    else:
        # what pre_run sets up is where the run, and its record, starts from
        setup = {
            SITES: {rng.choice(rule.ids): {"v": 1, "set": True}},
            GENERAL: {"setup": rng.randrange(9)},
        }
        start = apply_updates(model, setup[SITES], setup[GENERAL])
        hist = reference(rule, how, start, steps, order)
        result = runner.run(state, Ctrl(rule, order, setup=setup), steps)
        check_result(mon, result, hist, how)
        mon.same(snapshot(result.initial_state), start, "the record starts elsewhere")
