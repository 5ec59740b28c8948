"""C01: a synchronous step applies the rule to every site of one and the same state."""
from pylattica.core import BasicController, SimulationState, SynchronousRunner

from vmon.model import Rule, digest, random_ids, snapshot

PROP = "C01"
RULE = (
    "seeded random sparse/contiguous site ids, initial states, generated rules (own-site, "
    "permuted-target, partner, site-creating; every documented update form; general-state "
    "updates), 0-8 steps run serially; non-trivial: at least 2 sites, at least one step "
    "and a state that changes. Each rule application is an event (site, digest of the "
    "whole state it was given) checked against a reference evolution"
)
CASES = {"quick": 4800, "thorough": 30000}
REQUIRED = ["rule_applications", "steps_compared", "runs_without_sites", "contested_keys"]


class Logged(BasicController):
    def __init__(self, rule, every=1):
        self.rule = rule
        self.every = every  # the state is looked at in every so many applications
        self.events = []

    def pre_run(self, initial_state):
        self.events.append(("pre_run", None, None))

    def get_state_update(self, site_id, prev_state):
        seen = None
        if len(self.events) % self.every == 0:
            seen = digest(snapshot(prev_state))
        self.events.append(("update", site_id, seen))
        return self.rule.update(
            site_id, prev_state.get_site_state, prev_state.get_general_state()
        )


def check_trace(mon, events, hist):
    """Every site exactly once per step, all of a step's applications on its state."""
    mon.equal(
        [e[0] for e in events[:1]], ["pre_run"], "pre_run is not called before the steps"
    )
    events = events[1:]
    mon.require(
        all(e[0] == "update" for e in events), "pre_run is called more than once"
    )
    pos = 0
    for k, model in enumerate(hist[:-1]):
        n = len(model["SITES"])
        want = digest(model)
        batch = events[pos : pos + n]
        mon.equal(
            sorted(e[1] for e in batch),
            sorted(model["SITES"]),
            "a step does not apply the rule exactly once to every site",
            step=k,
        )
        wrong = [e[1] for e in batch if e[2] not in (None, want)]
        mon.require(
            not wrong,
            "the rule was given a state other than the one at the start of the step",
            step=k,
            sites=wrong,
        )
        pos += n
        mon.count("rule_applications", n)
    mon.equal(len(events), pos, "the rule is applied after the last step")


class Contest(BasicController):
    """Every site writes the same keys, with a value of its own."""

    def __init__(self, target, whole):
        self.target, self.whole = target, whole

    def wrote(self, i):
        return {"by": i, "all": {"of": i, f"only {i}": [i]}, f"own {i}": i}

    def get_state_update(self, site_id, prev_state):
        mine = self.wrote(site_id)
        if self.whole:
            return {"GENERAL": mine, "SITES": {self.target: dict(mine)}}
        return {self.target: mine}


def contest(rng, mon):
    """Which site's value a contested key has isn't said, but it is one site's value."""
    ids = random_ids(rng, rng.choice([2, 3, 5, 9]))
    target = rng.choice([*ids, 424242])
    ctrl = Contest(target, rng.random() < 0.6)
    state = SimulationState({"SITES": {i: {"_site_id": i, "kept": i} for i in ids}})
    end = SynchronousRunner().run(state, ctrl, 1).last_step
    where = [end.get_site_state(target)] + [end.get_general_state()] * ctrl.whole
    for got in where:
        for key in ("by", "all"):
            mon.require(
                any(got[key] == ctrl.wrote(i)[key] for i in ids),
                "a key that several sites wrote has none of their values", key=key, got=got,
            )
        for i in ids:
            mon.equal(got.get(f"own {i}"), i, "what one site wrote is gone", site=i)
        mon.count("contested_keys")
    mon.equal(
        [end.get_site_state(i).get("kept") for i in ids], ids, "another value was changed"
    )
    mon.describe({"contest": ids, "target": target, "whole": ctrl.whole}, nontrivial=True)


def case(rng, mon):
    if rng.random() < 0.03:
        contest(rng, mon)
        return
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 40])
    steps = rng.choice([0, 1, 1, 2, 3, 5, 8])
    if rng.random() < 0.015:
        n, steps = rng.choice(
            [(130, 2), (300, 1), (520, 1), (1030, 1), (2050, 1), (2, 70), (3, 130), (1, 260)]
        )
        mon.count("large_runs")
    rule = Rule(rng, random_ids(rng, n))
    model = rule.initial(rng)
    hist = rule.sync_run(model, steps)
    mon.describe(
        {"ids": rule.ids[:10], "n": n, "steps": steps, **rule.describe()},
        nontrivial=n >= 2 and steps > 0 and hist[0] != hist[-1],
    )
    ctrl = Logged(rule, 1 if n <= 200 and steps <= 200 else 17)
    if n == 0:
        mon.count("runs_without_sites")
    result = SynchronousRunner().run(
        SimulationState(model), ctrl, steps, verbose=bool(rule.seed & 4)
    )
    check_trace(mon, ctrl.events, hist)
    mon.equal(rule.changed_answers()[:3], [], "the run changed the rule's own updates")
    mon.count("updates_kept", len(rule.kept))
    mon.equal(len(result), steps + 1, "wrong number of recorded states")
    mon.same(snapshot(result.initial_state), hist[0], "wrong initial state")
    mon.same(snapshot(result.output), hist[-1], "wrong output state")
    for k, want in enumerate(hist):
        mon.same(snapshot(result.get_step(k)), want, "wrong state", step=k)
        mon.count("steps_compared")
        mon.seen("states", digest(want))
