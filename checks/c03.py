"""C03: an asynchronous step updates one site; sites are visited as the controller says."""
import copy
from collections import Counter, deque

from pylattica.core import AsynchronousRunner, BasicController, SimulationState

from vmon.model import Rule, apply_updates, digest, h, random_ids, snapshot

PROP = "C03"
RULE = (
    "seeded states and generated rules run asynchronously under scripted controllers that "
    "hand out single sites, lists of sites (with repeats), empty lists or nothing, and that "
    "return follow-up sites with some updates; the recorded sequence of requests and rule "
    "applications, each with a digest of the state handed over, is checked online against "
    "a queue model. Non-trivial: at least 2 steps ran and the state changed; runs with the "
    "default site choice check that exactly the existing sites get visited"
)
CASES = {"quick": 12000, "thorough": 60000}
REQUIRED = [
    "default_choice_of_many",
    "steps_checked",
    "early_stops",
    "nothing_to_update",
    "followup_sites",
    "refills",
    "default_choice_runs",
    "controllers_with_own_lists",
    "followups_not_in_lists",
]


class Scripted(BasicController):
    """Plays a script of site choices and records what it is asked."""

    def __init__(self, rule, script, followups):
        self.rule = rule
        self.script = script
        self.followups = followups
        self.asked = 0
        self.applied = 0
        self.events = []
        self.keeps_lists = False
        self.sequence = list

    def pre_run(self, _):
        self.events.append(("pre_run",))

    def get_random_site(self, state):
        answer = self.script[self.asked % len(self.script)] if self.script else None
        if self.asked >= len(self.script):
            answer = None
        self.asked += 1
        self.events.append(("ask", digest(snapshot(state)), copy.deepcopy(answer)))
        # some controllers answer with lists of their own, which they go on using
        return answer if self.keeps_lists else copy.deepcopy(answer)

    def get_state_update(self, site_id, state):
        snap = snapshot(state)
        upd = self.rule.update(
            site_id, state.get_site_state, state.get_general_state()
        )
        nxt = self.followups(self.applied, site_id)
        self.applied += 1
        self.events.append(("apply", site_id, digest(snap), copy.deepcopy(nxt)))
        if nxt is None:
            return upd
        return upd, nxt if self.keeps_lists else self.sequence(nxt)


def monitor_trace(mon, ctrl, rule, model, num_steps):
    """Replays the events against the queue model; returns the expected history."""
    events = deque(ctrl.events)
    mon.require(
        bool(events) and events[0] == ("pre_run",), "pre_run is not called first"
    )
    events.popleft()
    queue = deque()
    hist = [copy.deepcopy(model)]
    current = hist[0]

    def as_sites(answer):
        if isinstance(answer, list):
            return answer
        return [] if answer is None else [answer]

    while events:
        ev = events.popleft()
        if ev[0] == "ask":
            mon.require(
                not queue,
                "the controller is asked for a site although sites are still waiting",
                waiting=list(queue),
            )
            mon.equal(
                ev[1], digest(current), "asked for a site with a state that isn't current"
            )
            queue.extend(as_sites(ev[2]))
            mon.count("refills")
            if not queue:
                mon.require(
                    not events, "the run goes on although there is no site to update"
                )
        elif ev[0] == "apply":
            mon.require(len(hist) - 1 < num_steps, "more steps than asked for")
            mon.require(bool(queue), "the rule is applied to a site nobody chose", got=ev[1])
            mon.equal(ev[1], queue.popleft(), "wrong site next", step=len(hist) - 1)
            mon.equal(
                ev[2],
                digest(current),
                "the rule doesn't see every earlier update",
                step=len(hist) - 1,
            )
            s, g = rule.effect(ev[1], current["SITES"].get, current["GENERAL"])
            current = apply_updates(current, s, g)
            hist.append(current)
            if ev[3]:
                queue.extend(ev[3])
                mon.count("followup_sites", len(ev[3]))
            mon.count("steps_checked")
        else:
            mon.require(False, "pre_run is called more than once")
    ran = len(hist) - 1
    if ran < num_steps:
        mon.require(
            not queue and ctrl.events[-1][0] == "ask",
            "the run stops although sites are waiting or could be asked for",
            ran=ran,
            asked_for=num_steps,
        )
        mon.count("early_stops")
    return hist


def check_result(mon, result, hist):
    mon.equal(len(result), len(hist), "wrong number of recorded states")
    for k, want in enumerate(hist):
        mon.same(snapshot(result.get_step(k)), want, "wrong recorded state", step=k)
        mon.seen("states", digest(want))
    mon.same(snapshot(result.output), hist[-1], "wrong output state")


def scripted_case(rng, mon):
    n = rng.choice([1, 2, 3, 5, 9, 16] * 16 + [120])
    ids = random_ids(rng, n)
    rule = Rule(rng, ids, modes=["own", "perm", "birth"])
    model = rule.initial(rng)
    num_steps = rng.choice([1, 2, 4, 8, 15, 30])
    if rng.random() < 0.012:
        num_steps = rng.choice([110, 270, 520])
        mon.count("long_runs")
    script = []
    for _ in range(rng.choice([0, 1, 3, 10, 40, max(40, num_steps // 2)])):
        r = rng.random()
        if r < 0.55:
            script.append(rng.choice(ids))
        elif r < 0.9:
            script.append([rng.choice(ids) for _ in range(rng.choice([1, 2, 3, 4, 5, 5, 40] * 30 + [1300]))])
        elif r < 0.95:
            script.append([])
        else:
            script.append(None)
    salt, style = rng.getrandbits(20), rng.choice(["none", "some", "many", "empty"])

    own_lists = {}

    def followups(k, site):
        nxt = drawn_followups(k, site)
        return nxt if nxt is None else own_lists.setdefault(repr(nxt), nxt)

    def drawn_followups(k, site):
        r = h(salt, k, site)
        if style == "none" or (style == "some" and r % 3):
            return None
        if style == "empty":
            return []
        return [ids[(r >> (3 * j)) % n] for j in range(r % (2 if style == "some" else 3))]

    ctrl = Scripted(rule, script, followups)
    if rng.random() < 0.5:
        ctrl.keeps_lists = True
        # the same list again and again
        if script and rng.random() < 0.5:
            script[:] = [rng.choice(script[:2]) for _ in script]
        mon.count("controllers_with_own_lists")
    elif rng.random() < 0.3:
        # follow-up sites in another kind of sequence
        ctrl.sequence = rng.choice([tuple, deque])
        mon.count("followups_not_in_lists")
    script_before = copy.deepcopy(script)
    desc = {
        "n": n,
        "ids": ids[:10],
        "steps": num_steps,
        "script": script[:8],
        "followups": style,
        **rule.describe(),
    }
    state = SimulationState(model)
    first = script[0] if script else None
    if first is None or first == []:
        mon.describe(desc, nontrivial=True)
        mon.raises(
            RuntimeError,
            lambda: AsynchronousRunner().run(state, ctrl, num_steps),
            "no error although the controller has no site to update",
        )
        mon.equal(ctrl.applied, 0, "the rule is applied although no site was chosen")
        mon.count("nothing_to_update")
        return
    result = AsynchronousRunner().run(state, ctrl, num_steps, verbose=bool(rule.seed & 4))
    hist = monitor_trace(mon, ctrl, rule, model, num_steps)
    mon.describe(desc, nontrivial=len(hist) > 2 and hist[0] != hist[-1])
    check_result(mon, result, hist)
    mon.same(snapshot(state), hist[0], "the caller's state changed")
    mon.equal(rule.changed_answers()[:3], [], "the run changed the rule's own updates")
    mon.equal(script, script_before, "the controller's own lists of sites changed")
    mon.require(
        all(repr(v) == k for k, v in own_lists.items()),
        "the controller's own lists of follow-up sites changed",
        lists=list(own_lists.items())[:5],
    )


class Default(BasicController):
    """Leaves the choice of sites to the library."""

    def __init__(self, rule):
        self.rule = rule
        self.visited = []

    def get_state_update(self, site_id, state):
        self.visited.append((site_id, digest(snapshot(state))))
        return self.rule.update(
            site_id, state.get_site_state, state.get_general_state()
        )


def default_case(rng, mon):
    n = rng.choice([1, 2, 3, 4])
    ids = random_ids(rng, n)
    rule = Rule(rng, ids, modes=["own"])
    model = rule.initial(rng)
    num_steps = rng.choice([1, 10, 60 * n])
    ctrl = Default(rule)
    result = AsynchronousRunner().run(SimulationState(model), ctrl, num_steps, bool(rule.seed & 4))
    mon.describe(
        {"default": True, "ids": ids, "steps": num_steps, **rule.describe()},
        nontrivial=n > 1,
    )
    mon.equal(len(ctrl.visited), num_steps, "not one site per step")
    hist = [model]
    for sid, d in ctrl.visited:
        mon.require(sid in ids, "a site that doesn't exist was chosen", site=sid)
        mon.equal(d, digest(hist[-1]), "the rule doesn't see every earlier update")
        s, g = rule.effect(sid, hist[-1]["SITES"].get, hist[-1]["GENERAL"])
        hist.append(apply_updates(hist[-1], s, g))
        mon.count("steps_checked")
    if num_steps == 60 * n:
        # a fair choice misses one of at most four sites in 60 n draws with p < 1e-29
        mon.equal(
            sorted(Counter(s for s, _ in ctrl.visited)),
            sorted(ids),
            "some sites are never chosen",
        )
        check_result(mon, result, [hist[0]] + hist[1:]) if n == 1 else None
    else:
        check_result(mon, result, hist)
    mon.count("default_choice_runs")
    if rng.random() < 0.3:
        # the same controller, for a state of as many (or more) other sites
        ids = random_ids(rng, n + rng.choice([0, 0, 1]))
        rule = ctrl.rule = Rule(rng, ids, modes=["own"])
        ctrl.visited = []
        AsynchronousRunner().run(SimulationState(rule.initial(rng)), ctrl, 9 * n)
        mon.equal(len(ctrl.visited), 9 * n, "not one site per step in a second run")
        mon.require(
            all(sid in ids for sid, _ in ctrl.visited),
            "a second run with a controller chose a site that doesn't exist",
            ids=ids, visited=[s for s, _ in ctrl.visited],
        )
        mon.count("second_default_runs")


class Counting(BasicController):
    def __init__(self):
        self.visited = Counter()

    def get_state_update(self, site_id, state):
        self.visited[site_id] += 1
        return {site_id: {"n": self.visited[site_id]}}


def many_sites_case(rng, mon):
    """Every one of many sites has its turn, when the choice is the library's."""
    ids = random_ids(rng, rng.choice([100, 300, 600]))
    state = SimulationState()
    for i in ids:
        state.set_site_state(i, {"n": 0})
    ctrl = Counting()
    # a fair choice misses a site with p < 1e-12
    result = AsynchronousRunner().run(state, ctrl, 35 * len(ids))
    mon.equal(sorted(ctrl.visited), sorted(ids), "some sites are never chosen")
    mon.equal(sum(ctrl.visited.values()), 35 * len(ids), "not one site per step")
    mon.equal(
        {i: s["n"] for i, s in snapshot(result.output)["SITES"].items()}, dict(ctrl.visited),
        "wrong output state",
    )
    mon.count("default_choice_of_many")
    mon.describe({"default": True, "n": len(ids), "ids": ids[:5]}, nontrivial=True)


def case(rng, mon):
    if rng.random() < 0.004:
        many_sites_case(rng, mon)
        return
    if rng.random() < 0.12:
        default_case(rng, mon)
    else:
        scripted_case(rng, mon)
