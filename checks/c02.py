"""C02: a parallel run is the serial run, whatever the number and schedule of workers."""
import glob
import json
import multiprocessing as mp
import os
import random
import tempfile
import time
from collections import Counter

import numpy as np
from pylattica.core import BasicController, SimulationState, SynchronousRunner

from vmon.model import Rule, digest, h, random_ids, snapshot

PROP = "C02"
RULE = (
    "generated rules and states as in C01, run with 1-9 (or the default number of) worker "
    "processes under injected delays (a slow site, a slow worker, the first workers to "
    "start held back, random jitter, a slow late step) that change which worker runs what; "
    "every rule application in every process is recorded as (process, site, digest of the "
    "state it was given, time) and the merged log is checked against the serial reference "
    "evolution; rules whose updates clash against the serial run; random rules, whose draws "
    "must all differ. Non-trivial: at least 2 workers executed rule applications and the state "
    "changed"
)
CASES = {"quick": 320, "thorough": 2500}
PARALLEL = True
REQUIRED = ["rule_applications", "multi_worker_runs", "stale_prone_runs", "clashing_runs",
            "random_multi_worker_runs"]


class Recorded(BasicController):
    def __init__(self, rule, logdir, delay, seed):
        self.rule = rule
        self.logdir = logdir
        self.delay = delay
        self.seed = seed
        self.parent = os.getpid()
        self._file = None
        self._pid = None

    def _log(self, site, dig):
        if self._pid != os.getpid():
            self._pid = os.getpid()
            self._file = open(
                os.path.join(self.logdir, f"ev.{self._pid}"), "a", buffering=1
            )
            self.calls = 0
        self.calls += 1
        self._file.write(json.dumps([site, dig, time.monotonic_ns()]) + "\n")

    def _wait(self, site, tick_digest):
        kind, a, b = self.delay
        pid = os.getpid()
        if kind == "site" and site == a:
            time.sleep(b)
        elif kind == "worker" and pid % 3 == a % 3:
            time.sleep(b / 4)
        elif kind == "first":
            # the first worker to get here holds everybody's first batch back
            try:
                os.close(
                    os.open(
                        os.path.join(self.logdir, "first"), os.O_CREAT | os.O_EXCL
                    )
                )
                time.sleep(b * 2)
            except FileExistsError:
                pass
        elif kind == "jitter":
            time.sleep((h(pid, site, time.monotonic_ns()) % 5) * b / 10)
        elif kind == "state" and h(tick_digest) % 3 == a % 3:
            time.sleep((h(site) % 4) * b / 6)

    def get_state_update(self, site_id, prev_state):
        dig = digest(snapshot(prev_state))
        self._log(site_id, dig)
        self._wait(site_id, dig)
        # looked at again after the delay: a step's state stands still
        again = digest(snapshot(prev_state))
        if again != dig:
            self._log(site_id, "changed-under-the-rule:" + again)
        return self.rule.update(
            site_id, prev_state.get_site_state, prev_state.get_general_state()
        )


class Clashing(BasicController):
    """Rules of several sites that set the same keys of the same sites, differently."""

    def __init__(self, ids, seed, few):
        self.ids, self.seed, self.few = ids, seed, few

    def get_state_update(self, site_id, prev_state):
        own = prev_state.get_site_state(site_id).get("v")
        tick = prev_state.get_general_state().get("last")
        val = h(self.seed, site_id, own, tick)
        target = self.ids[val % min(self.few, len(self.ids))]
        sites = {target: {"v": (val >> 4) % 9, ["w", "x"][val % 2]: site_id}}
        if val % 3:
            sites.setdefault(site_id, {})["v"] = val % 7
        if val % 5 == 0:
            sites[10**6 + val % 2] = {"v": site_id}
        general = {"last": site_id, "sum": val % 11} if val % 2 else {}
        return {"SITES": sites, "GENERAL": general} if val % 4 else sites


def clash_case(rng, mon):
    ids = random_ids(rng, rng.choice([2, 3, 5, 9, 16]))
    few, steps = rng.choice([1, 2, 4]), rng.choice([1, 2, 4])
    ctrl = Clashing(ids, rng.getrandbits(30), few)
    state = SimulationState({"SITES": {}, "GENERAL": {"last": None}})
    for i in ids:
        state.set_site_state(i, {"v": rng.randrange(5)})
    serial = SynchronousRunner().run(state, ctrl, steps)
    workers = rng.choice([1, 2, 3, 4, 7, len(ids)])
    mon.describe({"ids": ids, "clashing rule": ctrl.seed, "steps": steps, "workers": workers})
    parallel = SynchronousRunner(True, workers).run(state, ctrl, steps)
    for k in range(steps + 1):
        mon.equal(
            snapshot(parallel.get_step(k)), snapshot(serial.get_step(k)),
            "parallel differs from serial where updates of several sites clash", step=k,
        )
    mon.count("clashing_runs")


class Drawing(BasicController):
    def __init__(self, delay):
        self.delay = delay

    def get_state_update(self, site_id, prev_state):
        time.sleep(self.delay)
        return {
            "pid": os.getpid(), "n": float(np.random.rand()), "p": random.random(),
            "g": float(np.random.normal()),
        }


def drawing_case(rng, mon):
    n, steps, workers = rng.choice([4, 7, 12]), rng.choice([2, 3]), rng.choice([2, 3, 4])
    state = SimulationState()
    for i in range(n):
        state.set_site_state(i, {})
    seed = rng.getrandbits(32)
    random.seed(seed)
    np.random.seed(seed)
    mon.describe({"n": n, "steps": steps, "workers": workers, "seed": seed})
    draws, pids = {"n": [], "p": [], "g": []}, set()
    for run in range(2):
        runner = SynchronousRunner(True, workers)
        result = runner.run(state, Drawing(rng.choice([0.002, 0.006])), steps)
        for k in range(1, steps + 1):
            for s in result.get_step(k).all_site_states():
                pids.add((run, s["pid"]))
                for key, values in draws.items():
                    values.append(s[key])
        if not run:
            # (what goes on in this process has no say)
            random.seed(seed + 1)
            np.random.seed(seed + 1)
    for key, values in draws.items():
        mon.require(
            len(set(values)) == len(values),
            "applications of a random rule repeat each other's draws",
            draws=key, of=len(values), distinct=len(set(values)), workers=len(pids),
        )
    mon.count("random_draws", sum(map(len, draws.values())))
    if len(pids) > 2:
        mon.count("random_multi_worker_runs")


def case(rng, mon):
    kind = rng.random()
    if kind < 0.08:
        return clash_case(rng, mon)
    if kind < 0.14:
        return drawing_case(rng, mon)
    return recorded_case(rng, mon)


def recorded_case(rng, mon):
    n = rng.choice([1, 2, 3, 5, 8, 12, 17, 24, 33] * 3 + [0])
    steps = rng.choice([1, 2, 3, 4, 6])
    large = rng.random() < 0.02
    if large:
        n, steps = rng.choice([(140, 2), (260, 1), (5, 30)])
        mon.count("large_runs")
    # few batches for the workers that exist leaves workers idle in some steps
    workers = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 8, 9, None])
    rule = Rule(rng, random_ids(rng, n))
    model = rule.initial(rng)
    hist = rule.sync_run(model, steps)
    delay = (
        rng.choice(["none", "site", "worker", "first", "jitter", "state"]),
        rng.choice(rule.ids) if n and rng.random() < 0.7 else rng.randrange(3),
        rng.choice([0.004, 0.01, 0.02]) / (10 if large else 1),
    )
    logdir = tempfile.mkdtemp(prefix="ev-", dir=os.getcwd())
    ctrl = Recorded(rule, logdir, delay, rng.getrandbits(20))
    runner = SynchronousRunner(parallel=True, workers=workers)
    state = SimulationState(model)
    result = runner.run(state, ctrl, steps, verbose=bool(rule.seed & 4))

    left = mp.active_children()
    if left:
        deadline = time.time() + 20
        while mp.active_children() and time.time() < deadline:
            time.sleep(0.05)
        left = mp.active_children()
    mon.require(not left, "worker processes are left behind after the run")

    events = []
    for f in glob.glob(os.path.join(logdir, "ev.*")):
        pid = int(f.rsplit(".", 1)[1])
        with open(f) as fh:
            events += [(pid, *json.loads(line)) for line in fh]
    events.sort(key=lambda e: e[3])
    pids = {e[0] for e in events}
    mon.describe(
        {
            "n": n,
            "steps": steps,
            "workers": workers,
            "delay": delay,
            "ids": rule.ids[:8],
            **rule.describe(),
        },
        nontrivial=len(pids) >= 2 and hist[0] != hist[-1],
    )

    # --- every application saw the state at the start of its step, each site once
    step_of = {}
    want = Counter()
    for k, m in enumerate(hist[:-1]):
        d = digest(m)
        step_of.setdefault(d, k)
        want.update((d, sid) for sid in m["SITES"])
    got = Counter()
    for pid, sid, d, _ in events:
        mon.require(
            d in step_of,
            "a worker applied the rule to a state that no step of the run starts from",
            site=sid,
            worker=sorted(pids).index(pid),
            digest=d,
        )
        got[(d, sid)] += 1
    diff = {
        "missing": [(step_of[d], s) for d, s in (want - got)],
        "extra": [(step_of[d], s) for d, s in (got - want)],
    }
    mon.require(
        got == want,
        "the workers together do not apply the rule once to every site in every step",
        **diff,
    )
    # --- steps don't overlap: no application of step k after one of a later step
    if len(set(map(digest, hist[:-1]))) == len(hist) - 1:
        order = [step_of[d] for _, _, d, _ in events]
        mon.require(
            all(a <= b for a, b in zip(order, order[1:])),
            "applications of different steps overlap",
            order=order,
        )
    # --- the result is the serial one
    mon.equal(len(result), steps + 1, "wrong number of recorded states")
    for k, m in enumerate(hist):
        mon.equal(
            snapshot(result.get_step(k)), m, "parallel differs from serial", step=k
        )
    mon.equal(
        snapshot(result.output), hist[-1], "the output is not the last parallel state"
    )
    mon.same(snapshot(state), hist[0], "the caller's state changed")

    mon.count("rule_applications", len(events))
    mon.count("runs_with_delay_" + delay[0])
    if len(pids) >= 2:
        mon.count("multi_worker_runs")
    mon.seen(
        "schedules",
        [(step_of[d], sid, sorted(pids).index(pid)) for pid, sid, d, _ in events],
    )
    # workers that took part in some steps but not in all of them
    parts = {p: {step_of[d] for q, _, d, _ in events if q == p} for p in pids}
    if any(len(s) < steps for s in parts.values()) and steps > 1:
        mon.count("stale_prone_runs")
