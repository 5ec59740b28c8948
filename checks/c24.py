"""C24: runs, drawings and queries of several threads don't affect each other."""
import json
import os
import random
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    sys.path.insert(0, HERE)

from vmon import core  # noqa: E402

PROP = "C24"
RULE = (
    "scenarios in processes of their own: 2 to 4 threads that start at a barrier and make "
    "parallel, serial and asynchronous runs of different generated rules (runner, starting "
    "state or both shared by some), draw GIFs of different results with different colors, "
    "ask one result, structure and neighborhood all sorts of questions, or are the first "
    "users of new lattices, builders, structures and setups; with random delays before every "
    "fork, very short thread switching intervals and stops between any two lines of the "
    "library. All that each "
    "thread got is compared with the reference for it alone. Non-trivial: rule "
    "applications (queries, drawings) of two threads overlap in time"
)
CASES = {"quick": 42, "thorough": 420}
PARALLEL = True
REQUIRED = ["parallel_runs", "serial_runs", "async_runs", "overlapping_runs", "gifs",
            "queries", "short_runs", "shared_runners", "shared_states", "forks_delayed", "first_uses",
            "stops_within"]
TIMEOUT_S = 70


# ------------------------------------------------------------ in the check's process
def case(rng, mon):
    kind = rng.choice(["runs", "runs", "runs", "rush", "queries", "gifs", "fresh"])
    seed = rng.getrandbits(48)
    for attempt in range(3):
        p = subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.abspath(__file__), kind, str(seed)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
            start_new_session=True,
        )
        try:
            out, err = p.communicate(timeout=TIMEOUT_S)
            break
        except subprocess.TimeoutExpired:
            # (forking a process that has threads can go wrong in Python itself)
            mon.count("timeouts")
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
    else:
        raise core.Inconclusive("threads got no answer in three tries")
    lines = [x for x in out.splitlines() if x.startswith("RESULT")]
    if not lines:
        raise core.Inconclusive(f"a scenario ended with {p.returncode}: {err[-600:]}")
    res = json.loads(lines[-1][6:])
    if res["infra"]:
        raise core.Inconclusive(res["infra"])
    for k, v in res["counters"].items():
        mon.count(k, v)
    for x in res["interleavings"]:
        mon.seen("interleavings", x)
    mon.describe({"kind": kind, "seed": seed, **res["desc"]}, nontrivial=res["nontrivial"])
    mon.require(not res["bad"], f"{res['bad']} ({kind})")


# ------------------------------------------------------------ in a scenario's process
class Found:
    def __init__(self):
        self.mon = core.Monitor()
        self.interleavings = []
        self.desc = {}
        self.nontrivial = False


def stumble(rng, chance, stops):
    """Lets go of the thread between any two lines of the library, at times."""
    src = os.path.join(core.REPO, "src") + os.sep

    def step(frame, event, _):
        if event == "line" and rng.random() < chance:
            stops.append((frame.f_code.co_name, frame.f_lineno))
            time.sleep(rng.choice([0, 0, 1e-5]))
        return step

    return lambda frame, event, _: step if frame.f_code.co_filename.startswith(src) else None


def together(jobs, jitter=None, stops=None):
    """Runs the jobs in threads that start at the same time; gives their results."""
    out, errors = [None] * len(jobs), []
    barrier = threading.Barrier(len(jobs))

    def work(i):
        try:
            barrier.wait()
            if jitter:
                sys.settrace(stumble(random.Random(i * 7919 + jitter[0]), jitter[1], stops))
            out[i] = jobs[i]()
        except BaseException as e:  # noqa: BLE001
            errors.append(e)
        finally:
            sys.settrace(None)

    threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for e in errors:
        raise e
    return out


def jittered(rng, found, jobs, most=0.05):
    """together(), in most cases with the threads stopped within the library's functions."""
    if rng.random() < 0.3:
        return together(jobs)
    stops = []
    out = together(jobs, (rng.getrandbits(30), most * rng.choice([0.1, 0.5, 1])), stops)
    found.mon.count("stops_within", len(stops))
    return out


def runs(rng, found):
    from pylattica.core import (
        AsynchronousRunner,
        BasicController,
        SimulationState,
        SynchronousRunner,
    )
    from vmon.model import GENERAL, SITES, Rule, apply_updates, random_ids, snapshot

    mon = found.mon

    class Ctrl(BasicController):
        def __init__(self, rule, tag, order, naps):
            self.rule, self.tag, self.order, self.naps = rule, tag, order, naps
            self.times, self.asked = [], 0

        def get_random_site(self, _):
            self.asked += 1
            return self.order[(self.asked - 1) % len(self.order)]

        def get_state_update(self, sid, st):
            self.times.append(time.monotonic_ns())
            if self.naps:
                time.sleep(self.naps)
            upd = self.rule.update(sid, st.get_site_state, st.get_general_state())
            return upd

    n = rng.choice([1, 3, 6, 10])
    ids = random_ids(rng, n)
    shared_state = rng.random() < 0.4
    shared_runner = rng.random() < 0.5
    hows = [rng.choice(["parallel", "parallel", "serial", "async"])
            for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.5:
        hows = ["parallel"] * len(hows)
    sync = {
        "parallel": SynchronousRunner(parallel=True, workers=rng.choice([1, 2, 3])),
        "serial": SynchronousRunner(),
        "async": AsynchronousRunner(),
    }
    rule0 = Rule(rng, ids, modes=["own", "perm"])
    model0 = rule0.initial(rng)
    state0 = SimulationState(model0)
    jobs, wants, ctrls, states, steps_of = [], [], [], [], []
    for i, how in enumerate(hows):
        rule = Rule(rng, ids if shared_state else random_ids(rng, n), modes=["own", "perm"])
        model = model0 if shared_state else rule.initial(rng)
        steps = rng.choice([1, 2, 4]) * (n if how == "async" else 1)
        order = [rng.choice(rule.ids) for _ in range(5)]
        ctrl = Ctrl(rule, i, order, rng.choice([0, 0, 0.001, 0.003]))
        if how == "async":
            hist = [model]
            for k in range(steps):
                s, g = rule.effect(order[k % 5], hist[-1][SITES].get, hist[-1][GENERAL])
                hist.append(apply_updates(hist[-1], s, g))
        else:
            hist = rule.sync_run(model, steps)
        runner = sync[how]
        if not shared_runner:
            runner = (
                AsynchronousRunner()
                if how == "async"
                else SynchronousRunner(parallel=how == "parallel", workers=rng.choice([1, 2, 3]))
            )
        state = state0 if shared_state else SimulationState(model)
        jobs.append(lambda r=runner, s=state, c=ctrl, k=steps: (
            time.monotonic_ns(), r.run(s, c, k), time.monotonic_ns()))
        wants.append(hist)
        ctrls.append(ctrl)
        states.append(state)
        mon.count(how + "_runs")
    if shared_state:
        mon.count("shared_states")
    if shared_runner:
        mon.count("shared_runners")
    results = jittered(rng, found, jobs)
    spans = []
    for i, (t0, res, t1) in enumerate(results):
        hist = wants[i]
        info = {"thread": i, "how": hows, "shared_runner": shared_runner,
                "shared_state": shared_state}
        mon.equal(len(res), len(hist), "a thread's run has a wrong number of steps", **info)
        for k, want in enumerate(hist):
            mon.same(snapshot(res.get_step(k)), want, "a thread's run is wrong", step=k, **info)
        mon.same(snapshot(res.output), hist[-1], "a thread's run has a wrong output", **info)
        mon.same(snapshot(states[i]), hist[0], "a run changed the state it was given", **info)
        spans.append((t0, t1))
    over = sum(
        a[0] < b[1] and b[0] < a[1] for x, a in enumerate(spans) for b in spans[x + 1 :]
    )
    mon.count("overlapping_runs", over)
    events = sorted((t, c.tag) for c in ctrls for t in c.times)
    found.interleavings.append([hows, [tag for _, tag in events]])
    found.nontrivial = found.nontrivial or over > 0
    found.desc.setdefault("runs", []).append(
        {"how": hows, "n": n, "shared_state": shared_state, "shared_runner": shared_runner}
    )


def rush(rng, found):
    """Many short runs with nothing to wait for, so that threads switch within steps."""
    from pylattica.core import (
        AsynchronousRunner,
        BasicController,
        SimulationState,
        SynchronousRunner,
    )
    from vmon.model import GENERAL, SITES, Rule, apply_updates, random_ids, snapshot

    mon = found.mon

    class Ctrl(BasicController):
        def __init__(self, rule, order):
            self.rule, self.order, self.asked = rule, order, 0

        def pre_run(self, _):
            self.asked = 0

        def get_random_site(self, _):
            self.asked += 1
            return self.order[(self.asked - 1) % len(self.order)]

        def get_state_update(self, sid, st):
            return self.rule.update(sid, st.get_site_state, st.get_general_state())

    sys.setswitchinterval(1e-6)
    n = rng.choice([1, 2, 3])
    shared = {"serial": SynchronousRunner(), "async": AsynchronousRunner()}
    mode = rng.choice(["serial", "async", "any"])
    how_of = [
        rng.choice(["serial", "async"]) if mode == "any" else mode
        for _ in range(rng.randint(3, 4))
    ]
    share = rng.random() < 0.5
    times = [[] for _ in how_of]
    jobs = []
    for i, how in enumerate(how_of):
        rule = Rule(rng, random_ids(rng, n), modes=["own", "perm"])
        model = rule.initial(rng)
        order = [rng.choice(rule.ids) for _ in range(5)]
        steps = rng.choice([4, 6, 8])
        hist = [model]
        if how == "async":
            for k in range(steps):
                s, g = rule.effect(order[k % 5], hist[-1][SITES].get, hist[-1][GENERAL])
                hist.append(apply_updates(hist[-1], s, g))
        else:
            hist = rule.sync_run(model, steps)

        def job(i=i, how=how, rule=rule, order=order, hist=hist):
            state = SimulationState(hist[0])
            runner = shared[how] if share else type(shared[how])()
            for k in range(40):
                times[i].append(time.monotonic_ns())
                res = runner.run(state, Ctrl(rule, order), len(hist) - 1)
                mon.equal(len(res), len(hist), "a thread's short run has other steps")
                for j, st in enumerate(res.steps()):
                    mon.same(snapshot(st), hist[j], "a thread's short run is wrong", step=j,
                              how=how_of, shared_runner=share, run=k)
            mon.same(snapshot(state), hist[0], "a run changed the state it was given")

        jobs.append(job)
    jittered(rng, found, jobs)
    order = [i for _, i in sorted((t, i) for i, ts in enumerate(times) for t in ts)]
    found.interleavings.append(order)
    mon.count("short_runs", len(order))
    switches = sum(a != b for a, b in zip(order, order[1:]))
    found.nontrivial = found.nontrivial or switches >= len(jobs)
    found.desc.setdefault("rush", []).append({"how": how_of, "n": n, "shared_runner": share})


def queries(rng, found):
    from pylattica.core import (
        DistanceNeighborhoodBuilder,
        Lattice,
        MotifNeighborhoodBuilder,
        PeriodicStructure,
        SimulationResult,
        SimulationState,
    )
    from vmon.model import Rule, SITES, random_ids, snapshot

    mon = found.mon
    rule = Rule(rng, random_ids(rng, rng.choice([3, 8])), modes=["own", "perm"])
    hist = rule.sync_run(rule.initial(rng), rng.choice([6, 15, 30]))
    result = SimulationResult(SimulationState(hist[0]))
    for a, b in zip(hist, hist[1:]):
        result.add_step(
            {SITES: {s: v for s, v in b[SITES].items() if repr(v) != repr(a[SITES].get(s))},
             "GENERAL": b["GENERAL"]}
        )
    side = rng.randint(2, 4)
    struct = PeriodicStructure(Lattice([[side, 0], [0, side]]))
    cells = [(x, y) for x in range(side) for y in range(side)]
    rng.shuffle(cells)
    for c in cells:
        struct.add_site(rng.choice("AB"), c)
    at = {c: i for i, c in enumerate(cells)}
    motif = [(1, 0), (0, 1)]
    builder = MotifNeighborhoodBuilder(motif)
    around = DistanceNeighborhoodBuilder(1.1)

    def ask(seed):
        r = random.Random(seed)
        times = []
        for _ in range(25):
            what = r.choice(["step", "step", "steps", "load", "last", "site", "nb", "state"])
            times.append(time.monotonic_ns())
            mon.count("queries")
            if what == "step":
                k = r.randrange(len(hist))
                st = result.get_step(k)
                mon.same(snapshot(st), hist[k], "a step asked for by a thread", step=k)
                st.set_site_state(rule.ids[0], {"v": "SPOILED"})
            elif what == "steps":
                for k, st in enumerate(result.steps()):
                    mon.same(snapshot(st), hist[k], "steps() asked for by a thread", step=k)
            elif what == "load":
                result.load_steps(r.randint(1, 5))
            elif what == "last":
                mon.same(snapshot(result.last_step), hist[-1], "last_step in a thread")
            elif what == "site":
                c = r.choice(cells)
                k = [r.randint(-2, 2) * side for _ in c]
                mon.equal(
                    struct.id_at([a + b for a, b in zip(c, k)]), at[c], "a lookup in a thread"
                )
            elif what == "nb":
                b = r.choice([builder, around])
                nb = b.get(struct)
                for c in cells:
                    offs = motif if b is builder else [(1, 0), (0, 1), (-1, 0), (0, -1)]
                    want = {at[tuple((x + o) % side for x, o in zip(c, off))] for off in offs}
                    mon.equal(
                        set(nb.neighbors_of(at[c])), want - {at[c]}, "neighbors in a thread"
                    )
            else:
                st = result.get_step(0)
                other = st.copy()
                other.set_site_state(rule.ids[-1], {"q": seed})
                mon.same(snapshot(st), hist[0], "a copy made in a thread")
        return times

    threads = rng.randint(2, 4)
    out = jittered(
        rng, found, [lambda s=rng.getrandbits(30): ask(s) for _ in range(threads)], 0.02
    )
    order = [i for _, i in sorted((t, i) for i, ts in enumerate(out) for t in ts)]
    found.interleavings.append(order)
    switches = sum(a != b for a, b in zip(order, order[1:]))
    found.nontrivial = found.nontrivial or switches >= threads
    found.desc.setdefault("queries", []).append({"steps": len(hist), "threads": threads})


def gifs(rng, found):
    from PIL import Image, ImageSequence
    from pylattica.core import SimulationResult, SimulationState
    from pylattica.visualization import DiscreteCellArtist, ResultArtist, SquareGridArtist2D

    from checks import c20

    mon = found.mon
    jobs, want = [], []
    for i in range(rng.randint(2, 3)):
        n = rng.randint(4, 5)
        struct = c20.make_grid(rng, n)
        phases = ["A", "B", "C"]
        colors = c20.random_colors(rng, phases)
        state, cells = c20.fill(rng, struct, phases)
        at = {c20.cell_of(s): s["_site_id"] for s in struct.sites()}
        hist, result = [cells], SimulationResult(SimulationState(c20.snapshot(state)))
        for _ in range(rng.randint(0, 3)):
            new = {c: rng.choice(phases) for c in hist[-1]}
            result.add_step({at[c]: {c20.DISCRETE_OCCUPANCY: p} for c, p in new.items()})
            hist.append(new)
        artist = ResultArtist(SquareGridArtist2D(struct, DiscreteCellArtist(dict(colors))), result)
        jobs.append(lambda a=artist, f=f"out{i}.gif": (
            time.monotonic_ns(), a.to_gif(f, cell_size=10, wait=0.5), time.monotonic_ns()))
        want.append((f"out{i}.gif", n, hist, colors))
    spans = [(a, b) for a, _, b in jittered(rng, found, jobs, 0.003)]
    for f, n, hist, colors in want:
        shown = []
        with Image.open(f) as gif:
            for fr in ImageSequence.Iterator(gif):
                times = 1
                if len(hist) > 1:
                    times = max(1, round((fr.info.get("duration") or 0) / 500))
                shown += [fr.convert("RGB")] * times
        os.remove(f)
        mon.equal(len(shown), len(hist), "a thread's GIF has a wrong number of frames")
        for k, fr in enumerate(shown):
            c20.check_pixels(mon, fr, hist[k], colors.get, n, 10, True, tol=8, step=k)
        mon.count("gifs")
    over = sum(
        a[0] < b[1] and b[0] < a[1] for x, a in enumerate(spans) for b in spans[x + 1 :]
    )
    found.nontrivial = found.nontrivial or over > 0
    found.desc.setdefault("gifs", []).append([len(h) for _, _, h, _ in want])


def fresh(rng, found):
    """New objects whose first users are several threads, all with questions of their own."""
    import numpy as np
    from pylattica.core import (
        DistanceNeighborhoodBuilder,
        Lattice,
        MotifNeighborhoodBuilder,
        PeriodicStructure,
        SimulationState,
        StructureBuilder,
    )
    from pylattica.core.analyzer import StateAnalyzer
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
    from pylattica.structures.square_grid import DiscreteGridSetup

    from vmon import geom

    mon = found.mon
    kind, m = geom.random_matrix(rng)
    dim = len(m)
    arg, periodic = geom.random_periodic(rng, dim)
    lattice = Lattice(m, arg)
    motif = geom.random_motif(rng, dim, m, periodic, [1] * dim, True, 2)
    builder = StructureBuilder(Lattice(m, arg), motif)
    builder.frac_coords = True
    cells = [2] * dim
    tiling = geom.Tiling(m, periodic, cells, motif, True)
    struct = PeriodicStructure.build_from(Lattice(m, arg), cells, motif, frac_coords=True)
    spot = {s["_site_id"]: s for s in struct.sites()}
    cutoff = float(np.linalg.norm(m, axis=1).min()) * 1.01
    # (places on whole numbers, so that rounding can't lead past a site)
    side = rng.randint(2, 4)
    grid = DiscreteGridSetup(PhaseSet(["A"])).build_structure(side)
    offsets = rng.sample([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)], rng.randint(1, 3))
    far_builder, step_builder = DistanceNeighborhoodBuilder(cutoff), MotifNeighborhoodBuilder(offsets)
    far = geom.distance_neighbors(struct, cutoff, tiling.matrix, periodic)
    near, _ = geom.motif_neighbors(grid, offsets, [[side, 0], [0, side]], (True, True))
    setup = DiscreteGridSetup(PhaseSet(["A", "B", "C"]))
    full_state = SimulationState.from_struct(struct)
    analyzer = StateAnalyzer(struct)
    jobs = []

    def lattice_job(r):
        p, q = ([r.uniform(-9, 9) for _ in range(dim)] for _ in range(2))
        want = geom.frac_of(p, m)
        d = geom.min_image(np.subtract(p, q), m, periodic)

        def go():
            got = lattice.get_fractional_coords(p)
            mon.require(np.allclose(got, want, atol=1e-7), "fractional coordinates in a thread")
            got = lattice.get_cartesian_coords(want)
            mon.require(np.allclose(got, p, atol=1e-7), "Cartesian coordinates in a thread")
            got = lattice.get_closest_image(np.subtract(p, q))
            mon.require(abs(np.linalg.norm(got) - d) < 1e-7, "a closest image in a thread")
            got = lattice.get_scaled_lattice([2] * dim)
            mon.require(np.allclose(got.matrix, np.array(m) * 2), "a scaled lattice in a thread")
        return go

    def build_job(r):
        size = r.randint(1, 2)
        mine = geom.Tiling(m, periodic, [size] * dim, motif, True)

        def go():
            geom.check_sites(mon, builder.build(size), mine)
        return go

    def look_job(r):
        sid = r.choice(sorted(spot))
        k = [r.randint(-2, 2) if x else 0 for x in periodic]
        loc = np.add(spot[sid]["_location"], geom.lattice_point(tiling.matrix, k))

        def go():
            mon.equal(struct.id_at(tuple(loc)), sid, "a lookup in a thread")
            mon.equal(
                len(struct.sites(site_class=spot[sid]["_site_class"])),
                sum(s["_site_class"] == spot[sid]["_site_class"] for s in spot.values()),
                "sites of a class in a thread",
            )
        return go

    def near_job(r):
        def go():
            nb = step_builder.get(grid)
            for sid in near:
                mon.equal(set(nb.neighbors_of(sid)), set(near[sid]), "neighbors in a thread")
        return go

    def far_job(r):
        def go():
            nb = far_builder.get(struct)
            for sid in spot:
                mon.equal(set(nb.neighbors_of(sid)), set(far[sid]), "neighbors in a thread")
        return go

    def own_job(r):
        """A structure of the thread's own, on the shared lattice."""
        spots = [geom.lattice_point(m, [x] * dim) for x in (0.1, 0.3, 0.6)]

        def go():
            mine = PeriodicStructure(lattice)
            ids = [mine.add_site("A", tuple(p)) for p in spots]
            mon.equal(len(set(ids)), 3, "sites of a thread's own structure")
            for sid, p in zip(ids, spots):
                mon.equal(mine.id_at(tuple(p)), sid, "a lookup in a thread's own structure")
        return go

    def setup_job(r):
        p, q = r.sample(["A", "B", "C"], 2)
        size = r.randint(2, 4)
        at = (r.randrange(size), r.randrange(size))

        def go():
            sim = setup.setup_coords(size, p, {q: [at]})
            got = {
                tuple(int(round(x)) for x in s["_location"]):
                    sim.state.get_site_state(s["_site_id"])[DISCRETE_OCCUPANCY]
                for s in sim.structure.sites()
            }
            want = {(x, y): p for x in range(size) for y in range(size)}
            mon.equal(got, {**want, at: q}, "a grid made by a thread")
        return go

    def state_job(r):
        tag = r.getrandbits(20)

        def go():
            mine = full_state.copy()
            for sid in spot:
                mine.set_site_state(sid, {"v": tag})
            found_ids = analyzer.get_sites(mine, state_criteria=[lambda s: s.get("v") == tag])
            mon.equal(sorted(found_ids), sorted(spot), "an analysis in a thread")
            mon.equal(analyzer.get_sites_where_equal(mine, {"v": tag + 1}), [], "an analysis")
        return go

    kinds = [lattice_job, build_job, look_job, own_job, setup_job, state_job, near_job]
    if far is not None:
        kinds.append(far_job)
    if rng.random() < 0.5:
        kinds = rng.sample(kinds, rng.choice([1, 2]))
    names = []
    for _ in range(rng.randint(3, 5)):
        # each thread's own questions, starting with the same or with different ones
        todo = [rng.choice(kinds) for _ in range(rng.randint(1, 3))]
        names.append([j.__name__ for j in todo])
        mine = [j(random.Random(rng.getrandbits(30))) for j in todo]
        jobs.append(lambda mine=mine: [go() for go in mine])
        mon.count("first_uses", len(mine))
    stops = []
    together(jobs, (rng.getrandbits(30), rng.choice([0.05, 0.2, 0.5])), stops)
    mon.count("stops_within", len(stops))
    found.interleavings.append([names, [n for n, _ in stops][:60]])
    found.nontrivial = found.nontrivial or len(stops) > len(jobs)
    found.desc.setdefault("fresh", []).append({"kind": kind, "threads": names})


def scenario(kind, seed):
    import shutil
    import tempfile

    core.load_repo()
    rng = random.Random(f"C24/{kind}/{seed}")
    found = Found()
    nap = random.Random(seed)
    main = os.getpid()

    def before_fork():
        if os.getpid() == main:
            found.mon.count("forks_delayed")
            time.sleep(nap.choice([0, 0.001, 0.004, 0.01]))

    os.register_at_fork(before=before_fork)
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 0.005]))
    scratch = tempfile.mkdtemp(prefix="vmon-c24-", dir=os.getcwd())
    os.chdir(scratch)
    bad = infra = None
    try:
        rounds = {"runs": 6, "rush": 4, "queries": 4, "gifs": 1, "fresh": 40}[kind]
        for _ in range(rounds):
            {"runs": runs, "rush": rush, "queries": queries, "gifs": gifs, "fresh": fresh}[kind](
                rng, found
            )
    except core.Violation as e:
        bad = str(e)
    except Exception as e:  # noqa: BLE001
        import traceback

        if core.is_infrastructure(e):
            infra = f"infrastructure: {e!r}"
        else:
            bad = f"a valid use of the library raised {e!r}\n{traceback.format_exc(limit=-6)}"
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    print("RESULT" + json.dumps(core.jsonable_full({
        "bad": bad, "infra": infra, "counters": found.mon.counters,
        "interleavings": found.interleavings, "desc": found.desc,
        "nontrivial": found.nontrivial,
    })), flush=True)


if __name__ == "__main__":
    scenario(sys.argv[1], int(sys.argv[2]))
    sys.stdout.flush()
    os._exit(0)
