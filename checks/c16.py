"""C16: analyzers count exactly the sites that match, and fractions are exact shares."""
import collections

import matplotlib.pyplot as plt
from pylattica.core import (
    Lattice,
    PeriodicStructure,
    SimulationResult,
    SimulationState,
    StateAnalyzer,
)
from pylattica.discrete import DiscreteResultAnalyzer
from pylattica.discrete.discrete_step_analyzer import DiscreteStepAnalyzer
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY

from vmon.model import GENERAL, SITES, random_ids, snapshot

PROP = "C16"
RULE = (
    "random states (keys present on some sites only; values None, 0, False, 1, True, '', "
    "strings, numbers), with and without a structure of several site classes, searched "
    "with random criteria, pairs and classes; random histories of discrete occupancies of "
    "1 to 260 states (phases appearing and vanishing) analysed by step, over the whole "
    "result (also after it has grown) and as plotted traces; answers compared with a direct count over the reference "
    "states, and the state and result compared before and after. Non-trivial: some search "
    "matches some but not all sites, or a history has 2 or more phases"
)
CASES = {"quick": 1600, "thorough": 12000}
REQUIRED = [
    "searches", "searches_by_class", "partial_matches", "histories", "plotted_points",
    "vanished_phases", "long_histories", "general_criteria", "long_criteria", "grown_results",
    "plotted_counts", "numbered_phases", "many_phases", "brief_phases",
]

VALUES = [None, 0, False, 1, True, "", "a", "b", 2.5, 7, "A", "a ", "1", "True", [1], "ab", (1,)]


def make_state(rng, ids):
    return {
        SITES: {
            i: {
                "_site_id": i,
                **{k: rng.choice(VALUES) for k in "vwu" if rng.random() < 0.7},
            }
            for i in ids
        },
        GENERAL: {},
    }


def make_struct(rng, n):
    s = PeriodicStructure(Lattice([[n + 1.0, 0], [0, 3.0]], rng.random() < 0.5))
    for i in range(n):
        s.add_site(rng.choice(["A", "B", 0, "A", "B", 0, "a", "B ", "0"]), (i, rng.choice([0, 1, 2])))
    return s


CRITERIA = [
    ("v is 1-like", lambda s: s.get("v") == 1),
    ("has w", lambda s: "w" in s),
    ("u truthy", lambda s: s.get("u")),
    ("even id", lambda s: s["_site_id"] % 2 == 0),
    ("never", lambda s: False),
    ("always", lambda s: True),
    ("no v or a string", lambda s: isinstance(s.get("v", ""), str)),
]


def state_case(rng, mon):
    n = rng.choice([1, 2, 5, 9, 20] * 8 + [150, 300])
    struct = make_struct(rng, n) if rng.random() < 0.6 else None
    ids = list(range(n)) if struct else random_ids(rng, n)
    order = ids[:]
    rng.shuffle(order)
    model = make_state(rng, order)
    # the state may hold sites the structure doesn't have
    if struct and rng.random() < 0.2:
        model[SITES][n + 50] = {"_site_id": n + 50, "v": 1, "w": 0, "u": 1}
    state = SimulationState(model)
    before = snapshot(state)
    analyzer = StateAnalyzer(struct) if struct or rng.random() < 0.5 else StateAnalyzer()
    classes = {s["_site_id"]: s["_site_class"] for s in struct.sites()} if struct else {}
    partial = False
    log = []
    for _ in range(rng.randint(2, 6)):
        cls = rng.choice([None, "A", "B", 0, "Z", "a", "B ", "0"]) if struct else None
        pool = [i for i in before[SITES] if not struct or i in classes]
        if cls is not None:
            pool = [i for i in pool if classes[i] == cls]
            mon.count("searches_by_class")
        if rng.random() < 0.5:
            crit = rng.sample(CRITERIA, rng.randint(0, 3))
            if rng.random() < 0.3:
                # many, of which few say no
                k = rng.choice([1, 3, 6, 12])
                crit = [("always", lambda s: True)] * k + crit
                if rng.random() < 0.3:
                    rng.shuffle(crit)
                mon.count("long_criteria")
            want = [i for i in pool if all(f(before[SITES][i]) for _, f in crit)]
            kw = {"state_criteria": [f for _, f in crit]}
            if not crit and rng.random() < 0.5:
                kw = {}
            if cls is not None:
                kw["site_class"] = cls
            got = analyzer.get_sites(state, **kw)
            count = analyzer.get_site_count(state, **kw)
            what = [name for name, _ in crit]
            mon.count("general_criteria")
        else:
            what = {
                k: rng.choice(VALUES + ["absent"])
                for k in rng.sample(["v", "w", "u", "nowhere"], rng.choice([0, 1, 1, 2, 3, 4]))
            }
            if rng.random() < 0.5 and pool:
                # pairs of an existing site, so that something matches
                src = before[SITES][rng.choice(pool)]
                what = {k: src.get(k) for k in what}
            want = [
                i
                for i in pool
                if all(before[SITES][i].get(k) == v for k, v in what.items())
            ]
            kw = {} if cls is None else {"site_class": cls}
            got = analyzer.get_sites_where_equal(state, dict(what), **kw)
            count = analyzer.get_site_count_where_equal(state, dict(what), **kw)
        mon.require(
            sorted(got) == sorted(want),
            "a search returns other sites than the matching ones",
            search=what, site_class=cls, got=sorted(got), want=sorted(want),
        )
        mon.equal(count, len(want), "a count isn't the number of matching sites", search=what)
        mon.count("searches")
        if 0 < len(want) < len(before[SITES]):
            partial = True
            mon.count("partial_matches")
        log.append([repr(what), cls, len(want)])
    mon.same(snapshot(state), before, "analysing a state changed it")
    mon.describe(
        {"n": n, "structure": bool(struct), "searches": log, "ids": ids[:6]}, nontrivial=partial
    )


def tally(model):
    return collections.Counter(s[DISCRETE_OCCUPANCY] for s in model[SITES].values())


def near(a, b):
    return abs(a - b) < 1e-9


def history_case(rng, mon):
    n = rng.choice([1, 2, 4, 9, 25])
    length = rng.choice([1, 2, 5, 20, 99, 100, 101, 150, 160, 210, 260])
    if length > 100:
        mon.count("long_histories")
        n = min(n, 4)
    names, late, other = ["A", "B", "C", "D", "VACANT", "Na+", "e", "", "a", "AB", "A ", "vacant"], "LATE", "not a phase"
    flash = "FLASH"
    if rng.random() < 0.25:
        # phases don't have to have names
        names, late, other = [0, 1, 2, 3, 5, 8], 13, 21
        flash = 34
        mon.count("numbered_phases")
    if rng.random() < 0.08:
        names = names + [f"P{i}" for i in range(60)] if "A" in names else [*range(100, 160), *names]
        n = max(n, 60) if length <= 20 else n
        phases = rng.sample(names, rng.randint(8, 40))
        mon.count("many_phases")
    else:
        phases = rng.sample(names, rng.randint(1, 5))
    ids = random_ids(rng, n)
    model = {
        SITES: {i: {"_site_id": i, DISCRETE_OCCUPANCY: rng.choice(phases)} for i in ids},
        GENERAL: {},
    }
    result = SimulationResult(SimulationState(model))
    hist = [model]
    brief = None
    if length > 1 and rng.random() < 0.3:
        # a phase that is there for one step only
        brief = rng.randrange(1, length)
        mon.count("brief_phases")
    for k in range(1, length):
        upd = {
            i: {DISCRETE_OCCUPANCY: rng.choice(phases)}
            for i in rng.sample(ids, rng.choice([0, 0, 1, min(2, n), n]))
        }
        if k == brief:
            upd[ids[0]] = {DISCRETE_OCCUPANCY: flash}
        elif brief is not None and k == brief + 1:
            upd[ids[0]] = {DISCRETE_OCCUPANCY: phases[0]}
        new = {SITES: {i: dict(s) for i, s in hist[-1][SITES].items()}, GENERAL: {}}
        for i, u in upd.items():
            new[SITES][i].update(u)
        hist.append(new)
        result.add_step({i: dict(u) for i, u in upd.items()})
    tallies = [tally(m) for m in hist]
    everything = set().union(*tallies)
    if everything - set(tallies[-1]):
        mon.count("vanished_phases")

    step_an = DiscreteStepAnalyzer()
    for k in {0, length - 1, rng.randrange(length)}:
        st = result.get_step(k)
        t = tallies[k]
        total = 0.0
        for p in [*everything, other]:
            mon.equal(step_an.cell_count(st, p), t[p], "wrong cell count", step=k, phase=p)
            frac = step_an.cell_fraction(st, p)
            mon.require(
                near(frac, t[p] / n), "wrong cell fraction", step=k, phase=p, got=frac
            )
            total += frac
        mon.require(near(total, 1.0), "the fractions of a state don't add up to 1", sum=total)
        mon.equal(sorted(step_an.phases_present(st)), sorted(t), "wrong phases present")
        mon.equal(step_an.phase_count(st), len(t), "wrong phase count")
        p1, p2 = rng.choice(sorted(everything)), rng.choice(sorted(t))
        mon.require(
            near(step_an.cell_ratio(st, p1, p2), t[p1] / t[p2]),
            "wrong ratio of two phases",
            step=k, phases=[p1, p2],
        )

    an = DiscreteResultAnalyzer(result)
    ops = ["all", "final", "at", "at", "plot"]
    if rng.random() < 0.4:
        # the result goes on after it was asked about
        ops += ["grow", "all", "final"]
    if length < 50 and rng.random() < 0.3:
        ops.append("counts")
    rng.shuffle(ops)
    for op in ops:
        if op == "all":
            mon.equal(
                set(an.all_phases()), everything, "wrong set of phases over the result"
            )
        elif op == "final":
            fr = an.final_phase_fractions()
            mon.equal(set(fr), everything, "final fractions are of other phases")
            for p, f in fr.items():
                mon.require(
                    near(f, tallies[-1][p] / n), "wrong final fraction", phase=p, got=f
                )
        elif op == "grow":
            new = {SITES: {i: dict(s) for i, s in hist[-1][SITES].items()}, GENERAL: {}}
            i, p = rng.choice(ids), rng.choice(phases + [late])
            new[SITES][i][DISCRETE_OCCUPANCY] = p
            result.add_step({i: {DISCRETE_OCCUPANCY: p}})
            hist.append(new)
            tallies.append(tally(new))
            everything |= set(tallies[-1])
            length += 1
            mon.count("grown_results")
        elif op == "counts":
            figure = plt.figure()
            try:
                an.plot_phase_counts()
                lines = [ln for f in map(plt.figure, plt.get_fignums())
                         for ax in f.axes for ln in ax.get_lines()]
                mon.equal(len(lines), 1, "the phase counts aren't one line")
                x, y = (list(map(float, v)) for v in lines[0].get_data())
            finally:
                plt.close("all")
            mon.equal(x, list(map(float, range(length))), "phase counts at other steps")
            mon.equal(y, [float(len(t)) for t in tallies], "wrong phase counts are plotted")
            mon.count("plotted_counts")
        elif op == "at":
            k = rng.randrange(length)
            p = rng.choice(sorted(everything) + [other])
            f = an.phase_fraction_at(k, p)
            mon.require(
                near(f, tallies[k][p] / n), "wrong fraction at a step", step=k, phase=p, got=f
            )
        else:
            cut = rng.choice([None, 0.0, 0.3, 0.5])
            fig = an.plot_phase_fractions(**({} if cut is None else {"min_prevalence": cut}))
            cut = 0.01 if cut is None else cut
            named = {str(q): q for q in everything}
            names = [named.get(tr.name, tr.name) for tr in fig.data]
            mon.equal(len(set(names)), len(names), "a phase is plotted twice")
            xs = None
            for tr in fig.data:
                x, y = list(tr.x), list(tr.y)
                mon.equal(len(x), len(y), "a trace has points without a value")
                mon.require(
                    x == sorted(set(x)) and x[0] == 0 and x[-1] < length,
                    "a trace's steps aren't increasing steps of the result",
                    x=x,
                )
                mon.require(
                    x == list(range(length)) if length <= 100 else len(x) >= 50,
                    "a trace leaves out steps",
                    length=length, points=len(x),
                )
                for k, f in zip(x, y):
                    mon.require(
                        near(f, tallies[k][named.get(tr.name)] / n),
                        "a trace shows another fraction than the step's",
                        step=k, phase=tr.name, got=f,
                    )
                    mon.count("plotted_points")
                xs = x
            if xs is None:
                xs = range(length) if length <= 100 else []
            for p in everything:
                top = max((tallies[k][p] / n for k in xs), default=None)
                if top is None or near(top, cut):
                    continue
                mon.require(
                    (p in names) == (top > cut),
                    "a phase is plotted or left out against its prevalence",
                    phase=p, most=top, min_prevalence=cut,
                )
    for k in {0, length - 1}:
        mon.same(snapshot(result.get_step(k)), hist[k], "analysing a result changed it", step=k)
    mon.equal(len(result), length, "analysing a result changed its length")
    mon.count("histories")
    mon.describe(
        {"sites": n, "length": length, "phases": sorted(everything), "last": dict(tallies[-1])},
        nontrivial=len(everything) > 1,
    )


def case(rng, mon):
    if rng.random() < 0.6:
        state_case(rng, mon)
    else:
        history_case(rng, mon)
