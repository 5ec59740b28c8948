"""Reference model of states and a family of generated update rules.

Nothing here uses the code under test: a model state is a plain
{"SITES": {id: {...}}, "GENERAL": {...}} dictionary, and the meaning of an update
is written down again in `apply_updates`.
"""
import copy
import hashlib
import zlib

SITES = "SITES"
GENERAL = "GENERAL"
SITE_ID = "_site_id"


# --------------------------------------------------------------- model states
def apply_updates(model, sites, general):
    """The state after an update: named keys change, everything else stays."""
    new = copy.deepcopy(model)
    for sid, upd in sites.items():
        if sid not in new[SITES]:
            new[SITES][sid] = {SITE_ID: sid}
        new[SITES][sid].update(copy.deepcopy(upd))
    new[GENERAL].update(copy.deepcopy(general))
    return new


def snapshot(state):
    """What a user can see of a SimulationState, through its public methods."""
    ids = list(state.site_ids())
    snap = {
        SITES: {sid: dict(state.get_site_state(sid)) for sid in ids},
        GENERAL: dict(state.get_general_state() or {}),
    }
    if len(snap[SITES]) != len(ids):
        raise ValueError("site_ids lists an ID twice")
    return snap


def canon(model):
    return repr(
        (
            sorted((sid, sorted(s.items(), key=repr)) for sid, s in model[SITES].items()),
            sorted(model[GENERAL].items(), key=repr),
        )
    )


def digest(model):
    return hashlib.md5(canon(model).encode()).hexdigest()[:16]


def h(*args):
    return zlib.crc32(repr(args).encode())


# ------------------------------------------------------------- generated rules
class Rule:
    """A deterministic update rule drawn from a family.

    mode "own"      every site updates itself from its neighbours' values
         "perm"     site i updates site perm[i] (each target has one writer)
         "partner"  active sites update themselves and one passive partner site
         "birth"    "own", and some applications create a new site
         "share"    "own", and some applications set a key of their own at another site
    general: every application also writes its own key and the common key "tick" of
    the general state, from the tick it observed.
    """

    def __init__(self, rng, ids, with_general=None, modes=None):
        self.seed = rng.getrandbits(30)
        self.ids = list(ids)
        self.mode = rng.choice(
            modes or ["own", "own", "own", "perm", "partner", "birth", "share"]
        )
        self.with_general = (
            rng.random() < 0.5 if with_general is None else with_general
        )
        self.k = rng.choice([2, 3, 5, 1000])
        self.nbrs = {
            i: rng.sample(self.ids, min(len(self.ids), rng.randint(0, 4)))
            for i in self.ids
        }
        shuffled = list(self.ids)
        rng.shuffle(shuffled)
        self.perm = dict(zip(self.ids, shuffled))
        half = len(shuffled) // 2
        self.partner = dict(zip(shuffled[:half], shuffled[half : 2 * half]))
        self.passive = set(self.partner.values())
        self.quiet = rng.choice([0, 0, 3, 7])  # now and then an application does nothing
        self.forms = rng.choice(["mixed", "mixed", "plain", "ids", "full"])
        # gives one and the same dictionary for equal updates
        self.keeps_answers = rng.random() < 0.3
        self.kept = {}
        # now and then many keys at once
        self.wide = rng.choice([0] * 9 + [7, 20])

    def describe(self):
        return {
            "rule_seed": self.seed,
            "mode": self.mode,
            "general": self.with_general,
            "k": self.k,
            "quiet": self.quiet,
            "forms": self.forms,
        }

    def initial(self, rng):
        sites = {}
        for i in self.ids:
            s = {SITE_ID: i, "v": rng.randrange(self.k)}
            if rng.random() < 0.3:
                s["keep"] = rng.choice(["x", None, 1.5, [1, 2], {"a": 1}])
            sites[i] = s
        return {SITES: sites, GENERAL: {"tick": 0, "name": "run"}}

    # What the rule does, given a function that looks up site states
    def effect(self, site, get, general):
        tick = general.get("tick", 0)
        own = get(site) or {}
        around = [(get(n) or {}).get("v", -1) for n in self.nbrs.get(site, [])]
        val = h(self.seed, site, own.get("v"), around, tick if self.with_general else 0)
        sites, gen = {}, {}
        do_nothing = self.quiet and val % self.quiet == 0
        if not do_nothing:
            upd = {"v": (val >> 3) % self.k}
            if (val >> 5) % 4 == 0:
                upd["w"] = [None, "s", 0, False, 2.5, [val % 9], {"n": [val % 7]}][
                    (val >> 7) % 7
                ]
            if self.wide and (val >> 4) % 3 == 0:
                for j in range(self.wide):
                    upd[str(j) if j % 3 else f"k{j}"] = (val >> j) % 5 or [val % 3]
            if self.mode == "perm":
                sites = {self.perm.get(site, site): upd}
            elif self.mode == "partner":
                if site in self.passive:
                    sites = {}
                else:
                    sites = {site: upd}
                    if site in self.partner:
                        sites[self.partner[site]] = {"v": (val >> 9) % self.k, "p": site}
            elif self.mode == "share":
                sites = {site: upd} if val % 4 else {}
                target = self.ids[(val >> 9) % min(3, len(self.ids))]
                if site in self.perm and (val >> 5) % 3:
                    # (one writer per key)
                    shared = {f"s{site}": val % 9}
                    sites[target] = {**sites.get(target, {}), **shared}
            else:
                sites = {site: upd}
                if self.mode == "birth" and (val >> 11) % 5 == 0:
                    new_id = 10**6 + (h(site, tick, own.get("v")) % 10**6)
                    # one writer per new site: its id comes from its parent
                    new_id = new_id * 10**7 + site
                    if get(new_id) is None and abs(site) < 10**6:
                        sites[new_id] = {"v": val % self.k, "born": tick}
        if self.with_general:
            gen = {"tick": tick + 1, f"g{site}": val % 97}
            if val % 5 == 0:
                gen[f"l{site}"] = [val % 4]
        return sites, gen

    # One of the documented ways of writing that effect down
    def encode(self, site, sites, gen):
        pick = h(self.seed, site, sites, "form")
        forms = []
        if not gen:
            if not sites:
                forms.append(lambda: None)
                if self.mode in ("own", "birth"):
                    forms.append(dict)
            if set(sites) == {site} and sites[site]:
                forms.append(lambda: dict(sites[site]))
            if sites:
                forms.append(lambda: {k: dict(v) for k, v in sites.items()})
            forms.append(lambda: {SITES: {k: dict(v) for k, v in sites.items()}})
        if not sites and gen:
            forms.append(lambda: {GENERAL: dict(gen)})
        forms.append(
            lambda: {SITES: {k: dict(v) for k, v in sites.items()}, GENERAL: dict(gen)}
        )
        if self.forms == "full":
            return forms[-1]()
        if self.forms == "plain":
            return forms[0]()
        if self.forms == "ids":
            return forms[min(1, len(forms) - 1)]()
        return forms[pick % len(forms)]()

    def update(self, site, get, general):
        answer = self.encode(site, *self.effect(site, get, general))
        if self.keeps_answers:
            return self.kept.setdefault(repr(answer), answer)
        return answer

    def changed_answers(self):
        """The rule's own dictionaries that somebody else changed."""
        return [(k, v) for k, v in self.kept.items() if repr(v) != k]

    # The model of a synchronous run
    def sync_step(self, model):
        all_sites, all_gen = {}, {}
        for site in model[SITES]:
            s, g = self.effect(site, model[SITES].get, model[GENERAL])
            for k, v in s.items():
                merged = all_sites.setdefault(k, {})
                assert not set(merged) & set(v), "generated rule writes a key twice"
                merged.update(v)
            all_gen.update(g)
        return apply_updates(model, all_sites, all_gen)

    def sync_run(self, model, steps):
        hist = [copy.deepcopy(model)]
        for _ in range(steps):
            hist.append(self.sync_step(hist[-1]))
        return hist


def random_ids(rng, n):
    kind = rng.choice(["range", "offset", "sparse", "shuffled", "signed"] * 4 + ["huge"])
    if kind == "huge":
        # beyond what 64 bits, or a float, can hold
        base = rng.choice([2**31 - 2, 2**53 - 1, 2**63 - 2, 10**25])
        return [base + i for i in rng.sample(range(3 * n), n)]
    if kind == "range":
        return list(range(n))
    if kind == "offset":
        o = rng.randint(1, 50)
        return list(range(o, o + n))
    if kind == "signed":
        return rng.sample(range(-20 * n - 20, 20 * n + 20), n)
    pool = rng.sample(range(0, 40 * n + 40), n)
    if kind == "sparse":
        pool.sort()
    return pool


UNUSUAL_VALUES = [
    float("inf"), float("-inf"), 2**53 + 1, 2**64, -(2**70), 5e-324, 1 / 3, 1e16, 1e22, 123456789.123456789,
    "2024-01-01T00:00:00", "2024-01-01 00:00:00.5", "None", "NaN", "null", "true", "1.0", "1e5",
    "\U0001f600", "\x00\x07\x7f", "\u2028", "e\u0301", "@class", "</b>", " padded ", "\r\n", "x" * 700,
    "SITES", "_site_id", "Infinity", [], {}, [[]], [{}], {"a": []}, [None], [0, False, 0.0, "", None],
    [1, 1.0, True], "{}", "[1]",
]


def random_json_value(rng, depth=0):
    """A value that JSON keeps as it is."""
    r = rng.random()
    if depth < 2 and r < 0.12:
        return [random_json_value(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    if depth < 2 and r < 0.24:
        return {
            rng.choice(["a", "b", "1", "SITES", "GENERAL", "x y", "é", "", "_site_id", "é", "0x1"]): (
                random_json_value(rng, depth + 1)
            )
            for _ in range(rng.randint(0, 3))
        }
    if r > 0.9:
        return rng.choice(UNUSUAL_VALUES)
    if r > 0.89 and depth == 0:
        # long, or deep
        n = rng.choice([20, 60])
        value = [rng.randrange(9) for _ in range(n)]
        if rng.random() < 0.4:
            value = 1
            for k in range(n):
                value = {"n": value} if k % 2 else [value, k]
        return value
    return rng.choice(
        [
            None,
            True,
            False,
            0,
            1,
            -3,
            10**12,
            0.1,
            -2.5e-7,
            1e300,
            rng.random(),
            rng.randint(-1000, 1000),
            "",
            "alive",
            "α-β",
            "12",
            'q"\\\n',
        ]
    )


class Holder:
    """A user's own value, which can be changed in place."""

    def __init__(self, held):
        self.held = held

    def __eq__(self, other):
        return isinstance(other, Holder) and self.held == other.held

    def __repr__(self):
        return f"Holder({self.held!r})"


def random_value(rng):
    """Any value a user might store: containers of all kinds, nested deeply."""
    r = rng.random()
    if r < 0.75:
        return random_json_value(rng)
    inner = random_json_value(rng)
    for _ in range(rng.choice([1, 1, 2, 5])):
        inner = rng.choice([
            lambda: [inner], lambda: {"deep": inner}, lambda: (inner, [1]), lambda: Holder([inner]),
        ])()
    if r < 0.8:
        return {rng.randrange(9), "set"}
    return inner


def change_in_place(value):
    """Changes everything about a value that can be changed, however deep."""
    if isinstance(value, Holder):
        change_in_place(value.held)
    elif isinstance(value, (list, tuple)):
        for v in value:
            change_in_place(v)
    elif isinstance(value, dict):
        for v in value.values():
            change_in_place(v)
    if isinstance(value, list):
        value.append("CHANGED")
    elif isinstance(value, dict):
        value["CHANGED"] = 1
    elif isinstance(value, set):
        value.add("CHANGED")
