"""C23: equal seeds give equal serial simulations, other seeds give others."""
import gc
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    sys.path.insert(0, HERE)

from vmon import core  # noqa: E402

if __name__ == "__main__":
    core.load_repo()

import numpy as np
from pylattica.core import AsynchronousRunner, BasicController, SynchronousRunner
from pylattica.core.neighborhood_builders import (
    MotifNeighborhoodBuilder,
    StochasticNeighborhoodBuilder,
)
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY
from pylattica.models.game_of_life import GameOfLifeController
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import (
    DiscreteGridSetup,
    PseudoHexagonalNeighborhoodBuilder2D,
    PseudoPentagonalNeighborhoodBuilder,
)

from vmon.model import digest, snapshot

PROP = "C23"
RULE = (
    "randomised scenarios (noise, random sites and particles, asynchronous runs, serial "
    "growth and user rules on stochastic neighborhoods, random rules drawing from random and "
    "numpy) carried out twice after seeding random and numpy.random alike, with unrelated "
    "allocation and library calls in between, in another process, and with other seeds. Equal seeds must give "
    "equal histories, other seeds (of 8) some other history, and the scenario must leave the "
    "generators as the seed left them, not reset them. Non-trivial: some seed differs"
)
CASES = {"quick": 240, "thorough": 1500}
REQUIRED = ["repeats", "other_seeds", "noise", "sites", "particles", "async_life",
            "stochastic_growth", "random_rule", "stochastic_rule", "default_choice", "other_processes", "compared_elsewhere",
            "unseeded_compared"]
PHASES = ["A", "B", "C"]
SPECIES = ["B", "C", "Fe2O3", "liquid", "void", "x1"]


def reseed(seed):
    random.seed(seed)
    np.random.seed(seed % 2**32)


def states(result):
    return [digest(snapshot(s)) for s in result.steps()]


def noise_case(rng):
    size, dim = rng.randint(4, 6), rng.choice([2, 3])
    phases = rng.sample(SPECIES, rng.randint(2, 5))

    def go():
        sim = DiscreteGridSetup(PhaseSet(phases), dim=dim).setup_noise(size, phases)
        return digest(snapshot(sim.state))

    return go, {"size": size, "dim": dim, "phases": phases}


def sites_case(rng):
    size, n = rng.randint(7, 9), rng.randint(2, 4)
    buffer = rng.choice([None, 1])
    if rng.random() < 0.3:
        # (crowded, such that many attempts are needed; random packings hold about 27)
        size, n, buffer = 12, rng.randint(18, 22), 1
    amounts = {p: rng.randint(1, 3) for p in rng.sample(SPECIES, rng.randint(2, 5))}

    def go():
        sim = DiscreteGridSetup(PhaseSet(["A", *SPECIES])).setup_random_sites(
            size, n, "A", amounts, buffer=buffer
        )
        return digest(snapshot(sim.state))

    return go, {"size": size, "n": n, "buffer": buffer, "amounts": amounts}


def particles_case(rng):
    size, n = rng.randint(6, 9), rng.randint(2, 4)
    species = rng.sample(SPECIES, rng.randint(2, 5))

    def go():
        sim = DiscreteGridSetup(PhaseSet(["A", *SPECIES])).setup_random_particles(
            size, 1, n, "A", species
        )
        return digest(snapshot(sim.state))

    return go, {"size": size, "n": n, "species": species}


def life_case(rng):
    size, steps = rng.randint(4, 6), rng.choice([rng.randint(10, 40)] * 4 + [rng.randint(200, 700)])

    def go():
        setup = DiscreteGridSetup(PhaseSet(["alive", "dead"]))
        sim = setup.setup_noise(size, ["alive", "dead"])
        return states(
            AsynchronousRunner().run(sim.state, GameOfLifeController(sim.structure), steps)
        )

    return go, {"size": size, "steps": steps}


def growth_case(rng):
    # (of one phase: neighbors come in no particular order, and ties are broken by it)
    size = rng.randint(6, 9)
    nb = rng.choice([PseudoHexagonalNeighborhoodBuilder2D, PseudoPentagonalNeighborhoodBuilder])

    def go():
        phases = PhaseSet([*PHASES, "empty"])
        sim = DiscreteGridSetup(phases).setup_random_sites(
            size, 4, "empty", {"A": 1}, buffer=1
        )
        c = GrowthController(
            phases, sim.structure, background_phase="empty", nb_builder=nb()
        )
        return states(SynchronousRunner().run(sim.state, c, 4))

    return go, {"size": size, "nb": nb.__name__}


class Flip(BasicController):
    def get_state_update(self, site_id, prev_state):
        if random.random() < 0.5:
            return {DISCRETE_OCCUPANCY: random.choice(PHASES)}
        return {"level": float(np.random.rand())}


class Copy(BasicController):
    """Takes the value of one of the neighbors it is given."""

    def __init__(self, struct, parts):
        self.nb = StochasticNeighborhoodBuilder(
            [MotifNeighborhoodBuilder(p) for p in parts]
        ).get(struct)

    def get_state_update(self, site_id, prev_state):
        values = sorted(
            prev_state.get_site_state(n)[DISCRETE_OCCUPANCY]
            for n in self.nb.neighbors_of(site_id)
        )
        return {DISCRETE_OCCUPANCY: values[0] if values else "none"}


def flip_case(rng):
    size, steps = rng.randint(3, 5), rng.randint(2, 4)
    runner = rng.choice([SynchronousRunner, AsynchronousRunner])

    def go():
        sim = DiscreteGridSetup(PhaseSet(PHASES)).setup_interface(size, "A", "B")
        return states(runner().run(sim.state, Flip(), 6 * steps))

    return go, {"size": size, "runner": runner.__name__}


def copy_case(rng):
    size = rng.randint(4, 6)
    parts = [[(1, 0)], [(0, 1), (-1, 0)], [(1, 1), (2, 0)]]
    # an arrangement of its own, so that only the neighborhood is left to chance
    spots = [(x, y) for x in range(size) for y in range(size)]
    where = {p: rng.sample(spots, 4) for p in "BC"}

    def go():
        sim = DiscreteGridSetup(PhaseSet(PHASES)).setup_coords(size, "A", where)
        return states(SynchronousRunner().run(sim.state, Copy(sim.structure, parts), 3))

    return go, {"size": size, "where": where}


def choice_case(rng):
    size = rng.randint(4, 6)

    def go():
        sim = DiscreteGridSetup(PhaseSet(PHASES)).setup_interface(size, "A", "B")
        c = Flip()
        return [c.get_random_site(sim.state) for _ in range(20)]

    return go, {"size": size}


KINDS = {
    "noise": noise_case, "sites": sites_case, "particles": particles_case,
    "async_life": life_case, "stochastic_growth": growth_case, "random_rule": flip_case,
    "stochastic_rule": copy_case, "default_choice": choice_case,
}


class Draws(BasicController):
    def get_state_update(self, site_id, prev_state):
        return {"a": random.random(), "b": float(np.random.rand())}


def unseeded():
    """Draws of serial and parallel runs and of setups, when nobody seeded anything."""
    setup = DiscreteGridSetup(PhaseSet(PHASES))
    sim = setup.setup_noise(6, PHASES)
    out = {"noise": digest(snapshot(sim.state))}
    runners = {"serial": SynchronousRunner(), "parallel": SynchronousRunner(True, 2),
               "asynchronous": AsynchronousRunner()}
    for name, runner in runners.items():
        last = runner.run(sim.state, Draws(), 2).last_step
        sites = [last.get_site_state(i) for i in last.site_ids()]
        for key in "ab":
            out[f"{name}, {key}"] = [s[key] for s in sites if key in s]
    return out


def carry_out(go, s):
    reseed(s)
    out = go()
    return out, random.random(), float(np.random.rand())


def elsewhere(rng, jobs):
    """The scenarios in a fresh interpreter, with other hashes of strings."""
    p = subprocess.run(
        [sys.executable, "-W", "ignore", os.path.abspath(__file__), json.dumps(jobs)],
        capture_output=True, text=True, timeout=200, check=False,
        env={**os.environ, "PYTHONHASHSEED": str(rng.randrange(1, 2**32))},
    )
    lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
    if not lines and p.returncode < 0:
        raise core.Inconclusive(f"an interpreter was killed by signal {-p.returncode}")
    if not lines:
        raise core.Violation(f"the scenario failed in a fresh process: {p.stderr[-600:]}")
    return json.loads(lines[0][6:]), json.loads(lines[1][6:])


def compare_elsewhere(rng, mon):
    jobs = [
        (name, rng.getrandbits(48), rng.getrandbits(32)) for name in KINDS for _ in range(3)
    ]
    there, drawn = elsewhere(rng, jobs)
    for (name, setup, seed), result in zip(jobs, there, strict=True):
        go, desc = KINDS[name](random.Random(setup))
        mon.require(
            result == json.loads(json.dumps(carry_out(go, seed))),
            "the same seed gave another simulation in another process", scenario=name,
            seed=seed, **desc,
        )
        mon.count("compared_elsewhere")
    mon.count("other_processes")
    # nobody seeded anything before those
    if rng.random() < 0.4:
        for name, values in elsewhere(rng, [])[1].items():
            mon.require(
                values != drawn[name],
                "two processes without any seed came to the same by chance", what=name,
            )
            mon.count("unseeded_compared")


def case(rng, mon):
    name = rng.choice(list(KINDS))
    setup, seed = rng.getrandbits(48), rng.getrandbits(32)
    go, desc = KINDS[name](random.Random(setup))
    first = carry_out(go, seed)
    if rng.random() < 0.12:
        compare_elsewhere(rng, mon)
    # (nothing that goes on in between has a say)
    ballast = [object() for _ in range(rng.randint(0, 5000))]
    KINDS[rng.choice(list(KINDS))](rng)[0]()
    if rng.random() < 0.3:
        gc.collect()
    second = carry_out(go, seed)
    del ballast
    mon.require(
        first[0] == second[0], "the same seed gave another simulation", scenario=name,
        seed=seed, **desc,
    )
    mon.require(
        first[1:] == second[1:], "the same seed left the generators elsewhere", scenario=name
    )
    mon.count("repeats")
    others = [carry_out(go, rng.getrandbits(32)) for _ in range(8)]
    mon.count("other_seeds", len(others))
    mon.require(
        any(o[0] != first[0] for o in others), "the seed has no effect", scenario=name, **desc
    )
    after = {o[1:] for o in [first, *others]}
    mon.require(
        len({a for a, _ in after}) > 1 and len({b for _, b in after}) > 1,
        "a generator was reset: it continues alike after different seeds", scenario=name,
    )
    mon.count(name)
    mon.describe({"scenario": name, "seed": seed, **desc})


if __name__ == "__main__":
    drawn_first = unseeded()
    answers = []
    for kind, made_with, its_seed in json.loads(sys.argv[1]):
        made, _ = KINDS[kind](random.Random(made_with))
        answers.append(carry_out(made, its_seed))
    print("RESULT" + json.dumps(answers), flush=True)
    print("RESULT" + json.dumps(drawn_first), flush=True)
