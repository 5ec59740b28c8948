From 177f611c6edb016526cf29f13945e1d8f0954368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 01/40] fix: tile Cartesian motifs along the lattice vectors
 (rows), not the matrix columns

---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index e364bc0..891e512 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -82,7 +82,7 @@ class PeriodicStructure:
         vec_coeffs = get_points_in_box([0 for _ in range(new_lattice.dim)], num_cells)
         for vec_coeff_set in vec_coeffs:
             if not frac_coords:  # convert lattice points to "cartesian coordinates"
-                point = lattice.matrix @ np.array(vec_coeff_set)
+                point = lattice.get_cartesian_coords(vec_coeff_set)
             else:
                 point = np.array(vec_coeff_set)
 
-- 
2.43.0


From 405650563227a3fcbbab6ae1142b4ced55c00d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 02/40] fix: MotifNeighborhoodBuilder skips motif positions
 where the structure has no site

---
 src/pylattica/core/neighborhood_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 961754f..d2d6edc 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -246,7 +246,7 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         for neighbor_vec in self._motif:
             loc = tuple(s + n for s, n in zip(location, neighbor_vec))
             nb_id = struct.id_at(loc)
-            if nb_id != curr_site[SITE_ID]:
+            if nb_id is not None and nb_id != curr_site[SITE_ID]:
                 nbs.append((nb_id, self.distances.get_dist(neighbor_vec)))
         return nbs
 
-- 
2.43.0


From 7185ed19e3bbe087dd6eace855db20f4ab0b53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 03/40] fix: batch_update accepts a batch with SITES but no
 GENERAL section

---
 src/pylattica/core/simulation_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index b6a92ab..989f950 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -155,11 +155,12 @@ class SimulationState:
             The updates to apply as a batch.
         """
 
-        if GENERAL in update_batch:
+        if GENERAL in update_batch or SITES in update_batch:
             for site_id, updates in update_batch.get(SITES, {}).items():
                 self.set_site_state(site_id, updates)
 
-            self.set_general_state(update_batch[GENERAL])
+            if GENERAL in update_batch:
+                self.set_general_state(update_batch[GENERAL])
         else:
             for site_id, updates in update_batch.items():
                 self.set_site_state(site_id, updates)
-- 
2.43.0


From 96807d0ac4a1330ffb9d23bc28e9075cf32c8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 04/40] fix: SimulationResult.from_dict loads the SITES/GENERAL
 updates that runners record

---
 src/pylattica/core/simulation_result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 44d3440..c186c47 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -4,6 +4,7 @@ from typing import Dict, List
 
 from monty.serialization import dumpfn, loadfn
 import datetime
+from .constants import GENERAL, SITES
 from .simulation_state import SimulationState
 
 
@@ -25,7 +26,11 @@ class SimulationResult:
         diffs = res_dict["diffs"]
         res = cls(SimulationState.from_dict(res_dict["initial_state"]))
         for diff in diffs:
-            formatted = {int(k): v for k, v in diff.items() if k != "GENERAL"}
+            if SITES in diff or GENERAL in diff:
+                formatted = {**diff}
+                formatted[SITES] = {int(k): v for k, v in diff.get(SITES, {}).items()}
+            else:
+                formatted = {int(k): v for k, v in diff.items()}
             res.add_step(formatted)
         return res
 
-- 
2.43.0


From 2cd4747edcc78fccd5c5b8fa560b40813ee6b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 05/40] fix: an update rule returning None records an empty
 update instead of crashing the run

---
 src/pylattica/core/runner/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 2ef750d..48ae24e 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -2,12 +2,12 @@ from ..constants import GENERAL, SITES
 
 
 def merge_updates(new_updates, curr_updates=None, site_id=None):
-    if new_updates is None:
-        return curr_updates
-
     if curr_updates is None:
         curr_updates = {SITES: {}, GENERAL: {}}
 
+    if new_updates is None:
+        return curr_updates
+
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
         curr_updates[SITES].update(new_updates.get(SITES, {}))
-- 
2.43.0


From 15a0d30be1078ed0827eae53baacf6a09d93685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 06/40] fix: SimulationResult.steps yields every step, the last
 one included, as its own state

---
 src/pylattica/core/simulation_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index c186c47..0012c3f 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -77,9 +77,10 @@ class SimulationResult:
             The list of steps
         """
         live_state = self.initial_state.copy()
+        yield live_state.copy()
         for diff in self._diffs:
-            yield live_state
             live_state.batch_update(diff)
+            yield live_state.copy()
 
     @property
     def last_step(self) -> SimulationState:
-- 
2.43.0


From 15b14c7dd737ba1ba0cf3587cfc76c068a9ab920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 07/40] fix: get_step hands out a copy of a loaded step, so
 changing it leaves the result intact

---
 src/pylattica/core/simulation_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 0012c3f..dc3d9e6 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -128,7 +128,7 @@ class SimulationResult:
 
         stored = self._stored_states.get(step_no)
         if stored is not None:
-            return stored
+            return stored.copy()
         else:
             state = self.initial_state.copy()
             for ud_idx in range(0, step_no):
-- 
2.43.0


From 6cd58a2aa08d6b22b857f995503a75ab6595a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 08/40] fix: get_random_site draws one of the state's site IDs

---
 src/pylattica/core/basic_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/basic_controller.py b/src/pylattica/core/basic_controller.py
index 33d6e04..8fa253e 100644
--- a/src/pylattica/core/basic_controller.py
+++ b/src/pylattica/core/basic_controller.py
@@ -25,7 +25,7 @@ class BasicController(ABC):
         pass
 
     def get_random_site(self, state: SimulationState):
-        return random.randint(0, len(state.site_ids()) - 1)
+        return random.choice(state.site_ids())
 
     def instantiate_result(self, starting_state: SimulationState):
         return SimulationResult(starting_state=starting_state)
-- 
2.43.0


From 110a7211605e42f5d41147f16f361676650dbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 09/40] fix: a result starts from the state the run starts
 from, pre_run's changes included

---
 src/pylattica/core/runner/base_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/base_runner.py b/src/pylattica/core/runner/base_runner.py
index 268db57..005fd8b 100644
--- a/src/pylattica/core/runner/base_runner.py
+++ b/src/pylattica/core/runner/base_runner.py
@@ -60,8 +60,8 @@ class Runner:
             The result of the simulation.
         """
 
-        result = controller.instantiate_result(initial_state.copy())
         controller.pre_run(initial_state)
+        result = controller.instantiate_result(initial_state.copy())
         live_state = initial_state.copy()
 
         self._run(initial_state, result, live_state, controller, num_steps, verbose)
-- 
2.43.0


From b096de9733f46b20cc44ad30bd9636daeeae2984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 10/40] fix: parallel steps see the current state whichever
 worker runs them, and set the output

---
 .../core/runner/synchronous_runner.py         | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index ab49ce7..88fdc19 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -50,7 +50,6 @@ class SynchronousRunner(Runner):
         if self.parallel:
             global mp_globals  # pylint: disable=global-variable-not-assigned
             mp_globals["controller"] = controller
-            mp_globals["initial_state"] = initial_state
 
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
@@ -65,11 +64,11 @@ class SynchronousRunner(Runner):
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
             with mp.get_context("fork").Pool(PROCESSES) as pool:
-                updates = {}
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
-                        updates, pool, chunk_size=chunk_size
+                        live_state, pool, chunk_size=chunk_size
                     )
+                    live_state.batch_update(updates)
                     result.add_step(updates)
         else:
             printif(verbose, "Running in series.")
@@ -81,16 +80,16 @@ class SynchronousRunner(Runner):
         result.set_output(live_state)
         return result
 
-    def _take_step_parallel(self, updates: dict, pool, chunk_size) -> SimulationState:
+    def _take_step_parallel(self, state: SimulationState, pool, chunk_size) -> dict:
         params = []
-        site_ids = mp_globals["initial_state"].site_ids()
+        site_ids = state.site_ids()
         num_sites = len(site_ids)
         site_batches = [
             site_ids[i : i + chunk_size] for i in range(0, num_sites, chunk_size)
         ]
 
         for batch in site_batches:
-            params.append([batch, updates])
+            params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = None
@@ -108,9 +107,11 @@ class SynchronousRunner(Runner):
         return updates
 
 
-def _step_batch_parallel(id_batch: List[int], last_updates: dict):  # pragma: no cover
-    state = mp_globals["initial_state"]
-    state.batch_update(last_updates)
+def _step_batch_parallel(
+    id_batch: List[int], state: SimulationState
+):  # pragma: no cover
+    # The whole state travels with every batch: the pool does not give each worker
+    # a batch in each step, so a worker cannot keep its own copy up to date.
     return _step_batch(id_batch, state, mp_globals["controller"])
 
 
-- 
2.43.0


From 3407c6cb63ccf79592011cbc5f9399a84a952be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 11/40] fix: a StochasticNeighborhoodBuilder can be used for a
 site class

---
 src/pylattica/core/neighborhood_builders.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index d2d6edc..b3cb6c1 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -73,7 +73,7 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self.builders = builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """For the provided structure, calculate the StochasticNeighborhood
         specified by the list of builders originally provided to this class.
 
@@ -81,13 +81,21 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neighborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
         Neighborhood
             The resulting StochasticNeighborhood
         """
-        return StochasticNeighborhood([b.get(struct) for b in self.builders])
+        if site_class is None:
+            return StochasticNeighborhood([b.get(struct) for b in self.builders])
+
+        return StochasticNeighborhood(
+            [b.get(struct, site_class=site_class) for b in self.builders]
+        )
 
 
 class DistanceNeighborhoodBuilder(NeighborhoodBuilder):
-- 
2.43.0


From abb2c057890942a1ab92f9d8fdadff521828c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 12/40] fix: MotifNeighborhoodBuilder accepts its offset
 vectors as lists, as documented

---
 src/pylattica/core/neighborhood_builders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index b3cb6c1..b715681 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -230,9 +230,9 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         motif : Dict[str, List[List[float]]]
             See class docstring.
         """
-        self._motif = motif
+        self._motif = [tuple(vec) for vec in motif]
 
-        self.distances = EuclideanDistanceMap(motif)
+        self.distances = EuclideanDistanceMap(self._motif)
 
     def get_neighbors(self, curr_site: Dict, struct: PeriodicStructure) -> List[Tuple]:
         """Given a structure, constructs a NeighborGraph with site connections
-- 
2.43.0


From 73712c8b3e04b81d9ecd569a7e13b485f730afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 13/40] fix: lattice conversion to and from pymatgen keeps the
 periodicity

---
 src/pylattica/atomic/pymatgen_struct_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/atomic/pymatgen_struct_converter.py b/src/pylattica/atomic/pymatgen_struct_converter.py
index 2870f77..2c974f3 100644
--- a/src/pylattica/atomic/pymatgen_struct_converter.py
+++ b/src/pylattica/atomic/pymatgen_struct_converter.py
@@ -30,7 +30,7 @@ class PymatgenStructureConverter:
         Lattice
             A pylattica lattice
         """
-        pyl_lat = PylLattice(pmg_lat.matrix)
+        pyl_lat = PylLattice(pmg_lat.matrix, tuple(pmg_lat.pbc))
         return pyl_lat
 
     def to_pylattica_structure_builder(
@@ -107,7 +107,7 @@ class PymatgenStructureConverter:
         PmgLattice
             The resulting pymatgen Lattice
         """
-        return PmgLattice(pyl_lat.vecs)
+        return PmgLattice(pyl_lat.vecs, pbc=pyl_lat.periodic)
 
     def to_pymatgen_structure(self, pyl_struct: PeriodicStructure) -> PmgStructure:
         """Converts a pylattica PeriodicStructure into a pymatgen
-- 
2.43.0


From 0fcdb4c87af867127d8c220e69fe97511f4c55c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 14/40] fix: Simulation.from_file reads a file it has no
 permission to write

---
 src/pylattica/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation.py b/src/pylattica/core/simulation.py
index 0b590f8..6ff1567 100644
--- a/src/pylattica/core/simulation.py
+++ b/src/pylattica/core/simulation.py
@@ -42,7 +42,7 @@ class Simulation:
 
     @classmethod
     def from_file(cls, fname):
-        with open(fname, "r+", encoding="utf-8") as f:
+        with open(fname, "r", encoding="utf-8") as f:
             d = json.load(f)
             return cls.from_dict(d)
 
-- 
2.43.0


From 180b0e69082a699eec725a36c96de96a19e561b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 15/40] fix: sites on a cell boundary are found at all of their
 periodic images

---
 src/pylattica/core/periodic_structure.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index 891e512..c9a9709 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -3,12 +3,14 @@ from typing import Dict, Iterable, List, Tuple, Union
 import numpy as np
 
 from .coordinate_utils import get_points_in_box
-from .lattice import Lattice
+from .lattice import Lattice, periodize
 from .constants import LOCATION, SITE_CLASS, SITE_ID, OFFSET_PRECISION
 
 import copy
 
 VEC_OFFSET = 0.001
+# Moves locations off the points where rounding them could go either way
+ROUNDING_OFFSET = 1e-6
 DEFAULT_SITE_CLASS = "A"
 
 
@@ -116,6 +118,11 @@ class PeriodicStructure:
         self.site_ids = []
         self._location_lookup = {}
         self._offset_vector = np.array([VEC_OFFSET for _ in range(self.dim)])
+        # How far (in each fractional coordinate) a location can be from another
+        # one and still be the same location as far as rounding is concerned
+        self._frac_tolerance = (
+            0.5 * 10**-OFFSET_PRECISION * np.abs(lattice.inv_matrix).sum(axis=0)
+        )
 
     def as_dict(self):
         copied = copy.deepcopy(self._sites)
@@ -138,13 +145,21 @@ class PeriodicStructure:
         return struct
 
     def _get_rounded_coords(self, location: Iterable[float]) -> Iterable[float]:
-        return np.round(location, OFFSET_PRECISION)
+        return np.round(np.add(location, ROUNDING_OFFSET), OFFSET_PRECISION)
 
     def _coords_with_offset(self, location: Iterable[float]) -> Iterable[float]:
         return self._get_rounded_coords(location + self._offset_vector)
 
+    def _periodized_coords(self, location: Iterable[float]) -> Iterable[float]:
+        # A location on the boundary of the cell can be computed to lie slightly
+        # on either side of it, so everything within the tolerance is kept together
+        frac = self.lattice.get_fractional_coords(location) + self._frac_tolerance
+        return self.lattice.get_cartesian_coords(
+            periodize(frac, self.lattice.periodic) - self._frac_tolerance
+        )
+
     def _transformed_coords(self, location: Iterable[float]) -> Iterable[float]:
-        periodized_coords = self.lattice.get_periodized_cartesian_coords(location)
+        periodized_coords = self._periodized_coords(location)
         offset_periodized_coords = self._coords_with_offset(periodized_coords)
         return offset_periodized_coords
 
@@ -167,7 +182,7 @@ class PeriodicStructure:
         new_site_id = len(self._sites)
 
         periodized_coords = self._get_rounded_coords(
-            self.lattice.get_periodized_cartesian_coords(location)
+            self._periodized_coords(location)
         )
         offset_periodized_coords = tuple(self._transformed_coords(location))
 
-- 
2.43.0


From 614b0d4f76a0eddd6fabf6bcbadaa3816968fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 16/40] fix: periodic distances are to the closest image in
 cells that aren't rectangular

---
 src/pylattica/core/lattice.py | 51 ++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/core/lattice.py b/src/pylattica/core/lattice.py
index 8d081c3..3557ce8 100644
--- a/src/pylattica/core/lattice.py
+++ b/src/pylattica/core/lattice.py
@@ -5,6 +5,7 @@ from typing import List, Tuple, Union
 import numpy as np
 from numpy.typing import ArrayLike
 from .constants import OFFSET_PRECISION
+import itertools
 import math
 
 
@@ -76,11 +77,9 @@ def pbc_diff_cart(cart_coords1: ArrayLike, cart_coords2: ArrayLike, lattice: Lat
     _type_
         _description_
     """
-    fcoords1 = lattice.get_fractional_coords(cart_coords1)
-    fcoords2 = lattice.get_fractional_coords(cart_coords2)
-    frac_dist = pbc_diff_frac_vec(fcoords1, fcoords2, lattice.periodic)
+    cart_diff = np.subtract(cart_coords1, cart_coords2)
     return np.round(
-        np.linalg.norm(lattice.get_cartesian_coords(frac_dist)), OFFSET_PRECISION
+        np.linalg.norm(lattice.get_closest_image(cart_diff)), OFFSET_PRECISION
     )
 
 
@@ -135,6 +134,7 @@ class Lattice:
 
         self._matrix: np.ndarray = mat
         self._inv_matrix: np.ndarray | None = None
+        self._image_vecs: np.ndarray | None = None
 
         self.dim = len(vecs[0])
         self.vec_lengths = [np.linalg.norm(np.array(vec)) for vec in vecs]
@@ -205,6 +205,49 @@ class Lattice:
         frac = self.get_fractional_coords(cart_coords)
         return self.get_cartesian_coords(periodize(frac, self.periodic))
 
+    def get_closest_image(self, cart_diff: ArrayLike) -> np.ndarray:
+        """Given the difference between two locations, returns the shortest of the
+        differences between their periodic images.
+
+        Parameters
+        ----------
+        cart_diff : ArrayLike
+            The difference between the locations, in Cartesian coordinates
+
+        Returns
+        -------
+        np.ndarray
+            The shortest equivalent difference, in Cartesian coordinates
+        """
+        if self._image_vecs is None:
+            self._find_image_vecs()
+
+        coeffs = np.round(np.dot(cart_diff, self._periodic_inv_matrix))
+        images = cart_diff - np.dot(coeffs, self._periodic_matrix) + self._image_vecs
+        return images[np.argmin(np.sum(images**2, axis=1))]
+
+    def _find_image_vecs(self):
+        # The coefficients along the periodic vectors of what is left of a difference
+        # after rounding are at most 1/2. If those vectors are orthogonal, that is the
+        # shortest image, but if not, the shortest one can be these lattice vectors away.
+        matrix = self._matrix[np.array(self.periodic, dtype=bool)]
+        inv_matrix = np.linalg.pinv(matrix)
+        gram = matrix @ matrix.T
+        image_vecs = np.zeros((1, self.dim))
+
+        if not np.allclose(gram, np.diag(np.diag(gram)), rtol=0, atol=1e-9):
+            max_length = np.sum(np.linalg.norm(matrix, axis=1)) / 2
+            max_coeffs = 0.5 + max_length * np.linalg.norm(inv_matrix, axis=0)
+            coeffs = [range(-int(c), int(c) + 1) for c in max_coeffs]
+            image_vecs = np.array(list(itertools.product(*coeffs))) @ matrix
+            # Longer ones can't bring a difference of at most max_length any closer
+            is_reachable = np.linalg.norm(image_vecs, axis=1) <= 2 * max_length + 1e-9
+            image_vecs = image_vecs[is_reachable]
+
+        self._periodic_matrix = matrix
+        self._periodic_inv_matrix = inv_matrix
+        self._image_vecs = image_vecs
+
     def get_scaled_lattice(self, num_cells: ArrayLike) -> Lattice:
         """Return a copy of this lattice with a unit cell scaled to the dimensions provided.
         If the num_cells parameter was [3, 3, 3], this would return a lattice 3 times larger
-- 
2.43.0


From 547685359865b9b971f44563fef5d6de4d7a5bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 17/40] fix: the growth model can be imported before the square
 grid package (circular import)

---
 src/pylattica/structures/square_grid/growth_setup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/growth_setup.py b/src/pylattica/structures/square_grid/growth_setup.py
index 12ff005..44557e8 100644
--- a/src/pylattica/structures/square_grid/growth_setup.py
+++ b/src/pylattica/structures/square_grid/growth_setup.py
@@ -1,7 +1,6 @@
 from ...core import SynchronousRunner, Simulation
 from ...core.neighborhood_builders import NeighborhoodBuilder
 from ...discrete import PhaseSet
-from ...models.growth import GrowthController
 from .grid_setup import DiscreteGridSetup
 
 from typing import Dict
@@ -63,6 +62,9 @@ class GrowthSetup:
         Simulation
             The resulting Simulation.
         """
+        # The growth model imports from this package, so it can't be imported above
+        from ...models.growth import GrowthController
+
         setup = DiscreteGridSetup(self._phases, dim=self.dim)
 
         simulation = setup.setup_random_sites(
-- 
2.43.0


From c0885e4167d2620c35ea1b07d1696483997c0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 18/40] fix: setup_random_sites gives every phase its exact
 share when the shares are whole

---
 src/pylattica/structures/square_grid/grid_setup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/grid_setup.py b/src/pylattica/structures/square_grid/grid_setup.py
index 6249596..395b9e4 100644
--- a/src/pylattica/structures/square_grid/grid_setup.py
+++ b/src/pylattica/structures/square_grid/grid_setup.py
@@ -331,7 +331,8 @@ class DiscreteGridSetup:
         total_attempts = 0
         num_sites_planted = 0
 
-        ideal_num_site_list = normalized_ratios * num_sites_desired
+        # Rounded so that a whole number of sites isn't exceeded by a floating point error
+        ideal_num_site_list = np.round(normalized_ratios * num_sites_desired, 9)
         ideal_num_sites = dict(zip(nuc_species, ideal_num_site_list))
 
         nuc_identities = []
-- 
2.43.0


From a9bbd5806c6da51441d73b4eef9bba9672e46118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 19/40] fix: to_gif leaves files of the working directory alone

---
 src/pylattica/visualization/result_artist.py | 41 ++++++++++----------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 52c3c33..488ab50 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -2,6 +2,7 @@ import multiprocessing as mp
 import os
 import time
 import sys
+import tempfile
 
 from .structure_artist import StructureArtist
 from ..core import SimulationResult
@@ -110,26 +111,26 @@ class ResultArtist:
         """
         wait = kwargs.get("wait", 0.8)
         imgs = self._get_images(**kwargs)
-        img_names = []
-        for idx, img in enumerate(imgs):
-            fname = f"tmp_pylat_step_{idx}.png"
-            img.save(fname)
-            img_names.append(fname)
-
-        reloaded_imgs = []
-        for fname in img_names:
-            reloaded_imgs.append(Image.open(fname))
-
-        reloaded_imgs[0].save(
-            filename,
-            save_all=True,
-            append_images=reloaded_imgs[1:],
-            duration=wait * 1000,
-            loop=0,
-        )
-
-        for fname in img_names:
-            os.remove(fname)
+        # The working directory may hold files of these names, or be shared with
+        # another process doing the same
+        with tempfile.TemporaryDirectory() as tmp_dir:
+            img_names = []
+            for idx, img in enumerate(imgs):
+                fname = os.path.join(tmp_dir, f"tmp_pylat_step_{idx}.png")
+                img.save(fname)
+                img_names.append(fname)
+
+            reloaded_imgs = []
+            for fname in img_names:
+                reloaded_imgs.append(Image.open(fname))
+
+            reloaded_imgs[0].save(
+                filename,
+                save_all=True,
+                append_images=reloaded_imgs[1:],
+                duration=wait * 1000,
+                loop=0,
+            )
 
 
 def _get_img_parallel(step, step_kwargs):
-- 
2.43.0


From 0a9157f36e8b82dfd337f319bdcbf710f57050af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 20/40] fix: sites halfway between two rounded places were not
 found at all images

The tolerance for locations on the cell boundary was exactly the largest
rounding error, so the location of a site rounded by that much could lie
slightly beyond it.
---
 src/pylattica/core/periodic_structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index c9a9709..da614dd 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -120,9 +120,8 @@ class PeriodicStructure:
         self._offset_vector = np.array([VEC_OFFSET for _ in range(self.dim)])
         # How far (in each fractional coordinate) a location can be from another
         # one and still be the same location as far as rounding is concerned
-        self._frac_tolerance = (
-            0.5 * 10**-OFFSET_PRECISION * np.abs(lattice.inv_matrix).sum(axis=0)
-        )
+        tolerance = 0.5 * 10**-OFFSET_PRECISION + 2 * ROUNDING_OFFSET
+        self._frac_tolerance = tolerance * np.abs(lattice.inv_matrix).sum(axis=0)
 
     def as_dict(self):
         copied = copy.deepcopy(self._sites)
-- 
2.43.0


From 44aaedd4b1659ad7eb357f9723a9fec6b4929e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 21/40] fix: results and states shared nested values with the
 updates and with states handed out

A list or dictionary among the values of an update was one object in the
recorded updates, the live state and the states handed out, so changing it in
one of them changed the recorded history.
---
 src/pylattica/core/simulation_result.py | 3 ++-
 src/pylattica/core/simulation_state.py  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index dc3d9e6..8b981c4 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -1,3 +1,4 @@
+import copy
 import tqdm
 
 from typing import Dict, List
@@ -63,7 +64,7 @@ class SimulationResult:
         updates : dict
             The changes associated with a new simulation step.
         """
-        self._diffs.append(updates)
+        self._diffs.append(copy.deepcopy(updates))
 
     def __len__(self) -> int:
         return len(self._diffs) + 1
diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index 989f950..15fc12c 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -120,7 +120,7 @@ class SimulationState:
             values are left unchanged.
         """
         old_state = self.get_general_state()
-        self._state[GENERAL] = {**old_state, **updates}
+        self._state[GENERAL] = {**old_state, **copy.deepcopy(updates)}
 
     def set_site_state(self, site_id: int, updates: dict) -> None:
         """Updates the state stored for site with ID site_id.
@@ -136,7 +136,7 @@ class SimulationState:
         if old_state is None:
             old_state = {SITE_ID: site_id}
 
-        self._state[SITES][site_id] = {**old_state, **updates}
+        self._state[SITES][site_id] = {**old_state, **copy.deepcopy(updates)}
 
     def batch_update(self, update_batch: Dict) -> None:
         """Applies a batch update to many sites and the general state. Takes a dictionary
-- 
2.43.0


From 371d4a8ada33811bc1af9761d0dd8aed2527114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 22/40] fix: parallel runs and drawings in several threads no
 longer use each other's controller or artist

The controller (artist) was handed to the forked workers through a module global
that a run in another thread could overwrite before the workers were forked.
---
 src/pylattica/core/runner/synchronous_runner.py | 12 ++++++++----
 src/pylattica/visualization/result_artist.py    | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 88fdc19..75506a6 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -48,9 +48,6 @@ class SynchronousRunner(Runner):
         verbose: bool = False,
     ):
         if self.parallel:
-            global mp_globals  # pylint: disable=global-variable-not-assigned
-            mp_globals["controller"] = controller
-
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
             else:
@@ -63,7 +60,9 @@ class SynchronousRunner(Runner):
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
-            with mp.get_context("fork").Pool(PROCESSES) as pool:
+            with mp.get_context("fork").Pool(
+                PROCESSES, initializer=_set_worker_controller, initargs=(controller,)
+            ) as pool:
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
                         live_state, pool, chunk_size=chunk_size
@@ -107,6 +106,11 @@ class SynchronousRunner(Runner):
         return updates
 
 
+def _set_worker_controller(controller: BasicController):  # pragma: no cover
+    # In the workers only, as runs in other threads have controllers of their own
+    mp_globals["controller"] = controller
+
+
 def _step_batch_parallel(
     id_batch: List[int], state: SimulationState
 ):  # pragma: no cover
diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 488ab50..b1d179f 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -42,10 +42,9 @@ class ResultArtist:
                 imgs.append(img)
         else:
             PROCESSES = mp.cpu_count()
-            global _dsr_globals  # pylint: disable=global-variable-not-assigned
-            _dsr_globals["artist"] = self._step_artist
-
-            with mp.get_context("fork").Pool(PROCESSES) as pool:
+            with mp.get_context("fork").Pool(
+                PROCESSES, initializer=_set_worker_artist, initargs=(self._step_artist,)
+            ) as pool:
                 params = []
                 for idx in indices:
                     label = f"Step {idx}"
@@ -133,5 +132,10 @@ class ResultArtist:
             )
 
 
+def _set_worker_artist(artist):  # pragma: no cover
+    # In the workers only, as other threads may be drawing with artists of their own
+    _dsr_globals["artist"] = artist
+
+
 def _get_img_parallel(step, step_kwargs):
     return _dsr_globals["artist"].get_img(step, **step_kwargs)
-- 
2.43.0


From e7594f6b1f6d1cad7a6bd13cd19f3c2d0b3bea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 23/40] fix: a synchronous run of a state without sites no
 longer crashes

---
 src/pylattica/core/runner/synchronous_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 75506a6..53fefeb 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -55,7 +55,7 @@ class SynchronousRunner(Runner):
 
             printif(verbose, f"Running in parallel using {PROCESSES} workers")
             num_sites = initial_state.size
-            chunk_size = math.ceil(num_sites / PROCESSES)
+            chunk_size = max(1, math.ceil(num_sites / PROCESSES))
             printif(
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
@@ -91,7 +91,7 @@ class SynchronousRunner(Runner):
             params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
-        all_updates = None
+        all_updates = merge_updates(None)
         for batch_update_res in results:
             all_updates = merge_updates(all_updates, batch_update_res)
 
@@ -122,7 +122,7 @@ def _step_batch_parallel(
 def _step_batch(
     id_batch: List[int], previous_state: SimulationState, controller: BasicController
 ):
-    batch_updates = None
+    batch_updates = merge_updates(None)
     for site_id in id_batch:
         site_updates = controller.get_state_update(site_id, previous_state)
         batch_updates = merge_updates(site_updates, batch_updates, site_id)
-- 
2.43.0


From ff4d76483b5208970a32b4b20a6518a58ce96b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 24/40] fix: drawing a rectangular grid no longer fails or
 leaves out cells

---
 .../visualization/square_grid_artist_2D.py       | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pylattica/visualization/square_grid_artist_2D.py b/src/pylattica/visualization/square_grid_artist_2D.py
index 016779e..7a15684 100644
--- a/src/pylattica/visualization/square_grid_artist_2D.py
+++ b/src/pylattica/visualization/square_grid_artist_2D.py
@@ -1,3 +1,4 @@
+import numpy as np
 from PIL import Image, ImageDraw
 
 from ..core.constants import LOCATION, SITE_ID
@@ -15,11 +16,14 @@ class SquareGridArtist2D(StructureArtist):
 
         legend = self.cell_artist.get_legend(state)
         legend_order = sorted(legend.keys())
-        state_size = int(self.structure.lattice.vec_lengths[0])
-        width = state_size + 6
+        # the lattice vectors lie along the axes, in any order
+        num_cols, num_rows = (
+            int(extent) for extent in np.abs(self.structure.lattice.vecs).sum(axis=0)
+        )
+        width = num_cols + 6
 
         legend_border_width = 5
-        height = max(state_size, len(legend) + 1)
+        height = max(num_rows, len(legend) + 1)
         img = Image.new(
             "RGB",
             (width * cell_size + legend_border_width, height * cell_size),
@@ -34,7 +38,7 @@ class SquareGridArtist2D(StructureArtist):
             cell_state = state.get_site_state(site[SITE_ID])
             cell_color = self.cell_artist.get_color_from_cell_state(cell_state)
             p_x_start = int((loc[0]) * cell_size)
-            p_y_start = int((state_size - 1 - loc[1]) * cell_size)
+            p_y_start = int((num_rows - 1 - loc[1]) * cell_size)
             for p_x in range(p_x_start, p_x_start + cell_size):
                 for p_y in range(p_y_start, p_y_start + cell_size):
                     pixels[p_x, p_y] = cell_color
@@ -45,12 +49,12 @@ class SquareGridArtist2D(StructureArtist):
 
         for p_y in range(height * cell_size):
             for p_x in range(0, legend_border_width):
-                x = state_size * cell_size + p_x
+                x = num_cols * cell_size + p_x
                 pixels[x, p_y] = (255, 255, 255)
 
         for phase in legend_order:
             color = legend.get(phase)
-            p_col_start = state_size * cell_size + legend_border_width + legend_hoffset
+            p_col_start = num_cols * cell_size + legend_border_width + legend_hoffset
             p_row_start = count * cell_size + legend_voffset
             for p_x in range(p_col_start, p_col_start + cell_size):
                 for p_y in range(p_row_start, p_row_start + cell_size):
-- 
2.43.0


From d8a64b44b48eefc19de530356741709273db2308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 25/40] fix: the shell of a 3D drawing has all its faces, and
 grids needn't be cubes

---
 src/pylattica/visualization/square_grid_artist_3D.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 408c375..fc0007e 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -14,9 +14,8 @@ class SquareGridArtist3D(StructureArtist):
     def _draw_image(self, state: SimulationState, **kwargs):
         shell_only = kwargs.get("shell_only", False)
 
-        size = round(state.size ** (1 / 3))
-
-        shape = [size for _ in range(self.structure.dim)]
+        # the lattice vectors lie along the axes, in any order
+        shape = np.abs(self.structure.lattice.vecs).sum(axis=0).astype(int)
         dataset = {}
 
         dataset["empty"] = np.ones(shape)
@@ -24,7 +23,9 @@ class SquareGridArtist3D(StructureArtist):
 
         for site in self.structure.sites():
             loc = site[LOCATION]
-            if not shell_only or (loc[1] == 0 or loc[0] == size or loc[2] == size):
+            if not shell_only or (
+                loc[1] == 0 or loc[0] == shape[0] - 1 or loc[2] == shape[2] - 1
+            ):
                 site_id = site[SITE_ID]
                 site_state = state.get_site_state(site_id)
                 color = self.cell_artist.get_color_from_cell_state(site_state)
-- 
2.43.0


From b1a0fe331907396eee66b99d5fab0710b90f3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 26/40] fix: the phases of a result include those of steps
 added after they were first asked for

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index 151d823..c71e173 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -3,7 +3,6 @@ from typing import Dict, List, Tuple
 import matplotlib.pyplot as plt
 import numpy as np
 import plotly.graph_objects as go
-from functools import lru_cache
 
 from ..core import SimulationResult, SimulationState
 from .discrete_step_analyzer import DiscreteStepAnalyzer
@@ -25,7 +24,6 @@ class DiscreteResultAnalyzer:
         """
         self._result = result
 
-    @lru_cache
     def all_phases(self) -> List[str]:
         """Returns all of the phases present across the analyzed result.
 
-- 
2.43.0


From 642aee48ad06a1d9f18ab7d77e8bcd48e5aa3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 27/40] fix: plot_phase_counts failed for every result

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index c71e173..2c3b6c7 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -100,12 +100,13 @@ class DiscreteResultAnalyzer:
         analyzer = DiscreteStepAnalyzer()
         return analyzer.cell_fraction(self._result.get_step(step), phase)
 
-    def plot_phase_counts(self) -> None:  # pragma: no cover
+    def plot_phase_counts(self) -> None:
         """In a jupyter notebook environment, plots the number of phases at each
         time step.
         """
-        xs = np.arange(len(self.steps))
-        ys = [step.phase_count for step in self.steps]
+        analyzer = DiscreteStepAnalyzer()
+        xs = np.arange(len(self._result))
+        ys = [analyzer.phase_count(step) for step in self._result.steps()]
         plt.plot(xs, ys)
 
     def _get_steps_to_plot(self) -> Tuple[List[int], List[SimulationState]]:
-- 
2.43.0


From cf68d31ab1edcf9333197ec47c53fb96b7f92df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 28/40] fix: color_map failed for more phases than there are
 colors

---
 src/pylattica/visualization/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/helpers.py b/src/pylattica/visualization/helpers.py
index 84330d1..442c88c 100644
--- a/src/pylattica/visualization/helpers.py
+++ b/src/pylattica/visualization/helpers.py
@@ -19,7 +19,7 @@ def color_map(phases: List[str]) -> Dict[str, Tuple[int, int, int]]:
     color_map: Dict[str, Tuple[int, int, int]] = {}
     c_idx: int = 0
     for p in phases:
-        color_map[p] = COLORS[c_idx]
+        color_map[p] = COLORS[c_idx % len(COLORS)]
         c_idx += 1
 
     return color_map
-- 
2.43.0


From b10f24f91f6665225ca91f355a38eb85e2773fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 29/40] fix: sites keep their IDs when a structure is loaded
 from a dictionary in another order

---
 src/pylattica/core/periodic_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index da614dd..86234a4 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -138,7 +138,8 @@ class PeriodicStructure:
         struct = cls(Lattice.from_dict(d["lattice"]))
         sites = {int(k): v for k, v in d["_sites"].items()}
 
-        for _, site in sites.items():
+        # IDs are given in the order sites are added
+        for _, site in sorted(sites.items()):
             struct.add_site(site[SITE_CLASS], site[LOCATION])
 
         return struct
-- 
2.43.0


From 9dab52c8ecc653aac9cbdc1b02f60d324e3e34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 30/40] fix: loading a state doesn't change the dictionary it
 is loaded from

---
 src/pylattica/core/simulation_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index 15fc12c..2b1d75a 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -25,7 +25,7 @@ class SimulationState:
 
     @classmethod
     def from_dict(cls, state_dict):
-        state = state_dict["state"]
+        state = {**state_dict["state"]}
         state[SITES] = {int(k): v for k, v in state[SITES].items()}
         return cls(state)
 
-- 
2.43.0


From 6d123374d94359f4010b231d6c18553e9e221587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 31/40] fix: changing a dictionary made from a state or result
 no longer changes the state or result

---
 src/pylattica/core/simulation_result.py | 2 +-
 src/pylattica/core/simulation_state.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 8b981c4..c5371ea 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -139,7 +139,7 @@ class SimulationResult:
     def as_dict(self):
         return {
             "initial_state": self.initial_state.as_dict(),
-            "diffs": self._diffs,
+            "diffs": copy.deepcopy(self._diffs),
             "@module": self.__class__.__module__,
             "@class": self.__class__.__name__,
         }
diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index 2b1d75a..dc0f1bb 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -18,7 +18,7 @@ class SimulationState:
 
     def as_dict(self):
         return {
-            "state": self._state,
+            "state": copy.deepcopy(self._state),
             "@module": self.__class__.__module__,
             "@class": self.__class__.__name__,
         }
-- 
2.43.0


From 309d4bbf0ea8d9c4ad32f35bbf05a868cf26ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 32/40] fix: a state made from a dictionary without general
 state can be given one

---
 src/pylattica/core/simulation_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index dc0f1bb..21c1b08 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -52,7 +52,7 @@ class SimulationState:
                 GENERAL: {},
             }
         else:
-            self._state = copy.deepcopy(state)
+            self._state = {SITES: {}, GENERAL: {}, **copy.deepcopy(state)}
 
     @property
     def size(self) -> int:
-- 
2.43.0


From 09abffff0d778e1bdaaf427c2f85de6b25334d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 33/40] fix: growth without diagonals stopped before filling a
 grid of three dimensions

---
 src/pylattica/structures/square_grid/growth_setup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/growth_setup.py b/src/pylattica/structures/square_grid/growth_setup.py
index 44557e8..06dcd4e 100644
--- a/src/pylattica/structures/square_grid/growth_setup.py
+++ b/src/pylattica/structures/square_grid/growth_setup.py
@@ -82,6 +82,8 @@ class GrowthSetup:
             background_phase=background_spec,
         )
 
+        # A neighborhood without diagonals spreads in one dimension at a time
+        num_steps = size * self.dim
         runner = SynchronousRunner(parallel=True)
-        res = runner.run(simulation.state, controller, num_steps=size)
+        res = runner.run(simulation.state, controller, num_steps=num_steps)
         return Simulation(res.last_step, simulation.structure)
-- 
2.43.0


From 8262d9dca9d715c2ae0355e83fb88d3fec1f1ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 34/40] fix: a parallel run or drawing waited forever when the
 user's code raised an error that can't be restored in another process

---
 .../core/runner/synchronous_runner.py         |  3 +-
 src/pylattica/core/utils.py                   | 34 +++++++++++++++++++
 src/pylattica/visualization/result_artist.py  |  2 ++
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 53fefeb..ef429d8 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -7,7 +7,7 @@ from tqdm import tqdm
 from ..basic_controller import BasicController
 from ..simulation_result import SimulationResult
 from ..simulation_state import SimulationState
-from ..utils import printif
+from ..utils import printif, with_sendable_errors
 
 from .base_runner import Runner
 from .common import merge_updates
@@ -111,6 +111,7 @@ def _set_worker_controller(controller: BasicController):  # pragma: no cover
     mp_globals["controller"] = controller
 
 
+@with_sendable_errors
 def _step_batch_parallel(
     id_batch: List[int], state: SimulationState
 ):  # pragma: no cover
diff --git a/src/pylattica/core/utils.py b/src/pylattica/core/utils.py
index 96163b7..9d27aaa 100644
--- a/src/pylattica/core/utils.py
+++ b/src/pylattica/core/utils.py
@@ -1,3 +1,37 @@
+import functools
+import pickle
+
+
 def printif(cond, statement):  # pragma: no cover
     if cond:
         print(statement)
+
+
+def with_sendable_errors(func):
+    """Decorates a function that the workers of a process pool call, such that it only
+    raises errors which can be sent to the process that waits for its results: one which
+    can't be restored there would leave that process waiting forever.
+
+    Parameters
+    ----------
+    func : Callable
+        The function called in the workers.
+
+    Returns
+    -------
+    Callable
+        The function raising errors that can be sent.
+    """
+
+    @functools.wraps(func)
+    def wrapped(*args, **kwargs):
+        try:
+            return func(*args, **kwargs)
+        except Exception as error:
+            try:
+                pickle.loads(pickle.dumps(error))
+            except Exception:
+                raise RuntimeError(f"{type(error).__name__}: {error}") from error
+            raise
+
+    return wrapped
diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index b1d179f..8eb7275 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -6,6 +6,7 @@ import tempfile
 
 from .structure_artist import StructureArtist
 from ..core import SimulationResult
+from ..core.utils import with_sendable_errors
 
 from PIL import Image
 
@@ -137,5 +138,6 @@ def _set_worker_artist(artist):  # pragma: no cover
     _dsr_globals["artist"] = artist
 
 
+@with_sendable_errors
 def _get_img_parallel(step, step_kwargs):
     return _dsr_globals["artist"].get_img(step, **step_kwargs)
-- 
2.43.0


From 245590c58c8d1746c0d394e118955dfed97cc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 35/40] fix: results saved without a name in the same minute
 overwrote each other

---
 src/pylattica/core/simulation_result.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index c5371ea..10b3f98 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -1,4 +1,5 @@
 import copy
+import os
 import tqdm
 
 from typing import Dict, List
@@ -156,6 +157,11 @@ class SimulationResult:
             now = datetime.datetime.now()
             date_string = now.strftime("%m-%d-%Y-%H-%M")
             fpath = f"{date_string}.json"
+            count = 1
+            # Other results may have been saved in the same minute
+            while os.path.exists(fpath):
+                count += 1
+                fpath = f"{date_string}-{count}.json"
 
         dumpfn(self, fpath)
         return fpath
-- 
2.43.0


From 037c3e23fb675499d1432222fd843ca6e84b1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 36/40] fix: conflicting updates were resolved differently by a
 parallel run than by a serial one

---
 src/pylattica/core/runner/synchronous_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index ef429d8..fefeafd 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -93,7 +93,7 @@ class SynchronousRunner(Runner):
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = merge_updates(None)
         for batch_update_res in results:
-            all_updates = merge_updates(all_updates, batch_update_res)
+            all_updates = merge_updates(batch_update_res, all_updates)
 
         return all_updates
 
-- 
2.43.0


From 7eea8e60783bc04f3e0712a440d5a0dc29eeddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 37/40] fix: updates of one site by several rule applications
 of a synchronous step replaced each other, whatever keys they named

---
 src/pylattica/core/runner/common.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 48ae24e..e222b93 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -10,15 +10,21 @@ def merge_updates(new_updates, curr_updates=None, site_id=None):
 
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
-        curr_updates[SITES].update(new_updates.get(SITES, {}))
+        _merge_site_updates(curr_updates[SITES], new_updates.get(SITES, {}))
         curr_updates[GENERAL].update(new_updates.get(GENERAL, {}))
     # if these updates only include site updates
     elif set(map(type, new_updates.keys())) == {int}:
-        curr_updates[SITES].update(new_updates)
+        _merge_site_updates(curr_updates[SITES], new_updates)
     # if these updates only apply to a single site
     elif site_id is not None:
-        curr_updates[SITES].update({site_id: new_updates})
+        _merge_site_updates(curr_updates[SITES], {site_id: new_updates})
     else:
         raise ValueError("Bad combination of arguments for merge_updates")
 
     return curr_updates
+
+
+def _merge_site_updates(curr_site_updates, new_site_updates):
+    # Several sites may name different keys of one and the same site
+    for site_id, updates in new_site_updates.items():
+        curr_site_updates[site_id] = {**curr_site_updates.get(site_id, {}), **updates}
-- 
2.43.0


From ae07f7ffe64852a6b4575d482a513754bb0336c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 38/40] fix: all workers of a parallel run drew the same of
 numpy's random numbers

---
 src/pylattica/core/runner/synchronous_runner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index fefeafd..0c77470 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -2,6 +2,7 @@ import math
 import multiprocessing as mp
 from typing import List
 
+import numpy as np
 from tqdm import tqdm
 
 from ..basic_controller import BasicController
@@ -109,6 +110,9 @@ class SynchronousRunner(Runner):
 def _set_worker_controller(controller: BasicController):  # pragma: no cover
     # In the workers only, as runs in other threads have controllers of their own
     mp_globals["controller"] = controller
+    # Forked workers would all repeat the same draws (Python's own generator is
+    # seeded anew in each of them already)
+    np.random.seed()
 
 
 @with_sendable_errors
-- 
2.43.0


From 9690e7bfa9c3c904201378eb1b40e45f1fff0e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 39/40] fix: a state saved without sites could not be loaded

---
 src/pylattica/core/simulation_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index 21c1b08..e9dae1e 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -26,7 +26,7 @@ class SimulationState:
     @classmethod
     def from_dict(cls, state_dict):
         state = {**state_dict["state"]}
-        state[SITES] = {int(k): v for k, v in state[SITES].items()}
+        state[SITES] = {int(k): v for k, v in state.get(SITES, {}).items()}
         return cls(state)
 
     @classmethod
-- 
2.43.0


From bac5bd32c9fcd05dc85f00648ee1181db5d0c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:59 +0000
Subject: [PATCH 40/40] fix: results saved without a name at the same time
 overwrote each other

The name was looked for and the file written in two separate steps, so that several
processes or threads saving in the same minute took the same name.
---
 src/pylattica/core/simulation_result.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 10b3f98..f32d8c8 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -1,5 +1,4 @@
 import copy
-import os
 import tqdm
 
 from typing import Dict, List
@@ -158,10 +157,19 @@ class SimulationResult:
             date_string = now.strftime("%m-%d-%Y-%H-%M")
             fpath = f"{date_string}.json"
             count = 1
-            # Other results may have been saved in the same minute
-            while os.path.exists(fpath):
+            # Other results may have been saved in the same minute, or be just now
+            while not _claim_file(fpath):
                 count += 1
                 fpath = f"{date_string}-{count}.json"
 
         dumpfn(self, fpath)
         return fpath
+
+
+def _claim_file(fpath: str) -> bool:
+    """Creates the file, unless there is one already."""
+    try:
+        with open(fpath, "x", encoding="utf-8"):
+            return True
+    except FileExistsError:
+        return False
-- 
2.43.0

