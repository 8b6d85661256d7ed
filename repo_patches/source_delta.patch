From ea828085ec31eba6f8ac7811b3c4f41e0d40d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:03 +0000
Subject: [PATCH 01/19] fix: redraw a zero uniform so the kMC waiting time
 stays finite

---
 kmcpy/simulator/kmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 99fc643..cf4735b 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -557,6 +557,9 @@ def _propose(prob_cum_list, rng)-> tuple[int, float]:
     """Sample one event index and waiting time from cumulative rates."""
     random_seed = rng.random()
     random_seed_2 = rng.random()
+    # rng.random() samples [0, 1); log(0) would yield an infinite waiting time.
+    while random_seed_2 == 0.0:
+        random_seed_2 = rng.random()
     proposed_event_index = np.searchsorted(
         prob_cum_list / prob_cum_list[-1], random_seed, side="right"
     )
-- 
2.43.0


From ac8479351b8a7ad6e4960166442add8b0a7352f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 02/19] fix: refuse to propose an event when the total rate is
 zero

---
 kmcpy/simulator/kmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index cf4735b..46cce56 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -407,6 +407,10 @@ class KMC:
         Returns:
             tuple[Event, float, int]: The chosen event, the time for this event to occur, and the event index.
         """
+        if not self.prob_cum_list[-1] > 0:
+            raise RuntimeError(
+                "No event can be executed: the total event rate is not positive"
+            )
         proposed_event_index, dt = _propose(prob_cum_list=self.prob_cum_list, rng=self.rng)
         event = events[proposed_event_index]
         return event, dt
-- 
2.43.0


From 72cccf6f5b82e5a893fc58e6eda53eba0fb23d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:13 +0000
Subject: [PATCH 03/19] fix: keep each endpoint's own state encoding when a hop
 is executed

---
 kmcpy/event/hop.py          | 20 ++++++++++++++++++++
 kmcpy/models/site_energy.py | 11 +++++++----
 kmcpy/simulator/state.py    |  4 ++--
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/kmcpy/event/hop.py b/kmcpy/event/hop.py
index a5d2c18..066c3a1 100644
--- a/kmcpy/event/hop.py
+++ b/kmcpy/event/hop.py
@@ -89,6 +89,26 @@ def endpoint_direction_from_codes(
     return 0
 
 
+def endpoint_states_after_hop(occupations: Any, event: Any) -> tuple[int, int]:
+    """Return the (from, to) endpoint states once the event's hop is executed.
+
+    The two endpoint sites may encode the mobile ion and the vacancy with
+    different state indices, so annotated events take the states from their codes
+    and leave endpoints that cannot exchange an ion alone. The mapping is its own
+    inverse.
+    """
+    from_site, to_site = event.mobile_ion_indices
+    codes = getattr(event, "hop_state_codes", None)
+    if codes is not None and INVALID_STATE not in codes:
+        direction = event_direction(occupations, event)
+        if direction == 1:
+            return codes[2], codes[3]
+        if direction == -1:
+            return codes[0], codes[1]
+        return occupations[from_site], occupations[to_site]
+    return occupations[to_site], occupations[from_site]
+
+
 def _is_mobile_label(specie_label: str, mobile_ion_specie: str) -> bool:
     return str(specie_label) == str(mobile_ion_specie)
 
diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 59a27f6..5ad3bf6 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -14,6 +14,7 @@ from typing import Any, Optional
 import numpy as np
 from monty.serialization import loadfn
 
+from kmcpy.event.hop import endpoint_states_after_hop
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.structure.active_site_order import ActiveSiteOrder
 
@@ -310,10 +311,11 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        new_from, new_to = endpoint_states_after_hop(occupations, event)
         return self._mapped_changes(
             (
-                (from_site, from_state, to_state),
-                (to_site, to_state, from_state),
+                (from_site, from_state, int(new_from)),
+                (to_site, to_state, int(new_to)),
             )
         )
 
@@ -321,10 +323,11 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        old_from, old_to = endpoint_states_after_hop(occupations, event)
         return self._mapped_changes(
             (
-                (from_site, to_state, from_state),
-                (to_site, from_state, to_state),
+                (from_site, int(old_from), from_state),
+                (to_site, int(old_to), to_state),
             )
         )
 
diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index cb1f52f..28fc868 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -12,6 +12,7 @@ from monty.json import MSONable
 from monty.serialization import dumpfn, loadfn
 
 from ..event.base import Event
+from ..event.hop import endpoint_states_after_hop
 
 logger = logging.getLogger(__name__)
 
@@ -148,8 +149,7 @@ class State(MSONable):
         """Apply one event transition and advance simulation counters."""
         from_site, to_site = event.mobile_ion_indices
         self.occupations[from_site], self.occupations[to_site] = (
-            self.occupations[to_site],
-            self.occupations[from_site],
+            endpoint_states_after_hop(self.occupations, event)
         )
         self.time += dt
         self.step += 1
-- 
2.43.0


From 0f900b589f44281276a47068dd78976351ba74be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:08 +0000
Subject: [PATCH 04/19] fix: refresh every rate when local barrier rules read
 sites outside the event

---
 kmcpy/models/local_barrier_model.py | 8 ++++++++
 kmcpy/simulator/kmc.py              | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 58e1760..fbbba68 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -863,6 +863,14 @@ class LocalBarrierModel(BaseModel):
             return tuple(range(len(occupations)))
         raise ValueError(f"Unsupported sites selector '{sites}'")
 
+    @property
+    def depends_on_remote_sites(self) -> bool:
+        """Whether a rule reads sites outside the evaluated event's own sites."""
+        return any(
+            isinstance(rule.get("sites"), tuple) or rule.get("sites") == "all"
+            for rule in self.rules
+        )
+
     def _occupation_pattern(
         self, sites: tuple[int, ...], occupations: list[int]
     ) -> tuple[int, ...]:
diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 46cce56..440e928 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -448,6 +448,9 @@ class KMC:
         
         # Use EventLib to get dependent events
         events_to_be_updated = self.event_lib.get_dependent_events(event_index)
+        if getattr(self.model, "depends_on_remote_sites", False):
+            # Rates may change although no site of the event was touched.
+            events_to_be_updated = range(len(self.event_lib))
         
         # Update probabilities for dependent events using configured model
         for e_index in events_to_be_updated:
-- 
2.43.0


From 2628a52e1688d3c8df307436e61d0e7f4e202f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:26 +0000
Subject: [PATCH 05/19] fix: external occupation dtype must hold every mapped
 value

The dtype was taken from the values of the initial state only, so a later hop
(or an integer initial occupation) silently truncated real-valued states.
---
 kmcpy/models/site_energy.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 5ad3bf6..ce2ed10 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -272,7 +272,7 @@ class SiteEnergyModel(BaseModel):
         ]
         dtype = _resolve_external_dtype(
             self.external_dtype,
-            mapped_values=mapped_values,
+            mapped_values=mapped_values + self._mappable_values(),
             fill_value=self.external_fill_value,
             initial_occupation=self.initial_occupation,
         )
@@ -294,6 +294,17 @@ class SiteEnergyModel(BaseModel):
             external[int(self._site_lookup[kmcpy_site])] = mapped_value
         return external
 
+    def _mappable_values(self) -> list[Any]:
+        """All values the state mappings can write into the external occupation."""
+        lookups = (self._state_lookup, *(self._state_lookup_by_site or ()))
+        return [
+            value
+            for lookup in lookups
+            if lookup is not None
+            for value in lookup.values
+            if value is not _MISSING_STATE_VALUE
+        ]
+
     def _external_site(self, kmcpy_site: int) -> int:
         if self._site_lookup is None:
             raise RuntimeError("SiteEnergyModel has not been initialized")
@@ -800,14 +811,20 @@ def _resolve_external_dtype(
     if external_dtype is not None:
         return np.dtype(external_dtype)
     values = list(mapped_values)
+    if initial_occupation is None:
+        values.append(fill_value)
+    all_integers = all(isinstance(value, (int, np.integer)) for value in values)
+    all_numbers = all(isinstance(value, (int, float, np.number)) for value in values)
     if initial_occupation is not None:
-        return initial_occupation.dtype
-    if values and all(isinstance(value, (int, np.integer)) for value in values):
+        # Keep the given dtype only when it can hold every mapped value.
+        kind = initial_occupation.dtype.kind
+        if (kind in "iu" and all_integers) or (kind == "f" and all_numbers):
+            return initial_occupation.dtype
+        return float if kind in "iu" and all_numbers else object
+    if all_integers:
         return np.int64
-    if values and all(isinstance(value, (int, float, np.number)) for value in values):
+    if all_numbers:
         return float
-    if isinstance(fill_value, (int, np.integer)) and not values:
-        return np.int64
     return object
 
 
-- 
2.43.0


From fa5179032398e35092fe360bab27f06e374f4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:08 +0000
Subject: [PATCH 06/19] fix: transport averages use the time elapsed since
 tracking started

Displacements start at zero when the Tracker is created, but diffusivities and
conductivity were divided by the absolute simulation time, so restarting from a
checkpoint or running twice underestimated them.
---
 kmcpy/simulator/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 763ab09..9194b1d 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -94,6 +94,8 @@ class Tracker:
         self.structure = structure
         self.state = initial_state
         self.hop_state_lookup = hop_state_lookup
+        # Displacements start at zero here, whatever time the state has reached.
+        self._start_time = float(initial_state.time)
 
         self._initialize_mobile_ion_tracking(initial_state.occupations)
 
@@ -318,7 +320,7 @@ class Tracker:
         return compute_transport_properties(
             self.displacement,
             self.hop_counter,
-            sim_time=float(self.time),
+            sim_time=float(self.time) - self._start_time,
             dimension=self.dimension,
             n_mobile_ion_specie=self.n_mobile_ion_specie,
             elementary_hop_distance=self.elem_hop_distance,
-- 
2.43.0


From 615d1e3a61810bceb3d03020ff6184d698a76d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:13 +0000
Subject: [PATCH 07/19] fix: number active sites of the full supercell by their
 compact index

---
 kmcpy/structure/active_site_order.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 5dec1a0..3a9f30b 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -361,9 +361,14 @@ def _make_supercell_with_properties(
         ORIGINAL_SITE_PROPERTY, list(range(len(supercell)))
     )
     active_indices = []
+    active_count = 0
     for site in supercell:
         primitive_index = int(site.properties[PRIMITIVE_SITE_PROPERTY])
-        active_indices.append(primitive_active_lookup.get(primitive_index, -1))
+        if primitive_index in primitive_active_lookup:
+            active_indices.append(active_count)
+            active_count += 1
+        else:
+            active_indices.append(-1)
     supercell.add_site_property(ACTIVE_SITE_PROPERTY, active_indices)
     return supercell
 
-- 
2.43.0


From 0b14174452220efd9e98e5105b17a5acd6d60e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:23 +0000
Subject: [PATCH 08/19] fix: keep allowed species with their sites in
 supercells

---
 kmcpy/structure/lattice_structure.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index a5f0c3b..c2ab743 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -380,13 +380,13 @@ class LatticeStructure(ABC):
     def make_supercell(self, sc_matrix: np.ndarray):
         '''Create a supercell of the template structure'''
         self.template_structure.make_supercell(sc_matrix)
-        # Update allowed_species accordingly
-        original_allowed_species = self.allowed_species.copy()
-        self.allowed_species = []
-        for i in range(sc_matrix[0,0]):
-            for j in range(sc_matrix[1,1]):
-                for k in range(sc_matrix[2,2]):
-                    self.allowed_species.extend(original_allowed_species)
+        # pymatgen keeps all images of one template site together
+        n_images = len(self.template_structure) // len(self.allowed_species)
+        self.allowed_species = [
+            allowed_specie
+            for allowed_specie in self.allowed_species
+            for _ in range(n_images)
+        ]
         if len(self.allowed_species) != len(self.template_structure):
             raise ValueError(f"After supercell, species length {len(self.allowed_species)} does not match template structure length {len(self.template_structure)}!")
         
-- 
2.43.0


From b689928433d64e115e4a50018537f1ace707057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:23 +0000
Subject: [PATCH 09/19] fix: convert every state but the match value to the
 mismatch value

---
 kmcpy/structure/basis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index cbf265c..185582f 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -117,10 +117,9 @@ class BasisFunction(MSONable, ABC):
     
     def convert_to(self, value: Union[int, float], target_basis: 'BasisFunction') -> Union[int, float]:
         """Convert a value to another basis function."""
-        if value == self.mismatch_value:
-            return target_basis.mismatch_value
-        else:
+        if value == self.match_value:
             return target_basis.match_value
+        return target_basis.mismatch_value
     
     def __str__(self) -> str:
         return f"{self.__class__.__name__}(match={self.match_value}, mismatch={self.mismatch_value})"
-- 
2.43.0


From 9a564d806094bba7092e7a91d57e02387ceaa820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:23 +0000
Subject: [PATCH 10/19] fix: a refused assignment leaves the occupation
 unchanged

---
 kmcpy/structure/basis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index 185582f..8e4068f 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -417,9 +417,13 @@ class Occupation:
     
     def __setitem__(self, index: Union[int, slice], value: Union[int, List[int]]):
         """Set occupation value(s) at index."""
+        previous = self._data.copy()
         self._data[index] = value
-        if hasattr(self, '_validate'):  # Only validate if not in constructor
+        try:
             self._validate()
+        except ValueError:
+            self._data = previous
+            raise
     
     def __iter__(self) -> Iterator[int]:
         """Iterate over occupation values."""
-- 
2.43.0


From 49840b28f8e59426f3c982ec3f8dd791f2033d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:28 +0000
Subject: [PATCH 11/19] fix: read and write fitted parameters as YAML without
 JSON-only options

---
 kmcpy/models/parameters.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 496dbc9..7f3644f 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -83,7 +83,7 @@ class LCEModelParameters(MSONable):
         filename = Path(filename)
         if filename.suffix == ".h5":
             return cls.from_dict(_read_hdf5_parameter_group(filename))
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_payload(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted parameters to JSON/YAML or HDF5."""
@@ -91,7 +91,7 @@ class LCEModelParameters(MSONable):
         if filename.suffix == ".h5":
             _write_hdf5_parameter_group(filename, self.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_payload(self.as_dict(), filename, indent)
 
     def __str__(self) -> str:
         values = ", ".join(
@@ -149,7 +149,7 @@ class LCEModelParamHistory(MSONable):
                 for key in sorted(h5file.keys()):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_payload(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted-parameter history to JSON/YAML or HDF5."""
@@ -164,7 +164,20 @@ class LCEModelParamHistory(MSONable):
                     group = h5file.create_group(f"parameter_set_{index}")
                     _write_hdf5_group(group, parameters.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_payload(self.as_dict(), filename, indent)
+
+
+def _load_payload(filename: Path) -> Any:
+    if filename.suffix in {".yaml", ".yml"}:
+        return loadfn(filename)
+    return loadfn(filename, cls=None)
+
+
+def _dump_payload(data: dict[str, Any], filename: Path, indent: int) -> None:
+    if filename.suffix in {".yaml", ".yml"}:
+        dumpfn(data, filename)
+    else:
+        dumpfn(data, filename, indent=indent)
 
 
 def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
-- 
2.43.0


From 0da3e11026ceae11578285b171e9266046aa3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:28 +0000
Subject: [PATCH 12/19] fix: decode lists of strings read from HDF5 parameter
 files

---
 kmcpy/models/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 7f3644f..4093362 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -213,5 +213,7 @@ def _decode_hdf5_value(value):
     if isinstance(value, bytes):
         return value.decode("utf-8")
     if hasattr(value, "tolist"):
-        return value.tolist()
+        value = value.tolist()
+    if isinstance(value, list):
+        return [_decode_hdf5_value(item) for item in value]
     return value
-- 
2.43.0


From 8883c616843fee2850e46735f9a419b287533f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:28 +0000
Subject: [PATCH 13/19] fix: read HDF5 parameter histories in the order of the
 fits

---
 kmcpy/models/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 4093362..2e9f867 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -146,7 +146,9 @@ class LCEModelParamHistory(MSONable):
             except ImportError as exc:
                 raise ImportError("h5py required for HDF5 parameter history") from exc
             with h5py.File(filename, "r") as h5file:
-                for key in sorted(h5file.keys()):
+                for key in sorted(
+                    h5file.keys(), key=lambda name: int(name.rsplit("_", 1)[-1])
+                ):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
         return cls.from_dict(_load_payload(filename))
-- 
2.43.0


From 0ae6d0db471b41d140316fc31b523b7b2a3fa6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:01 +0000
Subject: [PATCH 14/19] fix: find the active sites of a full structure by
 position, not atom order

---
 kmcpy/structure/active_site_order.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 3a9f30b..888cebc 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -284,14 +284,6 @@ class ActiveSiteOrder(MSONable):
         ):
             return structure.copy()
 
-        if len(structure) == self.original_site_count:
-            active_sites = [structure[index] for index in self.active_to_original]
-            active_structure = type(structure).from_sites(active_sites)
-            active_structure.add_site_property(
-                ACTIVE_SITE_PROPERTY, list(range(self.active_site_count))
-            )
-            return active_structure
-
         full_reference = self.full_structure_with_properties()
         original_to_active = self.original_to_active
         kept_by_active_index = {}
-- 
2.43.0


From 74c354f94ae89d5295f4e4f612bb1d0865eb7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 15/19] fix: leave a vacancy, not the second species, on the
 empty site of NEB endpoints

Sites with three allowed species, or without a vacancy, gave endpoints with
the second species on the empty site and two atoms on one site in the final
structure.
---
 kmcpy/structure/local_environment_enumerator.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index b4c66ea..d16def3 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -17,6 +17,7 @@ from kmcpy.structure.species import (
     is_vacancy_species,
     species_label,
     species_tokens,
+    vacancy_species,
 )
 
 
@@ -198,10 +199,19 @@ def generate_neb_endpoint_pair(
     if not _species_equivalent(from_species, to_species):
         raise ValueError("hop sites must have the same first allowed mobile species")
 
+    vacancy = vacancy_species()
     initial_occupation = initial_occupation.copy()
-    initial_occupation[from_site] = active_lattice_structure.basis.match_value
-    initial_occupation[to_site] = active_lattice_structure.basis.mismatch_value
-    final_occupation = initial_occupation.flip([from_site, to_site])
+    final_occupation = initial_occupation.copy()
+    for occupation, ion_site, empty_site in (
+        (initial_occupation, from_site, to_site),
+        (final_occupation, to_site, from_site),
+    ):
+        occupation[ion_site] = _occupation_value_for_species(
+            active_lattice_structure, ion_site, from_species
+        )
+        occupation[empty_site] = _occupation_value_for_species(
+            active_lattice_structure, empty_site, vacancy
+        )
 
     initial, final = _ordered_endpoint_structures(
         lattice_structure,
-- 
2.43.0


From 83b06cba462c665e19459286956ec432487a0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:32 +0000
Subject: [PATCH 16/19] fix: enumerate each site of a local environment once

A cutoff that reaches several periodic images of a site listed the site
several times among the varied sites: assignments were repeated and exact
compositions could not be met.
---
 kmcpy/structure/local_environment_enumerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index d16def3..da0aec9 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -413,7 +413,7 @@ def _resolve_variable_site_indices(
 ) -> tuple[int, ...]:
     local_sites = set(local_site_indices)
     if variable_site_indices is not None:
-        resolved = tuple(int(index) for index in variable_site_indices)
+        resolved = tuple(dict.fromkeys(int(index) for index in variable_site_indices))
         missing = [index for index in resolved if index not in local_sites]
         if missing:
             raise ValueError(
@@ -424,7 +424,8 @@ def _resolve_variable_site_indices(
         return resolved
 
     resolved_sites = []
-    for index in local_site_indices:
+    # A site may lie in the sphere through several periodic images.
+    for index in dict.fromkeys(local_site_indices):
         allowed = lattice_structure.allowed_species[index]
         if allowed is None or len(allowed) <= 1:
             continue
-- 
2.43.0


From ff076e562fe9df30d0282e7f6a358dda6afcb6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:32 +0000
Subject: [PATCH 17/19] fix: accept zero counts in species_counts

A composition such as {'Si': 2, 'P': 0} matched no environment.
---
 kmcpy/structure/local_environment_enumerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index da0aec9..8bdefc3 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -777,7 +777,7 @@ def _matches_counts(
 ) -> bool:
     if species_counts is None:
         return True
-    return Counter(species_by_site.values()) == species_counts
+    return Counter(species_by_site.values()) == Counter(species_counts)
 
 
 def _canonical_counts(species_counts: Mapping[Any, int] | None) -> dict[str, int] | None:
-- 
2.43.0


From 8bbcaf92c0d31e33c5f4f22318587a4fac8bda30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:33 +0000
Subject: [PATCH 18/19] fix: merge the label of a CIF row into the site it
 coincides with

A row sharing its position with an earlier one only through a symmetry
operation or the site tolerance raised KeyError, and the whole file was
refused as having no structures.
---
 kmcpy/io/cif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/io/cif.py b/kmcpy/io/cif.py
index 1bd2cd0..bce6f6c 100644
--- a/kmcpy/io/cif.py
+++ b/kmcpy/io/cif.py
@@ -141,7 +141,7 @@ class _LabeledCifParser(CifParser):
                     coord_to_species[match] += comp
                     # disordered magnetic not currently supported
                     coord_to_magmoms[match] = None
-                    coord_to_labels[coord] += data["_atom_site_label"][i]
+                    coord_to_labels[match] += data["_atom_site_label"][i]
 
         sum_occu = [
             sum(c.values())
-- 
2.43.0


From 24ff33e6bf88c2fca16625aa8e726e77944ab9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:50 +0000
Subject: [PATCH 19/19] fix: let a property callback detach itself or another
 property while sampling

---
 kmcpy/simulator/tracker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 9194b1d..af71587 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -382,7 +382,8 @@ class Tracker:
         self._sample_transport_summary(step=step, sim_time=sim_time)
 
         for spec in list(self._properties.values()):
-            if not spec.enabled:
+            # A callback may detach properties, itself included.
+            if not spec.enabled or self._properties.get(spec.name) is not spec:
                 continue
 
             interval = spec.interval if spec.interval is not None else self._global_interval
@@ -409,7 +410,7 @@ class Tracker:
                 spec.last_trigger_time = sim_time
                 continue
 
-            if spec.store:
+            if spec.store and self._properties.get(spec.name) is spec:
                 append_record(
                     records=self._property_records[spec.name],
                     spec=spec,
-- 
2.43.0

