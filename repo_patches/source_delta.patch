From 9a5df97a2893bd744688d4c843b76aa6d810d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 001/106] fix: let rng_state take precedence when rng_seed is
 also given

---
 cratermaker/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 2b561b7..74bab87 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -941,7 +941,7 @@ def _rng_init(
         if not isinstance(rng, Generator):
             raise ValueError("rng must be a numpy.random.Generator instance.")
     else:
-        if rng_seed is None:
+        if rng_seed is None or rng_state is not None:
             rng = np.random.default_rng()
         if rng_state is not None:
             if not isinstance(rng_state, dict):
-- 
2.43.0


From 9f6ff7d6263b719635e21d8e40889a27e831f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 002/106] fix: do not fail a run when round-off makes the last
 number interval end below zero

---
 cratermaker/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index cf34545..b3b563c 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -603,7 +603,7 @@ class Simulation(CratermakerBase):
                     )
                     current_diameter_number_end = (
                         diameter_number[0],
-                        diameter_number[1] - (i + 1) * diameter_number_interval[1],
+                        max(diameter_number[1] - (i + 1) * diameter_number_interval[1], 0.0),  # guard against round-off
                     )
                     self.populate(
                         diameter_number=current_diameter_number,
-- 
2.43.0


From 635c997ed7ea3cdedd86f12d2c71abbb9357bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 003/106] fix: make Simulation.run accept diameter_number as
 documented

---
 cratermaker/core/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index b3b563c..4f30706 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -525,6 +525,10 @@ class Simulation(CratermakerBase):
             **kwargs,
         }
 
+        # These are passed to populate explicitly below
+        kwargs.pop("diameter_number", None)
+        kwargs.pop("diameter_number_end", None)
+
         arguments = self._validate_run_args(**arguments)
         time_start = arguments.pop("time_start", None)
         time_end = arguments.pop("time_end", None)
-- 
2.43.0


From 487f08e5d98e16fac652591ff52fcd7ff4e8066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 004/106] fix: normalize the longitude of locations whose
 latitude lies beyond a pole

---
 cratermaker/utils/general_utils.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 5eb2da0..e364058 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -234,28 +234,30 @@ def normalize_coords(location: tuple[FloatLike, FloatLike]) -> tuple[float, floa
     Examples
     --------
     >>> normalize_coords((370, 95))
-    (10.0, 85.0)
+    (-170.0, 85.0)
 
     >>> normalize_coords((-185, -100))
-    (-5.0, 80.0)
+    (-5.0, -80.0)
     """
     lon, lat = location
 
+    # Normalize latitude by reflecting it over the pole, which also flips the longitude
+    if lat > 90 or lat < -90:
+        lat = ((lat + 180) % 360) - 180
+        if lat > 90:
+            lat = 180 - lat
+            lon = lon + 180
+        elif lat < -90:
+            lat = -180 - lat
+            lon = lon + 180
+
     # Normalize longitude to be within [-180, 180)
     normalized_lon = ((lon + 180) % 360) - 180
-
-    # Normalize latitude
-    if lat > 90:
-        normalized_lat = 180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
-    elif lat < -90:
-        normalized_lat = -180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
-    else:
-        normalized_lat = lat
+    if normalized_lon >= 180:  # The modulo of a tiny negative number can round up to 360
+        normalized_lon = -180.0
 
     # Ensure latitude is within the range [-90, 90] after adjustments
-    normalized_lat = np.clip(normalized_lat, -90, 90)
+    normalized_lat = np.clip(lat, -90, 90)
 
     return float(normalized_lon), float(normalized_lat)
 
-- 
2.43.0


From 6e373e5e89a0cad1204d6187aabcd69cfb16b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 005/106] fix: accept structured location arrays as documented

---
 cratermaker/utils/general_utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index e364058..7dbd904 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -304,11 +304,10 @@ def validate_and_normalize_location(location):
     """
     # Check if it's already a tuple
 
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lon", "lat"):
-        return normalize_coords((location[0], location[1]))
-
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lat", "lon"):
-        return normalize_coords((location[1], location[0]))
+    if isinstance(location, (np.ndarray, np.void)) and location.dtype.names is not None and set(location.dtype.names) == {"lon", "lat"}:
+        if location.size == 1:
+            return normalize_coords((location["lon"].item(), location["lat"].item()))
+        return [normalize_coords((loc["lon"], loc["lat"])) for loc in location.ravel()]
 
     if isinstance(location, np.ndarray) and len(location.shape) == 2 and location.shape[1] == 2:
         if location.shape[0] == 1:
-- 
2.43.0


From 62dc7767b862d1f6124b56204837441a894d3b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:54 +0000
Subject: [PATCH 006/106] fix: make measured_radius and measured_diameter
 settable to a smaller value

---
 cratermaker/components/crater/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 2fd5682..f318dba 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -235,6 +235,9 @@ class CraterVariable:
             self.measured_semimajor_axis = None
             self.measured_semiminor_axis = None
         else:
+            # Clear both axes first, otherwise a value smaller than the current axes would be taken as the new semiminor axis only
+            self.measured_semimajor_axis = None
+            self.measured_semiminor_axis = None
             self.measured_semimajor_axis = value
             self.measured_semiminor_axis = value
         return
-- 
2.43.0


From 755cf57de644ed80f96f756a8b4f37d42e51d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:54 +0000
Subject: [PATCH 007/106] fix: keep the name given when copying or loading a
 crater

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index f318dba..a971b25 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -965,7 +965,7 @@ class Crater(ComponentBase):
 
             measured_orientation = args.pop("measured_orientation", None)
             measured_location = args.pop("measured_location", None)
-            name = args.pop("name", None)
+            name = args.pop("name", name)
             if crater is not None:
                 mt = crater.morphology_type
             else:
-- 
2.43.0


From a71d6896d696ff371075cc65fa8a5bd1972351cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:54 +0000
Subject: [PATCH 008/106] fix: normalize the location given when copying a
 crater

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index a971b25..06e48aa 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -947,6 +947,8 @@ class Crater(ComponentBase):
             pang = args.pop("projectile_angle")
             prho = args.pop("projectile_density")
             location = args.pop("location")
+            if location is not None:
+                location = validate_and_normalize_location(location)
             if "measured_diameter" in args:
                 measured_diameter = args.pop("measured_diameter")
                 measured_semimajor_axis = measured_diameter / 2.0
-- 
2.43.0


From 1e6dfb96097a55ff6e6d201fb925d0bffc63bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:54 +0000
Subject: [PATCH 009/106] fix: infer the projectile velocity or angle from
 projectile_vertical_velocity as documented

---
 cratermaker/components/crater/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 06e48aa..1efc259 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -929,6 +929,17 @@ class Crater(ComponentBase):
                 if field in args and args[field] is None or field not in args:
                     args[field] = old_parameters[field]
 
+        # Infer the third velocity component when the vertical velocity is one of the two that were given
+        if projectile_vertical_velocity is not None:
+            if args["projectile_velocity"] is None and args["projectile_angle"] is not None:
+                if args["projectile_angle"] == 0:
+                    raise ValueError("projectile_velocity cannot be inferred from projectile_vertical_velocity at an angle of zero.")
+                args["projectile_velocity"] = projectile_vertical_velocity / math.sin(math.radians(args["projectile_angle"]))
+            elif args["projectile_angle"] is None and args["projectile_velocity"] is not None:
+                if not 0 <= projectile_vertical_velocity <= args["projectile_velocity"]:
+                    raise ValueError("projectile_vertical_velocity must be between 0 and projectile_velocity.")
+                args["projectile_angle"] = math.degrees(math.asin(projectile_vertical_velocity / args["projectile_velocity"]))
+
         if n_size_inputs != 1:
             if check_redundant_inputs:
                 raise ValueError(f"Exactly one of {', '.join(k for k, v in size_inputs.items() if v is not None)} must be set.")
-- 
2.43.0


From 9bc586c74c2680bfa5d2c90e1188acfa366272e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 010/106] fix: sample the projectile velocity from
 projectile_mean_velocity as documented

---
 cratermaker/components/crater/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 1efc259..1bf0514 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -733,6 +733,7 @@ class Crater(ComponentBase):
         from cratermaker.components.projectile import Projectile
         from cratermaker.components.scaling import Scaling
         from cratermaker.components.target import Target
+        from cratermaker.utils.montecarlo_utils import get_random_velocity
 
         make_copy = crater is not None
 
@@ -996,6 +997,11 @@ class Crater(ComponentBase):
             kwargs = {**kwargs, **vars(argproc.common_args)}
             target = Target.maker(target, **kwargs)
 
+            if projectile_mean_velocity is not None and args["projectile_velocity"] is None:
+                args["projectile_velocity"] = float(
+                    get_random_velocity(vmean=projectile_mean_velocity, vescape=target.escape_velocity, rng=argproc.rng)[0]
+                )
+
             projectile_args = {
                 "velocity": args["projectile_velocity"],
                 "mass": args["projectile_mass"],
-- 
2.43.0


From edb9d9c618befd099dd80233b9b7a678bb37d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 011/106] fix: record both fitted rim axes when the fitted rim
 is smaller than the previous one

---
 cratermaker/components/counting/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index a8b9e86..bd0077e 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -280,6 +280,7 @@ class Counting(ComponentBase):
             fit_ellipse,
         )
 
+        crater.measured_radius = None  # Clear both axes, otherwise an axis smaller than the previous ones would be swapped with them
         crater.measured_semimajor_axis = ap
         crater.measured_semiminor_axis = bp
         crater.measured_orientation = np.degrees(orientation)
-- 
2.43.0


From bcfa62a26a0ab7f206426170ac448776573227a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:18 +0000
Subject: [PATCH 012/106] fix: make exported crater CSV files complete and
 loadable

---
 cratermaker/components/counting/__init__.py | 17 +++++++++--------
 cratermaker/components/crater/__init__.py   |  5 ++++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index bd0077e..4a68b43 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1372,8 +1372,7 @@ class Counting(ComponentBase):
             return
         print(f"Saving crater data to CSV file: '{output_file}'...")
         with output_file.open(mode="w", newline="") as csvfile:
-            writer = csv.writer(csvfile)
-            header_written = False
+            rows = []
             for crater in craters:
                 crater_dict = crater.as_dict(skip_complex_data=True)
                 crater_dict = _convert_tuple_vars(input_dict=crater_dict, inverse=False)
@@ -1402,12 +1401,14 @@ class Counting(ComponentBase):
                     if v is None:
                         crater_dict[k] = ""
 
-                if not header_written:
-                    header = list(crater_dict.keys())
-                    writer.writerow(header)
-                    header_written = True
-                row = [crater_dict.get(key, "") for key in header]
-                writer.writerow(row)
+                rows.append(crater_dict)
+
+            if rows:
+                # Craters do not all have the same attributes set, so the header must include every one that is used
+                header = list(dict.fromkeys(key for row in rows for key in row))
+                writer = csv.DictWriter(csvfile, fieldnames=header, restval="")
+                writer.writeheader()
+                writer.writerows(rows)
 
         return
 
diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 1bf0514..ac3b33e 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1304,9 +1304,12 @@ class Crater(ComponentBase):
             for row in reader:
                 crater_data = _convert_tuple_vars(input_dict=row, inverse=True)
                 crater_data = {k: v for k, v in crater_data.items() if v is not None and v != ""}
+                crater_data.pop("id", None)  # The id is always derived from the crater's fixed attributes
                 for key, value in crater_data.items():
-                    if key in ["id", "production_sequence"]:
+                    if key == "production_sequence":
                         crater_data[key] = int(value)
+                    elif key == "name":
+                        crater_data[key] = str(value)
                     elif isinstance(value, tuple | list):
                         vnew = []
                         for v in value:
-- 
2.43.0


From 9dcb63fb4a543279ffe15337d3cf3bdcf7c60045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:48 +0000
Subject: [PATCH 013/106] fix: return longitudes that are already in range
 unchanged

---
 cratermaker/utils/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 7dbd904..b52ab39 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -252,7 +252,7 @@ def normalize_coords(location: tuple[FloatLike, FloatLike]) -> tuple[float, floa
             lon = lon + 180
 
     # Normalize longitude to be within [-180, 180)
-    normalized_lon = ((lon + 180) % 360) - 180
+    normalized_lon = lon if -180 <= lon < 180 else ((lon + 180) % 360) - 180
     if normalized_lon >= 180:  # The modulo of a tiny negative number can round up to 360
         normalized_lon = -180.0
 
-- 
2.43.0


From e474f2c00ad00c9dd222c3252560caf5da2aaba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:19 +0000
Subject: [PATCH 014/106] fix: load saved craters with mixed circular and
 elliptical measurements

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index ac3b33e..70ccd51 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -442,6 +442,8 @@ class Crater(ComponentBase):
                 if not f.init:
                     fixed_fields.pop(f.name)
             var_fields = crater._var.as_dict()
+            # Arguments that are None are not set, such as those of the other craters of a saved set with different attributes
+            kwargs = {k: v for k, v in kwargs.items() if v is not None}
             # Be sure to scrub any fields that are redundant with any potential kwargs
             kwargs = self._scrub_measured_input_size(**kwargs)
             if "measured_semimajor_axis" in kwargs or "measured_semiminor_axis" in kwargs:
-- 
2.43.0


From 0761af12993a8b1126fe2926ca26a3ba665689d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:32 +0000
Subject: [PATCH 015/106] fix: draw formation times in proportion to the
 production rate

---
 cratermaker/components/production/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index b8ae8bc..3601cc6 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -316,8 +316,7 @@ class Production(ComponentBase):
 
         # Normalize the weights for each diameter
         if N_vs_age.ndim > 1:
-            N_vs_age -= np.min(N_vs_age, axis=1)[:, None]  # Subtract the min along age dimension
-            N_vs_age = N_vs_age[:, :-1]  # Remove the last value to avoid the cumulative sum reaching 1
+            N_vs_age = np.diff(N_vs_age, axis=1)  # The number produced in each subinterval
             weights_sum = np.sum(N_vs_age, axis=1)[:, None]  # Sum of weights for each diameter
             weights = N_vs_age / weights_sum  # Normalize weights for each diameter
 
@@ -326,8 +325,7 @@ class Production(ComponentBase):
 
         else:
             if len(N_vs_age) > 0:
-                N_vs_age -= np.min(N_vs_age)  # Subtract the min along age dimension
-                N_vs_age = N_vs_age[:-1]  # Remove the last value to avoid the cumulative sum reaching 1
+                N_vs_age = np.diff(N_vs_age)  # The number produced in each subinterval
                 weights_sum = np.sum(N_vs_age)  # Sum of weights for each diameter
                 weights = N_vs_age / weights_sum  # Normalize weights for each diameter
                 # Compute the CDF for each diameter
@@ -342,9 +340,9 @@ class Production(ComponentBase):
             # For each diameter, find the corresponding index in the CDF
             for i, cdf_row in enumerate(cdf):
                 # Find the corresponding index in the CDF for each diameter
-                chosen_subinterval_indices[i] = np.searchsorted(cdf_row, random_values[i], side="right") - 1
+                chosen_subinterval_indices[i] = np.searchsorted(cdf_row, random_values[i], side="right")
         else:
-            chosen_subinterval_indices = np.searchsorted(cdf, random_values[:], side="right") - 1
+            chosen_subinterval_indices = np.searchsorted(cdf, random_values[:], side="right")
 
         # Ensure indices are within valid range
         chosen_subinterval_indices = np.clip(chosen_subinterval_indices, 0, len(time_subinterval) - 2)
-- 
2.43.0


From fb8e6785e155e14b27677f73d2a0c6daabb648ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 016/106] fix: convert N(D) values to number per square metre
 with the documented factor

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 3601cc6..e9888f4 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -664,14 +664,14 @@ class Production(ComponentBase):
             if time_start is not None:
                 raise ValueError("Cannot provide both N_D and time_start")
             time_start = self.age_from_D_N(
-                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] * self.N_conversion_factor
+                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] / self.N_conversion_factor
             )
 
         if N_D_end is not None:
             if time_end is not None:
                 raise ValueError("Cannot provide both N_D_end and time_end")
             time_end = self.age_from_D_N(
-                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] * self.N_conversion_factor
+                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] / self.N_conversion_factor
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-- 
2.43.0


From d5f1a20bbbf9b9e6ee3db5cbfc8ee6173cb61956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 017/106] fix: fall back on the production diameter range in
 sample and accept it as an array

---
 cratermaker/components/production/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index e9888f4..4266e31 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -675,7 +675,9 @@ class Production(ComponentBase):
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-        diameter_range = kwargs.pop("diameter_range", self.diameter_range)
+        diameter_range = kwargs.pop("diameter_range", None)
+        if diameter_range is None:
+            diameter_range = self.diameter_range
         area = kwargs.get("area")
         compute_time = kwargs.get("compute_time", True)
 
@@ -1338,7 +1340,7 @@ class Production(ComponentBase):
         # Reset to default
         if value is None:
             self._diameter_range = (0, np.inf)
-        elif not isinstance(value, (list, tuple, ArrayLike)) or len(value) != 2:
+        elif not isinstance(value, (list, tuple, np.ndarray)) or len(value) != 2:
             raise TypeError("diameter_range must be a list, tuple, or array of length 2")
         else:
             self._diameter_range = (float(value[0]), float(value[1]))
-- 
2.43.0


From a1b8b41828dccf1a0517ee9e609b914ad9d423d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 018/106] fix: make the power law chronology depend on the age
 range

---
 cratermaker/components/production/powerlaw.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 67b671f..f26bc0d 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -176,9 +176,7 @@ class PowerLawProduction(Production):
                 else:
                     time_end = np.zeros_like(time_start)
 
-        N1km = self.csfd(1000.0, time_start=time_start, time_end=time_start, validate_inputs=False)
-
-        return N1km
+        return np.asarray(time_start - time_end, dtype=np.float64)
 
     def csfd(self, diameter: FloatLike | ArrayLike, **kwargs: Any) -> FloatLike | ArrayLike:
         """
-- 
2.43.0


From 0b482130e3852b9f4eb057cbf0513938aa9c00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 019/106] fix: accept a diameter_number_end given at a
 different diameter than diameter_number

---
 cratermaker/components/production/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 4266e31..8f86107 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -738,6 +738,8 @@ class Production(ComponentBase):
                 diameter_number_end[0],
                 diameter_number_end[1] / area,
             )
+            if time_end is None:
+                time_end = self.age_from_D_N(*diameter_number_density_end)
             # Check to be sure that the diameter in the diameter_number_end is the same as diameter_number.
             # If not, we need to adjust the end diameter value it so that they match
             if diameter_number is not None:
-- 
2.43.0


From 2e9c2ce3fc75db85f6223e7598cdc7bb41e0209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 020/106] fix: apply the N(D) conversion factors to quasi-Monte
 Carlo craters

---
 cratermaker/components/production/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 8f86107..898dcb6 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -75,12 +75,12 @@ class Production(ComponentBase):
         if quasimc_file is not None and quasimc_craters is not None:
             raise ValueError("Cannot provide both quasimc_file and quasimc_craters")
 
+        self.N_conversion_factor = N_conversion_factor
+        self.D_conversion_factor = D_conversion_factor
         if quasimc_file is not None:
             self.quasimc_file = quasimc_file
         if quasimc_craters is not None:
             self.quasimc_craters += quasimc_craters
-        self.N_conversion_factor = N_conversion_factor
-        self.D_conversion_factor = D_conversion_factor
 
     def __str__(self) -> str:
         str_repr = super().__str__()
@@ -998,7 +998,7 @@ class Production(ComponentBase):
             elif crater.production_ND is not None and crater.production_ND != [None, None, None]:
                 # N(D) values take precedence over time values
                 prod_diam, nmean, nsig = crater.production_ND
-                prod_diam *= 1e3
+                prod_diam *= self.D_conversion_factor
                 nmean /= self.N_conversion_factor
                 nsig /= self.N_conversion_factor
                 # Convert from N(prod_diam) to N(1) for alignment
@@ -1082,7 +1082,7 @@ class Production(ComponentBase):
                     crater = valid_craters[i]
                     if crater.production_ND is not None and crater.production_ND != [None, None, None]:
                         prod_diam, nmean, nstdev = crater.production_ND
-                        prod_diam *= 1e3
+                        prod_diam *= self.D_conversion_factor
                         nmean /= self.N_conversion_factor
                         nstdev /= self.N_conversion_factor
                         # Convert from N(prod_diam) to N(1) for alignment
-- 
2.43.0


From 2e5b6296fdb5d985d0094505e80bc9f776e5f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 021/106] fix: include the last sequence number in the
 quasi-Monte Carlo ordering check

---
 cratermaker/components/production/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 898dcb6..7d2d176 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1039,7 +1039,7 @@ class Production(ComponentBase):
             """
             if any(t is None for t in times_by_idx.values()):
                 return False
-            ordered_sequence = sorted(sequence_groups.keys())[:-1]
+            ordered_sequence = sorted(sequence_groups.keys())
             for t_lo, t_hi in zip(ordered_sequence[:-1], ordered_sequence[1:], strict=True):
                 lo_min = min(
                     times_by_idx[i] for i in sequence_groups[t_lo]
-- 
2.43.0


From f78f173d8c80a23eb2e4b6c69e59f04d6cbfaefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 022/106] fix: do not draw quasi-Monte Carlo times in the
 future

---
 cratermaker/components/production/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 7d2d176..e020945 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1025,8 +1025,7 @@ class Production(ComponentBase):
                     t = self.rng.normal(loc=tmean, scale=tsig) if tsig > 0 else tmean
                 if isinstance(t, np.ndarray):
                     t = t.item()
-                max(t, 0.0)
-                return float(t)
+                return float(max(t, 0.0))
             else:
                 return None
 
-- 
2.43.0


From 1f312f3759d2a1cfc040ad9e6274c067f10a158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:35 +0000
Subject: [PATCH 023/106] fix: count only the time actually run in the last,
 shorter interval as elapsed

---
 cratermaker/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 4f30706..4bba8b9 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -634,7 +634,7 @@ class Simulation(CratermakerBase):
                     if current_time_end < 0.0:
                         current_time_end = 0.0
                     time_interval = time - current_time_end
-                self.elapsed_time += time_interval
+                self.elapsed_time += time - current_time_end
                 self.elapsed_n1 += (
                     self.production.function(
                         diameter=_DSTD,
-- 
2.43.0


From 5acc253146e43b26a47b1b06a9219b60330197c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:35 +0000
Subject: [PATCH 024/106] fix: do not repeat or add an interval because of
 round-off

---
 cratermaker/core/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 4bba8b9..c85e9a9 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -422,7 +422,7 @@ class Simulation(CratermakerBase):
                     raise ValueError("time_interval must be less than age or time_start - time_end")
                 elif time_interval <= 0:
                     raise ValueError("time_interval must be greater than zero")
-                ninterval = int(np.ceil((time_start - time_end) / time_interval))
+                ninterval = int(np.ceil(round((time_start - time_end) / time_interval, 9)))  # guard against round-off
 
             kwargs["time_interval"] = time_interval
             kwargs["ninterval"] = ninterval
@@ -560,7 +560,7 @@ class Simulation(CratermakerBase):
                 "Starting time cannot be later than the current time. Choose a starting time value equal to or larger than the current time, or reset this simulation."
             )
         if is_time_interval:
-            initial_interval = int((time_start - self.time) / time_interval)
+            initial_interval = int(round((time_start - self.time) / time_interval, 6))  # guard against round-off
         else:
             delta_n1_start = self.production.function(
                 diameter=_DSTD,
@@ -577,7 +577,7 @@ class Simulation(CratermakerBase):
                 ).item()
                 / ninterval
             )
-            initial_interval = int(delta_n1_start / n1_interval)
+            initial_interval = int(round(delta_n1_start / n1_interval, 6))  # guard against round-off
 
         if self.is_new:
             self.save(**kwargs)
-- 
2.43.0


From 7ca878d24ff14fd748146d5a4b62b6038dae8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:35 +0000
Subject: [PATCH 025/106] fix: accept N_D as an array

---
 cratermaker/core/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index c85e9a9..4e63c83 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -370,11 +370,11 @@ class Simulation(CratermakerBase):
         elif N_D is not None:
             if diameter_number is not None or diameter_number_end is not None:
                 raise ValueError("Cannot specify both N_D and diameter_number")
-            if not isinstance(N_D, (list, tuple, ArrayLike)) or len(N_D) != 2:
+            if not isinstance(N_D, (list, tuple, np.ndarray)) or len(N_D) != 2:
                 raise ValueError("N_D must be a pair of values (diameter, number)")
             if N_D_end is None:
                 N_D_end = (N_D[0], 0.0)
-            elif not isinstance(N_D_end, (list, tuple, ArrayLike)) or len(N_D_end) != 2:
+            elif not isinstance(N_D_end, (list, tuple, np.ndarray)) or len(N_D_end) != 2:
                 raise ValueError("N_D_end must be a pair of values (diameter, number)")
 
             diameter_number = (
-- 
2.43.0


From 9f429e91e6c0d8195340a4e56c3694bf660f1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:35 +0000
Subject: [PATCH 026/106] fix: emplace quasi-Monte Carlo craters added after
 the first run and make do_quasimc settable

---
 cratermaker/core/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 4e63c83..fdb41a5 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1868,7 +1868,7 @@ class Simulation(CratermakerBase):
             True if quasi-Monte Carlo sampling is being used, False otherwise.
         """
         if self._do_quasimc is None:
-            self._do_quasimc = (
+            return (
                 len(self.production.quasimc_craters) > 0
                 if self.production is not None and self.production.quasimc_craters is not None
                 else False
@@ -1877,7 +1877,7 @@ class Simulation(CratermakerBase):
 
     @do_quasimc.setter
     def do_quasimc(self, value: bool | None):
-        if not isinstance(value, (bool, None)):
+        if value is not None and not isinstance(value, bool):
             raise TypeError("do_quasimc must be a boolean value or None")
         self._do_quasimc = value
 
-- 
2.43.0


From e66ba2009a7733634415e696710a0182de89b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:35 +0000
Subject: [PATCH 027/106] fix: record the progress of a resumed simulation in
 its configuration file

---
 cratermaker/core/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index fdb41a5..daf0997 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -243,6 +243,8 @@ class Simulation(CratermakerBase):
 
         self.save_actions = save_actions
 
+        # The old configuration has been read, so a resumed simulation can start recording its progress
+        object.__setattr__(self, "_config_readonly", False)
         self.to_config()
 
         return
-- 
2.43.0


From 31d50667606a44a8b51ddf32c013b44e10e92f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 028/106] fix: continue the saved random sequence when a
 simulation is resumed

---
 cratermaker/core/simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index daf0997..47c779e 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -123,9 +123,13 @@ class Simulation(CratermakerBase):
         self.is_new = reset
         object.__setattr__(self, "_config_readonly", not reset)
 
+        saved_rng_state = None
         if not self.is_new and self.config_file.exists():
             config_file = self.config_file
             object.__setattr__(self, "_config_readonly", True)
+            if rng is None and rng_seed is None and rng_state is None:
+                with Path.open(config_file) as f:
+                    saved_rng_state = (yaml.safe_load(f) or {}).get("rng_state")
         else:
             config_file = None
 
@@ -243,6 +247,10 @@ class Simulation(CratermakerBase):
 
         self.save_actions = save_actions
 
+        # Continue the random sequence of the old run, unless a new one was asked for
+        if saved_rng_state is not None and not self.is_new:
+            self.rng.bit_generator.state = saved_rng_state
+
         # The old configuration has been read, so a resumed simulation can start recording its progress
         object.__setattr__(self, "_config_readonly", False)
         self.to_config()
-- 
2.43.0


From e82cf18be8058c862c55e6bce6711e3831611dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 029/106] fix: choose the default production function from the
 target and honour an explicit version

---
 cratermaker/components/production/__init__.py | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index e020945..9d9ee70 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -152,28 +152,23 @@ class Production(ComponentBase):
             If there is an error initializing the production model.
 
         """
-        set_version = False
         version = None
-        if production is None:
-            set_version = True
-        elif isinstance(production, str):
+        if isinstance(production, str):
             production = production.lower()
-            if production == "neukum":
-                set_version = True
-            if set_version:
-                version = kwargs.pop("version", None)
-                if target is None and version is not None and version in ["Moon", "Mars"]:
+        if production is None or production == "neukum":
+            version = kwargs.pop("version", None)
+            if isinstance(version, str):
+                version = version.title()
+                if target is None and version in ["Moon", "Mars"]:
                     target = version
-                target = Target.maker(target, **kwargs)
-                if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
+            target = Target.maker(target, **kwargs)
+            if production is None:
+                if version is not None or target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
                     production = "neukum"
-                    if version is None or version != "projectile":
-                        if target.name in ["Moon", "Mars"]:
-                            version = target.name
-                        else:
-                            version = "projectile"
                 else:
                     production = "powerlaw"
+            if production == "neukum" and version is None:
+                version = target.name if target.name in ["Moon", "Mars"] else "Projectile"
 
         return super().maker(
             component=production,
-- 
2.43.0


From 2cd35f1444e0e2896ff6668e80dcddd43e8541f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:05 +0000
Subject: [PATCH 030/106] fix: record the production version, slope and
 coefficient in the configuration file

---
 cratermaker/components/production/neukum.py   | 1 +
 cratermaker/components/production/powerlaw.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/neukum.py b/cratermaker/components/production/neukum.py
index 5c29c32..fbff607 100644
--- a/cratermaker/components/production/neukum.py
+++ b/cratermaker/components/production/neukum.py
@@ -69,6 +69,7 @@ class NeukumProduction(Production):
 
         self.version = version or "Moon"
         super().__init__(rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
+        self.version = self.version  # Ensures that the version is recorded in the configuration
 
     def __str__(self) -> str:
         str_repr = super().__str__()
diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index f26bc0d..0fa3674 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -7,6 +7,7 @@ from numpy.typing import ArrayLike, NDArray
 
 from cratermaker.components.production import Production
 from cratermaker.constants import FloatLike
+from cratermaker.utils.general_utils import parameter
 
 
 @Production.register("powerlaw")
@@ -194,7 +195,7 @@ class PowerLawProduction(Production):
         """
         return self.N1_coef * diameter**self.slope
 
-    @property
+    @parameter
     def N1_coef(self):
         """The N1 coefficient of the power law production function."""
         return self._N1_coef
@@ -207,7 +208,7 @@ class PowerLawProduction(Production):
             raise ValueError("N1_coef must be positive")
         self._N1_coef = value
 
-    @property
+    @parameter
     def slope(self):
         """The slope of the power law production function."""
         return self._slope
-- 
2.43.0


From eea909224f0066dc9a25f7c6962da3bc7a665272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:05 +0000
Subject: [PATCH 031/106] fix: recompute the chronology coefficients when the
 version changes

---
 cratermaker/components/production/neukum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/production/neukum.py b/cratermaker/components/production/neukum.py
index fbff607..785d464 100644
--- a/cratermaker/components/production/neukum.py
+++ b/cratermaker/components/production/neukum.py
@@ -240,6 +240,9 @@ class NeukumProduction(Production):
         if value.title() not in self.valid_versions:
             raise ValueError(f"Invalid version '{value}'. Valid options are {self.valid_versions}")
         self._version = value.title()
+        # The coefficients depend on the version
+        self._Cexp = None
+        self._Clin = None
 
         if self._version == "Projectile":
             self._generator_type = "projectile"
-- 
2.43.0


From 8f83ed05fc862bfae420efb64dbbae0e8ec62b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:03 +0000
Subject: [PATCH 032/106] fix: keep the size limits and quasi-Monte Carlo times
 of the old run when resuming

---
 cratermaker/components/production/__init__.py | 2 +-
 cratermaker/core/simulation.py                | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 9d9ee70..6be6c91 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1324,7 +1324,7 @@ class Production(ComponentBase):
         else:
             self._quasimc_craters = self._process_quasimc_craters(value)
 
-    @property
+    @parameter
     def diameter_range(self) -> tuple[float, float]:
         """
         The lower and upper range of diameters that will be returned from :py:meth:`~cratermaker.components.production.Production.sample`.
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 47c779e..18f9359 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -129,7 +129,11 @@ class Simulation(CratermakerBase):
             object.__setattr__(self, "_config_readonly", True)
             if rng is None and rng_seed is None and rng_state is None:
                 with Path.open(config_file) as f:
-                    saved_rng_state = (yaml.safe_load(f) or {}).get("rng_state")
+                    saved_config = yaml.safe_load(f) or {}
+                saved_rng_state = saved_config.get("rng_state")
+                if saved_config.get("rng_seed") is not None:
+                    # Repeats the draws made when the old run was set up
+                    self.rng.bit_generator.state = np.random.default_rng(saved_config["rng_seed"]).bit_generator.state
         else:
             config_file = None
 
@@ -233,6 +237,9 @@ class Simulation(CratermakerBase):
         self._max_crater_diameter_range = (min(self.surface.face_size), self.target.diameter)
         self.smallest_crater = max(self.smallest_crater, self._max_crater_diameter_range[0])
         self.largest_crater = min(self.largest_crater, self._max_crater_diameter_range[1])
+        if not self.is_new and production_config.get("diameter_range") is not None:
+            # Keep the size limits of the old run
+            self.production.diameter_range = production_config["diameter_range"]
         if self.production._Crater is None:
             self.production._Crater = self.Crater
             if self.production.quasimc_craters is not None:
-- 
2.43.0


From 489730b5359a2fbc3806914f9cd981f88bbe39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:10 +0000
Subject: [PATCH 033/106] fix: do not apply the saved configuration of a
 replaced component to its replacement

---
 cratermaker/core/simulation.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 18f9359..3d5cd29 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -124,12 +124,13 @@ class Simulation(CratermakerBase):
         object.__setattr__(self, "_config_readonly", not reset)
 
         saved_rng_state = None
+        saved_config = {}
         if not self.is_new and self.config_file.exists():
             config_file = self.config_file
             object.__setattr__(self, "_config_readonly", True)
+            with Path.open(config_file) as f:
+                saved_config = yaml.safe_load(f) or {}
             if rng is None and rng_seed is None and rng_state is None:
-                with Path.open(config_file) as f:
-                    saved_config = yaml.safe_load(f) or {}
                 saved_rng_state = saved_config.get("rng_state")
                 if saved_config.get("rng_seed") is not None:
                     # Repeats the draws made when the old run was set up
@@ -137,10 +138,19 @@ class Simulation(CratermakerBase):
         else:
             config_file = None
 
+        component_args = {
+            "target": target,
+            "scaling": scaling,
+            "production": production,
+            "morphology": morphology,
+            "projectile": projectile,
+            "surface": surface,
+            "counting": counting,
+        }
         config_override = {}
-        for component in _COMPONENT_NAMES:
-            # Set to true if a local variable from the argument list with the component name is set to something other than None, otherwise false
-            config_override[component] = getattr(self, f"_{component}") is not None
+        for component, arg in component_args.items():
+            # Set to true if the component was passed as an argument and is not the one that the saved configuration belongs to, otherwise false
+            config_override[component] = arg is not None and str(arg).lower() != str(saved_config.get(component)).lower()
 
         _, unmatched = _set_properties(
             self,
@@ -155,10 +165,13 @@ class Simulation(CratermakerBase):
             **vars(self.common_args),
         )
 
-        for component in _COMPONENT_NAMES:
+        for component in component_args:
             if config_override[component]:
-                # If the component is set to something other than None, then remove it from the unmatched dictionary
+                # If the component replaces the saved one, then remove the saved configuration from the unmatched dictionary
                 unmatched.pop(f"{component}_config", None)
+        if config_override["target"] and "production_config" in unmatched:
+            # The default version of the production function depends on the target
+            unmatched["production_config"].pop("version", None)
 
         production_config = unmatched.pop("production_config", {})
         scaling_config = unmatched.pop("scaling_config", {})
-- 
2.43.0


From 2eecafb98987114aeefa804b5330aca6a9b8fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:48 +0000
Subject: [PATCH 034/106] fix: keep the target and projectile that a scaling
 model is made for

---
 cratermaker/components/scaling/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cratermaker/components/scaling/__init__.py b/cratermaker/components/scaling/__init__.py
index 4ee2d82..b24bf59 100644
--- a/cratermaker/components/scaling/__init__.py
+++ b/cratermaker/components/scaling/__init__.py
@@ -104,6 +104,7 @@ class Scaling(ComponentBase):
         """
         if scaling is None:
             scaling = "montecarlo"
+        is_existing = isinstance(scaling, Scaling)
         scaling = super().maker(
             component=scaling,
             target=target,
@@ -113,10 +114,12 @@ class Scaling(ComponentBase):
             rng_state=rng_state,
             **kwargs,
         )
-        if projectile is not None:
-            scaling.projectile = projectile
-        if target is not None:
-            scaling.target = target
+        # A newly created model has already got its target and projectile
+        if is_existing:
+            if target is not None:
+                scaling.target = target
+            if projectile is not None:
+                scaling.projectile = projectile
 
         return scaling
 
@@ -146,7 +149,10 @@ class Scaling(ComponentBase):
     def target(self, value):
         from cratermaker.components.target import Target
 
+        old_target = self._target
         self._target = Target.maker(value, **vars(self.common_args))
+        if self._target is not old_target:
+            self.recompute()
         return
 
     @property
@@ -158,7 +164,7 @@ class Scaling(ComponentBase):
     def projectile(self, value):
         from cratermaker.components.projectile import Projectile
 
-        self._projectile = Projectile.maker(value, **vars(self.common_args))
+        self._projectile = Projectile.maker(value, target=self.target, **vars(self.common_args))
         return
 
     @property
-- 
2.43.0


From 1f0869f5124fab36870249997ea344cad8d4c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:20 +0000
Subject: [PATCH 035/106] fix: keep the density of the target when the scaling
 model uses the target's own material

---
 cratermaker/components/scaling/montecarlo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index e31b463..f3ca1b7 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -108,9 +108,10 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
 
         if material is None:
-            self.material = self.target.material
-        else:
-            self.material = material
+            material = self.target.material
+        if density is None and material is not None and str(material).title() == str(self.target.material).title():
+            density = self.target.density  # Setting the material must not replace the density of the target's own material
+        self.material = material
 
         _set_properties(
             self,
-- 
2.43.0


From b84c91859f5f305ea72c516949296b69a3de3c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:20 +0000
Subject: [PATCH 036/106] fix: use the documented default angle, direction and
 location of projectiles that are not sampled

---
 cratermaker/components/projectile/asteroids.py | 4 ++++
 cratermaker/components/projectile/comets.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cratermaker/components/projectile/asteroids.py b/cratermaker/components/projectile/asteroids.py
index 9e812cd..d26195c 100644
--- a/cratermaker/components/projectile/asteroids.py
+++ b/cratermaker/components/projectile/asteroids.py
@@ -61,6 +61,10 @@ class AsteroidProjectiles(Projectile):
             |kwargs|
         """
         density = 2250.0 if density is None else density
+        if not sample:
+            angle = 90.0 if angle is None else angle
+            direction = 0.0 if direction is None else direction
+            location = (0.0, 0.0) if location is None else location
         kwargs.pop("mean_velocity", None)
         kwargs.pop("velocity", None)
         self._target = Target.maker(target, **kwargs)
diff --git a/cratermaker/components/projectile/comets.py b/cratermaker/components/projectile/comets.py
index 7354ff5..3f21b01 100644
--- a/cratermaker/components/projectile/comets.py
+++ b/cratermaker/components/projectile/comets.py
@@ -119,6 +119,10 @@ class CometProjectiles(Projectile):
             |kwargs|
         """
         density = 500.0 if density is None else density
+        if not sample:
+            angle = 90.0 if angle is None else angle
+            direction = 0.0 if direction is None else direction
+            location = (0.0, 0.0) if location is None else location
         kwargs.pop("mean_velocity", None)
         kwargs.pop("velocity", None)
         self._target = Target.maker(target, **kwargs)
-- 
2.43.0


From a066b293a9f8d7fff983faaabd78a900520b189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:20 +0000
Subject: [PATCH 037/106] fix: keep the velocities of a projectile when it is
 copied

---
 cratermaker/components/projectile/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index e8d8f35..8c386a0 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -157,7 +157,11 @@ class Projectile(ComponentBase):
                 attr = getattr(self, k, None)
                 init_kwargs[k] = copier(attr, memo) if deep else copier(attr)
 
-        return cls(**init_kwargs)
+        new_obj = cls(**init_kwargs)
+        # Not every projectile model takes its velocities as arguments
+        new_obj._mean_velocity = self._mean_velocity
+        new_obj._velocity = self._velocity
+        return new_obj
 
     def __copy__(self) -> Self:
         return self._copy(deep=False)
-- 
2.43.0


From 8fe23046bdec4f90b3adbbf0ad1021e4126a3817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 038/106] fix: record every setting of the target, projectile
 and scaling model in the configuration file

---
 cratermaker/components/projectile/__init__.py | 6 ++++++
 cratermaker/components/projectile/generic.py  | 2 ++
 cratermaker/components/scaling/montecarlo.py  | 3 ++-
 cratermaker/components/target/__init__.py     | 4 ++--
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index 8c386a0..1be34b9 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -120,6 +120,10 @@ class Projectile(ComponentBase):
 
         if self.density is None:
             raise ValueError("density must be provided")
+
+        # Record what the configuration file needs to set up the same projectile again
+        if not self.sample:
+            self._user_defined.update({"sample", "angle", "direction", "location"})
         return
 
     def __str__(self) -> str:
@@ -319,6 +323,8 @@ class Projectile(ComponentBase):
 
         if velocity is not None:
             new_obj.velocity = velocity
+            if not new_obj.sample:
+                new_obj._user_defined.add("velocity")
         elif new_obj.sample:
             new_obj._velocity = float(
                 mc.get_random_velocity(
diff --git a/cratermaker/components/projectile/generic.py b/cratermaker/components/projectile/generic.py
index 9f6808b..0ed26c7 100644
--- a/cratermaker/components/projectile/generic.py
+++ b/cratermaker/components/projectile/generic.py
@@ -75,4 +75,6 @@ class GenericProjectiles(Projectile):
             rng_state=rng_state,
             **kwargs,
         )
+        if mean_velocity is not None:
+            self.mean_velocity = mean_velocity  # Ensures that the velocity is recorded in the configuration
         return
diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index f3ca1b7..317f015 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -96,6 +96,7 @@ class MonteCarloScaling(Scaling):
             **kwargs,
         )
 
+        object.__setattr__(self, "_material", None)
         object.__setattr__(self, "_K1", None)
         object.__setattr__(self, "_mu", None)
         object.__setattr__(self, "_Ybar", None)
@@ -105,7 +106,7 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_simple_enlargement_factor", None)
         object.__setattr__(self, "_final_exp", None)
         object.__setattr__(self, "_material_catalogue", None)
-        object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
+        self.monte_carlo_scaling = monte_carlo_scaling
 
         if material is None:
             material = self.target.material
diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index 6011b59..d6e8163 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -270,7 +270,7 @@ class Target(ComponentBase):
         if self.radius is not None:
             return 2 * np.pi * self.radius
 
-    @property
+    @parameter
     def mass(self) -> float | None:
         """The mass of the target body in kilograms."""
         return self._mass
@@ -350,7 +350,7 @@ class Target(ComponentBase):
         """The key used to identify the property used as the key in a catalogue."""
         return "name"
 
-    @property
+    @parameter
     def transition_scale_type(self):
         """The type of simple-to-complex transition scaling used for the surface, either 'silicate' or 'ice'."""
         return self._transition_scale_type
-- 
2.43.0


From 3d2c4fdb28db13a0d40374368ad27fa31f8658fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 039/106] fix: do not run again what has already been run when
 a run is repeated or extended

---
 cratermaker/core/simulation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 3d5cd29..9f88cfe 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -608,6 +608,8 @@ class Simulation(CratermakerBase):
                 / ninterval
             )
             initial_interval = int(round(delta_n1_start / n1_interval, 6))  # guard against round-off
+        if self.time <= time_end:  # Everything up to the requested ending time has been run, including a shorter last interval
+            initial_interval = ninterval
 
         if self.is_new:
             self.save(**kwargs)
@@ -622,7 +624,7 @@ class Simulation(CratermakerBase):
             for i in range(initial_interval, ninterval):
                 self.counting._emplaced = []
                 if is_time_interval:
-                    time = time_start - i * time_interval
+                    time = min(time_start - i * time_interval, self.time)  # Do not repeat what has already been run
                     current_time_end = time_start - (i + 1) * time_interval
                     if current_time_end < time_end:
                         current_time_end = time_end
@@ -635,6 +637,11 @@ class Simulation(CratermakerBase):
                         diameter_number[0],
                         diameter_number[1] - i * diameter_number_interval[1],
                     )
+                    if i == initial_interval and delta_n1_start / n1_interval - i > 1e-6:  # Do not repeat what has already been run
+                        current_diameter_number = (
+                            diameter_number[0],
+                            self.production.function(diameter=diameter_number[0], time_start=self.time).item() * self.surface.area,
+                        )
                     current_diameter_number_end = (
                         diameter_number[0],
                         max(diameter_number[1] - (i + 1) * diameter_number_interval[1], 0.0),  # guard against round-off
-- 
2.43.0


From 0f80a7fa87ec5673a683e417ef653c19e1efa5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 040/106] fix: keep the formation times of craters in the saved
 crater files

---
 cratermaker/components/counting/__init__.py | 2 ++
 cratermaker/components/crater/__init__.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 4a68b43..5c16b3a 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -490,6 +490,8 @@ class Counting(ComponentBase):
                 ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
                 if time_variables is not None:
                     for k, v in time_variables.items():
+                        if k in ds:  # Do not replace the formation times of the craters
+                            continue
                         ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
                 if filename.exists():
                     filename.unlink()
diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 70ccd51..1e68c5b 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1397,6 +1397,8 @@ class Crater(ComponentBase):
         dataset.load()
         if len(dataset) == 0:
             return craters
+        # Variables without an id (such as the time of the interval) do not belong to the craters
+        dataset = dataset[[v for v in dataset.data_vars if "id" in dataset[v].dims]]
         for id in tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
             crater_data = dataset.sel(id=id).to_dict()["data_vars"]
             crater_data = {k: v["data"] for k, v in crater_data.items()}
-- 
2.43.0


From 2020a736ae0bbb02257bc9de26b9f10c1376ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:50 +0000
Subject: [PATCH 041/106] fix: resume from the last completely saved state
 after an interruption

---
 cratermaker/components/counting/__init__.py |  5 ++++-
 cratermaker/components/surface/__init__.py  |  2 ++
 cratermaker/core/simulation.py              | 15 +++++++++++++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 5c16b3a..2a63c97 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -48,6 +48,7 @@ class Counting(ComponentBase):
         self,
         surface: Surface | LocalSurface,
         reset: bool = True,
+        interval: int = -1,
         **kwargs: Any,
     ):
         """
@@ -59,6 +60,8 @@ class Counting(ComponentBase):
             The surface or local surface view to be counted.
         reset : bool, optional
             Flag to indicate whether to reset the count and delete any old output files. Default is True.
+        interval : int, optional
+            The saved interval to read when not resetting. Default is -1 (the last saved interval).
         **kwargs : Any
             |kwargs|
         """
@@ -85,7 +88,7 @@ class Counting(ComponentBase):
         ]
 
         if not reset:
-            observed, emplaced = self.read_saved_output(interval=-1)
+            observed, emplaced = self.read_saved_output(interval=interval)
             if observed:
                 interval = observed.interval.values[-1]
                 observed = self.Crater.from_xarray(observed, interval=interval)
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 6ef1cae..79db95c 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1097,6 +1097,8 @@ class Surface(ComponentBase):
             self.ask_overwrite = False
 
         # Read in only the last saved data file
+        if interval >= 0 and not (self.output_dir / self.output_filename(interval)).exists():
+            interval = -1
         uxds = self.read_saved_output(interval=interval, reset=reset, **kwargs)
         if "interval" in uxds.dims:
             uxds = uxds.isel(interval=-1)
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 9f88cfe..9bcc7c7 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -125,11 +125,15 @@ class Simulation(CratermakerBase):
 
         saved_rng_state = None
         saved_config = {}
+        resume_args = {}
         if not self.is_new and self.config_file.exists():
             config_file = self.config_file
             object.__setattr__(self, "_config_readonly", True)
             with Path.open(config_file) as f:
                 saved_config = yaml.safe_load(f) or {}
+            if saved_config.get("interval") is not None:
+                # Resume from the last state that was saved completely
+                resume_args["interval"] = saved_config["interval"]
             if rng is None and rng_seed is None and rng_state is None:
                 saved_rng_state = saved_config.get("rng_state")
                 if saved_config.get("rng_seed") is not None:
@@ -203,6 +207,7 @@ class Simulation(CratermakerBase):
         surface_config = {
             **surface_config,
             **kwargs,
+            **resume_args,
         }
         if "superdomain_scale_factor" not in surface_config:
             surface_config["superdomain_scale_factor"] = (
@@ -218,7 +223,7 @@ class Simulation(CratermakerBase):
         if self.surface.is_new is not None:
             self.is_new = self.surface.is_new
 
-        counting_config = {**counting_config, **kwargs}
+        counting_config = {**counting_config, **kwargs, **resume_args}
         self.counting = Counting.maker(
             self.counting,
             surface=self.surface,
@@ -671,6 +676,8 @@ class Simulation(CratermakerBase):
                     if current_time_end < 0.0:
                         current_time_end = 0.0
                     time_interval = time - current_time_end
+                # The progress is recorded in the configuration file once the new state has been saved
+                object.__setattr__(self, "_config_readonly", True)
                 self.elapsed_time += time - current_time_end
                 self.elapsed_n1 += (
                     self.production.function(
@@ -683,6 +690,7 @@ class Simulation(CratermakerBase):
                 )
                 self.time = current_time_end
                 self.interval += 1
+                object.__setattr__(self, "_config_readonly", False)
                 self.save(**kwargs)
                 pbar.update(1)
 
@@ -1356,8 +1364,11 @@ class Simulation(CratermakerBase):
 
         # Write the combined configuration to a YAML file
         if save_to_file and not self._config_readonly:
-            with Path.open(self.config_file, "w") as f:
+            # Replace the old file only if writing succeeded
+            temp_file = self.config_file.with_name(self.config_file.name + ".tmp")
+            with Path.open(temp_file, "w") as f:
                 yaml.safe_dump(sim_config, f, indent=4)
+            temp_file.replace(self.config_file)
 
         return sim_config
 
-- 
2.43.0


From 710b8bd07be8edc34fece6d400bd9750ba6348fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:03 +0000
Subject: [PATCH 042/106] fix: remove the saved crater file of an interval when
 there are no craters left

---
 cratermaker/components/counting/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 2a63c97..ad9d93a 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -487,8 +487,9 @@ class Counting(ComponentBase):
         elif crater_type == "both":
             iterator = zip([self.observed, self.emplaced], ["observed", "emplaced"], strict=True)
         for craters, crater_type in iterator:
+            filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
+            filename.unlink(missing_ok=True)
             if craters:
-                filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
                 ds = self.to_xarray(craters)
                 ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
                 if time_variables is not None:
@@ -496,8 +497,6 @@ class Counting(ComponentBase):
                         if k in ds:  # Do not replace the formation times of the craters
                             continue
                         ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
-                if filename.exists():
-                    filename.unlink()
                 ds.to_netcdf(filename)
         save_args = {"interval": interval, **kwargs}
         super().save(**save_args)
-- 
2.43.0


From 9f31c37cdcf8c92f115813c5e174d58892ca6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:39 +0000
Subject: [PATCH 043/106] fix: accept a production version as an argument of a
 simulation

---
 cratermaker/components/production/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 6be6c91..ec527a8 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -152,11 +152,10 @@ class Production(ComponentBase):
             If there is an error initializing the production model.
 
         """
-        version = None
+        version = kwargs.pop("version", None)
         if isinstance(production, str):
             production = production.lower()
         if production is None or production == "neukum":
-            version = kwargs.pop("version", None)
             if isinstance(version, str):
                 version = version.title()
                 if target is None and version in ["Moon", "Mars"]:
-- 
2.43.0


From cef1eab12f5b9488104361246c769e0d8fbe835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:39 +0000
Subject: [PATCH 044/106] fix: keep do_counting of the old run when resuming

---
 cratermaker/core/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 9bcc7c7..4270127 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -59,7 +59,7 @@ class Simulation(CratermakerBase):
     reset : bool, optional
         Flag to indicate whether to reset the simulation or resume from an old simulation. If False, the simulation will attempt to load the previous state from the config file. Default is False if `ask_overwrite=False` and a config file is detected, otherwise default is True.
     do_counting : bool, optional
-        If True, the counting component will keep track of observable craters during the simulation. If False, emplaced craters that are large enoug to be observable are saved, but the observability of craters on the surface is not evaluated and observed craters are not tracked. Default is True.
+        If True, the counting component will keep track of observable craters during the simulation. If False, emplaced craters that are large enoug to be observable are saved, but the observability of craters on the surface is not evaluated and observed craters are not tracked. Default is the value of the old run when resuming, otherwise True.
     save_actions: list[dict[str, dict]], optional
         A dictionary of actions to perform when the save method is called. The keys are the names of the actions and the values are dictionaries of keyword arguments to pass to the corresponding component's save method. For example, if you want to automatically generate a hillshade plot every time the simulation is saved, you can pass `save_actions=[{"plot": {"plot_style": "hillshade", "cmap": "pink", "scalebar": True, "label": "Mars region simulation", "show": True, "save": True}}]`. This will call the surface's save method with the specified keyword arguments every time the simulation is saved. Default is to save a hillshade plot of the surface every time the simulation is saved. Set to None to disable or "default" to use the default save actions.
     **kwargs : Any
@@ -82,7 +82,7 @@ class Simulation(CratermakerBase):
         rng_state: dict | None = None,
         reset: bool = None,
         ask_overwrite: bool = True,
-        do_counting: bool = True,
+        do_counting: bool | None = None,
         save_actions: list[dict[str, dict]] | None | str = "default",
         **kwargs: Any,
     ):
@@ -231,6 +231,8 @@ class Simulation(CratermakerBase):
             **counting_config,
         )
 
+        if do_counting is None:
+            do_counting = morphology_config.get("do_counting", True)
         morphology_config = {**morphology_config, **kwargs, "do_counting": do_counting}
         self.morphology = Morphology.maker(
             self.morphology,
-- 
2.43.0


From 335dfce11ec8b5f5192a199a744aaacd960b83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:12 +0000
Subject: [PATCH 045/106] fix: read the craters of one interval out of a
 catalogue of several intervals

---
 cratermaker/components/crater/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 1e68c5b..53d16c7 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1382,7 +1382,7 @@ class Crater(ComponentBase):
         craters = []
         if type(dataset) is dict:
             if interval is None:
-                dataset = dataset[-1]
+                dataset = dataset[max(dataset)]
             elif interval in dataset:
                 dataset = dataset[interval]
             else:
@@ -1402,8 +1402,8 @@ class Crater(ComponentBase):
         for id in tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
             crater_data = dataset.sel(id=id).to_dict()["data_vars"]
             crater_data = {k: v["data"] for k, v in crater_data.items()}
-            if not isinstance(crater_data["semimajor_axis"], (float, int)):
-                continue
+            if not isinstance(crater_data["semimajor_axis"], (float, int)) or np.isnan(crater_data["semimajor_axis"]):
+                continue  # This crater belongs to another interval
             crater_data = _convert_tuple_vars(input_dict=crater_data, inverse=True)
             for k, v in crater_data.items():
                 if v is not None and np.any(np.isreal(v)) and np.any(np.isnan(v)):
-- 
2.43.0


From 4b5357f754140ee9ae4fbf96c66610186e0a334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:35 +0000
Subject: [PATCH 046/106] fix: export the current observed craters when none
 are given

---
 cratermaker/components/counting/__init__.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index ad9d93a..5273d67 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -975,17 +975,13 @@ class Counting(ComponentBase):
             raise ValueError("crater_type must be 'observed' or 'emplaced'")
         if craters is None:
             craters = getattr(self, crater_type)
-        if type(craters) is dict:
-            if type(list(craters.values())[0]) is xr.Dataset:  # like multi-interval dicts keyed by interval
-                crater_ds = craters.get(
-                    interval, []
-                )  # Get the dataset for the specified interval, or an empty dataset if not found
+        if isinstance(craters, dict):
+            if any(isinstance(v, xr.Dataset) for v in craters.values()):  # like multi-interval dicts keyed by interval
+                craters = craters.get(interval, [])  # Get the dataset for the specified interval, or an empty list if not found
             else:
-                return list(crater_ds.values())  # like observed dicts keyed by crater id
+                craters = list(craters.values())  # like observed dicts keyed by crater id
 
-        if isinstance(craters, dict):
-            craters = list(craters.values())
-        elif isinstance(craters, xr.Dataset):
+        if isinstance(craters, xr.Dataset):
             craters = self.Crater.from_xarray(craters, interval=interval)
         elif isinstance(craters, list):
             if not all(isinstance(c, Crater) for c in craters):
-- 
2.43.0


From aea15c42697bdbad60551087660fa9a6ff52ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:35 +0000
Subject: [PATCH 047/106] fix: use the crater style and size options when
 exporting craters to VTK

---
 cratermaker/components/counting/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 5273d67..340c59d 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1327,7 +1327,13 @@ class Counting(ComponentBase):
         if not self._overwrite_check(output_file):
             return
         print(f"Saving crater data to VTK file: '{output_file}'...")
-        poly_data = self.to_vtk_mesh(craters=craters)
+        poly_data = self.to_vtk_mesh(
+            craters=craters,
+            use_measured_properties=use_measured_properties,
+            crater_style=crater_style,
+            crater_size_scale_factor=crater_size_scale_factor,
+            **kwargs,
+        )
 
         # Write the poly_data to a VTK file
         writer = vtkXMLPolyDataWriter()
-- 
2.43.0


From 4e5c3c60cbe366a61ae8b498b449958210b2c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:47 +0000
Subject: [PATCH 048/106] fix: export the requested interval of every crater
 type and restore ask_overwrite

---
 cratermaker/components/counting/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 340c59d..d1ec403 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -531,11 +531,11 @@ class Counting(ComponentBase):
             return
 
         # Temporarily set the ask_overwrite attribute for the duration of the export, but reset it to its original value afterwards.
+        if crater_type not in ["observed", "emplaced", "both"]:
+            raise ValueError("crater_type must be 'observed', 'emplaced', or 'both")
         ask_overwrite_orig = self.ask_overwrite
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
-        if crater_type not in ["observed", "emplaced", "both"]:
-            raise ValueError("crater_type must be 'observed', 'emplaced', or 'both")
 
         observed, emplaced = self.read_saved_output(interval=interval)
         if crater_type == "both":
@@ -558,19 +558,19 @@ class Counting(ComponentBase):
                     interval_numbers = [0]
                 else:
                     interval_numbers = [interval]
-            for interval in interval_numbers:
-                craters = self.Crater.from_xarray(crater_ds, interval=interval) if crater_ds is not None else []
+            for interval_number in interval_numbers:
+                craters = self.Crater.from_xarray(crater_ds, interval=interval_number) if crater_ds is not None else []
                 if driver.upper() in ["VTK", "VTP"] and crater_ds is not None:
                     self.to_vtk_file(
                         craters=craters,
-                        interval=interval,
+                        interval=interval_number,
                         crater_type=crater_type,
                         **kwargs,
                     )
                 elif driver.upper() == "CSV" and crater_ds is not None:
                     self.to_csv_file(
                         craters=craters,
-                        interval=interval,
+                        interval=interval_number,
                         crater_type=crater_type,
                         **kwargs,
                     )
@@ -579,14 +579,14 @@ class Counting(ComponentBase):
                         crater_ds = []  # Allow for empty SCC files because they can still have the region polygon
                     self.to_scc_file(
                         craters=craters,
-                        interval=interval,
+                        interval=interval_number,
                         crater_type=crater_type,
                         **kwargs,
                     )
                 elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP and crater_ds is not None:
                     self.to_vector_file(
                         craters=craters,
-                        interval=interval,
+                        interval=interval_number,
                         crater_type=crater_type,
                         driver=driver,
                         **kwargs,
-- 
2.43.0


From baf0095635bc6460c75378e374754a09b5358ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:28 +0000
Subject: [PATCH 049/106] fix: compute the crater fraction inside a local
 region near the antimeridian and the poles

---
 cratermaker/components/counting/__init__.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index d1ec403..1664224 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1448,11 +1448,11 @@ class Counting(ComponentBase):
                 return 1.0
             distance = self.surface.compute_distances(reference_location=self.surface.local_location, locations=[crater.location])
             if distance + crater.measured_radius > self.surface.local_radius:
+                # Compute the overlap in the local projection, because the outlines can cross the antimeridian or contain a pole
                 crater_poly = crater.to_geoseries(
                     surface=self.surface, split_antimeridian=False, use_measured_properties=True
-                ).to_crs(self.surface.crs)
-                overlap_area = crater_poly.intersection(region_poly).to_crs(self.surface.local.crs).area.item()
-                return overlap_area / crater_poly.to_crs(self.surface.local.crs).area.item()
+                ).to_crs(self.surface.local.crs)
+                return crater_poly.intersection(region_poly).area.item() / crater_poly.area.item()
             else:
                 return 1.0
 
@@ -1481,12 +1481,11 @@ class Counting(ComponentBase):
                     region_circle = self.Crater.maker(
                         radius=self.surface.local_radius, location=self.surface.local_location
                     )  # We can get away with using just the base class for Crater here
-                    region_poly = (
-                        region_circle.to_geoseries(surface=self.surface, split_antimeridian=False, use_measured_properties=False)
-                        .to_crs(self.surface.crs)
-                        .item()
+                    region_gs = region_circle.to_geoseries(
+                        surface=self.surface, split_antimeridian=False, use_measured_properties=False
                     )
-                    boundary_points = list(region_poly.exterior.coords)
+                    boundary_points = list(region_gs.to_crs(self.surface.crs).item().exterior.coords)
+                    region_poly = region_gs.to_crs(self.surface.local.crs).item()
                     area = self.surface.local.area
             else:
                 f.write(f"coordinate_system_name = {self.surface.crs.name}\n")
-- 
2.43.0


From f34ba4549f4e1764e84e05db9967de753a994dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:37 +0000
Subject: [PATCH 050/106] fix: place a high resolution local region at the
 south pole there

---
 cratermaker/components/surface/hireslocal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index d49a930..65d8122 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -548,6 +548,9 @@ class HiResLocalSurface(Surface):
         axis_norm = np.linalg.norm(axis)
 
         if axis_norm < 1e-10:
+            if target[2] < 0.0:
+                # The south pole: rotate by 180 degrees about the x axis
+                return points * np.array([1.0, -1.0, -1.0])
             return points
 
         axis /= axis_norm
-- 
2.43.0


From fd2487ddc787809926912d19eb3a4766d0d984b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:21 +0000
Subject: [PATCH 051/106] fix: make the longitude extents of a region contain
 the region

---
 cratermaker/components/surface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 79db95c..ee3fff5 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1419,8 +1419,8 @@ class Surface(ComponentBase):
         if abs(lat0) + alpha_deg >= 90.0:
             lon_min, lon_max = -180.0, 180.0
         else:
-            half_lon_span = alpha_deg / np.cos(np.radians(lat0))
-            half_lon_span = min(half_lon_span, 180.0)
+            # The meridians that are tangent to the region touch it poleward of its center
+            half_lon_span = np.degrees(np.arcsin(min(np.sin(radius / R) / np.cos(np.radians(lat0)), 1.0)))
 
             lon_min = lon0 - half_lon_span
             lon_max = lon0 + half_lon_span
-- 
2.43.0


From 79b0f2f652bf7ec8b38aee2a8205f535e70efeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:37 +0000
Subject: [PATCH 052/106] fix: include the nodes of the buffer faces in a
 subregion

---
 cratermaker/components/surface/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index ee3fff5..602c5d7 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2685,6 +2685,10 @@ class LocalSurface(CratermakerBase):
             edge_faces = edge_faces[edge_faces != INT_FILL_VALUE]
             face_indices = np.unique(np.concatenate((face_indices, neighbor_faces, node_faces, edge_faces)))
 
+            # Add in all nodes that are attached to these buffer faces
+            node_indices = np.unique(self.surface.face_node_connectivity[face_indices].ravel())
+            node_indices = node_indices[node_indices != INT_FILL_VALUE]
+
         else:
             face_indices = self.face_indices
             edge_indices = self.edge_indices
-- 
2.43.0


From 6629e52b6216e0bc182112aaff7406c820c7e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:37 +0000
Subject: [PATCH 053/106] fix: call the slope computation with the arguments it
 takes

---
 cratermaker/components/surface/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 602c5d7..b6d1d95 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2415,10 +2415,7 @@ class LocalSurface(CratermakerBase):
         NDArray[np.float64]
             The slope of all faces in degrees.
         """
-        slope = surface_bindings.compute_slope(
-            face_elevation=self.face_elevation,
-            region=self,
-        )
+        slope = surface_bindings.compute_slope(region=self)
 
         return np.rad2deg(np.arctan(slope))
 
-- 
2.43.0


From 4feeb0c4dc4604f4482931b354bdb03586ce67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:37 +0000
Subject: [PATCH 054/106] fix: apply data to the elements an existing variable
 is defined on

---
 cratermaker/components/surface/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index b6d1d95..2c366f5 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2159,6 +2159,11 @@ class LocalSurface(CratermakerBase):
             |kwargs|
 
         """
+        # An existing variable is already defined on either the faces or the nodes
+        is_new_variable = name not in self.surface.uxds.data_vars
+        if not is_new_variable:
+            isfacedata = "n_face" in self.surface.uxds[name].dims
+
         # Check if the data is a scalar or an array
         if np.isscalar(data):
             n = self.n_face if isfacedata else self.n_node
@@ -2167,16 +2172,16 @@ class LocalSurface(CratermakerBase):
             data = np.array(data, dtype=dtype)
         else:
             data = np.asarray(data, dtype=dtype)
-        if data.size == self.n_face:
+        if data.size == self.n_face and (isfacedata or is_new_variable):
             isfacedata = True
             indices = self.face_indices
-        elif data.size == self.n_node:
+        elif data.size == self.n_node and (not isfacedata or is_new_variable):
             isfacedata = False
             indices = self.node_indices
         else:
             raise ValueError("data must be a scalar or an array with the same size as the number of faces or nodes in the grid")
 
-        if name not in self.surface.uxds.data_vars:
+        if is_new_variable:
             overwrite = True
             self.surface._add_new_data(
                 name, data=fill_value, long_name=long_name, units=units, isfacedata=isfacedata, dtype=dtype, **kwargs
-- 
2.43.0


From 22816fae16eb1b1acbdc070f17e092e0fe84457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:22 +0000
Subject: [PATCH 055/106] fix: accept a region when tallying craters

---
 cratermaker/components/counting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 1664224..696d0eb 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -350,6 +350,8 @@ class Counting(ComponentBase):
         .. [#] Minton, D.A., Fassett, C.I., Hirabayashi, M., Howl, B.A., Richardson, J.E., (2019). The equilibrium size-frequency distribution of small craters reveals the effects of distal ejecta on lunar landscape morphology. Icarus 326, 63-87. `doi: 10.1016/j.icarus.2019.02.021 <https://doi.org/10.1016/j.icarus.2019.02.021>`_
 
         """
+        from cratermaker.components.surface import LocalSurface
+
         if region is None:
             region = self.surface
             if hasattr(self.surface, "crater_id"):
-- 
2.43.0


From 7ce0a0d93bbc559e13e16902d4db65b470f9caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:17 +0000
Subject: [PATCH 056/106] fix: restore the emplaced craters of an interval
 without observed craters

---
 cratermaker/components/counting/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 696d0eb..ddfcfee 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -89,13 +89,13 @@ class Counting(ComponentBase):
 
         if not reset:
             observed, emplaced = self.read_saved_output(interval=interval)
+            # An interval may have only one type of craters
+            interval = max((ds.interval.values[-1] for ds in (observed, emplaced) if ds), default=interval)
             if observed:
-                interval = observed.interval.values[-1]
-                observed = self.Crater.from_xarray(observed, interval=interval)
-                for crater in observed:
+                for crater in self.Crater.from_xarray(observed, interval=interval):
                     self._observed[crater.id] = crater
-                if emplaced:
-                    self._emplaced = self.Crater.from_xarray(emplaced, interval=interval)
+            if emplaced:
+                self._emplaced = self.Crater.from_xarray(emplaced, interval=interval)
         return
 
     @classmethod
-- 
2.43.0


From 581214361d6f35c927b84dec35a60401eee1a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:32 +0000
Subject: [PATCH 057/106] fix: skip craters whose ejecta region covers no face

---
 cratermaker/components/morphology/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index ad7b963..0f8051c 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -587,7 +587,7 @@ class Morphology(ComponentBase):
             raise TypeError("crater must be an instance of Crater")
         if not isinstance(crater, MorphologyCrater):
             crater = MorphologyCrater.maker(crater=crater, morphology=self)
-        if not crater.emplaceable:
+        if not crater.emplaceable or crater.ejecta_region is None:
             return
 
         crater_area = pi * crater.crater_region.radius**2
-- 
2.43.0


From ada8afb9c4c295a17f492443b23b022f4fd753fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:36 +0000
Subject: [PATCH 058/106] fix: a failed emplacement leaves no craters queued
 for the next one

---
 cratermaker/components/morphology/__init__.py | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index 0f8051c..5d1c9e4 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -557,18 +557,22 @@ class Morphology(ComponentBase):
         elif isinstance(craters, Crater):
             craters = [MorphologyCrater.maker(crater=craters, morphology=self)]
 
-        if isinstance(craters, list) and len(craters) > 0:
-            for c in tqdm(
-                craters,
-                total=len(craters),
-                desc="Queueing craters for emplacement",
-                unit="crater",
-                position=0,
-                leave=False,
-            ):
-                self._enqueue_crater(c)
-
-        self._process_queue(**kwargs)
+        try:
+            if isinstance(craters, list) and len(craters) > 0:
+                for c in tqdm(
+                    craters,
+                    total=len(craters),
+                    desc="Queueing craters for emplacement",
+                    unit="crater",
+                    position=0,
+                    leave=False,
+                ):
+                    self._enqueue_crater(c)
+
+            self._process_queue(**kwargs)
+        except BaseException:
+            self._init_queue_manager()  # Do not form these craters again in the next call
+            raise
 
         return craters
 
-- 
2.43.0


From 2bd83838a740edfed1a8b9ea1789c2363779c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:52 +0000
Subject: [PATCH 059/106] fix: ejecta distribution of radii given as a 2-d
 array

---
 cratermaker/components/morphology/basicmoon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index 0b81ef8..481a158 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -456,7 +456,7 @@ class BasicMoonMorphology(Morphology):
             crater_diameter=crater.diameter,
             seed=self.rng.integers(0, 2**32 - 1),
         )
-        thickness = np.array(thickness, dtype=np.float64)
+        thickness = np.ravel(np.array(thickness, dtype=np.float64))
         intensity = np.array(intensity, dtype=np.float64)
         thickness *= intensity
         # reshape thickness to match the shape of r and theta
-- 
2.43.0


From a41fc45e697f0a7e656882aada472a925e54faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:24 +0000
Subject: [PATCH 060/106] fix: ray patterns at distances given as a list

---
 cratermaker/components/morphology/basicmoon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index 481a158..934a776 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -460,7 +460,7 @@ class BasicMoonMorphology(Morphology):
         intensity = np.array(intensity, dtype=np.float64)
         thickness *= intensity
         # reshape thickness to match the shape of r and theta
-        return np.reshape(thickness, r.shape), np.reshape(intensity, r.shape)
+        return np.reshape(thickness, np.shape(r)), np.reshape(intensity, np.shape(r))
 
     def ray_intensity(self, crater: BasicMoonCrater, r: ArrayLike, theta: ArrayLike) -> NDArray[np.float64]:
         """
@@ -497,7 +497,7 @@ class BasicMoonMorphology(Morphology):
         )
         intensity = np.array(intensity, dtype=np.float64)
         # reshape intensity to match the shape of r and theta
-        intensity = np.reshape(intensity, r.shape)
+        intensity = np.reshape(intensity, np.shape(r))
         return intensity
 
     def ejecta_burial_degradation(self, ejecta_thickness, ejecta_soften_factor=1.50) -> NDArray[np.float64]:
-- 
2.43.0


From b3c0fd926f39f58b9e6290a4b7ce8157cd6e8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:34 +0000
Subject: [PATCH 061/106] fix: ask about all files before removing any of them

---
 cratermaker/core/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 74bab87..353f652 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -463,6 +463,7 @@ class CratermakerBase:
         ask_overwrite = self.ask_overwrite  # This will allow us to temporarily disable prompts about overwriting files for this operation if the user selects 'a' to suppress prompts about overwriting files, without changing the value of self.ask_overwrite for future operations.
         if not isinstance(files_to_remove, list):
             files_to_remove = [files_to_remove]
+        # Ask about all of the files first, so that none of them are removed if the user cancels
         for file in files_to_remove:
             file = Path(file)
             if file.exists() and ask_overwrite:
@@ -474,6 +475,8 @@ class CratermakerBase:
                 elif response.lower() != "y":
                     print("Operation cancelled by user.")
                     return False
+        for file in files_to_remove:
+            file = Path(file)
             try:
                 if file.is_dir():
                     shutil.rmtree(file)
-- 
2.43.0


From 3f00015e877bc485674d6ea9fbc5569834650d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:50 +0000
Subject: [PATCH 062/106] fix: a reset that the user cancels keeps the data

---
 cratermaker/components/counting/__init__.py   | 12 +++++++++---
 cratermaker/components/surface/__init__.py    | 13 ++++++++++---
 cratermaker/components/surface/datasurface.py |  7 ++++---
 cratermaker/components/surface/hireslocal.py  |  7 ++++---
 cratermaker/core/base.py                      | 10 ++++++++--
 5 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index ddfcfee..15ef554 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -151,7 +151,7 @@ class Counting(ComponentBase):
         str_repr += f"Surface: <{self.surface.component_name}>\n"
         return str_repr
 
-    def reset(self, **kwargs: Any) -> None:
+    def reset(self, **kwargs: Any) -> bool:
         """
         Remove all craters count records from the surface and delete any output files.
 
@@ -159,13 +159,19 @@ class Counting(ComponentBase):
         ----------
         **kwargs : Any
             |kwargs|
+
+        Returns
+        -------
+        bool
+            False if the user cancelled the operation, otherwise True.
         """
+        if not super().reset(**kwargs):
+            return False
         self.surface.add_tag(name="crater_id", long_name=_TALLY_LONG_NAME, tag=None, n_layer=self.n_layer)
         self._emplaced = []
         self._observed = {}
 
-        super().reset(**kwargs)
-        return
+        return True
 
     def add(self, crater: MorphologyCrater, **kwargs: Any) -> MorphologyCrater:
         """
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 2c366f5..f7c9730 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -217,7 +217,7 @@ class Surface(ComponentBase):
         """
         return self._full().saved_output_files(**kwargs)
 
-    def reset(self, **kwargs: Any) -> None:
+    def reset(self, **kwargs: Any) -> bool:
         """
         Reset the surface to its initial state.
 
@@ -225,8 +225,15 @@ class Surface(ComponentBase):
         ----------
         **kwargs : Any
             |kwargs|
+
+        Returns
+        -------
+        bool
+            False if the user cancelled the operation, otherwise True.
         """
-        super().reset(**kwargs)
+        # Keep the data if the user cancels, unless this is a new dataset that has yet to be initialized
+        if not super().reset(**kwargs) and all(name in self.uxds for name in self._data_variable_init):
+            return False
 
         # Remove all old data from the dataset
         varlist = list(self.uxds.data_vars)
@@ -244,7 +251,7 @@ class Surface(ComponentBase):
             )
         self.is_new = True
 
-        return
+        return True
 
     def extract_region(
         self,
diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 5f05bdf..3e24601 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -373,7 +373,7 @@ class DataSurface(HiResLocalSurface):
 
         return points
 
-    def reset(self, **kwargs: Any) -> None:
+    def reset(self, **kwargs: Any) -> bool:
         """
         Reset the surface to its initial state.
 
@@ -383,7 +383,8 @@ class DataSurface(HiResLocalSurface):
             |kwargs|
 
         """
-        super().reset(**kwargs)
+        if not super().reset(**kwargs):
+            return False
         if self._local_dem_data is not None:
             self._add_local_dem_elevation()
             self._add_global_dem_elevation()
@@ -392,7 +393,7 @@ class DataSurface(HiResLocalSurface):
                 elevation = np.concatenate([ds.isel(interval=0).face_elevation, ds.isel(interval=0).node_elevation])
                 self.update_elevation(elevation)
 
-        return
+        return True
 
     def _regrid_if_needed(self, regrid: bool = False, **kwargs: Any) -> bool:
         """
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index 65d8122..e41f8a3 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -108,16 +108,17 @@ class HiResLocalSurface(Surface):
     def reset(
         self,
         **kwargs: Any,
-    ) -> None:
+    ) -> bool:
         """
         Resets the surface by removing all saved output files (except for the grid).
 
         This will also reset the local surface.
         """
-        super().reset(**kwargs)
+        if not super().reset(**kwargs):
+            return False
         if self._local is not None:
             self._local.reset(**kwargs)
-        return
+        return True
 
     def superdomain_function(self, r):
         """
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 353f652..446eb65 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -95,7 +95,7 @@ class CratermakerBase:
         self,
         files_to_remove: list[Path | str] | None = None,
         **kwargs: Any,
-    ) -> None:
+    ) -> bool:
         """
         Reset the component by removing its output files.
 
@@ -105,12 +105,18 @@ class CratermakerBase:
             If set, this is the list of files that will be removed. If not set, then the removed files will be determined using the component's output_dir and output_file_pattern attributes.
         **kwargs : Any
             |kwargs|
+
+        Returns
+        -------
+        bool
+            False if the user cancelled the operation, otherwise True.
         """
         if files_to_remove is None:
             files_to_remove = self.saved_output_files()
         if files_to_remove and not self._overwrite_check(files_to_remove):
             print("Reset operation cancelled by user.")
-            return
+            return False
+        return True
 
     def to_config(self, remove_common_args: bool = False, **kwargs: Any) -> dict[str, Any]:
         """
-- 
2.43.0


From a3d8ecc20be1910da6d64d671adcdc767a2c1b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 063/106] fix: an export that fails leaves the overwrite
 prompts as they were

---
 cratermaker/components/counting/__init__.py | 109 ++++++++++----------
 cratermaker/components/surface/__init__.py  |  40 +++----
 cratermaker/core/simulation.py              |  46 +++++----
 3 files changed, 100 insertions(+), 95 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 15ef554..1c2b3bb 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -545,62 +545,63 @@ class Counting(ComponentBase):
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
-        observed, emplaced = self.read_saved_output(interval=interval)
-        if crater_type == "both":
-            crater_types = ["observed", "emplaced"]
-            crater_ds_list = [observed, emplaced]
-        else:
-            crater_types = [crater_type]
-            if crater_type == "observed":
-                crater_ds_list = [observed]
-            elif crater_type == "emplaced":
-                crater_ds_list = [emplaced]
-
-        for crater_type, crater_ds in zip(crater_types, crater_ds_list, strict=True):
-            if isinstance(crater_ds, dict):
-                interval_numbers = list(crater_ds.keys())
-            elif isinstance(crater_ds, xr.Dataset) and "interval" in crater_ds.coords:
-                interval_numbers = crater_ds.interval.values
+        try:
+            observed, emplaced = self.read_saved_output(interval=interval)
+            if crater_type == "both":
+                crater_types = ["observed", "emplaced"]
+                crater_ds_list = [observed, emplaced]
             else:
-                if interval is None:
-                    interval_numbers = [0]
+                crater_types = [crater_type]
+                if crater_type == "observed":
+                    crater_ds_list = [observed]
+                elif crater_type == "emplaced":
+                    crater_ds_list = [emplaced]
+
+            for crater_type, crater_ds in zip(crater_types, crater_ds_list, strict=True):
+                if isinstance(crater_ds, dict):
+                    interval_numbers = list(crater_ds.keys())
+                elif isinstance(crater_ds, xr.Dataset) and "interval" in crater_ds.coords:
+                    interval_numbers = crater_ds.interval.values
                 else:
-                    interval_numbers = [interval]
-            for interval_number in interval_numbers:
-                craters = self.Crater.from_xarray(crater_ds, interval=interval_number) if crater_ds is not None else []
-                if driver.upper() in ["VTK", "VTP"] and crater_ds is not None:
-                    self.to_vtk_file(
-                        craters=craters,
-                        interval=interval_number,
-                        crater_type=crater_type,
-                        **kwargs,
-                    )
-                elif driver.upper() == "CSV" and crater_ds is not None:
-                    self.to_csv_file(
-                        craters=craters,
-                        interval=interval_number,
-                        crater_type=crater_type,
-                        **kwargs,
-                    )
-                elif driver.upper() == "SCC":
-                    if crater_ds is None:
-                        crater_ds = []  # Allow for empty SCC files because they can still have the region polygon
-                    self.to_scc_file(
-                        craters=craters,
-                        interval=interval_number,
-                        crater_type=crater_type,
-                        **kwargs,
-                    )
-                elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP and crater_ds is not None:
-                    self.to_vector_file(
-                        craters=craters,
-                        interval=interval_number,
-                        crater_type=crater_type,
-                        driver=driver,
-                        **kwargs,
-                    )
-
-        self.ask_overwrite = ask_overwrite_orig
+                    if interval is None:
+                        interval_numbers = [0]
+                    else:
+                        interval_numbers = [interval]
+                for interval_number in interval_numbers:
+                    craters = self.Crater.from_xarray(crater_ds, interval=interval_number) if crater_ds is not None else []
+                    if driver.upper() in ["VTK", "VTP"] and crater_ds is not None:
+                        self.to_vtk_file(
+                            craters=craters,
+                            interval=interval_number,
+                            crater_type=crater_type,
+                            **kwargs,
+                        )
+                    elif driver.upper() == "CSV" and crater_ds is not None:
+                        self.to_csv_file(
+                            craters=craters,
+                            interval=interval_number,
+                            crater_type=crater_type,
+                            **kwargs,
+                        )
+                    elif driver.upper() == "SCC":
+                        if crater_ds is None:
+                            crater_ds = []  # Allow for empty SCC files because they can still have the region polygon
+                        self.to_scc_file(
+                            craters=craters,
+                            interval=interval_number,
+                            crater_type=crater_type,
+                            **kwargs,
+                        )
+                    elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP and crater_ds is not None:
+                        self.to_vector_file(
+                            craters=craters,
+                            interval=interval_number,
+                            crater_type=crater_type,
+                            driver=driver,
+                            **kwargs,
+                        )
+        finally:
+            self.ask_overwrite = ask_overwrite_orig
         return
 
     def plot(
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index f7c9730..96f9c3c 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2813,25 +2813,27 @@ class LocalSurface(CratermakerBase):
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
-        if interval is not None:
-            self.surface.save(interval=interval, **kwargs, skip_actions=True)
-        if driver.upper() in ["VTK", "VTP"]:
-            self.to_vtk_file(
-                interval=interval,
-                **kwargs,
-            )
-        elif driver.upper() in ["GEOTIFF", "GTIFF", "TIFF", "TIF"]:
-            self.to_geotiff_file(
-                interval=interval,
-                **kwargs,
-            )
-        elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP:
-            self.to_vector_file(
-                driver=driver,
-                interval=interval,
-                **kwargs,
-            )
-        self.ask_overwrite = ask_overwrite_orig
+        try:
+            if interval is not None:
+                self.surface.save(interval=interval, **kwargs, skip_actions=True)
+            if driver.upper() in ["VTK", "VTP"]:
+                self.to_vtk_file(
+                    interval=interval,
+                    **kwargs,
+                )
+            elif driver.upper() in ["GEOTIFF", "GTIFF", "TIFF", "TIF"]:
+                self.to_geotiff_file(
+                    interval=interval,
+                    **kwargs,
+                )
+            elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP:
+                self.to_vector_file(
+                    driver=driver,
+                    interval=interval,
+                    **kwargs,
+                )
+        finally:
+            self.ask_overwrite = ask_overwrite_orig
         return
 
     def to_vector_file(
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 4270127..0d70a13 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -964,29 +964,31 @@ class Simulation(CratermakerBase):
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
-        if interval is not None and interval < 0:
-            interval = self.interval + 1 + interval
-        self.save(skip_actions=True, ask_overwrite=ask_overwrite, **kwargs)
-        if driver.lower() == "opencratertool":
-            surface_driver = "GeoTIFF"
-            counting_driver = "SCC"
-        else:
-            surface_driver = driver
-            counting_driver = driver
-        self.surface.export(
-            driver=surface_driver,
-            interval=interval,
-            ask_overwrite=ask_overwrite,
-            **kwargs,
-        )
+        try:
+            if interval is not None and interval < 0:
+                interval = self.interval + 1 + interval
+            self.save(skip_actions=True, ask_overwrite=ask_overwrite, **kwargs)
+            if driver.lower() == "opencratertool":
+                surface_driver = "GeoTIFF"
+                counting_driver = "SCC"
+            else:
+                surface_driver = driver
+                counting_driver = driver
+            self.surface.export(
+                driver=surface_driver,
+                interval=interval,
+                ask_overwrite=ask_overwrite,
+                **kwargs,
+            )
 
-        self.counting.export(
-            driver=counting_driver,
-            interval=interval,
-            ask_overwrite=ask_overwrite,
-            **kwargs,
-        )
-        self.ask_overwrite = ask_overwrite_orig
+            self.counting.export(
+                driver=counting_driver,
+                interval=interval,
+                ask_overwrite=ask_overwrite,
+                **kwargs,
+            )
+        finally:
+            self.ask_overwrite = ask_overwrite_orig
 
         return
 
-- 
2.43.0


From b7ccf7d88adc3474ebe36166c4d82227a6e73ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:58 +0000
Subject: [PATCH 064/106] fix: a reset of a simulation asks once and honours
 the answer for every component

---
 cratermaker/core/simulation.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 0d70a13..78c316d 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1395,9 +1395,6 @@ class Simulation(CratermakerBase):
         elif not isinstance(skip_component, list) or not all(isinstance(c, str) for c in skip_component):
             raise TypeError("skip_component must be a string or a list of strings")
 
-        ask_overwrite_original = (
-            self.ask_overwrite
-        )  # Saves the value of ask_overwrite in case the user selects 'a' for this operation
         if self.ask_overwrite:
             files_to_remove = []
             for component in _COMPONENT_NAMES:
@@ -1409,14 +1406,17 @@ class Simulation(CratermakerBase):
                     print(f"  {f}")
                 print("To disable this message, set `ask_overwrite=False` to this instance.")
                 response = input(f"Are you sure you want to delete {len(files_to_remove)} files? [y/N/a]: ")
-                if response.lower() == "a":
-                    self.ask_overwrite = False
-                elif response.lower() != "y":
+                if response.lower() not in ["a", "y"]:
                     raise RuntimeError("User aborted the reset operation.")
-        for component in _COMPONENT_NAMES:
-            if component not in skip_component and hasattr(self, component):
-                getattr(self, component).reset()
-        self.ask_overwrite = ask_overwrite_original
+        for component_name in _COMPONENT_NAMES:
+            if component_name not in skip_component and hasattr(self, component_name):
+                component = getattr(self, component_name)
+                ask_overwrite_original = component.ask_overwrite
+                component.ask_overwrite = False  # The user has already been asked about all of the files
+                try:
+                    component.reset()
+                finally:
+                    component.ask_overwrite = ask_overwrite_original
 
         self._interval = 0
         self._elapsed_time = None
-- 
2.43.0


From 4a3df4ab6345a8d751cfa6d8b934713640ddf74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:28 +0000
Subject: [PATCH 065/106] fix: invalid save actions raise the error that names
 the component

---
 cratermaker/core/base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 446eb65..71897a6 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -182,9 +182,9 @@ class CratermakerBase:
                         args = {**action_kwargs, **kwargs, "interval": interval}
                         action_method(**args)
                     else:
-                        raise ValueError(f"{action} is not a valid action for {self.name}")
+                        raise ValueError(f"{action} is not a valid action for {type(self).__name__}")
                 else:
-                    raise ValueError(f"{action} is not a valid action for {self.name}")
+                    raise ValueError(f"{action} is not a valid action for {type(self).__name__}")
         return
 
     def export(self, **kwargs: Any) -> None:
@@ -547,12 +547,12 @@ class CratermakerBase:
             if hasattr(self, action_name):
                 action_method = getattr(self, action_name)
                 if not callable(action_method):
-                    raise ValueError(f"{action_name} is not a valid action for {self.name}")
+                    raise ValueError(f"{action_name} is not a valid action for {type(self).__name__}")
             else:
-                raise ValueError(f"{action_name} is not a valid action for {self.name}")
+                raise ValueError(f"{action_name} is not a valid action for {type(self).__name__}")
             if not isinstance(args, dict):
                 raise TypeError(
-                    f"Arguments for action {action_name} must be a dictionary of keyword arguments to be passed to the {self.name}.{action_name}() method."
+                    f"Arguments for action {action_name} must be a dictionary of keyword arguments to be passed to the {type(self).__name__}.{action_name}() method."
                 )
         self._save_actions.append(action)
         return
@@ -582,12 +582,12 @@ class CratermakerBase:
                 if hasattr(self, action):
                     action_method = getattr(self, action)
                     if not callable(action_method):
-                        raise ValueError(f"{action} is not a valid action for {self.name}")
+                        raise ValueError(f"{action} is not a valid action for {type(self).__name__}")
                 else:
-                    raise ValueError(f"{action} is not a valid action for {self.name}")
+                    raise ValueError(f"{action} is not a valid action for {type(self).__name__}")
                 if not isinstance(args, dict):
                     raise TypeError(
-                        f"Arguments for action {action} must be a dictionary of keyword arguments to be passed to the {self.name}.{action}() method."
+                        f"Arguments for action {action} must be a dictionary of keyword arguments to be passed to the {type(self).__name__}.{action}() method."
                     )
         self._save_actions = value
 
-- 
2.43.0


From 7ff0ff5253f9b608593b2e09dc3b1dbbbfb2b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 066/106] fix: the save actions of a surface are run when it is
 saved

---
 cratermaker/components/surface/__init__.py   | 4 +++-
 cratermaker/components/surface/hireslocal.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 96f9c3c..12b1e76 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -691,12 +691,14 @@ class Surface(ComponentBase):
         **kwargs : Any
             |kwargs|
         """
-        return self._full().save(
+        self._full().save(
             interval=interval,
             time_variables=time_variables,
             filename=filename,
             **kwargs,
         )
+        super().save(interval=0 if interval is None else interval, filename=filename, **kwargs)
+        return
 
     def export(self, driver: str = "GPKG", interval: int | None = None, ask_overwrite: bool | None = None, **kwargs: Any) -> None:
         """
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index e41f8a3..a992625 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -196,7 +196,7 @@ class HiResLocalSurface(Surface):
         time_variables : dict, optional
             Dictionary containing one or more variable name and value pairs. These will be added to the dataset along the time dimension. Default is None.
         """
-        self._full().save(
+        super().save(
             interval=interval,
             time_variables=time_variables,
             **kwargs,
-- 
2.43.0


From c60290b816d6568a5580452970ab9c7546ce02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:07 +0000
Subject: [PATCH 067/106] fix: an export of an earlier interval does not
 overwrite it with the current data

---
 cratermaker/components/surface/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 12b1e76..45c768b 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2816,8 +2816,11 @@ class LocalSurface(CratermakerBase):
             self.ask_overwrite = ask_overwrite
 
         try:
-            if interval is not None:
-                self.surface.save(interval=interval, **kwargs, skip_actions=True)
+            if interval is not None and interval >= 0:
+                # Save the current data, unless it would replace that of an earlier interval, which is exported as it was saved
+                saved_intervals = self.surface.get_saved_interval_numbers()[0]
+                if not saved_intervals or interval >= saved_intervals[-1]:
+                    self.surface.save(interval=interval, **kwargs, skip_actions=True)
             if driver.upper() in ["VTK", "VTP"]:
                 self.to_vtk_file(
                     interval=interval,
-- 
2.43.0


From b5637b8f15cdc717b0308d8959483954b41e01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 068/106] fix: a GeoTIFF export asks before it replaces a file

---
 cratermaker/components/surface/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 45c768b..07e8e14 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3251,6 +3251,8 @@ class LocalSurface(CratermakerBase):
                 "nodata": np.nan,
             }
             print(f"Exporting to {output_filename}")
+            if not self._overwrite_check(output_filename):
+                return
             with rio.open(output_filename, "w", **profile) as dst:
                 dst.write(raster, 1)
             return
-- 
2.43.0


From 4301279485ff001c840d4cfba4d5498408c250d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 069/106] fix: GeoTIFF files of a whole surface and plots
 without a minimum width

---
 cratermaker/components/surface/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 07e8e14..4f85f7c 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -799,7 +799,7 @@ class Surface(ComponentBase):
         **kwargs : Any
             |kwargs|
         """
-        return self._full().to_geotiff(
+        return self._full().to_geotiff_file(
             interval=interval,
             variable_name=variable_name,
             **kwargs,
@@ -3493,8 +3493,7 @@ class LocalSurface(CratermakerBase):
         else:
             raise ValueError("plot_style must be either 'map' or 'hillshade'")
 
-        if minimum_plot_width is not None:
-            dpi = max(minimum_plot_width, W)
+        dpi = W if minimum_plot_width is None else max(minimum_plot_width, W)
 
         # Plot with (1, 1) inch figure and dpi=resolution for exact pixel size
         if ax is None:
-- 
2.43.0


From 55b4e77bb9e1e6f0025a9095554ded4a3dc0a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 070/106] fix: rasters of the variable named by the caller

---
 cratermaker/components/surface/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 4f85f7c..cb295d3 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3091,15 +3091,15 @@ class LocalSurface(CratermakerBase):
         return
 
     def to_raster(
-        self, uxda: UxDataArray | None = None, **kwargs: Any
+        self, uxda: UxDataArray | str | None = None, **kwargs: Any
     ) -> tuple[NDArray[np.float32], tuple[float, float, float, float], Any, CRS]:
         """
         Rasterize a face-based variable into a 2D raster using rasterio.
 
         Parameters
         ----------
-        uxda : UxDataArray | None
-            The UxDataArray containing the face-based variable to rasterize. If None, the method will use currently loaded data in the surface with "face_elevation" as the default variable. Default is None.
+        uxda : UxDataArray | str | None
+            The UxDataArray containing the face-based variable to rasterize, or the name of a variable of the currently loaded data. If None, the method will use currently loaded data in the surface with "face_elevation" as the default variable. Default is None.
         **kwargs : Any
             |kwargs|
 
@@ -3126,7 +3126,9 @@ class LocalSurface(CratermakerBase):
             return
 
         if uxda is None:
-            uxda = self.uxds["face_elevation"].load()
+            uxda = "face_elevation"
+        if isinstance(uxda, str):
+            uxda = self.uxds[uxda].load()
 
         W, H = self.get_raster_dims()
         if self.is_global:
-- 
2.43.0


From d67990f566202662f3042d18b124687ae5736095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 071/106] fix: an unknown plot style raises ValueError

---
 cratermaker/components/surface/__init__.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index cb295d3..c318461 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3433,11 +3433,7 @@ class LocalSurface(CratermakerBase):
             raise ValueError(f"Variable '{variable_name}' not found in the surface data.")
         if variable_name is None and plot_style == "map":
             variable_name = "face_elevation"
-        if plot_style == "hillshade":
-            if variable_name is None:
-                do_overlay = False
-            else:
-                do_overlay = True
+        do_overlay = plot_style == "hillshade" and variable_name is not None
         if close_when_done is None:
             close_when_done = save and not show
         colorbar = colorbar and (plot_style == "map" or do_overlay)
-- 
2.43.0


From 44b38cc0a9215427db666ee9afdfe57dac0f4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:46 +0000
Subject: [PATCH 072/106] fix: a plot of the counts of an earlier interval
 reads its emplaced craters

---
 cratermaker/components/counting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 1c2b3bb..0087355 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -708,7 +708,7 @@ class Counting(ComponentBase):
                     interval = observed_ds.interval.values[-1]
                     observed = self.Crater.from_xarray(observed_ds, interval=interval)
                 if emplaced is None and emplaced_ds:
-                    emplaced_interval = emplaced.interval.values[-1]
+                    emplaced_interval = emplaced_ds.interval.values[-1]
                     if emplaced_interval == interval:
                         emplaced = self.Crater.from_xarray(emplaced_ds, interval=interval)
             filename = self.plot_dir / f"{file_prefix}{interval:06d}.{self.surface.output_image_file_extension}"
-- 
2.43.0


From 4244e7a53221878abbea7e69f0dad651e5169544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 073/106] fix: a plot of the counts of an earlier interval does
 not show later craters

---
 cratermaker/components/counting/__init__.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 0087355..6f01eed 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -688,26 +688,19 @@ class Counting(ComponentBase):
         if variable_name is not None:
             file_prefix += f"_{variable_name}"
         if interval is not None:
-            observed_intervals, emplaced_intervals = self.get_saved_interval_numbers()
             # Check if we are in the current interval, otherwise we have to read data from file.
-            trigger_read = False
-            if observed_intervals is not None and (len(observed_intervals) == 0 or observed_intervals[-1] == interval):
+            saved_intervals = self.surface.get_saved_interval_numbers()[0]
+            if not saved_intervals or saved_intervals[-1] == interval:
                 observed = list(self.observed.values())
-            else:
-                observed = None
-                trigger_read = True
-            if emplaced_intervals is not None and (len(emplaced_intervals) == 0 or emplaced_intervals[-1] == interval):
                 emplaced = self.emplaced
             else:
+                observed = None
                 emplaced = None
-                trigger_read = True
-
-            if trigger_read:
                 observed_ds, emplaced_ds = self.read_saved_output(interval=interval)
-                if observed is None and observed_ds:
+                if observed_ds:
                     interval = observed_ds.interval.values[-1]
                     observed = self.Crater.from_xarray(observed_ds, interval=interval)
-                if emplaced is None and emplaced_ds:
+                if emplaced_ds:
                     emplaced_interval = emplaced_ds.interval.values[-1]
                     if emplaced_interval == interval:
                         emplaced = self.Crater.from_xarray(emplaced_ds, interval=interval)
-- 
2.43.0


From 3f79fb377fbffa3b7205c6942f2ded2aa76c71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 074/106] fix: time variables of one interval when the saved
 files differ in their variables

---
 cratermaker/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 71897a6..85a0df8 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -375,7 +375,7 @@ class CratermakerBase:
                         tda.append(extract_time_vars_from_ds(d))
                     tda = xr.concat(tda, dim="interval", coords="all", compat="override")
                 else:
-                    tda = extract_time_vars_from_ds(d, interval)
+                    tda = extract_time_vars_from_ds(ds[interval], interval) if interval in ds else xr.DataArray()
             else:
                 tda = extract_time_vars_from_ds(ds, interval)
             output_time_vars.append(tda)
-- 
2.43.0


From 0dc5056211d744f1d7777279671539ed78f9c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:32 +0000
Subject: [PATCH 075/106] fix: a plot is saved to the filename given

---
 cratermaker/components/surface/__init__.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index c318461..4bf4339 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3421,6 +3421,8 @@ class LocalSurface(CratermakerBase):
 
         if scalebar is None:
             scalebar = True
+        if filename is not None:
+            save = True
         interval_numbers = self.surface.get_saved_interval_numbers()[0]
         if interval is None or interval == interval_numbers[-1]:
             uxds = self.uxds
@@ -3561,17 +3563,14 @@ class LocalSurface(CratermakerBase):
                 cbar.set_label(label=f"{variable_long_name} [{variable_units}]")
 
             if save:
-                file_prefix = f"{self.output_file_prefix}_{plot_style}"
-                if variable_name is not None:
-                    file_prefix += f"_{variable_name}"
-                if interval is None:
-                    uxds = self.uxds
-                    filename = self.plot_dir / f"{file_prefix}.{self.output_image_file_extension}"
-                else:
-                    uxds = self.read_saved_output(interval=interval, reset=False)
-                    interval = uxds.interval.values.item()
-                    uxds = uxds.sel(interval=interval)
-                    filename = self.plot_dir / f"{file_prefix}{interval:06d}.{self.output_image_file_extension}"
+                if filename is None:
+                    file_prefix = f"{self.output_file_prefix}_{plot_style}"
+                    if variable_name is not None:
+                        file_prefix += f"_{variable_name}"
+                    if interval is None:
+                        filename = self.plot_dir / f"{file_prefix}.{self.output_image_file_extension}"
+                    else:
+                        filename = self.plot_dir / f"{file_prefix}{interval:06d}.{self.output_image_file_extension}"
 
                 plt.savefig(filename, pad_inches=0, dpi=ax.figure.get_dpi())
             if show:
-- 
2.43.0


From db47b43b28fc35d0531f0ca784506f8c8193c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:33 +0000
Subject: [PATCH 076/106] fix: Surface.plot passes on close_when_done

---
 cratermaker/components/surface/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 4bf4339..66c0788 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -911,6 +911,7 @@ class Surface(ComponentBase):
             show=show,
             save=save,
             ax=ax,
+            close_when_done=close_when_done,
             minimum_plot_width=minimum_plot_width,
             **kwargs,
         )
-- 
2.43.0


From 1301bc8a3f0506b0ebd702b7da45660bf5a1c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 077/106] fix: a high-resolution local surface is reset only
 once and keeps ask_overwrite

---
 cratermaker/components/surface/hireslocal.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index a992625..01b8711 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -82,7 +82,7 @@ class HiResLocalSurface(Surface):
                 self.set_superdomain(reset=reset, regrid=regrid, **kwargs)
             else:
                 self.superdomain_scale_factor = superdomain_scale_factor
-            self._load_from_files(reset=reset, regrid=regrid, **kwargs)
+                self._load_from_files(reset=reset, regrid=regrid, **kwargs)
 
         return
 
@@ -653,7 +653,6 @@ class HiResLocalSurface(Surface):
 
     def _load_from_files(self, reset: bool = False, **kwargs: Any):
         is_same_grid = self._is_same_grid
-        ask_overwrite = self.ask_overwrite  # Store the current value so we can temporarily turn it off for the reset
         super()._load_from_files(reset=reset, **kwargs)
         if is_same_grid and self.local_grid_indices_file is not None and Path(self.local_grid_indices_file).exists():
             with np.load(self.local_grid_indices_file) as grid_data:
@@ -672,10 +671,6 @@ class HiResLocalSurface(Surface):
                 self._set_local_identifiers()
         else:
             _ = self.local  # triggers extraction of local surface and saving of local grid indices file
-            self.ask_overwrite = False
-        if reset:
-            self.reset(reset=reset, **kwargs)
-            self.ask_overwrite = ask_overwrite  # Restore the original value of ask_overwrite after the reset
         return
 
     def compute_location_from_distance_bearing(
-- 
2.43.0


From b03f2491b54d7606f777c8d89944d49bc92bea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 078/106] fix: rasters with a geographic CRS are placed at
 their longitudes and latitudes

---
 cratermaker/components/surface/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 66c0788..a06062d 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4690,8 +4690,8 @@ class DataComposer(AbstractContextManager):
 
         pix_dist = np.full((len(self._data_list), len(lons)), np.inf)
         for n, dataset in enumerate(self._data_list):
-            to_data = Transformer.from_crs(self._localsurface.surface.crs, dataset.crs)
-            from_data = Transformer.from_crs(dataset.crs, self._localsurface.surface.crs)
+            to_data = Transformer.from_crs(self._localsurface.surface.crs, dataset.crs, always_xy=True)
+            from_data = Transformer.from_crs(dataset.crs, self._localsurface.surface.crs, always_xy=True)
 
             x_coords, y_coords = to_data.transform(lons, lats)
 
@@ -4726,7 +4726,7 @@ class DataComposer(AbstractContextManager):
 
         print("    Setting elevation data")
         for n, (dataset, data, window) in enumerate(zip(self._data_list, read_data, data_windows, strict=True)):
-            to_data = Transformer.from_crs(self._localsurface.surface.crs, dataset.crs)
+            to_data = Transformer.from_crs(self._localsurface.surface.crs, dataset.crs, always_xy=True)
             mask = global_mask & (idx == n)
 
             if "KILOMETER" in dataset.units:
-- 
2.43.0


From f2a99252c852de6d99f6fe9c79ee36055e222f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 079/106] fix: the nearest pixel decides where rasters overlap

---
 cratermaker/components/surface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index a06062d..dbb6843 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4650,12 +4650,12 @@ class DataComposer(AbstractContextManager):
             raise ValueError(f"{type(self).__name__} is already finished or cancelled.")
 
         def _orderable_distance(lon1, lat1, lon2, lat2):
-            _nnon1 = np.deg2rad(lon1)
+            lon1 = np.deg2rad(lon1)
             lat1 = np.deg2rad(lat1)
             lon2 = np.deg2rad(lon2)
             lat2 = np.deg2rad(lat2)
 
-            dlon = (lon2 - lon1 + np.pi) % (2 * np.pi)
+            dlon = (lon2 - lon1 + np.pi) % (2 * np.pi) - np.pi
             dlat = lat2 - lat1
             return np.pow(np.sin(dlat / 2), 2) + np.cos(lat1) * np.cos(lat2) * np.pow(np.sin(dlon / 2), 2)
 
-- 
2.43.0


From f58bb95e96ed074439fc88d6817c33e017ab036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 080/106] fix: a raster that does not overlap a local region is
 skipped

---
 cratermaker/components/surface/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index dbb6843..5e67955 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4702,6 +4702,11 @@ class DataComposer(AbstractContextManager):
             rows = rows[mask2]
             cols = cols[mask2]
 
+            if len(rows) == 0:  # No part of the surface lies inside this dataset
+                read_data.append(None)
+                data_windows.append(None)
+                continue
+
             if self._localsurface.is_local:
                 cmin, rmin, cmax, rmax = np.min(cols), np.min(rows), np.max(cols), np.max(rows)
                 data, window = _read(dataset, window=Window(cmin, rmin, cmax - cmin + 1, rmax - rmin + 1))
@@ -4728,6 +4733,9 @@ class DataComposer(AbstractContextManager):
         for n, (dataset, data, window) in enumerate(zip(self._data_list, read_data, data_windows, strict=True)):
             to_data = Transformer.from_crs(self._localsurface.surface.crs, dataset.crs, always_xy=True)
             mask = global_mask & (idx == n)
+            if data is None:
+                dataset.close()
+                continue
 
             if "KILOMETER" in dataset.units:
                 scale_factor = 1000.0
-- 
2.43.0


From 8052114eaf3c32626d595551c843a9fc7b69dd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 081/106] fix: adding a list of rasters does not change the
 list

---
 cratermaker/components/surface/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 5e67955..e67f081 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4627,11 +4627,11 @@ class DataComposer(AbstractContextManager):
         if not isinstance(data, list):
             data = [data]
 
-        for i, src in enumerate(data):
+        for src in data:
             if not isinstance(src, DatasetReader):
-                data[i] = rasterio.open(src)
+                src = rasterio.open(src)
 
-            self._data_list.append(data[i])
+            self._data_list.append(src)
 
     def cancel(self):
         """
-- 
2.43.0


From 2ee48ecd20ce016ccb6b6bb0197c617cdef2efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 082/106] fix: the given superdomain DEM file is used

---
 cratermaker/components/surface/datasurface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 3e24601..462004f 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -115,6 +115,7 @@ class DataSurface(HiResLocalSurface):
         self._local_location = local_location
         self._pix = pix
         self.dem_file_list = dem_file_list
+        self._superdomain_dem_file = superdomain_dem_file
         # Temporarily disable ask_overwrite to avoid prompts during initialization
         ask_overwrite = self.ask_overwrite
         self.ask_overwrite = False
@@ -132,7 +133,6 @@ class DataSurface(HiResLocalSurface):
         }
         super().__init__(**super_kwargs)
 
-        self._superdomain_dem_file = superdomain_dem_file
         self.ask_overwrite = ask_overwrite
         return
 
-- 
2.43.0


From 22e3d5580060c79aa29534dbf342c1d25e1a2466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 083/106] fix: pixels without data are recognised in DEMs in
 kilometers

---
 cratermaker/components/surface/datasurface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 462004f..ff90038 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -265,7 +265,7 @@ class DataSurface(HiResLocalSurface):
                 scale_factor = 1.0
 
             # Read the data within the window
-            elevation = src.read(1, window=window) * scale_factor
+            elevation = src.read(1, window=window)
 
             # Preserve the window grid and affine for later interpolation
             window_transform = src.window_transform(window)
@@ -281,6 +281,7 @@ class DataSurface(HiResLocalSurface):
 
             # Handle nodata values
             mask_nodata = (elevation != src.nodata) & ~np.isnan(elevation)
+            elevation = elevation * scale_factor
             mean_elevation = np.mean(elevation[mask_nodata])
             elevation[~mask_nodata] = mean_elevation
             elevation = elevation.astype(np.float32)
@@ -504,13 +505,12 @@ class DataSurface(HiResLocalSurface):
                         dtype=np.float32,
                         count=len(lons_deg),
                     )
-                    samples = samples.astype(np.float32) * scale_factor
-
                     # Replace nodata / NaN with mean of valid samples
                     if nodata is None or np.isnan(nodata):
                         valid = np.isfinite(samples)
                     else:
-                        valid = np.isfinite(samples) & (samples != nodata)
+                        valid = np.isfinite(samples) & (samples != np.float32(nodata))
+                    samples = samples * scale_factor
 
                     if np.any(valid):
                         mean_val = float(np.mean(samples[valid]))
-- 
2.43.0


From 0c40770bd3d0093f00b29949b5460990637ff3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 084/106] fix: DEMs of integers can be used as a surface

---
 cratermaker/components/surface/datasurface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index ff90038..4f3734a 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -239,7 +239,7 @@ class DataSurface(HiResLocalSurface):
         mosaic, transform = merge(
             vrt_list,
             nodata=nodata_val,
-            dtype="float32" if np.isnan(nodata_val) else None,
+            dtype="float32",
         )
 
         out_meta = src_list[0].meta.copy()
@@ -251,6 +251,7 @@ class DataSurface(HiResLocalSurface):
                 "transform": transform,
                 "crs": dst_crs,
                 "nodata": nodata_val,
+                "dtype": "float32",
             }
         )
 
-- 
2.43.0


From 822a8ae48645e2e933130dac09ed65addea80cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 085/106] fix: DEM elevations next to the antimeridian and the
 poles

---
 cratermaker/components/surface/datasurface.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 4f3734a..3c19177 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -440,10 +440,14 @@ class DataSurface(HiResLocalSurface):
 
         if self._local_dem_data is None:
             raise ValueError("Local DEM data is not available for interpolation.")
-        lonlat = np.c_[self._local_dem_data["longitudes"], self._local_dem_data["latitudes"]]
-        lut2 = LinearNDInterpolator(lonlat, self._local_dem_data["elevation"], fill_value=0.0)
-        face_elevations = lut2(np.c_[self.local.face_lon, self.local.face_lat])
-        node_elevations = lut2(np.c_[self.local.node_lon, self.local.node_lat])
+        # Interpolate in the local projection, where longitudes do not wrap around
+        def _project(longitudes, latitudes):
+            return np.column_stack(self.local.from_surface.transform(longitudes, latitudes))
+
+        xy = _project(self._local_dem_data["longitudes"], self._local_dem_data["latitudes"])
+        lut2 = LinearNDInterpolator(xy, self._local_dem_data["elevation"], fill_value=0.0)
+        face_elevations = lut2(_project(self.local.face_lon, self.local.face_lat))
+        node_elevations = lut2(_project(self.local.node_lon, self.local.node_lat))
         elevation = np.concatenate([face_elevations, node_elevations])
         self.local.update_elevation(elevation)
         self._local_dem_data = None  # Clear temporary DEM data storage
-- 
2.43.0


From f7e652dc11ebdaeaf6b39373a0592bb2a9356863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 086/106] fix: a DEM surface reopened without a reset keeps its
 elevations

---
 cratermaker/components/surface/datasurface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 3c19177..08186bd 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -394,6 +394,7 @@ class DataSurface(HiResLocalSurface):
             with xr.open_dataset(self.output_dir / self._dem_output_file) as ds:
                 elevation = np.concatenate([ds.isel(interval=0).face_elevation, ds.isel(interval=0).node_elevation])
                 self.update_elevation(elevation)
+        self.save(skip_actions=True)  # The initial surface is the one with the DEM elevations
 
         return True
 
-- 
2.43.0


From 261aceed73f8f05e4b15584f8dd2a1db0344effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 087/106] fix: a surface reset that the user declines keeps the
 saved output

---
 cratermaker/components/surface/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index e67f081..6c9fc72 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1106,6 +1106,11 @@ class Surface(ComponentBase):
         if regrid:
             self.ask_overwrite = False
 
+        # Remove the old output only if the user agrees, and otherwise keep the saved data
+        if reset and not super().reset(**kwargs):
+            reset = False
+            self.is_new = False
+
         # Read in only the last saved data file
         if interval >= 0 and not (self.output_dir / self.output_filename(interval)).exists():
             interval = -1
-- 
2.43.0


From 8f2239512700230226e6eebea004dc3b5f00a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 088/106] fix: the finest polar LOLA files can be selected

---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 6c9fc72..d65f1e5 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4933,7 +4933,7 @@ class DataComposer(AbstractContextManager):
         diffs = [abs(resolution - res) for res in valid_resolutions]
         pds_file_resolution = valid_resolutions[np.argmin(diffs)]
         pds_lat_min = valid_min_lat[np.argmin(diffs)]
-        filename = f"ldem_{pds_lat_min:d}{pole}_{pds_file_resolution:d}m"
+        filename = f"ldem_{str(pds_lat_min).replace('.', '')}{pole}_{pds_file_resolution:d}m"
         url = f"{src_url}{filename}_float.xml"
 
         return [url], pds_file_resolution
-- 
2.43.0


From 3337ef9ccb39ffcf1d2afb2a29279e40e08403ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 089/106] fix: a DEM region across the edge of its file's
 longitudes is not smeared out

---
 cratermaker/components/surface/datasurface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 08186bd..49f4f2c 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -232,6 +232,9 @@ class DataSurface(HiResLocalSurface):
                 width=dst_width,
                 height=dst_height,
                 resampling=Resampling.bilinear,
+                # Without these, GDAL smooths the DEM over a width that it takes from the extent of the source window, which is that of the entire file when the region crosses the edge of its longitude range
+                XSCALE=src.res[0] / target_res,
+                YSCALE=src.res[1] / target_res,
             )
             for src in src_list
         ]
-- 
2.43.0


From 97f0e02045ccf01fbf764b9a3139ce3268b07e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:38 +0000
Subject: [PATCH 090/106] fix: places on the edge of a DEM get its elevations

---
 cratermaker/components/surface/__init__.py    | 14 ++++++++++++--
 cratermaker/components/surface/datasurface.py |  7 +++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index d65f1e5..2585416 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4685,6 +4685,16 @@ class DataComposer(AbstractContextManager):
 
             return res, res_window
 
+        def _rowcol(dataset: DatasetReader, x_coords: NDArray, y_coords: NDArray) -> tuple[NDArray, NDArray]:
+            # Points on an edge of the dataset (e.g. the antimeridian or a pole) belong to its outermost pixels
+            left, bottom, right, top = dataset.bounds
+            xres, yres = dataset.res
+            x_coords = np.where(np.abs(x_coords - left) < 1e-6 * xres, left + xres / 2, x_coords)
+            x_coords = np.where(np.abs(x_coords - right) < 1e-6 * xres, right - xres / 2, x_coords)
+            y_coords = np.where(np.abs(y_coords - bottom) < 1e-6 * yres, bottom + yres / 2, y_coords)
+            y_coords = np.where(np.abs(y_coords - top) < 1e-6 * yres, top - yres / 2, y_coords)
+            return rowcol(dataset.transform, x_coords, y_coords)
+
         print(f"Applying {len(self._data_list)} dataset{'' if len(self._data_list) == 1 else 's'} to the mesh")
 
         lons = np.concatenate((self._localsurface.face_lon, self._localsurface.node_lon))
@@ -4701,7 +4711,7 @@ class DataComposer(AbstractContextManager):
             x_coords, y_coords = to_data.transform(lons, lats)
 
             mask1 = np.isfinite(x_coords) & np.isfinite(y_coords)
-            rows, cols = rowcol(dataset.transform, x_coords[mask1], y_coords[mask1])
+            rows, cols = _rowcol(dataset, x_coords[mask1], y_coords[mask1])
             mask2 = (cols >= 0) & (cols < dataset.width) & (rows >= 0) & (rows < dataset.height)
             mask1[mask1] = mask2
             rows = rows[mask2]
@@ -4748,7 +4758,7 @@ class DataComposer(AbstractContextManager):
                 scale_factor = 1.0
 
             x_coords, y_coords = to_data.transform(lons[mask], lats[mask])
-            rows, cols = rowcol(dataset.transform, x_coords, y_coords)
+            rows, cols = _rowcol(dataset, x_coords, y_coords)
             elevation[mask] = data[rows - window.row_off, cols - window.col_off] * scale_factor
             dataset.close()
 
diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 49f4f2c..563acaa 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -508,6 +508,13 @@ class DataSurface(HiResLocalSurface):
 
                 def _sample(lons_deg: NDArray, lats_deg: NDArray) -> NDArray:
                     xs, ys = to_dem.transform(lons_deg, lats_deg)
+                    # Points on an edge of the DEM (e.g. the antimeridian or a pole) belong to its outermost pixels
+                    left, bottom, right, top = dataset.bounds
+                    xres, yres = dataset.res
+                    xs = np.where(np.abs(xs - left) < 1e-6 * xres, left + xres / 2, xs)
+                    xs = np.where(np.abs(xs - right) < 1e-6 * xres, right - xres / 2, xs)
+                    ys = np.where(np.abs(ys - bottom) < 1e-6 * yres, bottom + yres / 2, ys)
+                    ys = np.where(np.abs(ys - top) < 1e-6 * yres, top - yres / 2, ys)
                     # rasterio.sample expects an iterable of (x, y)
                     samples = np.fromiter(
                         (v[0] for v in dataset.sample(zip(xs, ys, strict=False))),
-- 
2.43.0


From 159d054821513d38ab870ec1634fb53fa5c18bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 091/106] fix: rim measurement options apply to every crater of
 a tally

---
 cratermaker/components/counting/__init__.py   | 4 +---
 cratermaker/components/morphology/__init__.py | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 6f01eed..aaad45c 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -394,9 +394,7 @@ class Counting(ComponentBase):
             crater = self.observed[id]
             # TODO: Make the fit_rim function more reliable before turning it on by default. It is currently very slow and not reliable enough.
             if measure_rim:
-                fit_center = kwargs.pop("fit_center", False)
-                fit_ellipse = kwargs.pop("fit_ellipse", False)
-                crater = self.fit_rim(crater=crater, fit_center=fit_center, fit_ellipse=fit_ellipse, **kwargs)
+                crater = self.fit_rim(crater=crater, **kwargs)
             Kd = self.measure_degradation_state(crater, **kwargs)
             Kv = self.visibility_function(crater, **kwargs)
             if Kd >= Kv:
diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index 5d1c9e4..ebf791a 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -735,8 +735,7 @@ class Morphology(ComponentBase):
                 self._queue_manager.pop_batch(batch)
                 nacumulated += len(batch)
                 if self.do_counting and nacumulated >= tally_cadence:
-                    measure_rim = kwargs.pop("measure_rim", False)
-                    self.counting.tally(measure_rim=measure_rim, quiet=False, **kwargs)
+                    self.counting.tally(**{**kwargs, "quiet": False})
                     nacumulated = 0
 
             return
-- 
2.43.0


From 096f2ae3ddb27061309d7dfec2fae1ce66c4285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 092/106] fix: VTK export of an interval counted from the last
 one

---
 cratermaker/components/surface/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 2585416..a475316 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3073,12 +3073,9 @@ class LocalSurface(CratermakerBase):
             writer.Write()
             return
 
+        # Only the requested interval is read, so its number comes from the data (negative values count from the last one)
         uxds = self.read_saved_output(interval=interval, reset=False)
         interval_numbers = uxds.interval.values
-        if interval is not None:
-            if interval < 0:
-                interval = interval_numbers[interval]
-            interval_numbers = [interval]
 
         # Check if we need to save the geometry file
         grid_filename = self.export_dir / f"{self._grid_file_prefix}.vtp"
-- 
2.43.0


From 7e96de3c4ec1253402c12bdeee976fa13cbe25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 093/106] fix: vector exports of later intervals have no
 leftover column

---
 cratermaker/components/surface/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index a475316..3d76e11 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2880,7 +2880,8 @@ class LocalSurface(CratermakerBase):
                 gdfargs = {"engine": "geopandas", "periodic_elements": "ignore"}
 
             # Convert to GeoDataFrame and set the CRS correctly for the type of surface
-            gdf = uxds.uxgrid.to_geodataframe(**gdfargs).set_crs(self.surface.crs).to_crs(self.crs)
+            # (UxArray returns its cached GeoDataFrame, which also holds the last variable that was converted)
+            gdf = uxds.uxgrid.to_geodataframe(**gdfargs)[["geometry"]].set_crs(self.surface.crs).to_crs(self.crs)
             variables = [v for v in uxds.data_vars if any(dim == "n_face" for dim in uxds[v].dims)]
             if not variables:
                 raise ValueError("No face-based variables found to export to file.")
-- 
2.43.0


From d03f2202dd4fa0cb262ebe5301b1746c2e7a3771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 094/106] fix: ESRI Shapefile export of a surface with tagged
 craters

---
 cratermaker/components/surface/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 3d76e11..d14d501 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2886,10 +2886,6 @@ class LocalSurface(CratermakerBase):
             if not variables:
                 raise ValueError("No face-based variables found to export to file.")
 
-            # Shapefile can't store the crater id layers, so we remove variables with the pattern "idXX"
-            if driver == "ESRI Shapefile":
-                variables = [var for var in variables if not var.startswith("id")]
-
             for var in variables:
                 if len(uxds[var].dims) == 1:
                     gds = uxds[var].to_geodataframe(**gdfargs)
@@ -2900,8 +2896,17 @@ class LocalSurface(CratermakerBase):
                         gdf[f"{var}{layer:02d}"] = gds[var]
 
             # Rename columns if exporting to Shapefile to comply with field name length limits
-            if driver == "ESRI Shapefile":
-                gdf = gdf.rename(columns={col: shp_key_fix(col) for col in gdf.columns})
+            if driver.upper() == "ESRI SHAPEFILE":
+                names = {}
+                for col in gdf.columns.drop("geometry"):
+                    name = shp_key_fix(col)
+                    n = 0
+                    # Names that are the same once truncated are told apart by a number
+                    while name in names.values():
+                        n += 1
+                        name = f"{shp_key_fix(col)[: 10 - len(str(n))]}{n}"
+                    names[col] = name
+                gdf = gdf.rename(columns=names)
 
             print(f"Exporting to {filename} using driver {driver}")
             if not self._overwrite_check(filename):
@@ -2914,6 +2919,7 @@ class LocalSurface(CratermakerBase):
             ESRI Shapefile format limits field names to 10 characters, so this function substitues longer names with shorter alternatives, truncates the results, and sets them to upper case.
             """
             alt_names = {
+                "crater_id": "craterid",
                 "face_elevation": "faceelev",
                 "face_distance": "facedis",
                 "face_bearing": "facebearng",
-- 
2.43.0


From 26903ca29a149c68df9298402cde9967a21b7238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:17 +0000
Subject: [PATCH 095/106] fix: the exported outline of a region is a single
 polygon, in every format

---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index d14d501..28b0459 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3831,7 +3831,7 @@ class LocalSurface(CratermakerBase):
             )
             df = pd.DataFrame(
                 {"area": [self.area], "area_name": ["local_region"]},
-                index=[0, 1],
+                index=[0],
             )
             gdf = gpd.GeoDataFrame(data=df, geometry=geoms, crs=self.crs)
             filename = self.export_dir / f"local_surface_AREA.{file_extension}"
-- 
2.43.0


From 301fd1b2e9c3a72d6c4de0dee32031d076229ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 096/106] fix: counted fractions follow the measured outline of
 a crater

---
 cratermaker/components/counting/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index aaad45c..5c26ea0 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1446,8 +1446,10 @@ class Counting(ComponentBase):
         def overlap_fraction(crater, region_poly=None):
             if region_poly is None:
                 return 1.0
-            distance = self.surface.compute_distances(reference_location=self.surface.local_location, locations=[crater.location])
-            if distance + crater.measured_radius > self.surface.local_radius:
+            distance = self.surface.compute_distances(
+                reference_location=self.surface.local_location, locations=[crater.measured_location]
+            )
+            if distance + crater.measured_semimajor_axis > self.surface.local_radius:
                 # Compute the overlap in the local projection, because the outlines can cross the antimeridian or contain a pole
                 crater_poly = crater.to_geoseries(
                     surface=self.surface, split_antimeridian=False, use_measured_properties=True
-- 
2.43.0


From d02cc4341cfd815352be6de37f98ffaf649fbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:58 +0000
Subject: [PATCH 097/106] fix: outlines of craters close exactly and do not
 cross themselves

---
 cratermaker/components/crater/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 53d16c7..bb60344 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1224,6 +1224,7 @@ class Crater(ComponentBase):
 
         # Forward geodesic for each bearing/distance
         poly_lon, poly_lat, _ = geod.fwd(lon * np.ones_like(bearings), lat * np.ones_like(bearings), bearings, r)
+        poly_lon[-1], poly_lat[-1] = poly_lon[0], poly_lat[0]  # Close the outline exactly, as it could otherwise cross itself
 
         # Correct for potential antimeridian crossing
         if split_antimeridian and np.ptp(poly_lon) > 180.0:
-- 
2.43.0


From 275c668c1d58c816a61231f243248e9c71dfb330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:50 +0000
Subject: [PATCH 098/106] fix: what is given for one crater does not carry over
 to later ones

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index bb60344..728d27d 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import hashlib
 import math
 from dataclasses import asdict, dataclass, field, fields
@@ -995,6 +996,7 @@ class Crater(ComponentBase):
                     projectile = scaling.projectile
                 if target is None:
                     target = scaling.target
+                scaling = copy.copy(scaling)  # What is set for this crater must not carry over to those made after it
 
             kwargs = {**kwargs, **vars(argproc.common_args)}
             target = Target.maker(target, **kwargs)
-- 
2.43.0


From c1967d228edb46809aa7dcda70bf858758589f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 099/106] fix: reading the size limits of a simulation does not
 change its random sequence

---
 cratermaker/core/simulation.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 78c316d..88bf8c8 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1483,22 +1483,24 @@ class Simulation(CratermakerBase):
         ):
             raise ValueError("Must provide exactly one of either crater_diameter or projectile_diameter")
 
-        if crater_diameter is None:
-            crater_diameter = self.Crater.maker(
-                projectile_diameter=projectile_diameter,
-                angle=angle,
-                projectile_velocity=projectile_velocity,
-                **vars(self.common_args),
-            ).diameter
-            if limit == "smallest":
-                return float(max(crater_diameter, self.max_crater_diameter_range[0]))
-            elif limit == "largest":
-                return float(min(crater_diameter, self.max_crater_diameter_range[1]))
+        # An estimate must not change the random sequence of the simulation
+        rng_state = self.rng.bit_generator.state
+        try:
+            if crater_diameter is None:
+                crater_diameter = self.Crater.maker(
+                    projectile_diameter=projectile_diameter,
+                    angle=angle,
+                    projectile_velocity=projectile_velocity,
+                    **vars(self.common_args),
+                ).diameter
+                if limit == "smallest":
+                    return float(max(crater_diameter, self.max_crater_diameter_range[0]))
+                else:
+                    return float(min(crater_diameter, self.max_crater_diameter_range[1]))
 
-        if projectile_diameter is None:
             if limit == "smallest":
                 crater_diameter = max(crater_diameter, self.max_crater_diameter_range[0])
-            elif limit == "largest":
+            else:
                 crater_diameter = min(crater_diameter, self.max_crater_diameter_range[1])
             projectile_diameter = self.Crater.maker(
                 diameter=crater_diameter,
@@ -1507,6 +1509,8 @@ class Simulation(CratermakerBase):
                 **vars(self.common_args),
             ).projectile_diameter
             return float(projectile_diameter)
+        finally:
+            self.rng.bit_generator.state = rng_state
 
     @property
     def target(self) -> Target | str:
-- 
2.43.0


From d51e012d1ee956827fc2896495ae290754cc4e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:06 +0000
Subject: [PATCH 100/106] fix: projectile size limits of a simulation that
 samples craters

---
 cratermaker/core/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 88bf8c8..083deb8 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1761,7 +1761,7 @@ class Simulation(CratermakerBase):
             minval = max(value, self._get_diameter_limit("smallest", crater_diameter=self.max_crater_diameter_range[0]))
             maxval = min(self.production.diameter_range[1], self._get_diameter_limit("largest", self.max_crater_diameter_range[1]))
         elif self.production.generator_type == "crater":
-            minval = max(value, self.production.diameter_range[0])
+            minval = self._get_diameter_limit("smallest", projectile_diameter=value)
             maxval = min(self.production.diameter_range[1], self.max_crater_diameter_range[1])
         else:
             raise ValueError("Unknown Production generator_type. Expecting either 'crater' or 'projectile'")
@@ -1792,8 +1792,8 @@ class Simulation(CratermakerBase):
             )
             maxval = min(value, self._get_diameter_limit("largest", crater_diameter=self.max_crater_diameter_range[1]))
         elif self.production.generator_type == "crater":
-            minval = max(self.production.diameter_range[0], self.max_crater_diameter_range[1])
-            maxval = self._get_diameter_limit("largest", crater_diameter=value)
+            minval = max(self.production.diameter_range[0], self.max_crater_diameter_range[0])
+            maxval = self._get_diameter_limit("largest", projectile_diameter=value)
         else:
             raise ValueError("Unknown Production generator_type. Expecting either 'crater' or 'projectile'")
 
-- 
2.43.0


From b0fea412600c37f07a2c9e2a18a7deaf2fa6c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:04 +0000
Subject: [PATCH 101/106] fix: a list of two locations is a list of locations
 like any other

---
 cratermaker/utils/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index b52ab39..e7c344b 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -318,7 +318,7 @@ def validate_and_normalize_location(location):
                 validated_loc.append(validate_and_normalize_location(loc))
             return validated_loc
 
-    if isinstance(location, (tuple | list | np.ndarray)) and len(location) == 2:
+    if isinstance(location, (tuple | list | np.ndarray)) and len(location) == 2 and np.ndim(location[0]) == 0:
         return normalize_coords(location)
 
     if (
-- 
2.43.0


From 997af424870568e24ba75400c77171bc8e685d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:00 +0000
Subject: [PATCH 102/106] fix: list the attributes of a crater

---
 cratermaker/components/crater/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 728d27d..b65b117 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -512,8 +512,8 @@ class Crater(ComponentBase):
         Expose delegated attributes for autocomplete/introspection.
         """
         base = set(super().__dir__())
-        base.update(dir(self.fixed))
-        base.update(dir(self.var))
+        base.update(dir(self._fixed))
+        base.update(dir(self._var))
         return sorted(base)
 
     def __str__(self):
-- 
2.43.0


From 87efa197d1851c19337bd9ab18e9afaa683194a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:00 +0000
Subject: [PATCH 103/106] fix: craters can be copied and pickled

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index b65b117..36af46f 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -471,6 +471,8 @@ class Crater(ComponentBase):
 
         If an attribute is not found in the Crater class, it will first check the fixed fields, then the variable fields.
         """
+        if name in ("_fixed", "_var"):  # Not set yet when a crater is being copied or unpickled
+            raise AttributeError(f"{type(self).__name__} has no attribute {name!r}")
         if hasattr(self._fixed, name):
             return getattr(self._fixed, name)
         if hasattr(self._var, name):
-- 
2.43.0


From 5699c1e879f418508f927ff8cf82a67dbfac2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:25 +0000
Subject: [PATCH 104/106] fix: show the values, not the format strings, in the
 descriptions of productions and hireslocal surfaces

---
 cratermaker/components/production/__init__.py | 2 +-
 cratermaker/components/production/powerlaw.py | 4 ++--
 cratermaker/components/surface/hireslocal.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index ec527a8..40eb762 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -88,7 +88,7 @@ class Production(ComponentBase):
         str_repr += f"Diameter range: {format_large_units(self.diameter_range[0], quantity='length')} to {format_large_units(self.diameter_range[1], quantity='length')}\n"
         str_repr += f"N(D) units: {self.N_D_units}\n"
         if self.quasimc_file is not None:
-            str_repr += "Quasi-Monte Carlo file: {self.quasimc_file}\n"
+            str_repr += f"Quasi-Monte Carlo file: {self.quasimc_file}\n"
         if self.quasimc_craters is not None:
             str_repr += f"Number of quasi-Monte Carlo craters: {len(self.quasimc_craters)}\n"
         return str_repr
diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 0fa3674..bd9016c 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -81,8 +81,8 @@ class PowerLawProduction(Production):
 
     def __str__(self) -> str:
         str_repr = super().__str__()
-        str_repr += "N1 Coefficient: {self.N1_coef:.2e}\n"
-        str_repr += "Slope: {self.slope:.3f}\n"
+        str_repr += f"N1 Coefficient: {self.N1_coef:.2e}\n"
+        str_repr += f"Slope: {self.slope:.3f}\n"
         return str_repr
 
     def function(
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index 01b8711..526e3bc 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -93,7 +93,7 @@ class HiResLocalSurface(Surface):
         pix_max = format_large_units(self.pix_max, quantity="length")
         local_radius = format_large_units(self.local_radius, quantity="length")
         str_repr += (
-            f"Local pixel size: {pix}"
+            f"Local pixel size: {pix}\n"
             f"Local Radius: {local_radius}\n"
             f"Local Location: ({self.local_location[0]:.2f}°, {self.local_location[1]:.2f}°)\n"
             f"Minimum effective pixel size: {pix_min}\n"
-- 
2.43.0


From 68446a4de5ff819f3e9b180bc77f39d7d542ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:28 +0000
Subject: [PATCH 105/106] fix: measure crater rims and floors on the surface as
 it is now, not as it was when first measured

---
 cratermaker/components/surface/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 28b0459..e2ebcc1 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2071,6 +2071,7 @@ class LocalSurface(CratermakerBase):
         object.__setattr__(self, "_node_proj_x", None)
         object.__setattr__(self, "_node_proj_y", None)
         object.__setattr__(self, "_desloped_face_elevation", None)
+        object.__setattr__(self, "_desloped_from", None)
 
         self._output_dir_name = self.surface._output_dir_name
 
@@ -4562,9 +4563,14 @@ class LocalSurface(CratermakerBase):
 
     def compute_desloped_face_elevation(self):
         """Compute the face elevations with the mean slope of the region removed."""
-        if self.is_local and self._desloped_face_elevation is None:
+        if not self.is_local:
+            return
+        face_elevation = np.array(self.uxds.face_elevation.data)
+        # The surface may have changed since the slope was last removed
+        if self._desloped_face_elevation is None or not np.array_equal(face_elevation, self._desloped_from):
             reference_elevation = self.get_reference_surface(only_faces=True)
-            self._desloped_face_elevation = self.uxds.face_elevation.data - reference_elevation
+            self._desloped_face_elevation = face_elevation - reference_elevation
+            self._desloped_from = face_elevation
         return
 
     @property
-- 
2.43.0


From 47fb2b5cde1955a3562f5e977f179199682c146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:43 +0000
Subject: [PATCH 106/106] fix: describe the elapsed number density of a
 simulation in its own unit

---
 cratermaker/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 083deb8..0a870c6 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -296,7 +296,7 @@ class Simulation(CratermakerBase):
             str_repr += (
                 f"Current time : {format_large_units(self.time, quantity='time')} before present\n"
                 f"Elapsed time: {format_large_units(self.elapsed_time, quantity='time')}\n"
-                f"Elapsed N(1) : {self.elapsed_n1} # per 10⁶ km²\n"
+                f"Elapsed N(1) : {self.elapsed_n1} # {self.production.N_unit}\n"
             )
         str_repr += "\n<Components>\n"
         str_repr += (
-- 
2.43.0

