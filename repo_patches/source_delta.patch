From a00abd4eb7a4aede257b8cbc9d578d4fcc20186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 01/64] fix: re-normalise the longitude (and wrap far
 latitudes) when reflecting a location over a pole

---
 cratermaker/utils/general_utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 5eb2da0..b6b988e 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -234,26 +234,30 @@ def normalize_coords(location: tuple[FloatLike, FloatLike]) -> tuple[float, floa
     Examples
     --------
     >>> normalize_coords((370, 95))
-    (10.0, 85.0)
+    (-170.0, 85.0)
 
     >>> normalize_coords((-185, -100))
-    (-5.0, 80.0)
+    (-5.0, -80.0)
     """
     lon, lat = location
 
-    # Normalize longitude to be within [-180, 180)
-    normalized_lon = ((lon + 180) % 360) - 180
+    # Latitudes more than one reflection away are first wrapped to [-180, 180)
+    if lat > 90 or lat < -90:
+        lat = ((lat + 180) % 360) - 180
 
     # Normalize latitude
     if lat > 90:
         normalized_lat = 180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
+        lon = lon - 180  # Flip the longitude
     elif lat < -90:
         normalized_lat = -180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
+        lon = lon - 180  # Flip the longitude
     else:
         normalized_lat = lat
 
+    # Normalize longitude to be within [-180, 180)
+    normalized_lon = ((lon + 180) % 360) - 180
+
     # Ensure latitude is within the range [-90, 90] after adjustments
     normalized_lat = np.clip(normalized_lat, -90, 90)
 
@@ -291,10 +295,10 @@ def validate_and_normalize_location(location):
     Examples
     --------
     >>> validate_and_normalize_location((370, 95))
-    (10.0, 85.0))
+    (-170.0, 85.0)
 
     >>> validate_and_normalize_location({"lat": 45.0, "lon": 120.0})
-    (-120., 45.)
+    (120., 45.)
 
     >>> validate_and_normalize_location(np.array([(-120.0, 45.0)], dtype=[("lon", "f8"), ("lat", "f8")]))
     (-120., 45.)
-- 
2.43.0


From 9ca68f02a7533fd4c62e5c4070cd005d7f162c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 02/64] fix: read longitude and latitude from the fields of a
 structured location array

---
 cratermaker/utils/general_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index b6b988e..cbf51f2 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -306,11 +306,11 @@ def validate_and_normalize_location(location):
     """
     # Check if it's already a tuple
 
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lon", "lat"):
-        return normalize_coords((location[0], location[1]))
-
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lat", "lon"):
-        return normalize_coords((location[1], location[0]))
+    if isinstance(location, (np.ndarray, np.void)) and location.dtype.names in (("lon", "lat"), ("lat", "lon")):
+        validated_loc = [
+            normalize_coords(loc) for loc in zip(np.ravel(location["lon"]), np.ravel(location["lat"]), strict=True)
+        ]
+        return validated_loc[0] if len(validated_loc) == 1 else validated_loc
 
     if isinstance(location, np.ndarray) and len(location.shape) == 2 and location.shape[1] == 2:
         if location.shape[0] == 1:
-- 
2.43.0


From 00470bed1831b95e18843af8a4188511fe9be7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 03/64] fix: accept a list of exactly two (lon, lat) pairs as
 locations

---
 cratermaker/utils/general_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index cbf51f2..570dbd5 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -321,9 +321,6 @@ def validate_and_normalize_location(location):
                 validated_loc.append(validate_and_normalize_location(loc))
             return validated_loc
 
-    if isinstance(location, (tuple | list | np.ndarray)) and len(location) == 2:
-        return normalize_coords(location)
-
     if (
         isinstance(location, (tuple | list | np.ndarray))
         and isinstance(location[0], (tuple | list | np.ndarray))
@@ -337,6 +334,9 @@ def validate_and_normalize_location(location):
                 validated_loc.append(validate_and_normalize_location(loc))
             return validated_loc
 
+    if isinstance(location, (tuple | list | np.ndarray)) and len(location) == 2:
+        return normalize_coords(location)
+
     # Check if it's a dictionary with 'lon' and 'lat' keys
     if isinstance(location, dict) and "lon" in location and "lat" in location:
         return normalize_coords((location["lon"], location["lat"]))
-- 
2.43.0


From 4802c42c9bfb8e4dc7802346030dd428e1d0f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:46 +0000
Subject: [PATCH 04/64] fix: setting a smaller measured radius or diameter sets
 both measured axes

---
 cratermaker/components/crater/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 2fd5682..fdb2e37 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -235,8 +235,11 @@ class CraterVariable:
             self.measured_semimajor_axis = None
             self.measured_semiminor_axis = None
         else:
-            self.measured_semimajor_axis = value
-            self.measured_semiminor_axis = value
+            if value <= 0:
+                raise ValueError("measured_radius must be positive.")
+            # Both axes change at once: setting them one after the other would keep the larger of the old and new values
+            self._measured_semimajor_axis = float(value)
+            self._measured_semiminor_axis = float(value)
         return
 
     @property
-- 
2.43.0


From b8792792a0bb10b9280c4cbe6f91f3fffb5429a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 05/64] fix: Crater.maker honours projectile_vertical_velocity
 and projectile_mean_velocity

---
 cratermaker/components/crater/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index fdb2e37..d7b5c48 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -17,6 +17,7 @@ from vtk import vtkPolyData
 from cratermaker.constants import _VBIG, PairOfFloats
 from cratermaker.core.base import ComponentBase, CratermakerBase, import_components
 from cratermaker.utils.general_utils import format_large_units, validate_and_normalize_location
+from cratermaker.utils.montecarlo_utils import get_random_velocity
 
 if TYPE_CHECKING:
     from cratermaker.components.projectile import Projectile
@@ -929,6 +930,15 @@ class Crater(ComponentBase):
                 if field in args and args[field] is None or field not in args:
                     args[field] = old_parameters[field]
 
+        # Infer the missing velocity component when the vertical velocity is one of the inputs
+        if projectile_vertical_velocity is not None:
+            if args["projectile_velocity"] is None and args["projectile_angle"] is not None:
+                args["projectile_velocity"] = projectile_vertical_velocity / math.sin(math.radians(args["projectile_angle"]))
+            elif args["projectile_angle"] is None and args["projectile_velocity"] is not None:
+                if projectile_vertical_velocity > args["projectile_velocity"]:
+                    raise ValueError("projectile_vertical_velocity cannot be larger than projectile_velocity.")
+                args["projectile_angle"] = math.degrees(math.asin(projectile_vertical_velocity / args["projectile_velocity"]))
+
         if n_size_inputs != 1:
             if check_redundant_inputs:
                 raise ValueError(f"Exactly one of {', '.join(k for k, v in size_inputs.items() if v is not None)} must be set.")
@@ -983,6 +993,11 @@ class Crater(ComponentBase):
             kwargs = {**kwargs, **vars(argproc.common_args)}
             target = Target.maker(target, **kwargs)
 
+            if projectile_mean_velocity is not None and args["projectile_velocity"] is None:
+                args["projectile_velocity"] = float(
+                    get_random_velocity(vmean=projectile_mean_velocity, vescape=target.escape_velocity, rng=argproc.rng)[0]
+                )
+
             projectile_args = {
                 "velocity": args["projectile_velocity"],
                 "mass": args["projectile_mass"],
-- 
2.43.0


From 572effdf53505b356180c1511cfbac7b02ce0b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:24 +0000
Subject: [PATCH 06/64] fix: rng_state takes precedence over rng_seed when both
 are given

---
 cratermaker/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 2b561b7..74bab87 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -941,7 +941,7 @@ def _rng_init(
         if not isinstance(rng, Generator):
             raise ValueError("rng must be a numpy.random.Generator instance.")
     else:
-        if rng_seed is None:
+        if rng_seed is None or rng_state is not None:
             rng = np.random.default_rng()
         if rng_state is not None:
             if not isinstance(rng_state, dict):
-- 
2.43.0


From 4f06d146bb54f5e18ca9f227c727439b7c334957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:58 +0000
Subject: [PATCH 07/64] fix: a size draw that rounds to the top of the
 cumulative distribution no longer indexes past its end

---
 cratermaker/utils/montecarlo_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/utils/montecarlo_utils.py b/cratermaker/utils/montecarlo_utils.py
index 1328314..e3a416b 100644
--- a/cratermaker/utils/montecarlo_utils.py
+++ b/cratermaker/utils/montecarlo_utils.py
@@ -337,8 +337,8 @@ def get_random_size(
 
     # Find the indices where the random numbers would be inserted to maintain order
     # Use the right side of the interval to avoid edge effects for when u == sorted_cdf[0]
-    # Because rng.uniform returns values in the half-open interval [sorted_cdf[0], sorted_cdf[-1]), u will never be exactly equal to sorted_cdf[-1]
-    indices = np.searchsorted(log_sorted_cdf, u, side="right")
+    # rng.uniform returns values in the half-open interval [sorted_cdf[0], sorted_cdf[-1]), but u can still round to sorted_cdf[-1]
+    indices = np.minimum(np.searchsorted(log_sorted_cdf, u, side="right"), len(log_sorted_cdf) - 1)
 
     # Initialize the new_diameters array
     new_diameters = np.empty(u.shape)
-- 
2.43.0


From cadfb803cd68c400e6917a4adc22df4e5a71e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:35 +0000
Subject: [PATCH 08/64] fix: Scaling.maker keeps the density of the requested
 material and the projectile population of the requested target

---
 cratermaker/components/scaling/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cratermaker/components/scaling/__init__.py b/cratermaker/components/scaling/__init__.py
index 4ee2d82..6c388ee 100644
--- a/cratermaker/components/scaling/__init__.py
+++ b/cratermaker/components/scaling/__init__.py
@@ -104,6 +104,7 @@ class Scaling(ComponentBase):
         """
         if scaling is None:
             scaling = "montecarlo"
+        is_existing = isinstance(scaling, Scaling)
         scaling = super().maker(
             component=scaling,
             target=target,
@@ -113,10 +114,12 @@ class Scaling(ComponentBase):
             rng_state=rng_state,
             **kwargs,
         )
-        if projectile is not None:
-            scaling.projectile = projectile
-        if target is not None:
-            scaling.target = target
+        # A new scaling model has already made its target and projectile from these arguments
+        if is_existing:
+            if projectile is not None:
+                scaling.projectile = projectile
+            if target is not None:
+                scaling.target = target
 
         return scaling
 
@@ -158,7 +161,7 @@ class Scaling(ComponentBase):
     def projectile(self, value):
         from cratermaker.components.projectile import Projectile
 
-        self._projectile = Projectile.maker(value, **vars(self.common_args))
+        self._projectile = Projectile.maker(value, target=self.target, **vars(self.common_args))
         return
 
     @property
-- 
2.43.0


From b6cd6f77236d0fa966668ee0c1e5ef502023813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 09/64] fix: the scaling model no longer replaces an explicitly
 given target density by that of the target's material

---
 cratermaker/components/scaling/montecarlo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index e31b463..852f6a9 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -107,6 +107,8 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_material_catalogue", None)
         object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
 
+        # Unless a material is requested, the density of the target must survive looking up its material properties
+        target_density = self.target.density if material is None else None
         if material is None:
             self.material = self.target.material
         else:
@@ -123,6 +125,8 @@ class MonteCarloScaling(Scaling):
         )
         if density is not None:
             self.target.density = density
+        elif target_density is not None:
+            self.target.density = target_density
         elif self.target.density is None:
             self.target.density = self.material_catalogue[self.material]["density"]
         if self.projectile.density is None:
-- 
2.43.0


From 7435b97553b925b352e1e9c406db540fe79b4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:33 +0000
Subject: [PATCH 10/64] =?UTF-8?q?fix:=20convert=20N(D)=20given=20to=20samp?=
 =?UTF-8?q?le=20and=20quasimc=5Fmerge=20into=20craters=20per=20m=C2=B2=20b?=
 =?UTF-8?q?y=20dividing=20by=20N=5Fconversion=5Ffactor?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index b8ae8bc..1915635 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -666,14 +666,14 @@ class Production(ComponentBase):
             if time_start is not None:
                 raise ValueError("Cannot provide both N_D and time_start")
             time_start = self.age_from_D_N(
-                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] * self.N_conversion_factor
+                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] / self.N_conversion_factor
             )
 
         if N_D_end is not None:
             if time_end is not None:
                 raise ValueError("Cannot provide both N_D_end and time_end")
             time_end = self.age_from_D_N(
-                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] * self.N_conversion_factor
+                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] / self.N_conversion_factor
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-- 
2.43.0


From af6d3e1a4414911684fcc32385a9ff75d3e98875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:33 +0000
Subject: [PATCH 11/64] fix: apply D_conversion_factor to the diameters of
 quasi-Monte Carlo production data

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 1915635..40597ce 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -996,7 +996,7 @@ class Production(ComponentBase):
             elif crater.production_ND is not None and crater.production_ND != [None, None, None]:
                 # N(D) values take precedence over time values
                 prod_diam, nmean, nsig = crater.production_ND
-                prod_diam *= 1e3
+                prod_diam *= self.D_conversion_factor
                 nmean /= self.N_conversion_factor
                 nsig /= self.N_conversion_factor
                 # Convert from N(prod_diam) to N(1) for alignment
@@ -1080,7 +1080,7 @@ class Production(ComponentBase):
                     crater = valid_craters[i]
                     if crater.production_ND is not None and crater.production_ND != [None, None, None]:
                         prod_diam, nmean, nstdev = crater.production_ND
-                        prod_diam *= 1e3
+                        prod_diam *= self.D_conversion_factor
                         nmean /= self.N_conversion_factor
                         nstdev /= self.N_conversion_factor
                         # Convert from N(prod_diam) to N(1) for alignment
-- 
2.43.0


From 41fe2389c9a7350e00ab74114d90a2b096aa347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:33 +0000
Subject: [PATCH 12/64] fix: sample falls back to the production's own
 diameter_range when none is given

---
 cratermaker/components/production/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 40597ce..f75de14 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -677,7 +677,9 @@ class Production(ComponentBase):
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-        diameter_range = kwargs.pop("diameter_range", self.diameter_range)
+        diameter_range = kwargs.pop("diameter_range", None)
+        if diameter_range is None:
+            diameter_range = self.diameter_range
         area = kwargs.get("area")
         compute_time = kwargs.get("compute_time", True)
 
-- 
2.43.0


From 3e65023ccefb9d1dd4079fd8d23da0f1ce015a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:34 +0000
Subject: [PATCH 13/64] fix: a drawn quasi-Monte Carlo crater time is never in
 the future

---
 cratermaker/components/production/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index f75de14..2c1ffec 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1025,8 +1025,7 @@ class Production(ComponentBase):
                     t = self.rng.normal(loc=tmean, scale=tsig) if tsig > 0 else tmean
                 if isinstance(t, np.ndarray):
                     t = t.item()
-                max(t, 0.0)
-                return float(t)
+                return float(max(t, 0.0))
             else:
                 return None
 
-- 
2.43.0


From 3af0a5af8d06bfd76780ff04e58f240891845221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:34 +0000
Subject: [PATCH 14/64] fix: crater ages are drawn in proportion to the craters
 produced, not to the cumulative number

---
 cratermaker/components/production/__init__.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 2c1ffec..e9d248e 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -317,21 +317,16 @@ class Production(ComponentBase):
         # Normalize the weights for each diameter
         if N_vs_age.ndim > 1:
             N_vs_age -= np.min(N_vs_age, axis=1)[:, None]  # Subtract the min along age dimension
-            N_vs_age = N_vs_age[:, :-1]  # Remove the last value to avoid the cumulative sum reaching 1
-            weights_sum = np.sum(N_vs_age, axis=1)[:, None]  # Sum of weights for each diameter
-            weights = N_vs_age / weights_sum  # Normalize weights for each diameter
 
-            # Compute the CDF for each diameter
-            cdf = np.cumsum(weights, axis=1)
+            # The number produced since the end of the interval, relative to the total, is the CDF for each diameter.
+            # Remove the last value to avoid the CDF reaching 1
+            cdf = (N_vs_age / N_vs_age[:, -1:])[:, :-1]
 
         else:
             if len(N_vs_age) > 0:
                 N_vs_age -= np.min(N_vs_age)  # Subtract the min along age dimension
-                N_vs_age = N_vs_age[:-1]  # Remove the last value to avoid the cumulative sum reaching 1
-                weights_sum = np.sum(N_vs_age)  # Sum of weights for each diameter
-                weights = N_vs_age / weights_sum  # Normalize weights for each diameter
-                # Compute the CDF for each diameter
-                cdf = np.cumsum(weights)
+                # Remove the last value to avoid the CDF reaching 1
+                cdf = (N_vs_age / N_vs_age[-1])[:-1]
             else:
                 cdf = np.empty(0)
 
-- 
2.43.0


From 5d5aef3baebd30bdce8060cd5d2a95ad9d7485a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:34 +0000
Subject: [PATCH 15/64] fix: the chronology of the power law production
 function depends on the time interval

---
 cratermaker/components/production/powerlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 67b671f..e215102 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -176,7 +176,7 @@ class PowerLawProduction(Production):
                 else:
                     time_end = np.zeros_like(time_start)
 
-        N1km = self.csfd(1000.0, time_start=time_start, time_end=time_start, validate_inputs=False)
+        N1km = self.csfd(1000.0) * np.asarray(time_start - time_end)
 
         return N1km
 
-- 
2.43.0


From c8286ded898eb17a272c3018cb966cbfa25abd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:34 +0000
Subject: [PATCH 16/64] fix: N(1 km) of the Neukum crater production functions
 equals their chronology function

---
 cratermaker/components/production/neukum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/neukum.py b/cratermaker/components/production/neukum.py
index 5c29c32..2e605b9 100644
--- a/cratermaker/components/production/neukum.py
+++ b/cratermaker/components/production/neukum.py
@@ -514,6 +514,7 @@ class NeukumProduction(Production):
                 R_to_CSFD(R=_CSFD, D=Dkm) * 2.94e-5
             )  # This is a multiplication factor that gets the projectile CSFD to approximately match the lunar crater CSFD
         else:
-            Ncumulative = _CSFD(Dkm)
+            # The chronology function gives the number of 1 km craters, so this is the number relative to 1 km
+            Ncumulative = _CSFD(Dkm) * 1e-3 / self.Clin
 
-        return Ncumulative * 1e3  # convert from Gy^-1 km^-2 to My^-1 m^-2
+        return Ncumulative * 1e3
-- 
2.43.0


From b5a19bb920f6771660146df48c3412273dc4c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 17/64] fix: Production.maker follows the target when no model
 is named and accepts the version in any case

---
 cratermaker/components/production/__init__.py | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index e9d248e..6cea4bb 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -160,20 +160,22 @@ class Production(ComponentBase):
             production = production.lower()
             if production == "neukum":
                 set_version = True
-            if set_version:
-                version = kwargs.pop("version", None)
-                if target is None and version is not None and version in ["Moon", "Mars"]:
-                    target = version
-                target = Target.maker(target, **kwargs)
-                if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
-                    production = "neukum"
-                    if version is None or version != "projectile":
-                        if target.name in ["Moon", "Mars"]:
-                            version = target.name
-                        else:
-                            version = "projectile"
-                else:
-                    production = "powerlaw"
+        if set_version:
+            version = kwargs.pop("version", None)
+            if isinstance(version, str):
+                version = version.title()
+            if target is None and version is not None and version in ["Moon", "Mars"]:
+                target = version
+            target = Target.maker(target, **kwargs)
+            if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
+                production = "neukum"
+                if version is None or version != "Projectile":
+                    if target.name in ["Moon", "Mars"]:
+                        version = target.name
+                    else:
+                        version = "Projectile"
+            else:
+                production = "powerlaw"
 
         return super().maker(
             component=production,
-- 
2.43.0


From 1e55f8e1c3d3d25e488c6184148bf5cf1968abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:32 +0000
Subject: [PATCH 18/64] fix: a diameter_number_end at another diameter than
 diameter_number is converted to its age

---
 cratermaker/components/production/__init__.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 6cea4bb..b8fd12b 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -737,6 +737,8 @@ class Production(ComponentBase):
                 diameter_number_end[0],
                 diameter_number_end[1] / area,
             )
+            if time_end is None:
+                time_end = self.age_from_D_N(*diameter_number_density_end)
             # Check to be sure that the diameter in the diameter_number_end is the same as diameter_number.
             # If not, we need to adjust the end diameter value it so that they match
             if diameter_number is not None:
@@ -750,14 +752,6 @@ class Production(ComponentBase):
                         diameter_number_density_end[1] * area,
                     )
 
-        if time_end is None:
-            diameter_number_end = self._validate_csfd(*diameter_number_end)
-            diameter_number_density_end = (
-                diameter_number_end[0],
-                diameter_number_end[1] / area,
-            )
-            time_end = self.age_from_D_N(*diameter_number_density_end)
-
         time_start, time_end = self._validate_age(time_start, time_end)
 
         if diameter_number_end is None:
-- 
2.43.0


From 78450f21715242199e9e0b7c4d059249b81b2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:09 +0000
Subject: [PATCH 19/64] fix: sizes drawn from a flat part of a size
 distribution are not NaN

---
 cratermaker/utils/montecarlo_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/utils/montecarlo_utils.py b/cratermaker/utils/montecarlo_utils.py
index e3a416b..c117d92 100644
--- a/cratermaker/utils/montecarlo_utils.py
+++ b/cratermaker/utils/montecarlo_utils.py
@@ -348,7 +348,10 @@ def get_random_size(
     log_nval_low = log_sorted_cdf[indices - 1]
     log_nval_high = log_sorted_cdf[indices]
 
-    fractions = (u - log_nval_low) / (log_nval_high - log_nval_low)
+    # Where the cumulative distribution is flat, the interpolation is undefined
+    log_nval_range = log_nval_high - log_nval_low
+    is_flat = log_nval_range == 0.0
+    fractions = np.where(is_flat, 0.0, (u - log_nval_low) / np.where(is_flat, 1.0, log_nval_range))
     log_diam_interp = log_diam_low + fractions * (log_diam_high - log_diam_low)
     new_diameters = np.exp(log_diam_interp)
 
-- 
2.43.0


From ac9012d8a17c6b33181ec1bb9528ff1055e11e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:33 +0000
Subject: [PATCH 20/64] fix: a quasi-Monte Carlo sequence confined to the
 present no longer divides by zero

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index b8fd12b..46fa46b 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -961,13 +961,13 @@ class Production(ComponentBase):
                 seq_nlo = max(seq_nlo, 0.0)
                 seq_nmean = (seq_nlo + seq_nhi) / 2
                 seq_nsig = (seq_nhi - seq_nlo) / 2
-                if seq_nsig / seq_nmean < 1e-12:  # Prevents an error when the bounds are too tight
+                if seq_nsig <= 1e-12 * seq_nmean:  # Prevents an error when the bounds are too tight
                     seq_nsig = 0.0
                 seq_tlo = self.age_from_D_N(diameter=_DSTD, cumulative_number_density=seq_nlo)
                 seq_thi = self.age_from_D_N(diameter=_DSTD, cumulative_number_density=seq_nhi)
                 seq_tmean = (seq_tlo + seq_thi) / 2
                 seq_tsig = (seq_thi - seq_tlo) / 2
-                if seq_tsig / seq_tmean < 1e-12:  # Prevents an error when the bounds are too tight
+                if seq_tsig <= 1e-12 * seq_tmean:  # Prevents an error when the bounds are too tight
                     seq_tsig = 0.0
             else:
                 s = None
-- 
2.43.0


From ffc8fd4ced8adf1e074f7d0251045ea75bec1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:00 +0000
Subject: [PATCH 21/64] fix: run accepts N_D together with time_interval

---
 cratermaker/core/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index cf34545..491a6f4 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -411,6 +411,8 @@ class Simulation(CratermakerBase):
         kwargs["ninterval"] = ninterval
         kwargs["time_interval"] = time_interval
         kwargs = self.production._validate_sample_args(**kwargs)
+        time_start = kwargs["time_start"]
+        time_end = kwargs["time_end"]
 
         if is_time_interval:
             if time_interval is None:
-- 
2.43.0


From 6920ad9747a96ab12d0a2d66912d0c61109035cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:00 +0000
Subject: [PATCH 22/64] fix: elapsed_time counts the time simulated when
 time_interval does not divide the duration

---
 cratermaker/core/simulation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 491a6f4..5c10242 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -631,8 +631,7 @@ class Simulation(CratermakerBase):
                         current_time_end = 0.0
                     if current_time_end < 0.0:
                         current_time_end = 0.0
-                    time_interval = time - current_time_end
-                self.elapsed_time += time_interval
+                self.elapsed_time += time - current_time_end
                 self.elapsed_n1 += (
                     self.production.function(
                         diameter=_DSTD,
-- 
2.43.0


From 6cd63c4c1aaa776f185512a9dcfbbc06f8c2f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:00 +0000
Subject: [PATCH 23/64] fix: the last of several equal number intervals never
 ends below the requested number

---
 cratermaker/core/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 5c10242..5337a4d 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -532,6 +532,7 @@ class Simulation(CratermakerBase):
         time_end = arguments.pop("time_end", None)
         time_interval = arguments.pop("time_interval", None)
         diameter_number = arguments.pop("diameter_number", None)
+        diameter_number_end = arguments.pop("diameter_number_end", None)
         diameter_number_interval = arguments.pop("diameter_number_interval", None)
         ninterval = arguments.pop("ninterval", None)
         is_time_interval = arguments.pop("is_time_interval", None)
@@ -605,7 +606,7 @@ class Simulation(CratermakerBase):
                     )
                     current_diameter_number_end = (
                         diameter_number[0],
-                        diameter_number[1] - (i + 1) * diameter_number_interval[1],
+                        max(diameter_number[1] - (i + 1) * diameter_number_interval[1], diameter_number_end[1]),
                     )
                     self.populate(
                         diameter_number=current_diameter_number,
-- 
2.43.0


From 83eacc1b063ce8476417b8e2c68fc9aa4c49bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:00 +0000
Subject: [PATCH 24/64] fix: a continued run starts at the current time instead
 of repeating part of the interval it is in

---
 cratermaker/core/simulation.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 5337a4d..5ff7854 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -22,6 +22,9 @@ from cratermaker.constants import _COMPONENT_NAMES, _CONFIG_FILE_NAME, _DSTD, Fl
 from cratermaker.core.base import CratermakerBase, _convert_for_yaml
 from cratermaker.utils.general_utils import _set_properties, format_large_units, parameter
 
+# Fraction of an interval below which two interval boundaries are considered to be the same, to absorb rounding errors.
+_INTERVAL_TOL = 1e-9
+
 
 class Simulation(CratermakerBase):
     """
@@ -424,7 +427,7 @@ class Simulation(CratermakerBase):
                     raise ValueError("time_interval must be less than age or time_start - time_end")
                 elif time_interval <= 0:
                     raise ValueError("time_interval must be greater than zero")
-                ninterval = int(np.ceil((time_start - time_end) / time_interval))
+                ninterval = int(np.ceil((time_start - time_end) / time_interval - _INTERVAL_TOL))
 
             kwargs["time_interval"] = time_interval
             kwargs["ninterval"] = ninterval
@@ -559,7 +562,7 @@ class Simulation(CratermakerBase):
                 "Starting time cannot be later than the current time. Choose a starting time value equal to or larger than the current time, or reset this simulation."
             )
         if is_time_interval:
-            initial_interval = int((time_start - self.time) / time_interval)
+            initial_interval = int(np.floor((time_start - self.time) / time_interval + _INTERVAL_TOL))
         else:
             delta_n1_start = self.production.function(
                 diameter=_DSTD,
@@ -576,7 +579,9 @@ class Simulation(CratermakerBase):
                 ).item()
                 / ninterval
             )
-            initial_interval = int(delta_n1_start / n1_interval)
+            initial_interval = int(np.floor(delta_n1_start / n1_interval + _INTERVAL_TOL))
+        if self.time <= time_end:
+            initial_interval = ninterval
 
         if self.is_new:
             self.save(**kwargs)
@@ -591,9 +596,9 @@ class Simulation(CratermakerBase):
             for i in range(initial_interval, ninterval):
                 self.counting._emplaced = []
                 if is_time_interval:
-                    time = time_start - i * time_interval
+                    time = min(time_start - i * time_interval, self.time)
                     current_time_end = time_start - (i + 1) * time_interval
-                    if current_time_end < time_end:
+                    if current_time_end < time_end or i == ninterval - 1:
                         current_time_end = time_end
                     time_str = format_large_units(time, quantity="time")
                     elapsed_str = format_large_units(self.elapsed_time, quantity="time")
@@ -604,6 +609,16 @@ class Simulation(CratermakerBase):
                         diameter_number[0],
                         diameter_number[1] - i * diameter_number_interval[1],
                     )
+                    if i == initial_interval:
+                        number_at_current_time = self.surface.area * float(
+                            self.production.function(
+                                diameter=diameter_number[0], time_start=self.time, validate_inputs=validate_inputs
+                            )
+                        )
+                        current_diameter_number = (
+                            diameter_number[0],
+                            min(current_diameter_number[1], number_at_current_time),
+                        )
                     current_diameter_number_end = (
                         diameter_number[0],
                         max(diameter_number[1] - (i + 1) * diameter_number_interval[1], diameter_number_end[1]),
-- 
2.43.0


From b393a5b67af10e9bf35c341ea54c47fe69a24352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 25/64] fix: faces of equal area, or of areas in a ratio of a
 power of two, can be binned

---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 6ef1cae..96bafd6 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1627,7 +1627,7 @@ class Surface(ComponentBase):
         """
         min_area = self.face_area.min()
         max_area = self.face_area.max()
-        max_bin_index = np.ceil(np.log2(max_area / min_area)).astype(int)
+        max_bin_index = np.floor(np.log2(max_area / min_area)).astype(int) + 1
         bins = [[] for _ in range(max_bin_index)]
 
         for face_index, area in enumerate(self.face_area):
-- 
2.43.0


From 3e647cb4244593f7ae72f40d5e6b131143bd0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:11 +0000
Subject: [PATCH 26/64] fix: size limits are computed for the impact angle they
 name instead of a random one

---
 cratermaker/components/surface/hireslocal.py | 2 +-
 cratermaker/core/simulation.py               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index d49a930..433aa10 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -466,7 +466,7 @@ class HiResLocalSurface(Surface):
             ):
                 crater = morphology.Crater.maker(
                     diameter=diameter,
-                    angle=90.0,
+                    projectile_angle=90.0,
                     projectile_velocity=projectile_velocity,
                 )
                 rmax = morphology.rmax(crater=crater, minimum_thickness=1e-3)
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 5ff7854..7023bf2 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1447,7 +1447,7 @@ class Simulation(CratermakerBase):
         if crater_diameter is None:
             crater_diameter = self.Crater.maker(
                 projectile_diameter=projectile_diameter,
-                angle=angle,
+                projectile_angle=angle,
                 projectile_velocity=projectile_velocity,
                 **vars(self.common_args),
             ).diameter
@@ -1463,7 +1463,7 @@ class Simulation(CratermakerBase):
                 crater_diameter = min(crater_diameter, self.max_crater_diameter_range[1])
             projectile_diameter = self.Crater.maker(
                 diameter=crater_diameter,
-                angle=angle,
+                projectile_angle=angle,
                 projectile_velocity=projectile_velocity,
                 **vars(self.common_args),
             ).projectile_diameter
-- 
2.43.0


From 962d8fc72a46a5bd7416937c3ae81d8745d22fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:11 +0000
Subject: [PATCH 27/64] fix: the projectile limits of a crater-based production
 are converted to craters

---
 cratermaker/core/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 7023bf2..c5b202b 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1718,7 +1718,7 @@ class Simulation(CratermakerBase):
             minval = max(value, self._get_diameter_limit("smallest", crater_diameter=self.max_crater_diameter_range[0]))
             maxval = min(self.production.diameter_range[1], self._get_diameter_limit("largest", self.max_crater_diameter_range[1]))
         elif self.production.generator_type == "crater":
-            minval = max(value, self.production.diameter_range[0])
+            minval = self._get_diameter_limit("smallest", projectile_diameter=value)
             maxval = min(self.production.diameter_range[1], self.max_crater_diameter_range[1])
         else:
             raise ValueError("Unknown Production generator_type. Expecting either 'crater' or 'projectile'")
@@ -1749,8 +1749,8 @@ class Simulation(CratermakerBase):
             )
             maxval = min(value, self._get_diameter_limit("largest", crater_diameter=self.max_crater_diameter_range[1]))
         elif self.production.generator_type == "crater":
-            minval = max(self.production.diameter_range[0], self.max_crater_diameter_range[1])
-            maxval = self._get_diameter_limit("largest", crater_diameter=value)
+            minval = max(self.production.diameter_range[0], self.max_crater_diameter_range[0])
+            maxval = self._get_diameter_limit("largest", projectile_diameter=value)
         else:
             raise ValueError("Unknown Production generator_type. Expecting either 'crater' or 'projectile'")
 
-- 
2.43.0


From 0aadf2729c602153fe1991532085aa952ecb7ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:11 +0000
Subject: [PATCH 28/64] fix: quasi-Monte Carlo craters given after a run
 started are not ignored

---
 cratermaker/core/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index c5b202b..1763c15 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1881,7 +1881,7 @@ class Simulation(CratermakerBase):
             True if quasi-Monte Carlo sampling is being used, False otherwise.
         """
         if self._do_quasimc is None:
-            self._do_quasimc = (
+            return (
                 len(self.production.quasimc_craters) > 0
                 if self.production is not None and self.production.quasimc_craters is not None
                 else False
@@ -1890,7 +1890,7 @@ class Simulation(CratermakerBase):
 
     @do_quasimc.setter
     def do_quasimc(self, value: bool | None):
-        if not isinstance(value, (bool, None)):
+        if not isinstance(value, (bool, type(None))):
             raise TypeError("do_quasimc must be a boolean value or None")
         self._do_quasimc = value
 
-- 
2.43.0


From c0a58962bd746b6e6b3d217266cb23d4f8f3bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 29/64] fix: settings given before the base class is
 initialised (ejecta truncation, rays, production version) are saved in the
 configuration

---
 cratermaker/core/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 74bab87..5a210c9 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -68,7 +68,8 @@ class CratermakerBase:
         ask_overwrite: bool | None = None,
         **kwargs,
     ):
-        object.__setattr__(self, "_user_defined", set())
+        if "_user_defined" not in vars(self):  # a subclass may have set parameters already
+            object.__setattr__(self, "_user_defined", set())
         object.__setattr__(self, "_rng", None)
         object.__setattr__(self, "_rng_seed", None)
         object.__setattr__(self, "_rng_state", None)
-- 
2.43.0


From 11b9e63310f6ecea2292f0d0293b3ac2fb305754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 30/64] fix: the mass and transition type of a target are saved
 in the configuration

---
 cratermaker/components/target/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index 6011b59..d6e8163 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -270,7 +270,7 @@ class Target(ComponentBase):
         if self.radius is not None:
             return 2 * np.pi * self.radius
 
-    @property
+    @parameter
     def mass(self) -> float | None:
         """The mass of the target body in kilograms."""
         return self._mass
@@ -350,7 +350,7 @@ class Target(ComponentBase):
         """The key used to identify the property used as the key in a catalogue."""
         return "name"
 
-    @property
+    @parameter
     def transition_scale_type(self):
         """The type of simple-to-complex transition scaling used for the surface, either 'silicate' or 'ice'."""
         return self._transition_scale_type
-- 
2.43.0


From 9e4afae3c92c0ddbe76e60d9d8fd61bf73bdf1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 31/64] fix: the slope and coefficient of a power law
 production are saved in the configuration

---
 cratermaker/components/production/powerlaw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index e215102..0d82831 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -7,6 +7,7 @@ from numpy.typing import ArrayLike, NDArray
 
 from cratermaker.components.production import Production
 from cratermaker.constants import FloatLike
+from cratermaker.utils.general_utils import parameter
 
 
 @Production.register("powerlaw")
@@ -196,7 +197,7 @@ class PowerLawProduction(Production):
         """
         return self.N1_coef * diameter**self.slope
 
-    @property
+    @parameter
     def N1_coef(self):
         """The N1 coefficient of the power law production function."""
         return self._N1_coef
@@ -209,7 +210,7 @@ class PowerLawProduction(Production):
             raise ValueError("N1_coef must be positive")
         self._N1_coef = value
 
-    @property
+    @parameter
     def slope(self):
         """The slope of the power law production function."""
         return self._slope
-- 
2.43.0


From 6d516307cdbcb17daea33685614d12426fd160c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 32/64] fix: quasi-Monte Carlo craters given to
 Production.maker are dated with the units and the power law given with them

---
 cratermaker/components/production/__init__.py | 8 ++++++--
 cratermaker/components/production/powerlaw.py | 9 +++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 46fa46b..d2552aa 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -72,6 +72,12 @@ class Production(ComponentBase):
         object.__setattr__(self, "_Crater", None)
         self.diameter_range = diameter_range
 
+        self.N_conversion_factor = N_conversion_factor
+        self.D_conversion_factor = D_conversion_factor
+        self._init_quasimc(quasimc_file=quasimc_file, quasimc_craters=quasimc_craters)
+
+    def _init_quasimc(self, quasimc_file: str | Path | None = None, quasimc_craters: list[Crater] | None = None) -> None:
+        """Set the quasi-Monte Carlo craters given at construction. The parameters of the production function must have been set."""
         if quasimc_file is not None and quasimc_craters is not None:
             raise ValueError("Cannot provide both quasimc_file and quasimc_craters")
 
@@ -79,8 +85,6 @@ class Production(ComponentBase):
             self.quasimc_file = quasimc_file
         if quasimc_craters is not None:
             self.quasimc_craters += quasimc_craters
-        self.N_conversion_factor = N_conversion_factor
-        self.D_conversion_factor = D_conversion_factor
 
     def __str__(self) -> str:
         str_repr = super().__str__()
diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 0d82831..a15ad9f 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -1,4 +1,5 @@
 from collections.abc import Sequence
+from pathlib import Path
 from typing import Any
 
 import numpy as np
@@ -27,6 +28,8 @@ class PowerLawProduction(Production):
         rng: Generator | None = None,
         rng_seed: int | None = None,
         rng_state: dict | None = None,
+        quasimc_file: str | Path | None = None,
+        quasimc_craters: list | None = None,
         **kwargs: Any,
     ):
         """
@@ -48,6 +51,10 @@ class PowerLawProduction(Production):
             |rng_seed|
         rng_state : dict, optional
             |rng_state|
+        quasimc_file : str | Path, optional
+            Path to a file containing craters emplaced using the quasi-Monte Carlo method.
+        quasimc_craters : list[Crater], optional
+            A list of Crater objects that are emplaced using the quasi-Monte Carlo method.
         **kwargs : Any
             |kwargs|
         """
@@ -78,6 +85,8 @@ class PowerLawProduction(Production):
         elif slope > 0.0:  # Slope must be negative, but convention in the field is mixed. So we flip the sign if it is positive.
             slope *= -1
         self.slope = slope
+        # These are dated using the power law, so it must be set first
+        self._init_quasimc(quasimc_file=quasimc_file, quasimc_craters=quasimc_craters)
 
     def __str__(self) -> str:
         str_repr = super().__str__()
-- 
2.43.0


From ca58eb16b1f2e2c1449944d4589555eb18abdeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 33/64] fix: monte_carlo_scaling given to a scaling model is
 saved in the configuration

---
 cratermaker/components/scaling/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index 852f6a9..751b723 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -105,7 +105,7 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_simple_enlargement_factor", None)
         object.__setattr__(self, "_final_exp", None)
         object.__setattr__(self, "_material_catalogue", None)
-        object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
+        self.monte_carlo_scaling = monte_carlo_scaling
 
         # Unless a material is requested, the density of the target must survive looking up its material properties
         target_density = self.target.density if material is None else None
-- 
2.43.0


From c415a34cf06be77a0c56afb53985665b764a6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 34/64] fix: a density given to a scaling model or its target
 is saved in its configuration

---
 cratermaker/components/scaling/montecarlo.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index 751b723..89b33b6 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -124,11 +124,13 @@ class MonteCarloScaling(Scaling):
             **kwargs,
         )
         if density is not None:
-            self.target.density = density
+            self.density = density
         elif target_density is not None:
-            self.target.density = target_density
+            self.density = target_density
         elif self.target.density is None:
-            self.target.density = self.material_catalogue[self.material]["density"]
+            self.density = self.material_catalogue[self.material]["density"]
+        else:
+            self.density = self.target.density
         if self.projectile.density is None:
             self.projectile.density = self.target.density
 
@@ -575,6 +577,15 @@ class MonteCarloScaling(Scaling):
             self.Ybar = self.material_catalogue[self._material]["Ybar"]
             self.target.density = self.material_catalogue[self._material]["density"]
 
+    @parameter
+    def density(self):
+        """The volumetric density of the target material in kg/m³, which is a property of the target."""
+        return self.target.density
+
+    @density.setter
+    def density(self, value):
+        self.target.density = value
+
     @parameter
     def monte_carlo_scaling(self):
         """If True, the scaling laws will be applied using monte carlo methods to account for the uncertainty in the scaling laws. If False, the scaling laws will be applied deterministically."""
-- 
2.43.0


From 8e36974bcc91803926d22f01e8db02ba1a8fc3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 35/64] fix: the properties given to a projectile model are
 saved in the configuration

---
 cratermaker/components/projectile/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index e8d8f35..2ebad60 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -120,6 +120,9 @@ class Projectile(ComponentBase):
 
         if self.density is None:
             raise ValueError("density must be provided")
+        self._user_defined.update(["sample", "mean_velocity", "density"])
+        if not self.sample:
+            self._user_defined.update(["velocity", "angle", "direction", "location"])
         return
 
     def __str__(self) -> str:
-- 
2.43.0


From f1d01972a6498933b59399a75e5e6491f5197a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 36/64] fix: setting rng_state sets the state of the random
 number generator

---
 cratermaker/components/target/__init__.py | 1 +
 cratermaker/core/base.py                  | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index d6e8163..bd74e64 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -127,6 +127,7 @@ class Target(ComponentBase):
             radius = diameter / 2.0
 
         catalogue = kwargs.pop("catalogue", self.__class__._catalogue)
+        kwargs = {k: v for k, v in kwargs.items() if k not in vars(self.common_args)}  # already set by the base class
 
         # Set properties for the Target object based on the arguments passed to the function
         _set_properties(
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 5a210c9..3dbc9d8 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -771,7 +771,14 @@ class CratermakerBase:
 
     @rng_state.setter
     def rng_state(self, value):
-        _, self._rng_state = _rng_init(rng=self.rng, rng_seed=self.rng_seed, rng_state=value)
+        if value is not None and self.rng is not None:
+            if not isinstance(value, dict):
+                raise ValueError("rng_state must be a dictionary.")
+            try:
+                self.rng.bit_generator.state = value
+            except Exception as e:
+                raise ValueError("Invalid rng_state provided.") from e
+        self._rng_state = self.rng_state
 
     @property
     def common_args(self) -> CommonArgs:
-- 
2.43.0


From 272fd4c7bb65c10865d976fbca826246665b83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 37/64] fix: arguments given when a simulation is resumed
 replace the saved settings of another component

---
 cratermaker/core/simulation.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 1763c15..5276b07 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -132,10 +132,25 @@ class Simulation(CratermakerBase):
         else:
             config_file = None
 
+        saved_config = {}
+        if config_file is not None:
+            with Path.open(config_file) as f:
+                saved_config = yaml.safe_load(f) or {}
+
+        arguments = {
+            "target": target,
+            "scaling": scaling,
+            "production": production,
+            "morphology": morphology,
+            "projectile": projectile,
+            "surface": surface,
+            "counting": counting,
+        }
         config_override = {}
         for component in _COMPONENT_NAMES:
-            # Set to true if a local variable from the argument list with the component name is set to something other than None, otherwise false
-            config_override[component] = getattr(self, f"_{component}") is not None
+            # Set to true if the argument with the component name is set to something other than the saved component, otherwise false
+            value = arguments[component]
+            config_override[component] = value is not None and value != saved_config.get(component)
 
         _, unmatched = _set_properties(
             self,
-- 
2.43.0


From 7ad0a0c98cc55041ffa860b60b1fe78d791ee761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 38/64] fix: a resumed simulation restores its random state,
 size limits, counting and save actions

---
 cratermaker/core/simulation.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 5276b07..8cbf929 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -62,9 +62,9 @@ class Simulation(CratermakerBase):
     reset : bool, optional
         Flag to indicate whether to reset the simulation or resume from an old simulation. If False, the simulation will attempt to load the previous state from the config file. Default is False if `ask_overwrite=False` and a config file is detected, otherwise default is True.
     do_counting : bool, optional
-        If True, the counting component will keep track of observable craters during the simulation. If False, emplaced craters that are large enoug to be observable are saved, but the observability of craters on the surface is not evaluated and observed craters are not tracked. Default is True.
+        If True, the counting component will keep track of observable craters during the simulation. If False, emplaced craters that are large enoug to be observable are saved, but the observability of craters on the surface is not evaluated and observed craters are not tracked. Default is the saved value for a resumed simulation and True otherwise.
     save_actions: list[dict[str, dict]], optional
-        A dictionary of actions to perform when the save method is called. The keys are the names of the actions and the values are dictionaries of keyword arguments to pass to the corresponding component's save method. For example, if you want to automatically generate a hillshade plot every time the simulation is saved, you can pass `save_actions=[{"plot": {"plot_style": "hillshade", "cmap": "pink", "scalebar": True, "label": "Mars region simulation", "show": True, "save": True}}]`. This will call the surface's save method with the specified keyword arguments every time the simulation is saved. Default is to save a hillshade plot of the surface every time the simulation is saved. Set to None to disable or "default" to use the default save actions.
+        A dictionary of actions to perform when the save method is called. The keys are the names of the actions and the values are dictionaries of keyword arguments to pass to the corresponding component's save method. For example, if you want to automatically generate a hillshade plot every time the simulation is saved, you can pass `save_actions=[{"plot": {"plot_style": "hillshade", "cmap": "pink", "scalebar": True, "label": "Mars region simulation", "show": True, "save": True}}]`. This will call the surface's save method with the specified keyword arguments every time the simulation is saved. Default is the saved value for a resumed simulation, and to save a hillshade plot of the surface every time the simulation is saved otherwise. Set to None to disable or "default" to use the default save actions.
     **kwargs : Any
         |kwargs|, including those for component function constructors. Refer to the documentation of each component module for details.
     """
@@ -85,7 +85,7 @@ class Simulation(CratermakerBase):
         rng_state: dict | None = None,
         reset: bool = None,
         ask_overwrite: bool = True,
-        do_counting: bool = True,
+        do_counting: bool | None = None,
         save_actions: list[dict[str, dict]] | None | str = "default",
         **kwargs: Any,
     ):
@@ -152,6 +152,10 @@ class Simulation(CratermakerBase):
             value = arguments[component]
             config_override[component] = value is not None and value != saved_config.get(component)
 
+        common_args = vars(self.common_args)
+        restore_rng = rng is None and rng_seed is None and rng_state is None and "rng_state" in saved_config
+        if restore_rng:
+            common_args.pop("rng_state")
         _, unmatched = _set_properties(
             self,
             target=target,
@@ -162,7 +166,7 @@ class Simulation(CratermakerBase):
             surface=surface,
             counting=counting,
             config_file=config_file,
-            **vars(self.common_args),
+            **common_args,
         )
 
         for component in _COMPONENT_NAMES:
@@ -223,7 +227,9 @@ class Simulation(CratermakerBase):
             **counting_config,
         )
 
-        morphology_config = {**morphology_config, **kwargs, "do_counting": do_counting}
+        morphology_config = {"do_counting": True, **morphology_config, **kwargs}
+        if do_counting is not None:
+            morphology_config["do_counting"] = do_counting
         self.morphology = Morphology.maker(
             self.morphology,
             surface=self.surface,
@@ -259,7 +265,16 @@ class Simulation(CratermakerBase):
             skip_components = ["surface"]
             self.reset(skip_component=skip_components)
 
-        self.save_actions = save_actions
+        # A resumed simulation continues with the state that was saved
+        if not self.is_new:
+            for name in ["smallest_crater", "largest_crater"]:
+                if name in saved_config:
+                    setattr(self, name, saved_config[name])
+            if restore_rng:
+                self.rng_state = saved_config["rng_state"]
+
+        if save_actions != "default" or "save_actions" not in saved_config:
+            self.save_actions = save_actions
 
         self.to_config()
 
-- 
2.43.0


From 6df6affd4a869e96a448120e841885898ccbad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 39/64] fix: a resumed simulation keeps its configuration file
 up to date

---
 cratermaker/core/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 8cbf929..79d3be1 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -276,6 +276,7 @@ class Simulation(CratermakerBase):
         if save_actions != "default" or "save_actions" not in saved_config:
             self.save_actions = save_actions
 
+        object.__setattr__(self, "_config_readonly", False)
         self.to_config()
 
         return
-- 
2.43.0


From 18f1fff93b70f536b3913095f191ac7ee72f5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 40/64] fix: asteroids and comets that are not sampled are
 vertical by default instead of refused

---
 cratermaker/components/projectile/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index 2ebad60..d5e9779 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -112,11 +112,11 @@ class Projectile(ComponentBase):
             if self.velocity is None:
                 raise ValueError("velocity must be provided when sample is False")
             if self.angle is None:
-                raise ValueError("angle must be provided when sample is False")
+                self._angle = 90.0
             if self.direction is None:
-                raise ValueError("direction must be provided when sample is False")
+                self._direction = 0.0
             if self.location is None:
-                raise ValueError("location must be provided when sample is False")
+                self._location = (0.0, 0.0)
 
         if self.density is None:
             raise ValueError("density must be provided")
-- 
2.43.0


From 8742b55d20d64240b9bd1a855c330f800b10b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 41/64] fix: the density a target takes from its material is
 saved in the configuration

---
 cratermaker/components/target/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index bd74e64..6ea1e49 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -146,7 +146,7 @@ class Target(ComponentBase):
             raise ValueError("Invalid Target")
 
         if self._density is None and self.material in self._density_catalogue:
-            self._density = self._density_catalogue[self.material]
+            self.density = self._density_catalogue[self.material]
 
     def __str__(self) -> str:
         diameter = format_large_units(self.diameter, quantity="length")
-- 
2.43.0


From ec92cc5e4024dab673449179ba60c3482ba93507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:18 +0000
Subject: [PATCH 42/64] fix: no file is removed when one of several is declined

---
 cratermaker/core/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 3dbc9d8..3445f8a 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -464,8 +464,9 @@ class CratermakerBase:
         ask_overwrite = self.ask_overwrite  # This will allow us to temporarily disable prompts about overwriting files for this operation if the user selects 'a' to suppress prompts about overwriting files, without changing the value of self.ask_overwrite for future operations.
         if not isinstance(files_to_remove, list):
             files_to_remove = [files_to_remove]
+        files_to_remove = [Path(file) for file in files_to_remove]
+        # Ask about all files before removing any, so that nothing has been removed if the operation is cancelled.
         for file in files_to_remove:
-            file = Path(file)
             if file.exists() and ask_overwrite:
                 response = input(
                     f"File '{str(file)}' already exists. To disable this message, set ask_overwrite=False to this instance. Overwrite? (y/N/a): "
@@ -475,6 +476,7 @@ class CratermakerBase:
                 elif response.lower() != "y":
                     print("Operation cancelled by user.")
                     return False
+        for file in files_to_remove:
             try:
                 if file.is_dir():
                     shutil.rmtree(file)
-- 
2.43.0


From 2071951160ea98b532462d58269fab07a559602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:24 +0000
Subject: [PATCH 43/64] fix: a cancelled reset leaves the surface, the craters
 and the saved files as they were

---
 cratermaker/components/counting/__init__.py   | 13 ++++++--
 cratermaker/components/surface/__init__.py    | 33 +++++++++++--------
 cratermaker/components/surface/datasurface.py |  7 ++--
 cratermaker/components/surface/hireslocal.py  |  7 ++--
 cratermaker/core/base.py                      | 10 ++++--
 5 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index a8b9e86..adf8edc 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -148,7 +148,7 @@ class Counting(ComponentBase):
         str_repr += f"Surface: <{self.surface.component_name}>\n"
         return str_repr
 
-    def reset(self, **kwargs: Any) -> None:
+    def reset(self, **kwargs: Any) -> bool:
         """
         Remove all craters count records from the surface and delete any output files.
 
@@ -156,13 +156,20 @@ class Counting(ComponentBase):
         ----------
         **kwargs : Any
             |kwargs|
+
+        Returns
+        -------
+        bool
+            False if the user cancelled the operation, in which case nothing is changed, otherwise True.
         """
+        if not super().reset(**kwargs):
+            return False
+
         self.surface.add_tag(name="crater_id", long_name=_TALLY_LONG_NAME, tag=None, n_layer=self.n_layer)
         self._emplaced = []
         self._observed = {}
 
-        super().reset(**kwargs)
-        return
+        return True
 
     def add(self, crater: MorphologyCrater, **kwargs: Any) -> MorphologyCrater:
         """
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 96bafd6..bda705c 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -217,7 +217,7 @@ class Surface(ComponentBase):
         """
         return self._full().saved_output_files(**kwargs)
 
-    def reset(self, **kwargs: Any) -> None:
+    def reset(self, **kwargs: Any) -> bool:
         """
         Reset the surface to its initial state.
 
@@ -225,8 +225,14 @@ class Surface(ComponentBase):
         ----------
         **kwargs : Any
             |kwargs|
+
+        Returns
+        -------
+        bool
+            False if the user cancelled the operation, in which case nothing is changed, otherwise True.
         """
-        super().reset(**kwargs)
+        if not super().reset(**kwargs):
+            return False
 
         # Remove all old data from the dataset
         varlist = list(self.uxds.data_vars)
@@ -244,7 +250,7 @@ class Surface(ComponentBase):
             )
         self.is_new = True
 
-        return
+        return True
 
     def extract_region(
         self,
@@ -1102,8 +1108,8 @@ class Surface(ComponentBase):
             uxds = uxds.isel(interval=-1)
         object.__setattr__(self, "_uxds", uxds)
 
-        if reset:
-            self.reset(**kwargs)
+        if reset and not self.reset(**kwargs):
+            raise RuntimeError("User aborted the reset operation.")
 
         self.ask_overwrite = ask_overwrite  # Restore in case we had to set it to False for the reset during regridding
 
@@ -4360,16 +4366,17 @@ class LocalSurface(CratermakerBase):
             else:
                 return uxr.UxDataset(uxgrid=self.uxgrid)
 
+        ds, grid = None, None
         if reset:
-            interval = 0
-            filename = self.output_dir / self.output_filename(interval)
-            filename.unlink(missing_ok=True)
-        files = super().read_saved_output(interval=interval, **kwargs)
-        if isinstance(files, tuple):
-            ds, grid = files
+            if self.grid_file.exists():
+                with xr.open_dataset(self.grid_file) as grid:
+                    grid.load()
         else:
-            grid = files
-            ds = None
+            files = super().read_saved_output(interval=interval, **kwargs)
+            if isinstance(files, tuple):
+                ds, grid = files
+            else:
+                grid = files
         if grid is None:
             raise ValueError("No grid file found.")
         uxgrid = uxr.Grid.from_dataset(grid)
diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 5f05bdf..3e24601 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -373,7 +373,7 @@ class DataSurface(HiResLocalSurface):
 
         return points
 
-    def reset(self, **kwargs: Any) -> None:
+    def reset(self, **kwargs: Any) -> bool:
         """
         Reset the surface to its initial state.
 
@@ -383,7 +383,8 @@ class DataSurface(HiResLocalSurface):
             |kwargs|
 
         """
-        super().reset(**kwargs)
+        if not super().reset(**kwargs):
+            return False
         if self._local_dem_data is not None:
             self._add_local_dem_elevation()
             self._add_global_dem_elevation()
@@ -392,7 +393,7 @@ class DataSurface(HiResLocalSurface):
                 elevation = np.concatenate([ds.isel(interval=0).face_elevation, ds.isel(interval=0).node_elevation])
                 self.update_elevation(elevation)
 
-        return
+        return True
 
     def _regrid_if_needed(self, regrid: bool = False, **kwargs: Any) -> bool:
         """
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index 433aa10..48e616f 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -108,16 +108,17 @@ class HiResLocalSurface(Surface):
     def reset(
         self,
         **kwargs: Any,
-    ) -> None:
+    ) -> bool:
         """
         Resets the surface by removing all saved output files (except for the grid).
 
         This will also reset the local surface.
         """
-        super().reset(**kwargs)
+        if not super().reset(**kwargs):
+            return False
         if self._local is not None:
             self._local.reset(**kwargs)
-        return
+        return True
 
     def superdomain_function(self, r):
         """
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 3445f8a..8c65a37 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -96,7 +96,7 @@ class CratermakerBase:
         self,
         files_to_remove: list[Path | str] | None = None,
         **kwargs: Any,
-    ) -> None:
+    ) -> bool:
         """
         Reset the component by removing its output files.
 
@@ -106,12 +106,18 @@ class CratermakerBase:
             If set, this is the list of files that will be removed. If not set, then the removed files will be determined using the component's output_dir and output_file_pattern attributes.
         **kwargs : Any
             |kwargs|
+
+        Returns
+        -------
+        bool
+            False if the user cancelled the operation (or the files could not be removed), otherwise True.
         """
         if files_to_remove is None:
             files_to_remove = self.saved_output_files()
         if files_to_remove and not self._overwrite_check(files_to_remove):
             print("Reset operation cancelled by user.")
-            return
+            return False
+        return True
 
     def to_config(self, remove_common_args: bool = False, **kwargs: Any) -> dict[str, Any]:
         """
-- 
2.43.0


From 7373875dbc18292981c52c2766877b423ec084e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:24 +0000
Subject: [PATCH 44/64] fix: resetting a simulation does not ask again about
 every file after it was confirmed

---
 cratermaker/core/simulation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 79d3be1..1a03bac 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1407,7 +1407,14 @@ class Simulation(CratermakerBase):
                     raise RuntimeError("User aborted the reset operation.")
         for component in _COMPONENT_NAMES:
             if component not in skip_component and hasattr(self, component):
-                getattr(self, component).reset()
+                # The files of all components have been confirmed above, so do not ask about each of them again
+                obj = getattr(self, component)
+                ask_overwrite_component = obj.ask_overwrite
+                obj.ask_overwrite = False
+                try:
+                    obj.reset()
+                finally:
+                    obj.ask_overwrite = ask_overwrite_component
         self.ask_overwrite = ask_overwrite_original
 
         self._interval = 0
-- 
2.43.0


From 0700b28029c2c5792670306aa9fe58e40dd32a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 45/64] fix: craters with different sets of attributes can be
 read back from one Dataset

---
 cratermaker/components/crater/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index d7b5c48..321adb2 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1391,12 +1391,11 @@ class Crater(ComponentBase):
         for id in tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
             crater_data = dataset.sel(id=id).to_dict()["data_vars"]
             crater_data = {k: v["data"] for k, v in crater_data.items()}
-            if not isinstance(crater_data["semimajor_axis"], (float, int)):
+            # Attributes that this crater does not have are filled in with NaN when it is stored together with craters that do
+            crater_data = {k: v for k, v in crater_data.items() if not (isinstance(v, float) and np.isnan(v))}
+            if not isinstance(crater_data.get("semimajor_axis"), (float, int)):
                 continue
             crater_data = _convert_tuple_vars(input_dict=crater_data, inverse=True)
-            for k, v in crater_data.items():
-                if v is not None and np.any(np.isreal(v)) and np.any(np.isnan(v)):
-                    crater_data[k] = None
             crater = cls.maker(**crater_data, check_redundant_inputs=False)
             craters.append(crater)
 
-- 
2.43.0


From 72c79e5c9b4b5f856d73629e402b7027b27a41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 46/64] fix: craters of the last interval can be read from a
 dictionary of Datasets

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 321adb2..b80eaf4 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1373,7 +1373,7 @@ class Crater(ComponentBase):
         craters = []
         if type(dataset) is dict:
             if interval is None:
-                dataset = dataset[-1]
+                dataset = dataset[max(dataset)]
             elif interval in dataset:
                 dataset = dataset[interval]
             else:
-- 
2.43.0


From d47e420152c9ae0780ad644680e12e08eaeb59b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 47/64] fix: craters can be exported from a dictionary, as the
 observed craters are

---
 cratermaker/components/counting/__init__.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index adf8edc..d16638a 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -978,16 +978,12 @@ class Counting(ComponentBase):
         if craters is None:
             craters = getattr(self, crater_type)
         if type(craters) is dict:
-            if type(list(craters.values())[0]) is xr.Dataset:  # like multi-interval dicts keyed by interval
-                crater_ds = craters.get(
-                    interval, []
-                )  # Get the dataset for the specified interval, or an empty dataset if not found
+            if any(type(c) is xr.Dataset for c in craters.values()):  # like multi-interval dicts keyed by interval
+                craters = self.Crater.from_xarray(craters, interval=interval)
             else:
-                return list(crater_ds.values())  # like observed dicts keyed by crater id
+                craters = list(craters.values())  # like observed dicts keyed by crater id
 
-        if isinstance(craters, dict):
-            craters = list(craters.values())
-        elif isinstance(craters, xr.Dataset):
+        if isinstance(craters, xr.Dataset):
             craters = self.Crater.from_xarray(craters, interval=interval)
         elif isinstance(craters, list):
             if not all(isinstance(c, Crater) for c in craters):
-- 
2.43.0


From ce17a0f1ab29e571f5aa01ea1523a70944192f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 48/64] fix: a CSV export contains the attributes of every
 crater, not only those the first crater has

---
 cratermaker/components/counting/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index d16638a..8447555 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1375,7 +1375,7 @@ class Counting(ComponentBase):
         print(f"Saving crater data to CSV file: '{output_file}'...")
         with output_file.open(mode="w", newline="") as csvfile:
             writer = csv.writer(csvfile)
-            header_written = False
+            rows = []
             for crater in craters:
                 crater_dict = crater.as_dict(skip_complex_data=True)
                 crater_dict = _convert_tuple_vars(input_dict=crater_dict, inverse=False)
@@ -1404,12 +1404,14 @@ class Counting(ComponentBase):
                     if v is None:
                         crater_dict[k] = ""
 
-                if not header_written:
-                    header = list(crater_dict.keys())
-                    writer.writerow(header)
-                    header_written = True
-                row = [crater_dict.get(key, "") for key in header]
-                writer.writerow(row)
+                rows.append(crater_dict)
+
+            # Not every crater has the same attributes, so the columns are those of all of them
+            header = list(dict.fromkeys(key for row in rows for key in row))
+            if rows:
+                writer.writerow(header)
+            for row in rows:
+                writer.writerow([row.get(key, "") for key in header])
 
         return
 
-- 
2.43.0


From b97c930e1b129e86761a545443c95245a522736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:07 +0000
Subject: [PATCH 49/64] fix: a name given when a crater is copied or read back
 is not lost

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index b80eaf4..e6a7131 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -975,7 +975,7 @@ class Crater(ComponentBase):
 
             measured_orientation = args.pop("measured_orientation", None)
             measured_location = args.pop("measured_location", None)
-            name = args.pop("name", None)
+            name = args.pop("name", name)
             if crater is not None:
                 mt = crater.morphology_type
             else:
-- 
2.43.0


From 857e9ca10031205ebfb8e2e9f76c9384ec308312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 50/64] fix: craters exported to CSV can be imported again, and
 their names stay text

---
 cratermaker/components/crater/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index e6a7131..67d80e9 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1300,8 +1300,11 @@ class Crater(ComponentBase):
             for row in reader:
                 crater_data = _convert_tuple_vars(input_dict=row, inverse=True)
                 crater_data = {k: v for k, v in crater_data.items() if v is not None and v != ""}
+                crater_data.pop("id", None)  # The id is computed from the attributes of the crater
                 for key, value in crater_data.items():
-                    if key in ["id", "production_sequence"]:
+                    if key in ["name", "morphology_type"]:
+                        continue
+                    elif key == "production_sequence":
                         crater_data[key] = int(value)
                     elif isinstance(value, tuple | list):
                         vnew = []
-- 
2.43.0


From 866c8b9accf6865bf805da9e792d492b614ec047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 51/64] fix: the current craters can be exported to SCC without
 an interval number

---
 cratermaker/components/counting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 8447555..3231b70 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1455,7 +1455,7 @@ class Counting(ComponentBase):
 
         region_poly = None
 
-        output_file = self.export_dir / f"{crater_type}{interval:06d}.scc"
+        output_file = self.export_dir / (f"{crater_type}.scc" if interval is None else f"{crater_type}{interval:06d}.scc")
         if not self._overwrite_check(output_file):
             return
         print(f"Saving crater data to {output_file}")
-- 
2.43.0


From cc9c8c9d6c32188498041e4efcc5236f2b837cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 52/64] fix: time variables of one interval can be read from a
 dictionary of Datasets

---
 cratermaker/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 8c65a37..db3c4ee 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -376,7 +376,7 @@ class CratermakerBase:
                         tda.append(extract_time_vars_from_ds(d))
                     tda = xr.concat(tda, dim="interval", coords="all", compat="override")
                 else:
-                    tda = extract_time_vars_from_ds(d, interval)
+                    tda = extract_time_vars_from_ds(ds[interval], interval) if interval in ds else xr.DataArray()
             else:
                 tda = extract_time_vars_from_ds(ds, interval)
             output_time_vars.append(tda)
-- 
2.43.0


From a91908a5e61165f73855f6ca6bcebced778d8e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 53/64] fix: saved files are read in the order of their
 interval numbers

---
 cratermaker/core/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index db3c4ee..e2e006c 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -279,7 +279,8 @@ class CratermakerBase:
             if len(data_file_list) == 0:
                 output_ds.append(None)
                 continue
-            data_file_list = sorted(data_file_list)
+            # Files are in the order of their interval numbers, which is not that of their names above 999999
+            data_file_list = sorted(data_file_list, key=lambda f: (len(f.name), f.name))
 
             # map the requested interval to the index of interval_numbers
             if interval is not None and len(interval_numbers) > 0:
-- 
2.43.0


From 8bc972f1caa36fe7740986a6498822af7597422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 54/64] fix: resuming restores the craters of the last saved
 interval, also when it has none

---
 cratermaker/components/counting/__init__.py | 32 ++++++++++-----------
 cratermaker/components/crater/__init__.py   |  2 +-
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 3231b70..efc17d4 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -86,13 +86,13 @@ class Counting(ComponentBase):
 
         if not reset:
             observed, emplaced = self.read_saved_output(interval=-1)
-            if observed:
-                interval = observed.interval.values[-1]
-                observed = self.Crater.from_xarray(observed, interval=interval)
-                for crater in observed:
+            # The observed and emplaced craters that are restored are those of the same interval, which is the last one saved
+            interval = max((ds.interval.values[-1] for ds in (observed, emplaced) if ds is not None), default=None)
+            if observed is not None:
+                for crater in self.Crater.from_xarray(observed, interval=interval):
                     self._observed[crater.id] = crater
-                if emplaced:
-                    self._emplaced = self.Crater.from_xarray(emplaced, interval=interval)
+            if emplaced is not None:
+                self._emplaced = self.Crater.from_xarray(emplaced, interval=interval)
         return
 
     @classmethod
@@ -490,16 +490,16 @@ class Counting(ComponentBase):
         elif crater_type == "both":
             iterator = zip([self.observed, self.emplaced], ["observed", "emplaced"], strict=True)
         for craters, crater_type in iterator:
-            if craters:
-                filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
-                ds = self.to_xarray(craters)
-                ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
-                if time_variables is not None:
-                    for k, v in time_variables.items():
-                        ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
-                if filename.exists():
-                    filename.unlink()
-                ds.to_netcdf(filename)
+            # A file is written even when there are no craters, so that those of an earlier interval are not taken for them
+            filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
+            ds = self.to_xarray(craters)
+            ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
+            if time_variables is not None:
+                for k, v in time_variables.items():
+                    ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
+            if filename.exists():
+                filename.unlink()
+            ds.to_netcdf(filename)
         save_args = {"interval": interval, **kwargs}
         super().save(**save_args)
         return
diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 67d80e9..f8ab55c 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1389,7 +1389,7 @@ class Crater(ComponentBase):
             else:
                 return craters
         dataset.load()
-        if len(dataset) == 0:
+        if "id" not in dataset.coords:
             return craters
         for id in tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
             crater_data = dataset.sel(id=id).to_dict()["data_vars"]
-- 
2.43.0


From e417fba160a40790a2534ee1fffa96b42fa57bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 55/64] fix: emplaced craters of an earlier interval can be
 plotted

---
 cratermaker/components/counting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index efc17d4..1166a5e 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -701,7 +701,7 @@ class Counting(ComponentBase):
                     interval = observed_ds.interval.values[-1]
                     observed = self.Crater.from_xarray(observed_ds, interval=interval)
                 if emplaced is None and emplaced_ds:
-                    emplaced_interval = emplaced.interval.values[-1]
+                    emplaced_interval = emplaced_ds.interval.values[-1]
                     if emplaced_interval == interval:
                         emplaced = self.Crater.from_xarray(emplaced_ds, interval=interval)
             filename = self.plot_dir / f"{file_prefix}{interval:06d}.{self.surface.output_image_file_extension}"
-- 
2.43.0


From 9639d4e182de88a907a32ef070ae79d4289a6a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:41 +0000
Subject: [PATCH 56/64] fix: craters that are present in several intervals are
 found when all intervals are read

---
 cratermaker/core/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index e2e006c..2162ef5 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -434,6 +434,8 @@ class CratermakerBase:
                     data_file_list,
                     parallel=False,
                     engine="netcdf4",
+                    combine="nested",
+                    concat_dim="interval",
                     compat="no_conflicts",
                     join="outer",
                     data_vars=None,
-- 
2.43.0


From a731bdce87b23f40748bc5ba69341744f92d7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 57/64] fix: emplacing an empty list of craters emplaces
 nothing instead of raising an error

---
 cratermaker/components/morphology/basicmoon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index 0b81ef8..b0ec840 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -199,7 +199,7 @@ class BasicMoonMorphology(Morphology):
         """
         if craters is None:
             craters = [BasicMoonCrater.maker(morphology=self, **kwargs)]
-        elif isinstance(craters, (list | tuple)) and len(craters) > 0:
+        elif isinstance(craters, (list | tuple)):
             processed_craters = []
             for c in tqdm(
                 craters,
-- 
2.43.0


From 18b5a8aca9c1316f627bf3994def1719037f1a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 58/64] fix: forming ejecta when nothing was excavated is not
 an error

---
 cratermaker/components/morphology/basicmoon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index b0ec840..2acc00b 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -261,7 +261,10 @@ class BasicMoonMorphology(Morphology):
         """
         if not isinstance(crater, BasicMoonCrater):
             crater = BasicMoonCrater.maker(crater, morphology=self)
-        ejecta_thickness, ejecta_intensity = super().form_ejecta(crater, **kwargs)
+        ejecta = super().form_ejecta(crater, **kwargs)
+        if ejecta is None:  # Nothing was excavated
+            return
+        ejecta_thickness, ejecta_intensity = ejecta
         k_ej = self.ejecta_burial_degradation(ejecta_thickness[: crater.ejecta_region.n_face], ejecta_soften_factor=1.50)
         crater.ejecta_region.apply_diffusion(k_ej)
 
-- 
2.43.0


From 02843a420fb043f156b3206bd7dcf10a9ef2d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 59/64] fix: ejecta that fall nowhere within the region leave
 the elevations as they are instead of NaN

---
 cratermaker/components/morphology/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index ad7b963..612195c 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -645,6 +645,8 @@ class Morphology(ComponentBase):
         ejecta_thickness, ejecta_intensity = self.ejecta_shape(crater, crater.ejecta_region)
         ejecta_thickness = np.maximum(ejecta_thickness, 0.0)
         ejecta_volume = crater.ejecta_region.compute_volume(ejecta_thickness[: crater.ejecta_region.n_face])
+        if not ejecta_volume > 0.0:  # There is no ejecta within the region
+            return
         conservation_factor = -self._excavated_volume / ejecta_volume
         ejecta_thickness *= conservation_factor
 
-- 
2.43.0


From 5242a5f2376ad98bfa9ddff29e73bf68582413a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 60/64] fix: data for the nodes of a region with as many faces
 as nodes are not written to the wrong nodes

---
 cratermaker/components/surface/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index bda705c..3108326 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2163,6 +2163,9 @@ class LocalSurface(CratermakerBase):
             |kwargs|
 
         """
+        # Data that already exists on the surface is known to be on either the faces or the nodes
+        if name in self.surface.uxds.data_vars:
+            isfacedata = "n_face" in self.surface.uxds[name].dims
         # Check if the data is a scalar or an array
         if np.isscalar(data):
             n = self.n_face if isfacedata else self.n_node
@@ -2171,7 +2174,7 @@ class LocalSurface(CratermakerBase):
             data = np.array(data, dtype=dtype)
         else:
             data = np.asarray(data, dtype=dtype)
-        if data.size == self.n_face:
+        if data.size == self.n_face and (isfacedata or data.size != self.n_node):
             isfacedata = True
             indices = self.face_indices
         elif data.size == self.n_node:
-- 
2.43.0


From f14d012be4360490735e0b057468b4dd32ab1096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 61/64] fix: a subregion contains the nodes of all of its faces

---
 cratermaker/components/surface/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 3108326..baece59 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2692,6 +2692,10 @@ class LocalSurface(CratermakerBase):
             edge_faces = edge_faces[edge_faces != INT_FILL_VALUE]
             face_indices = np.unique(np.concatenate((face_indices, neighbor_faces, node_faces, edge_faces)))
 
+            # Add in all nodes that are attached to these buffer faces
+            node_indices = np.unique(self.surface.face_node_connectivity[face_indices].ravel())
+            node_indices = node_indices[node_indices != INT_FILL_VALUE]
+
         else:
             face_indices = self.face_indices
             edge_indices = self.edge_indices
-- 
2.43.0


From c669c3fe247805d44cec375b709c2c356aa24e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 62/64] fix: computing a reference surface does not change the
 elevations of the surface

---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index baece59..97d529f 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2621,7 +2621,7 @@ class LocalSurface(CratermakerBase):
         faces_within_region = self.face_distance <= reference_radius
         if only_faces:
             points_within_region = faces_within_region
-            elevation = self.face_elevation
+            elevation = self.face_elevation.copy()
             n_reference = np.sum(faces_within_region)
         else:
             elevation = np.concatenate([self.face_elevation, self.node_elevation])
-- 
2.43.0


From 212814a3aef390e05ed4961ad2309abeface91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 63/64] fix: counting a part of the surface does not fail

---
 cratermaker/components/counting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 1166a5e..9cefcf2 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -353,6 +353,8 @@ class Counting(ComponentBase):
         .. [#] Minton, D.A., Fassett, C.I., Hirabayashi, M., Howl, B.A., Richardson, J.E., (2019). The equilibrium size-frequency distribution of small craters reveals the effects of distal ejecta on lunar landscape morphology. Icarus 326, 63-87. `doi: 10.1016/j.icarus.2019.02.021 <https://doi.org/10.1016/j.icarus.2019.02.021>`_
 
         """
+        from cratermaker.components.surface import LocalSurface
+
         if region is None:
             region = self.surface
             if hasattr(self.surface, "crater_id"):
-- 
2.43.0


From ccece45abae39d716c2d0c74849658e96ef08be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 64/64] fix: the rim of every crater tallied is fitted in the
 way asked for, not that of the first alone

---
 cratermaker/components/counting/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 9cefcf2..335a607 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -368,6 +368,8 @@ class Counting(ComponentBase):
 
         unique_ids = np.unique(id_array[id_array > 0])
         remove_ids = []
+        fit_center = kwargs.pop("fit_center", False)
+        fit_ellipse = kwargs.pop("fit_ellipse", False)
 
         if quiet:
             iterable = unique_ids
@@ -391,8 +393,6 @@ class Counting(ComponentBase):
             crater = self.observed[id]
             # TODO: Make the fit_rim function more reliable before turning it on by default. It is currently very slow and not reliable enough.
             if measure_rim:
-                fit_center = kwargs.pop("fit_center", False)
-                fit_ellipse = kwargs.pop("fit_ellipse", False)
                 crater = self.fit_rim(crater=crater, fit_center=fit_center, fit_ellipse=fit_ellipse, **kwargs)
             Kd = self.measure_degradation_state(crater, **kwargs)
             Kv = self.visibility_function(crater, **kwargs)
-- 
2.43.0

