From 10773a0034412161bcec31db3df7cdbf6404d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:50 +0000
Subject: [PATCH 01/78] fix: keep datapoints on both sides of the antimeridian
 when trimming dataframes

The dataframe branch of trim_datapoints selected the complement of a
longitude range that crosses the antimeridian, so every CSV-like source
lost all of its data in such a region.
---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 ++--
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 36cb389..87fce45 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -272,8 +272,8 @@ class ScalarDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 26cc222..6587775 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -327,8 +327,8 @@ class VectorDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-- 
2.43.0


From dd6bda98950cf37965161f4c448749fa6c89fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:31 +0000
Subject: [PATCH 02/78] fix: recognise neighbours across the antimeridian

Longitudes of touching cellboxes may be written 360 degrees apart on
either side of the antimeridian, so splitting a cellbox there (or any
cellbox at the edge of a reloaded global mesh) dropped adjacencies from
the neighbour graph.
---
 meshiphi/mesh_generation/neighbour_graph.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 1b75732..e010cdf 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -230,6 +230,11 @@ class NeighbourGraph:
         lat_a = bounds_a.get_lat_min()
         long_b = bounds_b.get_long_min()
         lat_b = bounds_b.get_lat_min()
+        # Same meridian may be written 360 degrees apart either side of the antimeridian
+        if long_b - long_a > 180:
+            long_b -= 360
+        elif long_a - long_b > 180:
+            long_b += 360
 
         if (long_a + bounds_a.get_width()) == long_b and (
                 lat_a + bounds_a.get_height()) == lat_b:
@@ -313,7 +318,13 @@ class NeighbourGraph:
             return long_a == -180  and cellbox_b.get_bounds().get_long_max() == 180 or long_b == -180 and cellbox_a.get_bounds().get_long_max() == 180 
         if self.is_global_mesh() and on_global_bound (cellbox_a , cellbox_b) :
             return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
-        
+
+        # Same meridian may be written 360 degrees apart either side of the antimeridian
+        if long_b - long_a > 180:
+            long_b -= 360
+        elif long_a - long_b > 180:
+            long_b += 360
+
         if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
                 lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
             return Direction.north_east
-- 
2.43.0


From 3db6611214329929c3b605657fb166c1964488dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:31 +0000
Subject: [PATCH 03/78] fix: split boundaries that cross the antimeridian

The midpoint was left above 180 degrees, so splitting a boundary such as
170:-150 raised a ValueError.
---
 meshiphi/mesh_generation/boundary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 8d16204..f37364b 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -415,6 +415,9 @@ class Boundary:
         """
         lat_mid = self.get_lat_min() + (self.get_height() / 2)
         long_mid = self.get_long_min() + (self.get_width() / 2)
+        # Keep within -180:180 if boundary crosses the antimeridian
+        if long_mid > 180:
+            long_mid -= 360
 
         # 0 = south_west, 1 = north_west, 2 = south_east, 3 = north_east
         bounds = [
-- 
2.43.0


From d631eb3f1b83474db23e6c491859c2dfe9706a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:13 +0000
Subject: [PATCH 04/78] fix: merge meshes that reach or cross the antimeridian

Cellboxes were compared to the merged bounds by raw longitude, so merging
across the antimeridian kept or removed the wrong cellboxes (gaps and
overlaps) and left the two parts unconnected there.
---
 meshiphi/mesh_generation/environment_mesh.py | 59 ++++++++++++++++----
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1bda9a6..fc54541 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -571,6 +571,46 @@ class EnvironmentMesh:
                         self.neighbour_graph.get_graph()[cellbox_s.get_id()]["-3"].append(neighbour)
 
 
+    @staticmethod
+    def same_meridian(long_a, long_b):
+        """
+            returns True if two longitudes are the same meridian (-180 and 180 are)
+        """
+        return (long_a - long_b) % 360 == 0
+
+    @staticmethod
+    def unwrapped_long_ranges(cb_bounds, bounds):
+        """
+            returns the longitude range of bounds, along with the longitude ranges of cb_bounds to
+            compare it to, accounting for either of them crossing the antimeridian
+
+            Args:
+                cb_bounds (Boundary): the bounds of a cellbox
+                bounds (Boundary): the bounds the cellbox is being compared to
+            Returns:
+                (float, float), list<(float, float)>: range of bounds, and ranges of cb_bounds
+        """
+        def unwrap(long_min, long_max):
+            return (long_min, long_max) if long_min < long_max else (long_min, long_max + 360)
+
+        west, east = unwrap(cb_bounds.get_long_min(), cb_bounds.get_long_max())
+        return (unwrap(bounds.get_long_min(), bounds.get_long_max()),
+                [(west + shift, east + shift) for shift in (0, 360, -360)])
+
+    def within_long_range(self, cb_bounds, bounds):
+        """
+            returns True if the longitudes of cb_bounds lie completely within those of bounds
+        """
+        (b_west, b_east), cb_ranges = self.unwrapped_long_ranges(cb_bounds, bounds)
+        return any(west >= b_west and east <= b_east for west, east in cb_ranges)
+
+    def touches_long_range(self, cb_bounds, bounds):
+        """
+            returns True if the longitudes of cb_bounds overlap or touch those of bounds
+        """
+        (b_west, b_east), cb_ranges = self.unwrapped_long_ranges(cb_bounds, bounds)
+        return any(east >= b_west and west <= b_east for west, east in cb_ranges)
+
     def get_cellboxes_within_bounds(self, bounds):
         """
             returns the cellboxes within the given bounds. 
@@ -586,8 +626,7 @@ class EnvironmentMesh:
         for cellbox in self.agg_cellboxes:
             cb_bounds = cellbox.get_bounds()
 
-            if (cb_bounds.get_long_min() >= bounds.get_long_min() and 
-                cb_bounds.get_long_max() <= bounds.get_long_max() and 
+            if (self.within_long_range(cb_bounds, bounds) and
                 cb_bounds.get_lat_min() >= bounds.get_lat_min() and 
                 cb_bounds.get_lat_max() <= bounds.get_lat_max()):
             
@@ -612,8 +651,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             if (cellbox.get_bounds().get_lat_min() == bounds.get_lat_max() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+                self.touches_long_range(cellbox.get_bounds(), bounds)):
             
                 north_cellboxes.append(cellbox)
             
@@ -625,8 +663,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             if (cellbox.get_bounds().get_lat_max() == bounds.get_lat_min() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+                self.touches_long_range(cellbox.get_bounds(), bounds)):
             
                 south_cellboxes.append(cellbox)
             
@@ -637,7 +674,8 @@ class EnvironmentMesh:
         east_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
-            if (cellbox.get_bounds().get_long_min() == bounds.get_long_max() and
+            if (self.same_meridian(cellbox.get_bounds().get_long_min(), bounds.get_long_max()) and
+                not self.within_long_range(cellbox.get_bounds(), bounds) and
                 cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
                 cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
             
@@ -650,7 +688,8 @@ class EnvironmentMesh:
             west_cellboxes = []
     
             for cellbox in self.agg_cellboxes:
-                if (cellbox.get_bounds().get_long_max() == bounds.get_long_min() and
+                if (self.same_meridian(cellbox.get_bounds().get_long_max(), bounds.get_long_min()) and
+                    not self.within_long_range(cellbox.get_bounds(), bounds) and
                     cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
                     cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
                 
@@ -693,7 +732,7 @@ class EnvironmentMesh:
         for cellbox in self.agg_cellboxes:
             cb_bounds = cellbox.get_bounds()
 
-            if cb_bounds.get_long_max() == mesh_bounds.get_long_max():
+            if self.same_meridian(cb_bounds.get_long_max(), mesh_bounds.get_long_max()):
                 right_cellboxes.append(cellbox)
 
         return right_cellboxes
@@ -706,7 +745,7 @@ class EnvironmentMesh:
         for cellbox in self.agg_cellboxes:
             cb_bounds = cellbox.get_bounds()
 
-            if cb_bounds.get_long_min() == mesh_bounds.get_long_min():
+            if self.same_meridian(cb_bounds.get_long_min(), mesh_bounds.get_long_min()):
                 left_cellboxes.append(cellbox)
 
         return left_cellboxes
-- 
2.43.0


From 2aa983f4a36033b483ae9a9300918274ec81a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:13 +0000
Subject: [PATCH 05/78] fix: leave the merged-in mesh unmodified by merge_mesh

merge_mesh documents that the given mesh is not modified, but it was
renumbered and its neighbour maps were shared with (and tied to) the
merging mesh, so it could not be used or merged again afterwards. The id
kept in the aggregated data was also offset twice.
---
 meshiphi/mesh_generation/environment_mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index fc54541..ca3560b 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 import geopandas as gpd
@@ -218,6 +219,9 @@ class EnvironmentMesh:
 
         assert self.validate_merge_compatibility(mesh2), "The given mesh is not compatible with merging with this mesh" 
 
+        # Work on a copy, as the cellboxes and neighbour graph of mesh2 get renumbered and tied to this mesh
+        mesh2 = copy.deepcopy(mesh2)
+
         # append config files
         if "merged" not in self.config.keys():
             self.config["merged"] = []
@@ -797,7 +801,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             cellbox.set_id(str(int(cellbox.get_id()) + increment))
-            cellbox.agg_data['id'] = str(int(cellbox.get_id()) + increment)
+            cellbox.agg_data['id'] = cellbox.get_id()
 
         self.neighbour_graph.increment_ids(increment)
         
-- 
2.43.0


From 974ee3f863748e11ac696055e47976c5e4a4e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 06/78] fix: ignore NaNs when counting gridded datapoints

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 87fce45..6492f87 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -420,7 +420,8 @@ class ScalarDataLoader(DataLoaderInterface):
             logging.debug(f"\t{len(dps)} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
             # If want the number of datapoints
             if agg_type =='COUNT':
-                return dps.size
+                if skipna:  return np.count_nonzero(~np.isnan(dps))
+                else:       return dps.size
             # If no data
             elif dps.size == 0:
                 return np.nan
-- 
2.43.0


From 5dac2f0514391473233baf818b220a850d1f8e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 07/78] fix: fill empty vector components with the configured
 fill value

---
 meshiphi/mesh_generation/cellbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index c2bab10..11e957a 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -377,7 +377,7 @@ class CellBox:
                         agg_value[name] = loader.get_value(parent.bounds, data=parent_data_subset)[name]
                         parent = parent.get_parent()
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
-                    agg_value[data_name] = source.get_value_fill_type()
+                    agg_value[name] = source.get_value_fill_type()
         return agg_value
 
     def deallocate_cellbox(self):
-- 
2.43.0


From 505339bddb7bf9462706a58f096d8fa730ccd500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 08/78] fix: fill empty cellboxes with numbers rather than
 strings

---
 meshiphi/mesh_generation/mesh_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index ca03886..24dd2e6 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -228,7 +228,10 @@ class MeshBuilder:
                     return False
         value_fill_type = "parent"
         if 'value_fill_types' in data_source['params']:
-            if is_float (data_source  ['params']['value_fill_types']) or   data_source['params']['value_fill_types'] in ["parent" ,"Nan"]:
+            if is_float (data_source  ['params']['value_fill_types']):
+                # May be given as a string, but cellboxes get filled with the number it represents
+                value_fill_type = float(data_source  ['params']['value_fill_types'])
+            elif data_source['params']['value_fill_types'] == "parent":
                 value_fill_type = data_source  ['params']['value_fill_types']
             else:
                 logging.warning("Invalid value for value_fill_types, setting to the default(parent) instead.")
-- 
2.43.0


From b9adbdab9cdf665fd22470b30f8a9f1d8908bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 09/78] fix: give rows of separate vector CSV files distinct
 indices

---
 meshiphi/dataloaders/vector/vector_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/vector_csv.py b/meshiphi/dataloaders/vector/vector_csv.py
index fe53b5e..976989a 100644
--- a/meshiphi/dataloaders/vector/vector_csv.py
+++ b/meshiphi/dataloaders/vector/vector_csv.py
@@ -21,7 +21,7 @@ class VectorCSVDataLoader(VectorDataLoader):
         # NOTE: All csv files must have same columns for this to work
         for file in self.files:
             df_list += [pd.read_csv(file)]
-        data = pd.concat(df_list)
+        data = pd.concat(df_list, ignore_index=True)
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From 6e88c348e52dfe2cc5d69adb40b470df62ea46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 10/78] fix: keep loaded meshes independent of the JSON they
 were loaded from

---
 meshiphi/mesh_generation/environment_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index ca3560b..676380c 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -84,6 +84,8 @@ class EnvironmentMesh:
             Returns:
                 EnvironmentMesh: object that contains all the json file mesh information.\n
         """
+        # Work on a copy, as the mesh may be modified after loading
+        mesh_json = copy.deepcopy(mesh_json)
         config = mesh_json['config']['mesh_info']
         cellboxes_json = mesh_json['cellboxes']
         agg_cellboxes = []
-- 
2.43.0


From e69753219406512024249762f2e52d89f79b482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 11/78] fix: stop splitting around points that end up on a
 cellbox edge

---
 meshiphi/mesh_generation/environment_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 676380c..90d40ec 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -194,7 +194,8 @@ class EnvironmentMesh:
         for point in points:
             splitting_waypoint = True
             if self.query_inside_mesh(point):
-                while splitting_waypoint:
+                # A point may end up on the edge between cellboxes, belonging to none of them
+                while splitting_waypoint and self.query_inside_mesh(point):
                     splitting_waypoint = self._split_loc(point)
 
     def get_cellbox(self, cellbox_id):
-- 
2.43.0


From 0e066e718ce5bbea6a2266e62779aeb0e85830b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:43 +0000
Subject: [PATCH 12/78] fix: reject out of range indices in update_cellbox

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 90d40ec..951ef10 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1507,7 +1507,7 @@ class EnvironmentMesh:
               index (int): the index of the cellbox to be updated
               values (dict): a dict contains perf. metrics names and values
         """
-        if index > -1 or index < len(self.agg_cellboxes):
+        if index > -1 and index < len(self.agg_cellboxes):
             self.agg_cellboxes[index].agg_data.update(values)
         else:
             raise ValueError('Invalid cellbox index')
-- 
2.43.0


From d2b4c8165de22ab9ddb6c379ef945c37b074561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 13/78] fix: merge the meshes of a directory in a defined order

---
 meshiphi/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/cli.py b/meshiphi/cli.py
index 43f48bf..52bbb5d 100644
--- a/meshiphi/cli.py
+++ b/meshiphi/cli.py
@@ -175,7 +175,7 @@ def merge_mesh_cli():
         logging.debug("Merging multiple meshes from directory {} with input mesh".format(args.merge))
 
         merge_dir = args.merge
-        merge_meshes = [f for f in listdir(merge_dir) if isfile(join(merge_dir, f))]
+        merge_meshes = [f for f in sorted(listdir(merge_dir)) if isfile(join(merge_dir, f))]
 
         for mesh in merge_meshes:
             path = join(merge_dir, mesh)
-- 
2.43.0


From b0fd2969c8660de52d9552c1fcce8a748738f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:19 +0000
Subject: [PATCH 14/78] fix: validate mesh configs that are given as a file
 name

---
 meshiphi/config_validation/config_validator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 65e4217..13e2472 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -105,16 +105,16 @@ def validate_mesh_config(config):
     jsonschema.validate(instance=config_json, schema=mesh_schema)
     
     # Check that the dates in the region are valid
-    assert_valid_time(config['region']['start_time'])
-    assert_valid_time(config['region']['end_time'])
+    assert_valid_time(config_json['region']['start_time'])
+    assert_valid_time(config_json['region']['end_time'])
     
     # Check that cellbox width and height evenly divide boundary
-    assert_valid_cellsize(config['region']['lat_min'],
-                          config['region']['lat_max'],
-                          config['region']['cell_height'])
-    assert_valid_cellsize(config['region']['long_min'],
-                          config['region']['long_max'],
-                          config['region']['cell_width'])
+    assert_valid_cellsize(config_json['region']['lat_min'],
+                          config_json['region']['lat_max'],
+                          config_json['region']['cell_height'])
+    assert_valid_cellsize(config_json['region']['long_min'],
+                          config_json['region']['long_max'],
+                          config_json['region']['cell_width'])
     
 def validate_vessel_config(config):
     """
-- 
2.43.0


From ec110aae75fa75032accf43108458122e2275f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:19 +0000
Subject: [PATCH 15/78] fix: check relative dates in full

---
 meshiphi/config_validation/config_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 13e2472..ff9a492 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -66,7 +66,7 @@ def validate_mesh_config(config):
         """
         correctly_formatted = False
         # If relative time is parsed
-        if re.match(r'TODAY[+,-]\d+', time_str.replace(' ','')):
+        if re.fullmatch(r'TODAY[+-]\d+(\.\d+)?', time_str.replace(' ','')):
             correctly_formatted = True
         elif time_str == 'TODAY':
             correctly_formatted = True
-- 
2.43.0


From 718482fe2a201d273a860ffab76705c30567049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:19 +0000
Subject: [PATCH 16/78] fix: require the cell width to divide global regions

---
 meshiphi/config_validation/config_validator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index ff9a492..829b44b 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -94,7 +94,8 @@ def validate_mesh_config(config):
             bound_max (float): Maximum value of boundary in the same axis
             cell_size (float): Initial cellbox size in the same axis
         """
-        assert(((bound_max - bound_min)%360/cell_size)%1 == 0), \
+        # A boundary all the way around the globe is 360 degrees wide rather than 0
+        assert((((bound_max - bound_min)%360 or 360)/cell_size)%1 == 0), \
             f"{bound_max}-{bound_min}={bound_max-bound_min} is not evenly "+\
             f"divided by {cell_size}"
         
-- 
2.43.0


From 639271709941b00af3f58b3e73b0de0d8e64bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:19 +0000
Subject: [PATCH 17/78] fix: refuse longitudes out of range at either end of a
 boundary

---
 meshiphi/mesh_generation/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index f37364b..c3dcb59 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -192,7 +192,7 @@ class Boundary:
             raise ValueError('Boundary: range should contain two values')
         if lat_range[0] > lat_range [1]:
              raise ValueError(f'Boundary: Latitude start range {lat_range[0]} should be smaller than range end {lat_range[1]}')
-        if long_range[0] < -180 or long_range[1] > 180:
+        if min(long_range[0], long_range[1]) < -180 or max(long_range[0], long_range[1]) > 180:
             raise ValueError('Boundary: Longtitude range should be within -180:180')
         if time_range != []:
             if len(time_range) == 2:
-- 
2.43.0


From b0107e1166b98078c4069440eef8dfecc19dcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:54 +0000
Subject: [PATCH 18/78] fix: export text and empty values to geoJSON

---
 meshiphi/mesh_generation/environment_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 951ef10..0391bd8 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1226,7 +1226,9 @@ class EnvironmentMesh:
                 mesh_df = mesh_df.drop(column, axis=1)
             # convert lists to mean
             elif mesh_df[column].dtype == list:
-                mesh_df[column] = [np.mean(x) for x in mesh_df[column]]
+                # Text and empty values also make this an object column, but have no mean
+                mesh_df[column] = [x if x is None or isinstance(x, str) else np.mean(x) 
+                                   for x in mesh_df[column]]
             # convert bools to ints
             elif mesh_df[column].dtype == bool:
                 mesh_df[column] = mesh_df[column].astype(int)
-- 
2.43.0


From 6bf95d1de13306d439b2792731c70ddb1f9fa05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 19/78] fix: take the curl of gridded vectors along the right
 axes

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 6587775..fa49b9d 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1064,7 +1064,8 @@ class VectorDataLoader(DataLoaderInterface):
         
         def meshgrid_from_xr(data, data_name_list):
             # Extract out each variable and combine as tuple
-            data_arrays = [data[name].values 
+            # Longitude first, to match the meshgrid from pd.DataFrame
+            data_arrays = [data[name].transpose('long', 'lat', ...).values 
                                 for name in data_name_list]
             # Zip them together to make 2D array of n-dimensional vectors
             return np.dstack(data_arrays)
-- 
2.43.0


From aefebcf6ed46afc1a6ece74df991327e0e5f4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 20/78] fix: calculate dmag of gridded vectors

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index fa49b9d..8132a88 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1011,7 +1011,8 @@ class VectorDataLoader(DataLoaderInterface):
         else:               dps = data
             
         data_names = self.data_name_list
-        each_vector = dps[data_names].to_numpy()
+        each_vector = np.stack([dps[name].to_numpy().ravel() 
+                                for name in data_names], axis=-1)
         ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
         
         delta_vector = each_vector - ave_vector
-- 
2.43.0


From 9cb3308b3de72d552884979c2836e520e257adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 21/78] fix: ignore NaNs when counting vector datapoints

---
 meshiphi/dataloaders/vector/abstract_vector.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 8132a88..ac74079 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -419,7 +419,9 @@ class VectorDataLoader(DataLoaderInterface):
                 values = [np.nan, np.nan]
             # If want the number of datapoints
             elif agg_type =='COUNT':
-                values = [data_count, data_count]
+                # Only count datapoints with values, unless including NaN's
+                values = [int(dps[name].count()) if skipna else data_count 
+                          for name in variable_names]
             elif agg_type == 'MIN':
                 index = dps['_magnitude'].idxmin(skipna=skipna)
                 if ~np.isnan(index):
@@ -473,12 +475,12 @@ class VectorDataLoader(DataLoaderInterface):
                 values = [np.nan for _ in variable_names]
             # If want count
             elif agg_type == 'COUNT':
-                # If including nan's, just want size
+                # If skipping nan's, count non-nan values
                 if skipna:  
-                    values = [data_count for _ in variable_names]
-                # Otherwise count non-nan values
-                else:       
                     values = [dps[name].count().item() for name in variable_names]
+                # Otherwise just want size
+                else:       
+                    values = [data_count for _ in variable_names]
             elif agg_type == 'MIN':
                 # Get 2D index of minimum magnitude point
                 index = np.unravel_index(
-- 
2.43.0


From 84ad5c3221051e2351627f2accc41225a92eed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 22/78] fix: keep existing vector values when a later source
 has the same names

---
 meshiphi/mesh_generation/cellbox.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index 11e957a..eb292ae 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -342,13 +342,15 @@ class CellBox:
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
                     agg_value[data_name] = source.get_value_fill_type()
                     
-            # If already and value for {data_name} in cellbox and it's a NaN, overwrite
-            if (data_name in agg_dict):
-                if np.isnan(agg_dict[data_name]):
-                    logging.warning(f'\t{data_name} already exists in cellbox! Overwriting only NaN values')
-                    agg_dict.update(agg_value)
-            else:
-                agg_dict.update(agg_value)
+            # If already and value for {name} in cellbox and it's a NaN, overwrite
+            # Vector data has a name for each of its components
+            for name, value in agg_value.items():
+                if name in agg_dict:
+                    if np.isnan(agg_dict[name]):
+                        logging.warning(f'\t{name} already exists in cellbox! Overwriting only NaN values')
+                        agg_dict[name] = value
+                else:
+                    agg_dict[name] = value
                 
         agg_cellbox = AggregatedCellBox(self.bounds, agg_dict, self.get_id())
         # free the memory space used by the cellbox
-- 
2.43.0


From 7fee3a2c8ee1c98caf7f7bada6c77f0eaaa22ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:38 +0000
Subject: [PATCH 23/78] fix: build from a mesh whose first cellbox has been
 split

---
 meshiphi/mesh_generation/mesh_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 24dd2e6..73f933b 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -570,7 +570,9 @@ class MeshBuilder:
         logging.info ("Splitting cellboxes...")
         # loop over the data_sources then cellboxes to implement depth-first splitting. should be simpler and loop over cellboxes only once we switch to breadth-first splitting
         # this impl assumws all the cellboxes have the same data sources. should not be the caase once we switch to breadth-first splitting.
-        data_sources = self.mesh.cellboxes[0].get_data_source()
+        # cellboxes that have already been split and replaced are None, so take the first one still in the mesh
+        data_sources = next(cellbox for cellbox in self.mesh.cellboxes 
+                            if isinstance(cellbox, CellBox)).get_data_source()
         
         # Set up data_source progress bar
         ds_pbar = tqdm(range(0, len(data_sources)), position=0, 
-- 
2.43.0


From 90e2b0a4a4d37dc9eb088fc2252e01ceddf833fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:20 +0000
Subject: [PATCH 24/78] fix: read MODIS files (file list, only sea ice
 concentration)

---
 meshiphi/dataloaders/scalar/modis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/modis.py b/meshiphi/dataloaders/scalar/modis.py
index 4f0fe82..c2e73f3 100644
--- a/meshiphi/dataloaders/scalar/modis.py
+++ b/meshiphi/dataloaders/scalar/modis.py
@@ -18,7 +18,7 @@ class MODISDataLoader(ScalarDataLoader):
                 MODIS dataset within limits of bounds. 
                 Dataset has coordinates 'lat', 'long', and variable 'SIC'
         '''
-        logging.info(f"- Opening file {self.file}")
+        logging.info(f"- Opening files {self.files}")
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
         else:                       data = xr.open_mfdataset(self.files)
@@ -27,6 +27,8 @@ class MODISDataLoader(ScalarDataLoader):
 
         # Set areas obscured by cloud to NaN values
         data = data.where(data.cloud != 1, drop=True)
+        # Limit to just SIC
+        data = data['SIC'].to_dataset()
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From 95961105d89000bb0f9a886531d9be2ec8ccedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:20 +0000
Subject: [PATCH 25/78] fix: put ECMWF forecasts in order of time, whatever
 order the files are listed in

---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index 4e3d895..f337c30 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -73,7 +73,6 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
         # Limit data to forecasts that cover time boundary
         for file in self.files:
             timestamp = calculate_timestamp(file)
-            print(start_time, timestamp, end_time)
             if start_time <= timestamp <= end_time:
                 data_array.append(retrieve_data(file, timestamp))
                 relevant_files += [file]
@@ -82,7 +81,7 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
             logging.error('\tNo files found for date range '+\
                          f'[ {bounds.get_time_min()} : {bounds.get_time_max()} ]')
             raise FileNotFoundError('No ECMWF Wave files found within specified time range!')
-        data = xr.concat(data_array,'time')
+        data = xr.concat(data_array,'time').sortby('time')
         
         # Extract just SWH
         data = data['swh'].to_dataset()
-- 
2.43.0


From 48c5b6379551c142dd23cb8231e5e64f772c653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:20 +0000
Subject: [PATCH 26/78] fix: magnitude of gridded vectors whose variables have
 another order of dimensions

---
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index ac74079..ca457af 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -212,10 +212,10 @@ class VectorDataLoader(DataLoaderInterface):
                 Same as parent method
             '''
             x, y = names
-            data['_magnitude'] = (data.dims, 
+            data['_magnitude'] = (data[x].dims, 
                                   np.linalg.norm([data[x].data, data[y].data], 
                                                  axis=0))
-            data['_direction'] = (data.dims, 
+            data['_direction'] = (data[x].dims, 
                                   np.arctan2(data[y].data, data[x].data))
             return data
         
-- 
2.43.0


From ec4e32708070ee8b48ba51cfcc53f0b7716f97ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:20 +0000
Subject: [PATCH 27/78] fix: load currents given in several files

---
 meshiphi/dataloaders/vector/baltic_current.py    | 2 +-
 meshiphi/dataloaders/vector/north_sea_current.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/baltic_current.py b/meshiphi/dataloaders/vector/baltic_current.py
index a6953dd..7d904cf 100644
--- a/meshiphi/dataloaders/vector/baltic_current.py
+++ b/meshiphi/dataloaders/vector/baltic_current.py
@@ -22,7 +22,7 @@ class BalticCurrentDataLoader(VectorDataLoader):
         """
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
 
         # Reduce and drop unused depth dimension
         data = data.isel(depth=0)
diff --git a/meshiphi/dataloaders/vector/north_sea_current.py b/meshiphi/dataloaders/vector/north_sea_current.py
index 5396f28..c5030d6 100644
--- a/meshiphi/dataloaders/vector/north_sea_current.py
+++ b/meshiphi/dataloaders/vector/north_sea_current.py
@@ -21,7 +21,7 @@ class NorthSeaCurrentDataLoader(VectorDataLoader):
         '''
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
-        else:                       data = xr.open_mfdataset(self.files)
+        else:                       data = xr.open_mfdataset(self.files).compute()
         # Change column names
         data = data.rename({'lon': 'long',
                             'times': 'time',
-- 
2.43.0


From e764ecddc2e6dbd6a815459ff9473638142bcec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:20 +0000
Subject: [PATCH 28/78] fix: default data name of GeoJSON and shapefile sources

---
 meshiphi/dataloaders/lut/lut_geojson.py   | 2 +-
 meshiphi/dataloaders/lut/lut_shapefile.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/lut_geojson.py b/meshiphi/dataloaders/lut/lut_geojson.py
index 548fe81..3f61d60 100644
--- a/meshiphi/dataloaders/lut/lut_geojson.py
+++ b/meshiphi/dataloaders/lut/lut_geojson.py
@@ -28,7 +28,7 @@ class LutGeoJSON(LutDataLoader):
         params = super().add_default_params(params)
         
         # Name of data being read in from GeoJSONs
-        if 'data_name' not in params:
+        if params['data_name'] is None:
             params['data_name'] = 'dummy_data'
             
         return params
diff --git a/meshiphi/dataloaders/lut/lut_shapefile.py b/meshiphi/dataloaders/lut/lut_shapefile.py
index 852e5b2..a27ebd1 100644
--- a/meshiphi/dataloaders/lut/lut_shapefile.py
+++ b/meshiphi/dataloaders/lut/lut_shapefile.py
@@ -28,7 +28,7 @@ class LutShapefile(LutDataLoader):
         params = super().add_default_params(params)
         
         # Name of data being read in from GeoJSONs
-        if 'data_name' not in params:
+        if params['data_name'] is None:
             params['data_name'] = 'dummy_data'
             
         return params
-- 
2.43.0


From 5d667ca853f000560f625cdca1daf38a16a51c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:20 +0000
Subject: [PATCH 29/78] fix: ice thickness has one value per day, that of its
 own month

---
 meshiphi/dataloaders/lut/thickness.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/lut/thickness.py b/meshiphi/dataloaders/lut/thickness.py
index a609656..10323a8 100644
--- a/meshiphi/dataloaders/lut/thickness.py
+++ b/meshiphi/dataloaders/lut/thickness.py
@@ -111,12 +111,11 @@ class ThicknessDataLoader(LutDataLoader):
             if intersection.geom_type in ['Polygon', 'MultiPolygon'] and \
                intersection != Polygon():
                     
-                region_df = pd.concat([
-                        pd.DataFrame({'time': dates,
-                                      'geometry': region.geometry & bounds_polygon,
-                                      'thickness': region.get_value(month)})
-                        for month in dates.month
-                    ])
+                region_df = pd.DataFrame(
+                        {'time': dates,
+                         'geometry': intersection,
+                         'thickness': [region.get_value(month) 
+                                       for month in dates.month]})
                 
                 thickness_df = pd.concat([thickness_df, region_df])
                 
-- 
2.43.0


From c8e5a34732a09d75b3a92561c0331b3a6ef1f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 30/78] fix: keep polygons of the same time apart when checking
 a look-up table

---
 meshiphi/dataloaders/lut/abstract_lut.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ec8f987..f9de9e7 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -148,14 +148,15 @@ class LutDataLoader(DataLoaderInterface):
         # List of rows to include in cleaned dataframe
         new_data = []
         # For each entry
-        for index, row in data.iterrows():
+        # (selected by position, as the same time may index several entries)
+        for i, (_, row) in enumerate(data.iterrows()):
             # Add row if Polygon
             if row.geometry.geom_type == 'Polygon':
-                new_data.append(data.loc[[index]])
+                new_data.append(data.iloc[[i]])
             # Split out multipolygons to single polygons, and add rows
             elif row.geometry.geom_type == 'MultiPolygon':
                 polygons = list(row.geometry.geoms)
-                new_df = pd.concat([data.loc[[index]]]*len(polygons))
+                new_df = pd.concat([data.iloc[[i]]]*len(polygons))
                 new_df['geometry'] = polygons
                 new_data.append(new_df)
             # Otherwise, geometry not usable
-- 
2.43.0


From 432c67632cd61db84e866dc10aafce714fce0a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 31/78] fix: weight each polygon of a look-up table by its own
 area inside the cell

---
 meshiphi/dataloaders/lut/abstract_lut.py | 25 ++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index f9de9e7..723114c 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -250,6 +250,12 @@ class LutDataLoader(DataLoaderInterface):
             ValueError: aggregation type not in list of available methods
         '''
         polygons = self.trim_datapoints(bounds, data=data)
+        # Fraction of bounds covered by each polygon
+        polygons = polygons.assign(
+            weights=[self.calculate_coverage(bounds, pd.Series([geometry]))
+                     for geometry in polygons['geometry']])
+        # Polygons that only touch bounds have nothing inside it
+        polygons = polygons[polygons['weights'] > 0]
         logging.debug(f"\t{len(polygons)} polygons found for attribute " + \
                       f"'{self.data_name}' within bounds '{bounds}'")
         
@@ -274,23 +280,22 @@ class LutDataLoader(DataLoaderInterface):
             # Skipna not easily parsed to remaining calculations, so force it here
             if skipna: polygons = polygons.dropna()
             # Mean, median, and std dev need to be weighted by size of polygons
-            polygons = polygons.assign(weights=lambda row: 
-                                        self.calculate_coverage(bounds, 
-                                                                row['geometry']))
             if agg_type == 'MEAN':
                 ret_val = np.average(polygons[self.data_name], 
                                 weights=polygons['weights'])
             
             elif agg_type == 'MEDIAN':
-                # Chunk by cumulative weight
-                polygons['cumulative_weights'] = polygons['weights'].cumsum(
-                                                                    skipna=skipna)
+                # Chunk by cumulative weight, in order of value
+                polygons = polygons.sort_values(self.data_name)
+                cumulative_weights = polygons['weights'].cumsum()
                 # Find middle of cumulative weight
-                total_weight = polygons['weights'].sum(skipna=skipna)
-                median_pos = total_weight/2
+                median_pos = polygons['weights'].sum()/2
                 # Extract top half and return lowest value (value closest to halfway)
-                top_half = polygons.loc[polygons['cumulative_weights'] >= median_pos]
-                ret_val = top_half.iloc[0]
+                top_half = polygons.loc[cumulative_weights >= median_pos, 
+                                        self.data_name]
+                # NaN's have no order, so can only be propagated
+                if not polygons[self.data_name].isna().any():
+                    ret_val = top_half.iloc[0]
             
             elif agg_type == 'STD':
                 # Calculate std dev manually to account for weight
-- 
2.43.0


From 3217beebf047039a469ddd6d2803755cd43384e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 32/78] fix: split only cells that a polygon's edge passes
 through; split_lock is optional

---
 meshiphi/dataloaders/lut/abstract_lut.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 723114c..39a602a 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -343,11 +343,13 @@ class LutDataLoader(DataLoaderInterface):
         hom_type = 'CLR'
         # If there's no polygon that overlaps with bounds        
         if not any([polygon.intersects(bounds_polygon) for polygon in polygons]):
-            if splitting_conds['split_lock'] == True: 
+            if splitting_conds.get('split_lock', False): 
                 hom_type = "HOM"
         # If we want to split on the boundary
         elif splitting_conds['boundary']:
-            if any(p.boundary.intersects(bounds_polygon) for p in polygons):
+            # Edges have to go through bounds, rather than just along its border
+            if any(p.boundary.intersects(bounds_polygon) and
+                   not p.boundary.touches(bounds_polygon) for p in polygons):
                 hom_type = 'HET'
             
         # Otherwise no boundaries intersected bounds
-- 
2.43.0


From dda2317f017f1e8dd9f109ec895a54be626fb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:31 +0000
Subject: [PATCH 33/78] fix: rename the column of a look-up table

---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 39a602a..ba04639 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -406,7 +406,7 @@ class LutDataLoader(DataLoaderInterface):
         old_name = self.get_data_col_name()
         if old_name != new_name:
             logging.info(f"\tChanging data name from {old_name} to {new_name}")
-            return self.data.rename({old_name:new_name})
+            return self.data.rename(columns={old_name:new_name})
         else:
             logging.info(f"\tData is already labelled '{new_name}'")
             return self.data
-- 
2.43.0


From 8ff0dd80bf40d139f661ae0067a79a3ae08e5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:39 +0000
Subject: [PATCH 34/78] fix: meshes do not share their neighbour graph with the
 builder

---
 meshiphi/mesh_generation/mesh_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 73f933b..4a6fd16 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -16,6 +16,7 @@ Example:
 
 """
 
+import copy
 import logging
 import math
 import numpy as np
@@ -626,7 +627,7 @@ class MeshBuilder:
                 agg_cellboxes.append(cellbox.aggregate())
 
         env_mesh = EnvironmentMesh(self.mesh.get_bounds(
-        ), agg_cellboxes, self.neighbour_graph, self.get_config())
+        ), agg_cellboxes, copy.deepcopy(self.neighbour_graph), self.get_config())
 
         return env_mesh
 
-- 
2.43.0


From 51947bcd6f4007a303ee83f5fd3faac9db3903f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:39 +0000
Subject: [PATCH 35/78] fix: sources added to a builder give each cell its own
 data, and return the builder

---
 meshiphi/mesh_generation/mesh_builder.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 4a6fd16..77eaede 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -297,6 +297,8 @@ class MeshBuilder:
             bounds = Boundary.from_json(self.config)
         
         logging.debug('Adding dataloader')
+        if 'min_dp' not in params:
+            params['min_dp'] = min_dp
         dataloader = Dataloader(bounds, params)
         updated_splitting_cond = []
         if 'splitting_conditions' in params:
@@ -308,17 +310,23 @@ class MeshBuilder:
         value_fill_type = self.check_value_fill_type(data_source)
         
         meta_data_obj = Metadata(
-            dataloader, updated_splitting_cond,  value_fill_type)
+            dataloader, updated_splitting_cond,  value_fill_type, dataloader.data)
         
+        updated_cellboxes = set()
         for cellbox in self.mesh.cellboxes:
-            if isinstance(cellbox, CellBox):
+            # Cellboxes may be filled with values of their parents, so add to those too
+            while isinstance(cellbox, CellBox) and id(cellbox) not in updated_cellboxes:
+                updated_cellboxes.add(id(cellbox))
                 cellbox.set_minimum_datapoints(min_dp)
-                # Add new meta data to list of data sources per cellbox
+                # Add new meta data to list of data sources per cellbox, limited
+                # to the data within it
                 cellbox.set_data_source(
-                    cellbox.get_data_source() + [meta_data_obj]
+                    cellbox.get_data_source() + 
+                    self.initialize_meta_data_subsets(cellbox.bounds, [meta_data_obj])
                 )
+                cellbox = cellbox.get_parent()
 
-        
+        return self
 
     def validate_bounds(self, bounds, cell_width, cell_height):
         assert (bounds.get_long_max() - bounds.get_long_min()) % 360 % cell_width == 0, \
-- 
2.43.0


From 259ef65f7594016a5eaf56b01de7ed5a678df3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:27 +0000
Subject: [PATCH 36/78] fix: choose the newest ECMWF forecast by date, whatever
 folders the files lie in

---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index f337c30..a5f7550 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -54,8 +54,8 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
         start_time = datetime.strptime(bounds.get_time_min(), '%Y-%m-%d')
         end_time   = datetime.strptime(bounds.get_time_max(), '%Y-%m-%d')
         
-        # Go through reverse alphabetical list until date < start_date found 
-        self.files = sorted(self.files, reverse=True)
+        # Go from newest to oldest until date < start_date found
+        self.files = sorted(self.files, key=extract_base_date, reverse=True)
         for file in self.files:
             base_date = extract_base_date(file)
             if  base_date < start_time:
-- 
2.43.0


From a2797b7e4e02ccd8b490b973b28cccc88ca7aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:41 +0000
Subject: [PATCH 37/78] fix: rectangle without a height fell over and lost its
 width

The default for a missing 'height' was written to 'width'.
---
 meshiphi/dataloaders/scalar/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index 32cf6f8..a40d45d 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -47,7 +47,7 @@ class ShapeDataLoader(ScalarDataLoader):
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-- 
2.43.0


From 876dc4bb3dcebd9dd142aa941aa9371c5c4038ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:41 +0000
Subject: [PATCH 38/78] fix: vector shapes never received their default
 parameters

The defaults were keyed on the scalar shapes' names and the multipliers
were written to a parameter that is not read.
---
 meshiphi/dataloaders/vector/vector_shape.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 2948677..89d40ef 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -32,26 +32,26 @@ class VectorShapeDataLoader(VectorDataLoader):
 
         # Scaling factor to multiply data points by
         if 'multiplier_u' not in params:
-            params['multiplier'] = 1
+            params['multiplier_u'] = 1
         if 'multiplier_v' not in params:
-            params['multiplier'] = 1
+            params['multiplier_v'] = 1
 
         # Define default circle parameters
-        if params['dataloader_name'] == 'circle':
+        if params['dataloader_name'] == 'vector_circle':
             if 'radius' not in params:
                 params['radius'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default rectangle parameters
-        elif params['dataloader_name'] == 'rectangle':
+        elif params['dataloader_name'] == 'vector_rectangle':
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-        elif params['dataloader_name'] == 'gradient':
+        elif params['dataloader_name'] == 'vector_gradient':
             if 'vertical' not in params:
                 params['vertical'] = True
 
-- 
2.43.0


From 293c43c93aa37a8279a2dc2cbcd33e5d6629cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:41 +0000
Subject: [PATCH 39/78] fix: a shape's centre on the equator or Greenwich was
 taken for unset

---
 meshiphi/dataloaders/scalar/shape.py        | 8 ++++----
 meshiphi/dataloaders/vector/vector_shape.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index a40d45d..88f07b0 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -112,8 +112,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny/2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx/2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny/2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx/2)] if self.centre[1] is None else self.centre[1]
         
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(), 
@@ -251,8 +251,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(),
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 89d40ef..d09f762 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -161,8 +161,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
@@ -217,8 +217,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
-- 
2.43.0


From 774a9539850cc529a4f0f10f85a9675ced85951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:11 +0000
Subject: [PATCH 40/78] fix: vector GRF ignored the documented names vec_x and
 vec_y

---
 meshiphi/dataloaders/vector/vector_grf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/vector_grf.py b/meshiphi/dataloaders/vector/vector_grf.py
index 68648af..e295c9d 100644
--- a/meshiphi/dataloaders/vector/vector_grf.py
+++ b/meshiphi/dataloaders/vector/vector_grf.py
@@ -34,7 +34,8 @@ class VectorGRFDataLoader(VectorDataLoader):
             params['alpha'] = 3
         # Column/variable names
         if params['data_name'] is None:
-            params['data_name'] = 'uC,vC'
+            params['data_name'] = ','.join([params.get('vec_x', 'uC'),
+                                            params.get('vec_y', 'vC')])
         if 'vec_x' not in params:
             params['vec_x'] = params['data_name'].split(',')[0]
         if 'vec_y' not in params:
-- 
2.43.0


From b82df3c6d06c8db4e01a32cceed9e677a049d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:58 +0000
Subject: [PATCH 41/78] fix: synthetic data were laid the wrong way round the
 globe in regions across the antimeridian

---
 meshiphi/dataloaders/scalar/scalar_grf.py   |  5 ++--
 meshiphi/dataloaders/scalar/shape.py        | 21 ++++++++++-----
 meshiphi/dataloaders/vector/vector_grf.py   |  5 ++--
 meshiphi/dataloaders/vector/vector_shape.py | 19 ++++++++++----
 meshiphi/utils.py                           | 29 +++++++++++++++++++++
 5 files changed, 64 insertions(+), 15 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/scalar_grf.py b/meshiphi/dataloaders/scalar/scalar_grf.py
index 74640e5..06d9165 100644
--- a/meshiphi/dataloaders/scalar/scalar_grf.py
+++ b/meshiphi/dataloaders/scalar/scalar_grf.py
@@ -1,5 +1,5 @@
 from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
-from meshiphi.utils import gaussian_random_field
+from meshiphi.utils import gaussian_random_field, unwrapped_long_max, wrap_long
 
 import logging
 import pandas as pd
@@ -121,8 +121,9 @@ class ScalarGRFDataLoader(ScalarDataLoader):
                                 bounds.get_lat_max(), 
                                 self.size)
         long_array = np.linspace(bounds.get_long_min(), 
-                                 bounds.get_long_max(), 
+                                 unwrapped_long_max(bounds), 
                                  self.size)
+        long_array = wrap_long(long_array)
         latv, longv = np.meshgrid(lat_array, long_array, indexing='ij')
 
         # Create an entry for each row in final dataframe
diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index 88f07b0..1b2fbcb 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -1,4 +1,5 @@
 from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
+from meshiphi.utils import unwrapped_long_max, wrap_long
 
 import logging
 import pandas as pd
@@ -92,6 +93,8 @@ class ShapeDataLoader(ScalarDataLoader):
                 f'Unknown abstract shape type: {self.dataloader_name}'
                 )
 
+        # Longitudes run beyond 180 if bounds cross the antimeridian
+        data['long'] = wrap_long(data['long'].to_numpy())
         data_xr = data.set_index(['lat', 'long']).to_xarray()
         # No need to trim data, as was defined by bounds
 
@@ -109,17 +112,20 @@ class ShapeDataLoader(ScalarDataLoader):
         # Generate rows
         self.lat = np.linspace(bounds.get_lat_min(), bounds.get_lat_max(), self.ny)
         # Generate cols
-        self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        self.long = np.linspace(bounds.get_long_min(), unwrapped_long_max(bounds), self.nx)
 
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny/2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx/2)] if self.centre[1] is None else self.centre[1]
+        # Centre east of the antimeridian, in bounds that cross it
+        if c_x < bounds.get_long_min() and bounds.get_long_max() < bounds.get_long_min():
+            c_x = c_x + 360
         
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(), 
                                   bounds.get_lat_max(), 
                                   self.ny))
-        x = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        x = np.linspace(bounds.get_long_min(), unwrapped_long_max(bounds), self.nx)
 
         logging.info("\tCreating mask of circle")
         # Create a 2D-array with distance from defined centre
@@ -163,7 +169,7 @@ class ShapeDataLoader(ScalarDataLoader):
                                self.ny)
         # Generate cols
         self.long = np.linspace(bounds.get_long_min(),
-                                bounds.get_long_max(),
+                                unwrapped_long_max(bounds),
                                 self.nx)
         
         logging.info("\tCreating gradient of values")
@@ -207,7 +213,7 @@ class ShapeDataLoader(ScalarDataLoader):
                                self.ny, endpoint=False)
         # Generate cols
         self.long = np.linspace(bounds.get_long_min(),
-                                bounds.get_long_max(),
+                                unwrapped_long_max(bounds),
                                 self.nx, endpoint=False)
 
         logging.info("- Creating series of 0's and 1's for lat/long")
@@ -248,17 +254,20 @@ class ShapeDataLoader(ScalarDataLoader):
         # Generate rows
         self.lat = np.linspace(bounds.get_lat_min(), bounds.get_lat_max(), self.ny)
         # Generate cols
-        self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        self.long = np.linspace(bounds.get_long_min(), unwrapped_long_max(bounds), self.nx)
 
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
+        # Centre east of the antimeridian, in bounds that cross it
+        if c_x < bounds.get_long_min() and bounds.get_long_max() < bounds.get_long_min():
+            c_x = c_x + 360
 
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(),
                                   bounds.get_lat_max(),
                                   self.ny))
-        x = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        x = np.linspace(bounds.get_long_min(), unwrapped_long_max(bounds), self.nx)
 
         logging.info("\tCreating mask of a rectangle")
         # Create a 2D-array with distance along cartesian axes from defined centre
diff --git a/meshiphi/dataloaders/vector/vector_grf.py b/meshiphi/dataloaders/vector/vector_grf.py
index e295c9d..770cb41 100644
--- a/meshiphi/dataloaders/vector/vector_grf.py
+++ b/meshiphi/dataloaders/vector/vector_grf.py
@@ -1,5 +1,5 @@
 from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
-from meshiphi.utils import gaussian_random_field
+from meshiphi.utils import gaussian_random_field, unwrapped_long_max, wrap_long
 
 import logging
 import pandas as pd
@@ -89,8 +89,9 @@ class VectorGRFDataLoader(VectorDataLoader):
                                 bounds.get_lat_max(), 
                                 self.size)
         long_array = np.linspace(bounds.get_long_min(), 
-                                 bounds.get_long_max(), 
+                                 unwrapped_long_max(bounds), 
                                  self.size)
+        long_array = wrap_long(long_array)
         latv, longv = np.meshgrid(lat_array, long_array, indexing='ij')
 
         # Create an entry for each row in final dataframe
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index d09f762..100d858 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -1,4 +1,5 @@
 from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
+from meshiphi.utils import unwrapped_long_max, wrap_long
 
 import logging
 import pandas as pd
@@ -85,6 +86,8 @@ class VectorShapeDataLoader(VectorDataLoader):
                 f'Unknown vector shape type: {self.dataloader_name}'
                 )
 
+        # Longitudes run beyond 180 if bounds cross the antimeridian
+        data['long'] = wrap_long(data['long'].to_numpy())
         data_xr = data.set_index(['lat', 'long']).to_xarray()
         # No need to trim data, as was defined by bounds
 
@@ -105,7 +108,7 @@ class VectorShapeDataLoader(VectorDataLoader):
                                self.ny)
         # Generate cols
         self.long = np.linspace(bounds.get_long_min(),
-                                bounds.get_long_max(),
+                                unwrapped_long_max(bounds),
                                 self.nx)
 
         logging.info("\tCreating gradient of values")
@@ -158,17 +161,20 @@ class VectorShapeDataLoader(VectorDataLoader):
         # Generate rows
         self.lat = np.linspace(bounds.get_lat_min(), bounds.get_lat_max(), self.ny)
         # Generate cols
-        self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        self.long = np.linspace(bounds.get_long_min(), unwrapped_long_max(bounds), self.nx)
 
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
+        # Centre east of the antimeridian, in bounds that cross it
+        if c_x < bounds.get_long_min() and bounds.get_long_max() < bounds.get_long_min():
+            c_x = c_x + 360
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
                                   bounds.get_lat_max(),
                                   self.ny))
-        x = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        x = np.linspace(bounds.get_long_min(), unwrapped_long_max(bounds), self.nx)
 
         logging.info("\tCreating mask of circle")
         # Create a 2D-array with distance from defined centre
@@ -214,17 +220,20 @@ class VectorShapeDataLoader(VectorDataLoader):
         # Generate rows
         self.lat = np.linspace(bounds.get_lat_min(), bounds.get_lat_max(), self.ny)
         # Generate cols
-        self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        self.long = np.linspace(bounds.get_long_min(), unwrapped_long_max(bounds), self.nx)
 
         # Set centre as centre of data_grid if none specified
         c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
         c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
+        # Centre east of the antimeridian, in bounds that cross it
+        if c_x < bounds.get_long_min() and bounds.get_long_max() < bounds.get_long_min():
+            c_x = c_x + 360
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
                                   bounds.get_lat_max(),
                                   self.ny))
-        x = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
+        x = np.linspace(bounds.get_long_min(), unwrapped_long_max(bounds), self.nx)
 
         logging.info("\tCreating mask of a rectangle")
         # Create a 2D-array with distance along cartesian axes from defined centre
diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 5ddb0d6..5ba48bd 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -196,6 +196,35 @@ def fftind(size):
     return k_ind
 
 
+def unwrapped_long_max(bounds):
+    """
+    Eastern edge of a boundary, as a longitude that is never west of its 
+    western edge, i.e. beyond 180 if the boundary crosses the antimeridian
+
+    Args:
+        bounds (Boundary): Limits of lat/long
+
+    Returns:
+        float: Longitude of the eastern edge
+    """
+    if bounds.get_long_max() < bounds.get_long_min():
+        return bounds.get_long_max() + 360
+    return bounds.get_long_max()
+
+
+def wrap_long(longs):
+    """
+    Brings longitudes beyond 180 back into the range [-180, 180]
+
+    Args:
+        longs (np.array): Longitudes up to 540 degrees
+
+    Returns:
+        np.array: The same longitudes, none of them above 180
+    """
+    return np.where(longs > 180, longs - 360, longs)
+
+
 def gaussian_random_field(size, alpha):
     """
     Creates a gaussian random field with normal (circular) distribution
-- 
2.43.0


From 1f54a917f9b8e9adf53288234e41893d47e2600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 42/78] fix: read the date of an IceNet file from its name, not
 from folders with a dot

---
 meshiphi/dataloaders/scalar/icenet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/icenet.py b/meshiphi/dataloaders/scalar/icenet.py
index 596f639..7cf224f 100644
--- a/meshiphi/dataloaders/scalar/icenet.py
+++ b/meshiphi/dataloaders/scalar/icenet.py
@@ -3,6 +3,7 @@ from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
 import logging
 
 from datetime import datetime, timedelta
+from os.path import basename
 
 import xarray as xr
 from pandas import to_timedelta
@@ -30,7 +31,7 @@ class IceNetDataLoader(ScalarDataLoader):
             Assumes file names are in the format 
             <hemisphere>_daily_forecast.<YYYY-MM-DD>.nc
             '''
-            return datetime.strptime(filename.split('.')[1], '%Y-%m-%d')
+            return datetime.strptime(basename(filename).split('.')[1], '%Y-%m-%d')
         
         # Convert temporal boundary to datetime objects for comparison
         max_time = datetime.strptime(bounds.get_time_max(), '%Y-%m-%d')
-- 
2.43.0


From beee4727c9a35e22b1b3c49d2beeb8d221ac5d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:13 +0000
Subject: [PATCH 43/78] fix: full mesh validation counted data on shared edges
 twice and missed cells across the antimeridian

---
 meshiphi/mesh_validation/full_mesh_validator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/meshiphi/mesh_validation/full_mesh_validator.py b/meshiphi/mesh_validation/full_mesh_validator.py
index bf65eef..4cb2a51 100644
--- a/meshiphi/mesh_validation/full_mesh_validator.py
+++ b/meshiphi/mesh_validation/full_mesh_validator.py
@@ -127,7 +127,13 @@ class FullMeshValidator:
         raw_slice: DataFrame containing slice of data
         """
 
-        raw_slice = self.source_data[self.source_data['lat'].between(bounds.lat_range[0], bounds.lat_range[1])]
-        raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1])]
-    
-        return raw_slice
+        lat, long = self.source_data['lat'], self.source_data['long']
+        # Lower edges belong to the neighbouring cellboxes, as when data is trimmed to a cellbox
+        mask = (lat > bounds.get_lat_min()) & (lat <= bounds.get_lat_max())
+        if bounds.get_long_min() < bounds.get_long_max():
+            mask &= (long > bounds.get_long_min()) & (long <= bounds.get_long_max())
+        # Otherwise cellbox crosses the antimeridian
+        else:
+            mask &= (long > bounds.get_long_min()) | (long <= bounds.get_long_max())
+
+        return self.source_data[mask].copy()
-- 
2.43.0


From 3e842de8359123732554151a07078372433e4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:29 +0000
Subject: [PATCH 44/78] fix: neighbour graph comparison reported several
 mismatched cellboxes side by side instead of as rows

---
 meshiphi/mesh_validation/mesh_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index ded8c09..3b99e62 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -214,7 +214,7 @@ class MeshComparator:
                     mismatched_rows += [cellbox_row]
         # If there were mismatched rows
         if mismatched_rows:
-            mismatched_df = pd.concat(mismatched_rows, axis=1)
+            mismatched_df = pd.concat(mismatched_rows)
             mismatched_df.index.name = 'geometry'
         # Otherise, create an empty dataframe
         else:
-- 
2.43.0


From 9c6a1ca475c847dc32e313a91ff35479d11bb56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:29 +0000
Subject: [PATCH 45/78] fix: comparing equal meshes by id failed instead of
 reporting no differences

---
 meshiphi/mesh_validation/mesh_comparator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index 3b99e62..1f2129d 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -28,7 +28,8 @@ class MeshComparator:
         if return_type in ['cellboxes', 'cb']:
             return df['cellboxes']
         elif return_type in ['id']:
-            return df['id']
+            # No columns if there are no differences
+            return df['id'] if 'id' in df else pd.Series(dtype=object, name='id')
         elif return_type in ['dataframe', 'df']:
             return df
     
-- 
2.43.0


From 33b30c6778bae7176b4505dc218ff9111c95c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:29 +0000
Subject: [PATCH 46/78] fix: mesh validation failed when the first cellbox had
 been split

---
 meshiphi/mesh_validation/mesh_validator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 039fdc6..712dc6c 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -85,7 +85,7 @@ class MeshValidator:
         lat_range = [sample[0] , lat_end]
         long_range = [sample[1] , long_end ]
         time_range = self.mesh.get_bounds().get_time_range()
-        for source in self.mesh.cellboxes[0].get_data_source():
+        for source in self.get_data_sources():
             data_loader = source.get_data_loader() 
             data_name = data_loader.get_data_col_name()
             dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
@@ -93,6 +93,12 @@ class MeshValidator:
         logging.info("values from data are: {}".format(' '.join(map(str, values))))
         return values
 
+    def get_data_sources(self):
+        """
+            returns the data sources of the mesh, held by each of its cellboxes (the ones that were split are None)
+        """
+        return next(cellbox for cellbox in self.mesh.cellboxes if cellbox is not None).get_data_source()
+
     def get_range_end(self, sample):
         """
             calculates the range end of the provided sample lat and long, claculation is based on the specified validation_length
@@ -129,7 +135,7 @@ class MeshValidator:
             time_range = self.mesh.get_bounds().get_time_range()
 
         
-            for source in self.mesh.cellboxes[0].get_data_source():
+            for source in self.get_data_sources():
                 data_loader = source.get_data_loader()
                 dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
                 
-- 
2.43.0


From bde7a82f619ff7abdf9a355136e9e3e609e4e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:56 +0000
Subject: [PATCH 47/78] fix: mesh validation failed on data points on cellbox
 edges and on missing values

---
 meshiphi/mesh_validation/mesh_validator.py | 55 ++++++++++++----------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 712dc6c..8accff8 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -80,18 +80,30 @@ class MeshValidator:
                 a numpy array that contains all the data within the sampled lat and long range
         """
         values =[]
+        for data_loader, dp in self.get_datapoints(sample):
+            values = np.append (values , dp[data_loader.data_name])
+        logging.info("values from data are: {}".format(' '.join(map(str, values))))
+        return values
+
+    def get_datapoints(self, sample):
+        """
+            gets the data points within the sampled lat and long range, for each of the data loaders
+            Args:
+              sample (float[]): a decimal array contains the sampled lat and long values
+            Returns:
+                list of pairs of a data loader and a dataframe that contains its data points (without missing values)
+        """
         #calculate the sampling range based on the validation length
         lat_end, long_end = self.get_range_end(sample)
-        lat_range = [sample[0] , lat_end]
-        long_range = [sample[1] , long_end ]
-        time_range = self.mesh.get_bounds().get_time_range()
+        bounds = Boundary ([sample[0] , lat_end] , [sample[1] , long_end ] , self.mesh.get_bounds().get_time_range())
+        datapoints = []
         for source in self.get_data_sources():
-            data_loader = source.get_data_loader() 
-            data_name = data_loader.get_data_col_name()
-            dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
-            values = np.append (values , dp[data_name])
-        logging.info("values from data are: {}".format(' '.join(map(str, values))))
-        return values
+            data_loader = source.get_data_loader()
+            dp = data_loader.trim_datapoints(bounds)
+            if type(dp) == xr.core.dataset.Dataset:
+                dp = dp.to_dataframe().reset_index()
+            datapoints.append ((data_loader , dp.dropna(subset=[data_loader.data_name])))
+        return datapoints
 
     def get_data_sources(self):
         """
@@ -128,26 +140,21 @@ class MeshValidator:
             """
             #TODO make sure to handle the vector data
             values = []
-            #calculate the sampling range based on the validation length
-            lat_end, long_end = self.get_range_end(sample)
-            lat_range = [sample[0] , lat_end]
-            long_range = [sample[1] , long_end ]
-            time_range = self.mesh.get_bounds().get_time_range()
-
-        
-            for source in self.get_data_sources():
-                data_loader = source.get_data_loader()
-                dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
-                
-                if type(dp) == xr.core.dataset.Dataset:
-                    dp = dp.to_dataframe().reset_index()
+            for data_loader, dp in self.get_datapoints(sample):
                 for index, point in dp.iterrows():
                     lat = point ['lat']
                     long = point ['long']
                     for agg_cellbox in self.env_mesh.agg_cellboxes:
-                        if agg_cellbox.contains_point(lat , long):
+                        # a data point on an edge belongs to the cellbox below or to the left of it
+                        bounds = agg_cellbox.get_bounds()
+                        in_lat = bounds.get_lat_min() < lat <= bounds.get_lat_max()
+                        if bounds.get_long_min() < bounds.get_long_max():
+                            in_long = bounds.get_long_min() < long <= bounds.get_long_max()
+                        else:
+                            in_long = long > bounds.get_long_min() or long <= bounds.get_long_max()
+                        if in_lat and in_long:
                             values = np.append ( values , agg_cellbox.agg_data [data_loader.data_name] )#get the agg_value 
-                            break  # break to make sure we avoid getting multiple values (for lat and long on bounds of multiple cellboxes)
+                            break
             logging.info("values from mesh are: {}".format(' '.join(map(str, values))))
          
             return values
-- 
2.43.0


From f5e41f01a15635fc2b99e4fac5e88905ff73b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:56 +0000
Subject: [PATCH 48/78] fix: mesh validation sampled the wrong longitudes in
 regions across the antimeridian

---
 meshiphi/mesh_validation/mesh_validator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 8accff8..909081e 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -12,6 +12,7 @@ import logging
 from meshiphi.mesh_generation.boundary import Boundary
 from sklearn.metrics import mean_squared_error
 import xarray as xr
+from meshiphi.utils import longitude_domain
 class MeshValidator:
 
     """
@@ -59,7 +60,9 @@ class MeshValidator:
         SAMPLE_DIM = 2  # each sample contains lat and long
     
         bounds = self.mesh.get_bounds()
-        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , bounds.long_range])
+        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , [bounds.get_long_min() , bounds.get_long_min() + bounds.get_width()]])
+        # longitudes continue beyond 180 in a mesh across the antimeridian
+        samples[:, 1] = longitude_domain(samples[:, 1])
         # compare the sampled lat and long values in data_file to the values obtained by mesh ( agg_values returned by  get_value)
         actual_value = np.array([])
         mesh_value = np.array([])
@@ -120,12 +123,13 @@ class MeshValidator:
                 float[]: lat and long range end
         """
         lat_end = sample[0] + self.validation_length
-        long_end = sample[1] + self.validation_length
+        # distance from the western edge, as longitudes may be on either side of the antimeridian
+        bounds = self.mesh.get_bounds()
+        long_end = (sample[1] - bounds.get_long_min()) % 360 + self.validation_length
         # make sure we are not exceeding the mesh bounds
         if lat_end > self.mesh.get_bounds().get_lat_max():
             lat_end = self.mesh.get_bounds().get_lat_max()
-        if long_end > self.mesh.get_bounds().get_long_max():
-            long_end = self.mesh.get_bounds().get_long_max()
+        long_end = longitude_domain(bounds.get_long_min() + min(long_end, bounds.get_width()))
         return lat_end,long_end
 
 
-- 
2.43.0


From 44a83d1bee09cf1dbb400f67ef843101604ace7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:45 +0000
Subject: [PATCH 49/78] fix: GeoTIFF export scrambled the picture when the x
 and y resolutions differ

---
 meshiphi/mesh_generation/environment_mesh.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 0391bd8..e9954f9 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1280,14 +1280,14 @@ class EnvironmentMesh:
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
             mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
-            pixel_height = mesh_height / ncols
-            pixel_width = mesh_width / nlines
+            pixel_height = mesh_height / nlines
+            pixel_width = mesh_width / ncols
             samples = []
             # has to move in this direction as we start rendering from the upper left pixel
-            for lat in np.arange(self.bounds.get_lat_max(), self.bounds.get_lat_min(), -1*pixel_height):
-                for long in np.arange(self.bounds.get_long_min(), self.bounds.get_long_max(), pixel_width):
-                    pixel_lat = lat - 0.5 * pixel_height   # centeralize the pixel lat value
-                    pixel_long = long + 0.5*pixel_width   # centeralize the pixel long value
+            for line in range(nlines):
+                for col in range(ncols):
+                    pixel_lat = self.bounds.get_lat_max() - (line + 0.5) * pixel_height   # centeralize the pixel lat value
+                    pixel_long = self.bounds.get_long_min() + (col + 0.5) * pixel_width   # centeralize the pixel long value
                     samples = np.append(samples, pixel_lat)
                     samples = np.append(samples, pixel_long)
             # shape the samples in 2d array (each entry in the array holds sample lat and long
@@ -1434,9 +1434,9 @@ class EnvironmentMesh:
         data_name = params["data_name"]
         DEFAULT_PROJ = 4326
 
-        # Get image dimensions
-        nlines = params["sampling_resolution"][0]
-        ncols = params["sampling_resolution"][1]
+        # Get image dimensions (x resolution, then y resolution)
+        ncols = params["sampling_resolution"][0]
+        nlines = params["sampling_resolution"][1]
 
         # define image extent based on mesh bounds
         extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(
-- 
2.43.0


From 4d3b5e3da3092f1473a15cf1760c1fa7688a2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:45 +0000
Subject: [PATCH 50/78] fix: GeoTIFF export of a mesh across the antimeridian
 failed

---
 meshiphi/mesh_generation/environment_mesh.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index e9954f9..8c5ab91 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -14,6 +14,7 @@ from shapely import wkt
 from meshiphi.mesh_generation.boundary import Boundary
 from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
 from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
+from meshiphi.utils import longitude_domain
 
 
 from meshiphi.mesh_validation.sampler import Sampler
@@ -1279,7 +1280,7 @@ class EnvironmentMesh:
 
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
-            mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
+            mesh_width = self.bounds.get_width()
             pixel_height = mesh_height / nlines
             pixel_width = mesh_width / ncols
             samples = []
@@ -1289,7 +1290,7 @@ class EnvironmentMesh:
                     pixel_lat = self.bounds.get_lat_max() - (line + 0.5) * pixel_height   # centeralize the pixel lat value
                     pixel_long = self.bounds.get_long_min() + (col + 0.5) * pixel_width   # centeralize the pixel long value
                     samples = np.append(samples, pixel_lat)
-                    samples = np.append(samples, pixel_long)
+                    samples = np.append(samples, longitude_domain(pixel_long))
             # shape the samples in 2d array (each entry in the array holds sample lat and long
             samples = np.reshape(samples, (nlines * ncols, 2))
             return samples
@@ -1439,8 +1440,9 @@ class EnvironmentMesh:
         nlines = params["sampling_resolution"][1]
 
         # define image extent based on mesh bounds
+        # (longitudes continue beyond 180 in a mesh across the antimeridian)
         extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(
-        ), self.bounds.get_long_max(), self.bounds.get_lat_max()]
+        ), self.bounds.get_long_min() + self.bounds.get_width(), self.bounds.get_lat_max()]
 
         logging.info("Generating the tif image ...")
         samples = generate_samples()
-- 
2.43.0


From c16096c8d071e3d5a2fc8c6731d75f183dbb0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:45 +0000
Subject: [PATCH 51/78] fix: GeoTIFF export ignored the documented color_conf
 parameter

---
 meshiphi/mesh_generation/environment_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 8c5ab91..f2aac30 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1366,6 +1366,8 @@ class EnvironmentMesh:
                         params["data_name"] = input_params["data_name"]
                     if ("sampling_resolution" in input_params.keys()):
                         params["sampling_resolution"] = input_params["sampling_resolution"]
+                    if ("color_conf" in input_params.keys()):   # the documented spelling
+                        params["colour_conf"] = input_params["color_conf"]
                     if ("colour_conf" in input_params.keys()):
                         params["colour_conf"] = input_params["colour_conf"]
             return params
-- 
2.43.0


From b57709b3741345f07387b58ce20e2de971b47aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:20 +0000
Subject: [PATCH 52/78] fix: GeoTIFF export failed for paths with spaces and
 deleted files called grid_data beside its output

---
 meshiphi/mesh_generation/environment_mesh.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index f2aac30..d6c4dd6 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1417,17 +1417,7 @@ class EnvironmentMesh:
             os.close(fp)
             if "colour_conf" in params.keys():
                 color_file = params["colour_conf"]
-            cmd = "gdaldem color-relief " + input_file \
-                + ' ' + color_file + ' ' + input_file
-            subprocess.check_call(cmd, shell=True)
-            # remove additional files created while generating the tif
-            file_path = os.path.abspath(input_file)
-            dir_path = os.path.split(file_path)[0]
-            additional_files = ["grid_data" , "grid_data.aux.xml"]
-            for file in additional_files: 
-                file_path = Path(dir_path +"/"+ file)
-                if os.path.isfile (file_path):
-                     os.remove(file_path)
+            subprocess.check_call(["gdaldem", "color-relief", str(input_file), str(color_file), str(input_file)])
 
         # Only import if we need GDAL, to avoid having it as a requirement
         from osgeo import gdal, ogr, osr
@@ -1455,8 +1445,8 @@ class EnvironmentMesh:
         data = np.reshape(np.asarray([get_sample_value(
             sample) for sample in samples], dtype=np.float32), (nlines, ncols))
         # create a temp grid
-        grid_data = driver.Create(
-            'grid_data', ncols, nlines, 1, gdal.GDT_Float32)
+        grid_data = gdal.GetDriverByName('MEM').Create(
+            '', ncols, nlines, 1, gdal.GDT_Float32)
         # setup geo-transform
         grid_data.SetGeoTransform(get_geo_transform(extent, nlines, ncols))
         # Write data
@@ -1467,7 +1457,7 @@ class EnvironmentMesh:
     
 
         # Save the file
-        driver.CreateCopy(path, grid_data, 0)
+        driver.CreateCopy(str(path), grid_data, 0)
         transform_proj(path, params, DEFAULT_PROJ)
         set_colour(data, path, params)
         logging.info(f'Generated GeoTIFF: {path}')
-- 
2.43.0


From b8a035cc62374e9c7b6b773c837f2711148fc96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:20 +0000
Subject: [PATCH 53/78] fix: GeoTIFF export of a mesh without any value of the
 data failed

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index d6c4dd6..96b90d7 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1401,8 +1401,8 @@ class EnvironmentMesh:
             """
             fp, color_file = tempfile.mkstemp(suffix='.txt')
             data = data[~np.isnan(data)]  # get rid of the nans before calculating range
-            _max = np.nanmax(data)
-            _min = np.nanmin(data)
+            _max = np.max(data) if data.size > 0 else 0
+            _min = np.min(data) if data.size > 0 else 0
             _range = _max-_min
             inf_color = '255 0 0' # red color for inf value
             colors = ['255 255 255', '173 216 230', '0 0 128', '0 0 139']  # default color
-- 
2.43.0


From 6fc8b76e55067d1f28ca574d012cb1f497b93cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:59 +0000
Subject: [PATCH 54/78] fix: GeoTIFF export of data with an infinite value
 failed

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 96b90d7..f9b497f 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1319,8 +1319,8 @@ class EnvironmentMesh:
                         
                     if isinstance(value, collections.abc.Sequence): # if it is a vector then take the mean
                         value = np.mean (value)
-                        if value == float('inf') : # repalce inf with nan
-                            value = np.nan
+                    if value == float('inf') : # repalce inf with nan
+                        value = np.nan
                     # break to make sure we avoid getting multiple values (for lat and long on the bounds of multiple cellboxes)
                     break
             return value
-- 
2.43.0


From a19812bacb091a0998ad911a3db3435b76e6c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:59 +0000
Subject: [PATCH 55/78] fix: GeoTIFF export painted fractional data in a single
 default colour

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index f9b497f..262e635 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1408,9 +1408,9 @@ class EnvironmentMesh:
             colors = ['255 255 255', '173 216 230', '0 0 128', '0 0 139']  # default color
             with open(color_file, 'w') as f:
                 for i, c in enumerate(colors[:-1]):
-                    f.write(str(int(_min + (i + 1)*_range/len(colors))) +
+                    f.write(str(_min + (i + 1)*_range/len(colors)) +
                             ' ' + c + '\n')
-                f.write(str(int(_max - _range/len(colors))) +
+                f.write(str(_max - _range/len(colors)) +
                         ' ' + colors[-1] + '\n')
                 f.write (str(np.nan) +
                         ' ' + inf_color + '\n') # render nans in red
-- 
2.43.0


From f0c88cc0adf6766c56a72df6a95e266aae2f3c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:57 +0000
Subject: [PATCH 56/78] fix: PNG export of a mesh across the antimeridian
 failed

---
 meshiphi/mesh_plotting/mesh_plotter.py | 28 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index 4635489..f027b4c 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -24,13 +24,27 @@ class MeshPlotter:
 
         self.figscale = figscale
         
-        self.aspect_ratio = (self.long_max - self.long_min) / (self.lat_max - self.lat_min)
+        # The region crosses the antimeridian if it ends west of where it starts
+        self.width = self.long_max - self.long_min
+        if self.width <= 0:
+            self.width += 360
+        self.aspect_ratio = self.width / (self.lat_max - self.lat_min)
 
         self.fig = plt.figure(figsize=(self.figscale * self.aspect_ratio, self.figscale))
 
-        self.plot = plt.axes(projection=ccrs.PlateCarree())
-        self.plot.set_extent([self.long_min, self.long_max, self.lat_min, self.lat_max])
+        self.crs = ccrs.PlateCarree(central_longitude=self.long_min + self.width / 2)
+        self.plot = plt.axes(projection=self.crs)
+        self.plot.set_extent([-self.width / 2, self.width / 2, self.lat_min, self.lat_max], crs=self.crs)
 
+    def get_polygon(self, cellbox):
+        """
+        Returns the polygon of a cellbox in the coordinates of the plot (longitudes relative to its centre).
+        Args:
+            cellbox (dict): The cellbox, an entry of the mesh json file.
+        """
+        x = (cellbox['cx'] - self.long_min) % 360 - self.width / 2
+        y = cellbox['cy']
+        return shapely.box(x - cellbox['dcx'], y - cellbox['dcy'], x + cellbox['dcx'], y + cellbox['dcy'])
 
     def plot_bool(self, value_name, colour):
         """
@@ -40,9 +54,9 @@ class MeshPlotter:
             colour (str): The colour to plot the value in.
         """
         for cellbox in self.mesh_json['cellboxes']:
-            polygon = shapely.wkt.loads(cellbox['geometry'])
+            polygon = self.get_polygon(cellbox)
             if cellbox[value_name] == True:
-                self.plot.add_geometries([polygon], ccrs.PlateCarree(), facecolor=colour, alpha=1.0, edgecolor='darkslategrey')
+                self.plot.add_geometries([polygon], self.crs, facecolor=colour, alpha=1.0, edgecolor='darkslategrey')
 
     def plot_cmap(self, value_name, colourmap):
         """
@@ -63,8 +77,8 @@ class MeshPlotter:
 
             # normalise value
             normalized_value = (cellbox[value_name] - value_min) / value_diff
-            polygon = shapely.wkt.loads(cellbox['geometry'])
-            self.plot.add_geometries([polygon], ccrs.PlateCarree(), facecolor=cmap(normalized_value), alpha=1.0, edgecolor='darkslategrey')
+            polygon = self.get_polygon(cellbox)
+            self.plot.add_geometries([polygon], self.crs, facecolor=cmap(normalized_value), alpha=1.0, edgecolor='darkslategrey')
    
     def save(self, filename):
         """
-- 
2.43.0


From 76e2d2795b5552dbba59848154025164ade15624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:45 +0000
Subject: [PATCH 57/78] fix: PNG export left the cells of constant data
 unpainted

---
 meshiphi/mesh_plotting/mesh_plotter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index f027b4c..20e2dfa 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -70,6 +70,9 @@ class MeshPlotter:
         value_min = self.mesh_df[value_name].min()
         value_max = self.mesh_df[value_name].max()
         value_diff = value_max - value_min
+        # all cellboxes have the same value
+        if value_diff == 0:
+            value_diff = 1
 
         # get Colourmap from matplotlib
         cmap = matplotlib.colormaps[colourmap]
-- 
2.43.0


From 92abb64a144c79a204d78c5803a6599c444de913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:45 +0000
Subject: [PATCH 58/78] fix: PNG export failed unless both colour maps and
 booleans were configured

---
 meshiphi/mesh_generation/environment_mesh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 262e635..ef6d776 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1177,14 +1177,15 @@ class EnvironmentMesh:
         mesh_json = self.to_json()
         plotter = MeshPlotter(mesh_json)
 
+        format_params = {}
         if (params_file != None):
             with open(params_file) as f:
                 data = f.read()
                 format_params = json.loads(data)
 
-        for item in format_params['cmaps']:
+        for item in format_params.get('cmaps', []):
             plotter.plot_cmap(item['data_name'], item['cmap'])
-        for item in format_params['bools']:
+        for item in format_params.get('bools', []):
             plotter.plot_bool(item['data_name'], item['colour'])
             
         plotter.save(path)
-- 
2.43.0


From 85d5080e3230b4af5da8233f4a17db9600c58d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:11 +0000
Subject: [PATCH 59/78] fix: GeoTIFF export left pixels on the edges of
 cellboxes without a value

---
 meshiphi/mesh_generation/environment_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index ef6d776..0a80d00 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -10,6 +10,7 @@ import sys
 import os
 import tempfile
 from shapely import wkt
+from shapely.geometry import Point
 
 from meshiphi.mesh_generation.boundary import Boundary
 from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
@@ -1310,7 +1311,8 @@ class EnvironmentMesh:
             long = sample[1]
             value = np.nan
             for agg_cellbox in self.agg_cellboxes:
-                if agg_cellbox.contains_point(lat, long):
+                # a sample on the bounds of a cellbox shows that cellbox
+                if agg_cellbox.get_bounds().to_polygon().covers(Point(long, lat)):
                     # get the agg_value
                     try:
                         value = agg_cellbox.agg_data[data_name]
-- 
2.43.0


From a96f9d263a17d80daccb6c34237911f8ea0bfb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:11 +0000
Subject: [PATCH 60/78] fix: ORAS5 currents could not be read, as their
 positions are two-dimensional

---
 meshiphi/dataloaders/vector/oras5_current.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/oras5_current.py b/meshiphi/dataloaders/vector/oras5_current.py
index 69a7ff1..a7e7f16 100644
--- a/meshiphi/dataloaders/vector/oras5_current.py
+++ b/meshiphi/dataloaders/vector/oras5_current.py
@@ -17,9 +17,9 @@ class ORAS5CurrentDataLoader(VectorDataLoader):
             bounds (Boundary): Initial boundary to limit the dataset to
             
         Returns:
-            xr.Dataset: 
+            pd.DataFrame: 
                 ORAS5 currents dataset within limits of bounds. 
-                Dataset has coordinates 'lat', 'long', and variable 'uC', 'vC'
+                Dataframe has columns 'lat', 'long', 'uC', 'vC' (and 'time', if the files have one)
         '''
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
@@ -32,6 +32,10 @@ class ORAS5CurrentDataLoader(VectorDataLoader):
                             'vo': 'vC'})
         # Limit to just these coords and variables
         data = data[['lat','long','uC','vC']]
+        # Positions are given point by point (curvilinear grid), so arrange as a table
+        data = data.to_dataframe().reset_index()
+        data = data.rename(columns={'time_counter': 'time'})
+        data = data[[col for col in ['time','lat','long','uC','vC'] if col in data.columns]]
         
         # Limit to initial boundary
         data = self.trim_datapoints(bounds, data=data)
-- 
2.43.0


From c5b1ed1d750299d6fc92ebbd74a2c310717901aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:37 +0000
Subject: [PATCH 61/78] fix: GeoTIFF export failed to colour data with a value
 of minus infinity

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 0a80d00..74d5710 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1322,7 +1322,7 @@ class EnvironmentMesh:
                         
                     if isinstance(value, collections.abc.Sequence): # if it is a vector then take the mean
                         value = np.mean (value)
-                    if value == float('inf') : # repalce inf with nan
+                    if value in (float('inf'), -float('inf')) : # replace inf with nan
                         value = np.nan
                     # break to make sure we avoid getting multiple values (for lat and long on the bounds of multiple cellboxes)
                     break
-- 
2.43.0


From 81eba2735c330d593bfc5809aaddff144a16a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:37 +0000
Subject: [PATCH 62/78] fix: every GeoTIFF export left a colour table in the
 temporary folder

---
 meshiphi/mesh_generation/environment_mesh.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 74d5710..a1185f8 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1418,9 +1418,13 @@ class EnvironmentMesh:
                 f.write (str(np.nan) +
                         ' ' + inf_color + '\n') # render nans in red
             os.close(fp)
-            if "colour_conf" in params.keys():
-                color_file = params["colour_conf"]
-            subprocess.check_call(["gdaldem", "color-relief", str(input_file), str(color_file), str(input_file)])
+            default_color_file = color_file
+            try:
+                if "colour_conf" in params.keys():
+                    color_file = params["colour_conf"]
+                subprocess.check_call(["gdaldem", "color-relief", str(input_file), str(color_file), str(input_file)])
+            finally:
+                os.remove(default_color_file)
 
         # Only import if we need GDAL, to avoid having it as a requirement
         from osgeo import gdal, ogr, osr
-- 
2.43.0


From 05a88b76a0461cc3dc73bc96ce56889808ea0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:45 +0000
Subject: [PATCH 63/78] fix: longitudes already within -180:180 were rounded to
 other values by their normalisation

---
 meshiphi/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 5ba48bd..3b0f7dc 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -21,8 +21,8 @@ def longitude_domain(long):
         return [longitude_domain(x) for x in long]
     elif isinstance(long, np.ndarray):
         return np.array([longitude_domain(x) for x in long])
-    # Return same format as input at antimeridian
-    elif long in [-180, 180]:
+    # Return same format as input at antimeridian, and anything already within domain unchanged
+    elif -180 <= long <= 180:
         return long
     # Otherwise convert it to be within domain
     else:    
-- 
2.43.0


From 7bbe33216a64e3d481755a1631ba5811acbc4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:06 +0000
Subject: [PATCH 64/78] fix: cell sizes such as 0.1 were refused although they
 divide the region

---
 meshiphi/config_validation/config_validator.py |  3 ++-
 meshiphi/mesh_generation/environment_mesh.py   | 10 +++++-----
 meshiphi/mesh_generation/mesh_builder.py       |  6 +++---
 meshiphi/utils.py                              |  8 ++++++++
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 829b44b..f867429 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -9,6 +9,7 @@ from meshiphi.config_validation.mesh_schema import mesh_schema
 from meshiphi.config_validation.vessel_schema import vessel_schema
 from meshiphi.config_validation.route_schema import route_schema
 from meshiphi.config_validation.waypoints_schema import waypoints_columns
+from meshiphi.utils import evenly_divides
 
 def flexi_json_input(config):
     """
@@ -95,7 +96,7 @@ def validate_mesh_config(config):
             cell_size (float): Initial cellbox size in the same axis
         """
         # A boundary all the way around the globe is 360 degrees wide rather than 0
-        assert((((bound_max - bound_min)%360 or 360)/cell_size)%1 == 0), \
+        assert(evenly_divides(cell_size, (bound_max - bound_min)%360 or 360)), \
             f"{bound_max}-{bound_min}={bound_max-bound_min} is not evenly "+\
             f"divided by {cell_size}"
         
diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index a1185f8..16df71a 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -15,7 +15,7 @@ from shapely.geometry import Point
 from meshiphi.mesh_generation.boundary import Boundary
 from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
 from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
-from meshiphi.utils import longitude_domain
+from meshiphi.utils import evenly_divides, longitude_domain
 
 
 from meshiphi.mesh_validation.sampler import Sampler
@@ -285,9 +285,9 @@ class EnvironmentMesh:
         m2_bounds_height = mesh2.bounds.get_height()
         m2_bounds_width = mesh2.bounds.get_width()
 
-        if m2_bounds_height % l_cell_height != 0:
+        if not evenly_divides(l_cell_height, m2_bounds_height):
             return False
-        if m2_bounds_width % l_cell_width != 0:
+        if not evenly_divides(l_cell_width, m2_bounds_width):
             return False
 
         # check if mesh2 is aligned with this mesh
@@ -296,11 +296,11 @@ class EnvironmentMesh:
         s_bounds = mesh2.bounds
 
         lat_diff = l_bounds.get_lat_min() - s_bounds.get_lat_min()
-        if lat_diff % l_cell_height != 0:
+        if not evenly_divides(l_cell_height, lat_diff):
             return False
 
         long_diff = l_bounds.get_long_min() - s_bounds.get_long_min()
-        if long_diff % l_cell_width != 0:
+        if not evenly_divides(l_cell_width, long_diff):
             return False 
 
 
diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 77eaede..c570bed 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -33,7 +33,7 @@ from meshiphi.mesh_generation.mesh import Mesh
 from meshiphi.dataloaders.factory import DataLoaderFactory
 from meshiphi.config_validation.config_validator import validate_mesh_config
 
-from meshiphi.utils import longitude_distance, longitude_domain
+from meshiphi.utils import evenly_divides, longitude_distance, longitude_domain
 
 
 class MeshBuilder:
@@ -329,11 +329,11 @@ class MeshBuilder:
         return self
 
     def validate_bounds(self, bounds, cell_width, cell_height):
-        assert (bounds.get_long_max() - bounds.get_long_min()) % 360 % cell_width == 0, \
+        assert evenly_divides(cell_width, (bounds.get_long_max() - bounds.get_long_min()) % 360), \
             f"""The defined longitude region <{bounds.get_long_min()} :{bounds.get_long_max()}>
             is not divisable by the initial cell width <{cell_width}>"""
 
-        assert (bounds.get_lat_max() - bounds.get_lat_min()) % cell_height == 0, \
+        assert evenly_divides(cell_height, bounds.get_lat_max() - bounds.get_lat_min()), \
             f"""The defined longitude region <{bounds.get_lat_min()} :{bounds.get_lat_max()}>
             is not divisable by the initial cell width <{cell_height}>"""
 
diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 3b0f7dc..06ba859 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -41,6 +41,14 @@ def longitude_distance(long_a, long_b):
     else:
         return long_dist
 
+def evenly_divides(size, length):
+    """
+    Determines whether a length is a whole number of times a size, regardless of
+    how decimal numbers get rounded (e.g. 0.1 evenly divides 0.3)
+    """
+    count = length / size
+    return abs(count - round(count)) <= 1e-10 * abs(count)
+
 def frac_of_month(year, month, start_date=None, end_date=None):
     
     # Determine the number of days in the month specified
-- 
2.43.0


From 7d824ac87e97e2fb6ac4c315e26e09139831ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:26 +0000
Subject: [PATCH 65/78] fix: cells of meshes with decimal coordinates missed
 their neighbours by rounding errors

---
 meshiphi/mesh_generation/boundary.py         |   7 +-
 meshiphi/mesh_generation/cellbox.py          |  37 +----
 meshiphi/mesh_generation/environment_mesh.py |   6 +-
 meshiphi/mesh_generation/mesh_builder.py     |  51 +++----
 meshiphi/mesh_generation/neighbour_graph.py  | 153 ++++---------------
 5 files changed, 60 insertions(+), 194 deletions(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index c3dcb59..8bc3c23 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -413,11 +413,12 @@ class Boundary:
                 List of four new boundaries, each representing a quarter of the 
                 original boundary.
         """
-        lat_mid = self.get_lat_min() + (self.get_height() / 2)
-        long_mid = self.get_long_min() + (self.get_width() / 2)
+        # Round to the decimal number meant (e.g. 0.15 between 0.1 and 0.2)
+        lat_mid = round(self.get_lat_min() + (self.get_height() / 2), 12)
+        long_mid = round(self.get_long_min() + (self.get_width() / 2), 12)
         # Keep within -180:180 if boundary crosses the antimeridian
         if long_mid > 180:
-            long_mid -= 360
+            long_mid = round(long_mid - 360, 12)
 
         # 0 = south_west, 1 = north_west, 2 = south_east, 3 = north_east
         bounds = [
diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index eb292ae..e8fb0e9 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -266,39 +266,12 @@ class CellBox:
         """
         method that creates 4 splitted cellbox
         """
-        half_width = self.bounds.get_width() / 2
-        half_height = self.bounds.get_height() / 2
-
         # create 4 new cellboxes
-        time_range = self.bounds.get_time_range()
-        lat = self.bounds.get_lat_min()
-        lat_range = [lat + half_height, lat + self.bounds.get_height()]
-        long = self.bounds.get_long_min()
-        long_range = [long, 
-                      longitude_domain(long + half_width)]
-        boundary = Boundary(lat_range, long_range, time_range)
-        north_west = CellBox(boundary, str(index))
-
-        lat_range = [lat + half_height, lat + self.bounds.get_height()]
-        long_range = [longitude_domain(long + half_width), 
-                      longitude_domain(long + self.bounds.get_width())]
-        boundary = Boundary(lat_range, long_range, time_range)
-        index += 1
-        north_east = CellBox(boundary, str(index))
-
-        lat_range = [lat, lat + half_height]
-        long_range = [long, 
-                      longitude_domain(long + half_width)]
-        boundary = Boundary(lat_range, long_range, time_range)
-        index += 1
-        south_west = CellBox(boundary, str(index))
-
-        lat_range = [lat, lat + half_height]
-        long_range = [longitude_domain(long + half_width), 
-                      longitude_domain(long + self.bounds.get_width())]
-        boundary = Boundary(lat_range, long_range, time_range)
-        index += 1
-        south_east = CellBox(boundary, str(index))
+        sw_bounds, nw_bounds, se_bounds, ne_bounds = self.bounds.split()
+        north_west = CellBox(nw_bounds, str(index))
+        north_east = CellBox(ne_bounds, str(index + 1))
+        south_west = CellBox(sw_bounds, str(index + 2))
+        south_east = CellBox(se_bounds, str(index + 3))
 
         split_boxes = [north_west, north_east, south_west, south_east]
         return split_boxes
diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 16df71a..2e3354d 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -176,7 +176,7 @@ class EnvironmentMesh:
         cb_width  = agg_cellbox_wp.boundary.get_width()
         cb_height = agg_cellbox_wp.boundary.get_height()
 
-        if (cb_width <= min_dcx) or (cb_height <= min_dcy):
+        if (cb_width <= min_dcx + 1e-9) or (cb_height <= min_dcy + 1e-9):
             # Continue if cellbox is at max split depth
             return False
         else:
@@ -600,11 +600,11 @@ class EnvironmentMesh:
                 (float, float), list<(float, float)>: range of bounds, and ranges of cb_bounds
         """
         def unwrap(long_min, long_max):
-            return (long_min, long_max) if long_min < long_max else (long_min, long_max + 360)
+            return (long_min, long_max) if long_min < long_max else (long_min, round(long_max + 360, 12))
 
         west, east = unwrap(cb_bounds.get_long_min(), cb_bounds.get_long_max())
         return (unwrap(bounds.get_long_min(), bounds.get_long_max()),
-                [(west + shift, east + shift) for shift in (0, 360, -360)])
+                [(round(west + shift, 12), round(east + shift, 12)) for shift in (0, 360, -360)])
 
     def within_long_range(self, cb_bounds, bounds):
         """
diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index c570bed..109c773 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -33,7 +33,7 @@ from meshiphi.mesh_generation.mesh import Mesh
 from meshiphi.dataloaders.factory import DataLoaderFactory
 from meshiphi.config_validation.config_validator import validate_mesh_config
 
-from meshiphi.utils import evenly_divides, longitude_distance, longitude_domain
+from meshiphi.utils import evenly_divides
 
 
 class MeshBuilder:
@@ -103,7 +103,7 @@ class MeshBuilder:
         cellboxes = self.initialize_cellboxes(bounds, cell_width, cell_height)
         
         # Calculate width of mesh in cell-coordinates rather than degrees
-        grid_width = np.divide(bounds.get_width(), cell_width)
+        grid_width = round(bounds.get_width() / cell_width)
         
         min_datapoints = 5
         if 'splitting' in self.config:
@@ -130,7 +130,7 @@ class MeshBuilder:
         
         logging.info("Initialising neighbour graph...")
         self.neighbour_graph = NeighbourGraph(cellboxes, grid_width)
-        self.neighbour_graph.set_global_mesh (self.check_global_mesh(bounds, cellboxes, int(grid_width)))
+        self.neighbour_graph.set_global_mesh (self.check_global_mesh(bounds, cellboxes, grid_width))
 
         max_split_depth = 0
         if 'splitting' in self.config:
@@ -241,35 +241,24 @@ class MeshBuilder:
 
     def initialize_cellboxes(self, bounds, cell_width, cell_height):
         cellboxes = []
-        grid_height = (bounds.get_lat_max() -
-                       bounds.get_lat_min()) / cell_height
-        
-        lat_range = np.arange(bounds.get_lat_min(), bounds.get_lat_max(), cell_height)
-
-
-        # Account for going over the antimeridian with longitude_distance
-        grid_width = longitude_distance(bounds.get_long_min(), 
-                                        bounds.get_long_max()) / cell_width
-        
-        if bounds.get_long_min() < bounds.get_long_max():
-            long_range = np.arange(bounds.get_long_min(),
-                                   bounds.get_long_max(), 
-                                   cell_width)
-        else:
-            long_range = np.arange(bounds.get_long_min(),
-                                   bounds.get_long_max() + 360, 
-                                   cell_width)
-        # Cast to within -180:180
-        long_range = longitude_domain(long_range)
-
-        for lat in lat_range:
-            for long in long_range:
-                cell_lat_range = [lat, lat+cell_height]
-                # If doesn't go over anti-meridian
-                if long + cell_width <= 180: cell_long_range = [long, long+cell_width]
-                else:                        cell_long_range = [long, long+cell_width-360]
+        # Neighbouring cellboxes share their edges, so calculate each of these only once, and
+        # round it to the decimal number meant (e.g. 0.3 rather than 3 * 0.1)
+        grid_height = round(bounds.get_height() / cell_height)
+        lat_edges = [bounds.get_lat_min()]
+        lat_edges += [round(bounds.get_lat_min() + i * cell_height, 12) for i in range(1, grid_height)]
+        lat_edges += [bounds.get_lat_max()]
+
+        grid_width = round(bounds.get_width() / cell_width)
+        long_edges = [bounds.get_long_min()]
+        long_edges += [round(bounds.get_long_min() + i * cell_width, 12) for i in range(1, grid_width)]
+        long_edges += [180 if bounds.get_long_max() == -180 else bounds.get_long_max()]
+        # Account for going over the antimeridian, cast to within -180:180
+        long_edges = [long if long <= 180 else round(long - 360, 12) for long in long_edges]
+
+        for cell_lat_range in zip(lat_edges[:-1], lat_edges[1:]):
+            for cell_long_range in zip(long_edges[:-1], long_edges[1:]):
                 cell_bounds = Boundary(
-                    cell_lat_range, cell_long_range, bounds.get_time_range())
+                    list(cell_lat_range), list(cell_long_range), bounds.get_time_range())
                 cell_id = str(len(cellboxes))
                 cellbox = CellBox(cell_bounds, cell_id)
                 cellboxes.append(cellbox)
diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index e010cdf..b6b4318 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -226,54 +226,52 @@ class NeighbourGraph:
                         case -3 -> bounds_b is the North-West corner of bounds_a\n
                         case -4 -> bounds_b is North of bounds_a\n
         """
-        long_a = bounds_a.get_long_min()
-        lat_a = bounds_a.get_lat_min()
-        long_b = bounds_b.get_long_min()
-        lat_b = bounds_b.get_lat_min()
+        # Compare the edges themselves, since lengths added to them may get rounded
+        south_a, north_a = bounds_a.get_lat_min(), bounds_a.get_lat_max()
+        south_b, north_b = bounds_b.get_lat_min(), bounds_b.get_lat_max()
+        west_a, east_a = self.unwrap_long_range(bounds_a)
+        west_b, east_b = self.unwrap_long_range(bounds_b)
         # Same meridian may be written 360 degrees apart either side of the antimeridian
-        if long_b - long_a > 180:
-            long_b -= 360
-        elif long_a - long_b > 180:
-            long_b += 360
+        if west_b - west_a > 180:
+            west_a, east_a = round(west_a + 360, 12), round(east_a + 360, 12)
+        elif west_a - west_b > 180:
+            west_b, east_b = round(west_b + 360, 12), round(east_b + 360, 12)
 
-        if (long_a + bounds_a.get_width()) == long_b and (
-                lat_a + bounds_a.get_height()) == lat_b:
+        if east_a == west_b and north_a == south_b:
             return Direction.north_east
 
-        if (long_a + bounds_a.get_width() == long_b) and (
-                lat_b < (lat_a + bounds_a.get_height())) and (
-                (lat_b + bounds_b.get_height()) > lat_a):
+        if east_a == west_b and south_b < north_a and north_b > south_a:
             return Direction.east
 
-        if (long_a + bounds_a.get_width()) == long_b and (
-                lat_a == lat_b + bounds_b.get_height()):
+        if east_a == west_b and south_a == north_b:
             return Direction.south_east
 
-        if ((lat_b + bounds_b.get_height()) == lat_a) and (
-                (long_b + bounds_b.get_width()) > long_a) and (
-                long_b < (long_a + bounds_a.get_width())):
+        if north_b == south_a and east_b > west_a and west_b < east_a:
             return Direction.south
 
-        if long_a == (long_b + bounds_b.get_width()) and lat_a == (
-                lat_b + bounds_b.get_height()):
+        if west_a == east_b and south_a == north_b:
             return Direction.south_west
 
-        if (long_b + bounds_b.get_width() == long_a) and (
-                lat_b < (lat_a + bounds_a.get_height())) and (
-                (lat_b + bounds_b.get_height()) > lat_a):
+        if east_b == west_a and south_b < north_a and north_b > south_a:
             return Direction.west
 
-        if long_a == (long_b + bounds_b.get_width()) and (
-                lat_a + bounds_a.get_height() == lat_b):
+        if west_a == east_b and north_a == south_b:
             return Direction.north_west
 
-        if (lat_b == (lat_a + bounds_a.get_height())) and (
-                (long_b + bounds_b.get_width()) > long_a) and (
-                long_b < (long_a + bounds_a.get_width())):
+        if south_b == north_a and east_b > west_a and west_b < east_a:
             return Direction.north
 
         return 0  # Cells are not neighbours.
 
+    @staticmethod
+    def unwrap_long_range(bounds):
+        """
+            returns the longitude range of bounds, continued beyond 180 if it crosses the antimeridian
+        """
+        if bounds.get_long_min() < bounds.get_long_max():
+            return bounds.get_long_min(), bounds.get_long_max()
+        return bounds.get_long_min(), round(bounds.get_long_max() + 360, 12)
+
     def get_neighbour_case(self, cellbox_a, cellbox_b):
         """
             Given two cellboxes (cellbox_a, cellbox_b) returns a case number
@@ -297,71 +295,8 @@ class NeighbourGraph:
                         case -3 -> cellbox_b is the North-West corner of cellbox_a\n
                         case -4 -> cellbox_b is North of cellbox_a\n
         """
-   
-        long_a = cellbox_a.get_bounds().get_long_min()
-        lat_a = cellbox_a.get_bounds().get_lat_min()
-        long_b = cellbox_b.get_bounds().get_long_min()
-        lat_b = cellbox_b.get_bounds().get_lat_min()
-
-        def on_global_bound(cellbox_a , cellbox_b):
-            """
-            Given two cellboxes (cellbox_a, cellbox_b) returns a boolean
-            representing whether the two cellboxes are touching on the global bound (-180,180).
-
-            Args:
-                cellbox_a (CellBox): starting CellBox
-                cellbox_b (CellBox): destination CellBox
-
-            Returns:
-                bool: a boolean representing if the two cellboxes are touching on the global bound (-180,180).            
-            """
-            return long_a == -180  and cellbox_b.get_bounds().get_long_max() == 180 or long_b == -180 and cellbox_a.get_bounds().get_long_max() == 180 
-        if self.is_global_mesh() and on_global_bound (cellbox_a , cellbox_b) :
-            return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
-
-        # Same meridian may be written 360 degrees apart either side of the antimeridian
-        if long_b - long_a > 180:
-            long_b -= 360
-        elif long_a - long_b > 180:
-            long_b += 360
-
-        if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
-                lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
-            return Direction.north_east
-
-        if (long_a + cellbox_a.get_bounds().get_width() == long_b) and (
-                lat_b < (lat_a + cellbox_a.get_bounds().get_height())) and (
-                (lat_b + cellbox_b.get_bounds().get_height()) > lat_a):
-            return Direction.east
-
-        if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
-                lat_a == lat_b + cellbox_b.get_bounds().get_height()):
-            return Direction.south_east
-
-        if ((lat_b + cellbox_b.get_bounds().get_height()) == lat_a) and (
-                (long_b + cellbox_b.get_bounds().get_width()) > long_a) and (
-                long_b < (long_a + cellbox_a.get_bounds().get_width())):
-            return Direction.south
-
-        if long_a == (long_b + cellbox_b.get_bounds().get_width()) and lat_a == (
-                lat_b + cellbox_b.get_bounds().get_height()):
-            return Direction.south_west
-
-        if (long_b + cellbox_b.get_bounds().get_width() == long_a) and (
-                lat_b < (lat_a + cellbox_a.get_bounds().get_height())) and (
-                (lat_b + cellbox_b.get_bounds().get_height()) > lat_a):
-            return Direction.west
+        return self.get_neighbour_case_bounds(cellbox_a.get_bounds(), cellbox_b.get_bounds())
 
-        if long_a == (long_b + cellbox_b.get_bounds().get_width()) and (
-                lat_a + cellbox_a.get_bounds().get_height() == lat_b):
-            return Direction.north_west
-
-        if (lat_b == (lat_a + cellbox_a.get_bounds().get_height())) and (
-                (long_b + cellbox_b.get_bounds().get_width()) > long_a) and (
-                long_b < (long_a + cellbox_a.get_bounds().get_width())):
-            return Direction.north
-        return 0  # Cells are not neighbours.
-    
     def get_global_mesh_neighbour_case(self, cellbox_a, cellbox_b):
         """
             Given two cellboxes in a *global mesh* (cellbox_a, cellbox_b) returns a case number
@@ -385,39 +320,7 @@ class NeighbourGraph:
                         case -3 -> cellbox_b is the North-West corner of cellbox_a\n
                         case -4 -> cellbox_b is North of cellbox_a\n
         """
-        long_a = cellbox_a.get_bounds().get_long_min()
-        lat_a = cellbox_a.get_bounds().get_lat_min()
-        long_b = cellbox_b.get_bounds().get_long_min()
-        lat_b = cellbox_b.get_bounds().get_lat_min()
-        if (long_a + cellbox_a.get_bounds().get_width()) == abs(long_b)and (
-                lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
-            return Direction.north_east
-        if (long_a + cellbox_a.get_bounds().get_width() == abs(long_b)) and (
-                lat_b < (lat_a + cellbox_a.get_bounds().get_height())) and (
-                (lat_b + cellbox_b.get_bounds().get_height()) > lat_a):
-            return Direction.east
-        if (long_a + cellbox_a.get_bounds().get_width()) == abs(long_b) and (
-                lat_a == lat_b + cellbox_b.get_bounds().get_height()):
-            return Direction.south_east
-        if ((lat_b + cellbox_b.get_bounds().get_height()) == lat_a) and (
-                (long_b + cellbox_b.get_bounds().get_width()) > long_a) and (
-                long_b < (long_a + cellbox_a.get_bounds().get_width())):
-            return Direction.south
-        if abs(long_a) == (long_b + cellbox_b.get_bounds().get_width()) and lat_a == (
-                lat_b + cellbox_b.get_bounds().get_height()):
-            return Direction.south_west
-        if (long_b + cellbox_b.get_bounds().get_width() == abs(long_a)) and (
-                lat_b < (lat_a + cellbox_a.get_bounds().get_height())) and (
-                (lat_b + cellbox_b.get_bounds().get_height()) > lat_a):
-            return Direction.west
-        if abs(long_a) == (long_b + cellbox_b.get_bounds().get_width()) and (
-                lat_a + cellbox_a.get_bounds().get_height() == lat_b):
-            return Direction.north_west
-        if (lat_b == (lat_a + cellbox_a.get_bounds().get_height())) and (
-                (long_b + cellbox_b.get_bounds().get_width()) > long_a) and (
-                long_b < (long_a + cellbox_a.get_bounds().get_width())):
-            return Direction.north
-        return 0  # Cells are not neighbours.
+        return self.get_neighbour_case_bounds(cellbox_a.get_bounds(), cellbox_b.get_bounds())
 
     def remove_neighbour(self,  index,  direction, neighbour_index):
         """ 
-- 
2.43.0


From 1fe1ff38b86c64960e3d46730e1c7ed60f2b65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:45 +0000
Subject: [PATCH 66/78] fix: table data of the last day with a time of day was
 left out

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 3 ++-
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 6492f87..bb8a966 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -276,8 +276,9 @@ class ScalarDataLoader(DataLoaderInterface):
                      (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
+                # The last day is included as a whole, as for gridded data
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-                        (data['time'] <= bounds.get_time_max())
+                        (data['time'] <= bounds.get_time_max() + 'T23:59:59.999999')
                         
             # Return column of data from within bounds
             return data.loc[mask]
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index ca457af..49eb0b6 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -331,8 +331,9 @@ class VectorDataLoader(DataLoaderInterface):
                      (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
+                # The last day is included as a whole, as for gridded data
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-                        (data['time'] <= bounds.get_time_max())
+                        (data['time'] <= bounds.get_time_max() + 'T23:59:59.999999')
                         
             # Return column of data from within bounds
             return data.loc[mask]
-- 
2.43.0


From 85e9ef70a5492d3cabf2553c02c150a51d7da55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:30 +0000
Subject: [PATCH 67/78] fix: seam of a merged mesh missed neighbouring cells
 taller than it

---
 meshiphi/mesh_generation/environment_mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 2e3354d..97c7a9c 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -685,8 +685,8 @@ class EnvironmentMesh:
         for cellbox in self.agg_cellboxes:
             if (self.same_meridian(cellbox.get_bounds().get_long_min(), bounds.get_long_max()) and
                 not self.within_long_range(cellbox.get_bounds(), bounds) and
-                cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
-                cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
+                cellbox.get_bounds().get_lat_min() < bounds.get_lat_max() and
+                cellbox.get_bounds().get_lat_max() > bounds.get_lat_min()):
             
                 east_cellboxes.append(cellbox)
             
@@ -699,8 +699,8 @@ class EnvironmentMesh:
             for cellbox in self.agg_cellboxes:
                 if (self.same_meridian(cellbox.get_bounds().get_long_max(), bounds.get_long_min()) and
                     not self.within_long_range(cellbox.get_bounds(), bounds) and
-                    cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
-                    cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
+                    cellbox.get_bounds().get_lat_min() < bounds.get_lat_max() and
+                    cellbox.get_bounds().get_lat_max() > bounds.get_lat_min()):
                 
                     west_cellboxes.append(cellbox)
                 
-- 
2.43.0


From d83fa570231ac3fccda72392c4bd38cd503791d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:20 +0000
Subject: [PATCH 68/78] fix: merging a mesh over a part of a larger cell left
 overlapping cells

---
 meshiphi/mesh_generation/environment_mesh.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 97c7a9c..b380465 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -303,6 +303,11 @@ class EnvironmentMesh:
         if not evenly_divides(l_cell_width, long_diff):
             return False 
 
+        # check that no cellbox (e.g. of a coarser mesh merged before) would be replaced only in part
+        replaced_ids = {cellbox.get_id() for cellbox in self.get_cellboxes_within_bounds(s_bounds)}
+        for cellbox in self.agg_cellboxes:
+            if cellbox.get_id() not in replaced_ids and self.overlaps_bounds(cellbox.get_bounds(), s_bounds):
+                return False
 
         return True
 
@@ -620,6 +625,15 @@ class EnvironmentMesh:
         (b_west, b_east), cb_ranges = self.unwrapped_long_ranges(cb_bounds, bounds)
         return any(east >= b_west and west <= b_east for west, east in cb_ranges)
 
+    def overlaps_bounds(self, cb_bounds, bounds):
+        """
+            returns True if the interiors of cb_bounds and bounds overlap
+        """
+        (b_west, b_east), cb_ranges = self.unwrapped_long_ranges(cb_bounds, bounds)
+        return (any(east > b_west and west < b_east for west, east in cb_ranges) and
+                cb_bounds.get_lat_max() > bounds.get_lat_min() and
+                cb_bounds.get_lat_min() < bounds.get_lat_max())
+
     def get_cellboxes_within_bounds(self, bounds):
         """
             returns the cellboxes within the given bounds. 
-- 
2.43.0


From 56ea2016d5b2f01e6afb4614b98ca48e9033729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:46 +0000
Subject: [PATCH 69/78] fix: curl of vectors on several dates mixed components
 with dates

The meshgrid stacked gridded dates next to the components, so that the curl was
taken of one component on two dates, and a table with several dates could not be
arranged at all. Dates now have an axis of their own.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 49eb0b6..f66642c 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -959,7 +959,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Get component values for each vector
         fx, fy = vector_field[:, :, 0], vector_field[:, :, 1]
         # If not enough datapoints to compute gradient
-        if 1 in fx.shape or 1 in fy.shape:
+        if 1 in fx.shape[:2] or 1 in fy.shape[:2]:
             logging.debug('\tUnable to compute gradient across cell for curl calculation')
             curl = np.nan
         else:
@@ -1051,10 +1051,20 @@ class VectorDataLoader(DataLoaderInterface):
         
         Returns:
             np.array:
-                Table containing vectors as np.arrays at each coord
+                Table containing vectors as np.arrays at each coord. If data
+                covers several times, then the last axis runs over those times
         
         '''
         def meshgrid_from_df(data, data_name_list):
+            # One meshgrid for each time, all over the same coords
+            if 'time' in data.columns and data['time'].nunique() > 1:
+                lats, longs = (np.unique(data[c]) for c in ('lat', 'long'))
+                fields = [[at_time.pivot(index='lat', columns='long', values=name)
+                                  .reindex(index=lats, columns=longs)
+                           for name in data_name_list]
+                          for _, at_time in data.groupby('time')]
+                # From [time, component, lat, long] to [long, lat, component, time]
+                return np.transpose(np.array(fields), (3, 2, 1, 0))
 
             # Manipulate into meshgrid of 2D vectors
             x, y = data_name_list
@@ -1072,7 +1082,7 @@ class VectorDataLoader(DataLoaderInterface):
             data_arrays = [data[name].transpose('long', 'lat', ...).values 
                                 for name in data_name_list]
             # Zip them together to make 2D array of n-dimensional vectors
-            return np.dstack(data_arrays)
+            return np.stack(data_arrays, axis=2)
         
         if type(data) == pd.core.frame.DataFrame:
             return meshgrid_from_df(data, data_name_list)
-- 
2.43.0


From e641c68ccda2775191a304e6bff7a8d915ccdb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:04 +0000
Subject: [PATCH 70/78] fix: whole numbers could not be rounded to significant
 figures

Integers are among the accepted types, but the logarithm of an integer array was
written into an integer array, which numpy refuses.
---
 meshiphi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 06ba859..d9c0487 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -134,7 +134,7 @@ def round_to_sigfig(x, sigfig=5):
     # Cast as array if not initially, so that later processes all act as expected
     if orig_type in [int, float, np.float64]:
         x = [x]
-    x = np.array(x)
+    x = np.array(x, dtype=float)
     # Create a mask disabling any values of inf or zero being passed to log10
     loggable_idxs  = ([x!=0] & np.isfinite(x))[0]
     # Determine number of decimal places to round each number to
-- 
2.43.0


From c083d1d9fb45ab19b2237d1d2f0f54faec6dfeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:34 +0000
Subject: [PATCH 71/78] fix: decimal days were given as 60 minutes or 24 hours

The parts were rounded one by one, so that just under a full hour became '60
minutes' and just under a full day '24.0 hours'.
---
 meshiphi/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index d9c0487..7b76892 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -92,22 +92,25 @@ def convert_decimal_days(decimal_days, mins=False):
     Returns:
         new_time (str): The time in the new format
     """
-    frac_d, days = np.modf(decimal_days)
-    hours = frac_d * 24.0
-
+    # Round before splitting into parts, so that no part rounds up to a whole one
+    # of the next (e.g. 60 minutes)
     if mins:
-        frac_h, hours = np.modf(hours)
-        minutes = round(frac_h * 60.0)
+        total_mins = round(decimal_days * 24.0 * 60.0)
+        days = int(total_mins / (24 * 60))
+        hours = int(np.fmod(total_mins, 24 * 60) / 60)
+        minutes = int(np.fmod(total_mins, 60))
         if days:
-            new_time = f"{round(days)} days {round(hours)} hours {minutes} minutes"
+            new_time = f"{days} days {hours} hours {minutes} minutes"
         elif hours:
-            new_time = f"{round(hours)} hours {minutes} minutes"
+            new_time = f"{hours} hours {minutes} minutes"
         else:
             new_time = f"{minutes} minutes"
     else:
-        hours = round(hours, 2)
+        total_hours = round(decimal_days * 24.0, 2)
+        days = int(total_hours / 24)
+        hours = round(np.fmod(total_hours, 24), 2)
         if days:
-            new_time = f"{round(days)} days {hours} hours"
+            new_time = f"{days} days {hours} hours"
         else:
             new_time = f"{hours} hours"
 
-- 
2.43.0


From b46601dc8aba1791fa29b39e45d438ad9e7f4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:56 +0000
Subject: [PATCH 72/78] fix: curl of a cell without vectors raised an error

With a minimum of 0 data points, a mesh split by curl could not be built if any
cell was empty.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index f66642c..a0d1271 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -959,7 +959,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Get component values for each vector
         fx, fy = vector_field[:, :, 0], vector_field[:, :, 1]
         # If not enough datapoints to compute gradient
-        if 1 in fx.shape[:2] or 1 in fy.shape[:2]:
+        if min(fx.shape[:2]) < 2:
             logging.debug('\tUnable to compute gradient across cell for curl calculation')
             curl = np.nan
         else:
-- 
2.43.0


From d8f4b3ad637986d23dfa220b47a8fbdb3348f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:56 +0000
Subject: [PATCH 73/78] fix: greatest deviation was taken from the longest
 vector

agg_type is how the deviations are aggregated, but also replaced the average
vector that they are defined against.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index a0d1271..34a3d6e 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1016,7 +1016,7 @@ class VectorDataLoader(DataLoaderInterface):
         data_names = self.data_name_list
         each_vector = np.stack([dps[name].to_numpy().ravel() 
                                 for name in data_names], axis=-1)
-        ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
+        ave_vector = list(self.get_value(bounds, agg_type='MEAN').values())
         
         delta_vector = each_vector - ave_vector
         
-- 
2.43.0


From 6953dfca7e29e89c0581a11a509739f54aa36a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:56 +0000
Subject: [PATCH 74/78] fix: functions traced for memory use raised an error

'{.1f}' looks up an attribute called '1f'.
---
 meshiphi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 7b76892..df4ca4d 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -285,7 +285,7 @@ def memory_trace(func):
         top_stats = snapshot.statistics('traceback')
 
         stat = top_stats[0]
-        logging.info("{} memory blocks: {.1f} KiB".
+        logging.info("{} memory blocks: {:.1f} KiB".
                      format(stat.count, stat.size / 1024))
         logging.info("\n".join(stat.traceback.format()))
         return res
-- 
2.43.0


From a6277db5e18dbbff5dc6410f6243eb75c7457697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:45 +0000
Subject: [PATCH 75/78] fix: curl across the antimeridian was taken westwards

Longitudes were ordered by number, so that a cell across the antimeridian had its
eastern part first, and gridded ones in whichever order they are stored.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 34a3d6e..c826b60 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -954,6 +954,15 @@ class VectorDataLoader(DataLoaderInterface):
         '''
         if data is None:    dps = self.trim_datapoints(bounds, data=data)
         else:               dps = data
+        # Ensure that longitude increases eastwards across the antimeridian
+        if bounds.get_long_min() > bounds.get_long_max():
+            eastwards = {'long': dps['long'] % 360}
+            if type(dps) == pd.core.frame.DataFrame:
+                # Only keep one of the vectors given at both 180 and -180
+                dps = dps.assign(**eastwards)
+                dps = dps.drop_duplicates(dps.columns.intersection(['time', 'lat', 'long']))
+            else:
+                dps = dps.assign_coords(**eastwards).drop_duplicates('long')
         # Create a meshgrid of vectors from the data
         vector_field = self._create_vector_meshgrid(dps, self.data_name_list)
         # Get component values for each vector
@@ -1077,6 +1086,8 @@ class VectorDataLoader(DataLoaderInterface):
             return vector_field
         
         def meshgrid_from_xr(data, data_name_list):
+            # Same order of coordinates as in meshgrid from pd.DataFrame
+            data = data.sortby(['lat', 'long'])
             # Extract out each variable and combine as tuple
             # Longitude first, to match the meshgrid from pd.DataFrame
             data_arrays = [data[name].transpose('long', 'lat', ...).values 
-- 
2.43.0


From 1154ddb3bc10056d8ecf2fb985654204767c86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 76/78] fix: gridded data stored from north to south or east to
 west came out empty

Slices of a descending coordinate select nothing, so that cells had no values
unless the loader knew in advance which way its files are stored.
---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 ++++
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index bb8a966..985cf4c 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -300,6 +300,10 @@ class ScalarDataLoader(DataLoaderInterface):
                     exclusive of spatial lower bound. Inclusive of both
                     upper and lower time bounds
             '''
+            # Slices need ascending coordinates, whichever way they are stored
+            for coord, index in data.indexes.items():
+                if not index.is_monotonic_increasing:
+                    data = data.sortby(coord)
             # Select data region within spatial bounds
             # NOTE slice in xarray is inclusive of bounds
             data = data.sel(lat=slice(bounds.get_lat_min(), bounds.get_lat_max()))
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index c826b60..e53f167 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -343,6 +343,10 @@ class VectorDataLoader(DataLoaderInterface):
             Extracts data from a xr.Dataset
             '''
 
+            # Slices need ascending coordinates, whichever way they are stored
+            for coord, index in data.indexes.items():
+                if not index.is_monotonic_increasing:
+                    data = data.sortby(coord)
             # Select data region within spatial bounds
             # NOTE slice in xarray is inclusive of bounds
             data = data.sel(lat=slice(bounds.get_lat_min(),  bounds.get_lat_max() ))
-- 
2.43.0


From a60469df0169e6ddad4f216ba6b97c9231be1478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:18 +0000
Subject: [PATCH 77/78] fix: aggregation types in lower case were refused, or
 ignored in downsampling

They are documented as accepted in upper or lower case.
---
 meshiphi/dataloaders/lut/abstract_lut.py       | 1 +
 meshiphi/dataloaders/scalar/abstract_scalar.py | 2 ++
 meshiphi/dataloaders/vector/abstract_vector.py | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ba04639..a8aeeda 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -263,6 +263,7 @@ class LutDataLoader(DataLoaderInterface):
         
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
         # If want the number of datapoints
         if agg_type =='COUNT':
             ret_val = len(polygons)
diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 985cf4c..c0b9c9a 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -459,6 +459,7 @@ class ScalarDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
             
         # Limit data series to just the data, excluding coords/index
         dps = self.trim_datapoints(bounds, data=data)[self.data_name]
@@ -803,6 +804,7 @@ class ScalarDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
         
         # If no downsampling
         if self.downsample_factors == (1,1) or \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index e53f167..c74837c 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -516,6 +516,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
             
         # Limit data to boundary
         if data is None:
@@ -804,6 +805,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Set to params if no specific aggregate type specified
         if agg_type is None:
             agg_type = self.aggregate_type
+        agg_type = agg_type.upper()
         
         # If no downsampling
         if self.downsample_factors == (1,1) or \
-- 
2.43.0


From 7ba43b4d66ab743715ccd215dc1e61d462c583bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:16 +0000
Subject: [PATCH 78/78] fix: components of a vector table were swapped if its
 columns stand in another order

The configured names were given to the columns by position, even to columns that
already have these names.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index c74837c..1a0a81a 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -899,6 +899,9 @@ class VectorDataLoader(DataLoaderInterface):
         old_names = self.get_data_col_name().split(',')
         # Ensure that can do replacement of columns
         assert len(old_names) == len(new_names)
+        # Names that the data already have stay with their own component
+        if set(old_names) == set(new_names):
+            return self.data
         # Set up mapping of old names to new names
         name_dict = {old_col: new_names[i] 
                      for i, old_col in enumerate(old_names)}
-- 
2.43.0

