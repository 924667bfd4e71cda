From 430056365cec30f545ad43c6cb043d9249ff3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:29 +0000
Subject: [PATCH 01/53] fix: classify neighbours across the antimeridian

Cells either side of the 180/-180 meridian touch although their longitudes are
360 degrees apart; compare longitudes relative to the first cell.
---
 meshiphi/mesh_generation/neighbour_graph.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 1b75732..8175464 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -231,6 +231,13 @@ class NeighbourGraph:
         long_b = bounds_b.get_long_min()
         lat_b = bounds_b.get_lat_min()
 
+        # Cells on opposite sides of the antimeridian can touch even though their
+        # longitudes are 360 degrees apart, so measure long_b relative to long_a
+        if long_b - long_a > 180:
+            long_b -= 360
+        elif long_b - long_a < -180:
+            long_b += 360
+
         if (long_a + bounds_a.get_width()) == long_b and (
                 lat_a + bounds_a.get_height()) == lat_b:
             return Direction.north_east
@@ -313,6 +320,13 @@ class NeighbourGraph:
             return long_a == -180  and cellbox_b.get_bounds().get_long_max() == 180 or long_b == -180 and cellbox_a.get_bounds().get_long_max() == 180 
         if self.is_global_mesh() and on_global_bound (cellbox_a , cellbox_b) :
             return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
+
+        # Cells on opposite sides of the antimeridian can touch even though their
+        # longitudes are 360 degrees apart, so measure long_b relative to long_a
+        if long_b - long_a > 180:
+            long_b -= 360
+        elif long_b - long_a < -180:
+            long_b += 360
         
         if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
                 lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
-- 
2.43.0


From d431fad0f60467ad78d9949711a590ab0defa48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:54 +0000
Subject: [PATCH 02/53] fix: keep the split midpoint of a boundary crossing the
 antimeridian within -180:180

---
 meshiphi/mesh_generation/boundary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 8d16204..f414a82 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -4,6 +4,8 @@ from datetime import timedelta
 from math import cos, sin, asin, sqrt, radians
 from shapely import wkt, MultiPolygon
 
+from meshiphi.utils import longitude_domain
+
 class Boundary:
     """
     A Boundary is a class that defines the geo-spatial/temporal
@@ -414,7 +416,8 @@ class Boundary:
                 original boundary.
         """
         lat_mid = self.get_lat_min() + (self.get_height() / 2)
-        long_mid = self.get_long_min() + (self.get_width() / 2)
+        # Keep the midpoint within -180:180 if the boundary crosses the antimeridian
+        long_mid = longitude_domain(self.get_long_min() + (self.get_width() / 2))
 
         # 0 = south_west, 1 = north_west, 2 = south_east, 3 = north_east
         bounds = [
-- 
2.43.0


From cf02bb895be2a24b13588904f3356c3028ed0e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:55 +0000
Subject: [PATCH 03/53] fix: check that the cell width divides a region
 spanning the whole globe

---
 meshiphi/mesh_generation/mesh_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index ca03886..7649fe5 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -317,7 +317,7 @@ class MeshBuilder:
         
 
     def validate_bounds(self, bounds, cell_width, cell_height):
-        assert (bounds.get_long_max() - bounds.get_long_min()) % 360 % cell_width == 0, \
+        assert (bounds.get_width() / cell_width) % 1 == 0, \
             f"""The defined longitude region <{bounds.get_long_min()} :{bounds.get_long_max()}>
             is not divisable by the initial cell width <{cell_width}>"""
 
-- 
2.43.0


From 4e3a38e9895a28f81cfaf482a606ce56477a89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:55 +0000
Subject: [PATCH 04/53] fix: config validation accepts any cell width for a
 global region

---
 meshiphi/config_validation/config_validator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 65e4217..05d64de 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -94,7 +94,11 @@ def validate_mesh_config(config):
             bound_max (float): Maximum value of boundary in the same axis
             cell_size (float): Initial cellbox size in the same axis
         """
-        assert(((bound_max - bound_min)%360/cell_size)%1 == 0), \
+        bound_size = (bound_max - bound_min)%360
+        # A boundary spanning the whole globe is 360 degrees wide, not 0
+        if bound_size == 0 and bound_max != bound_min:
+            bound_size = 360
+        assert((bound_size/cell_size)%1 == 0), \
             f"{bound_max}-{bound_min}={bound_max-bound_min} is not evenly "+\
             f"divided by {cell_size}"
         
-- 
2.43.0


From 355df4207f733a90160fd045f6e3be5914105a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:55 +0000
Subject: [PATCH 05/53] fix: validate_mesh_config fails for a config given as a
 file path

---
 meshiphi/config_validation/config_validator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 05d64de..24b2acb 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -109,16 +109,16 @@ def validate_mesh_config(config):
     jsonschema.validate(instance=config_json, schema=mesh_schema)
     
     # Check that the dates in the region are valid
-    assert_valid_time(config['region']['start_time'])
-    assert_valid_time(config['region']['end_time'])
+    assert_valid_time(config_json['region']['start_time'])
+    assert_valid_time(config_json['region']['end_time'])
     
     # Check that cellbox width and height evenly divide boundary
-    assert_valid_cellsize(config['region']['lat_min'],
-                          config['region']['lat_max'],
-                          config['region']['cell_height'])
-    assert_valid_cellsize(config['region']['long_min'],
-                          config['region']['long_max'],
-                          config['region']['cell_width'])
+    assert_valid_cellsize(config_json['region']['lat_min'],
+                          config_json['region']['lat_max'],
+                          config_json['region']['cell_height'])
+    assert_valid_cellsize(config_json['region']['long_min'],
+                          config_json['region']['long_max'],
+                          config_json['region']['cell_width'])
     
 def validate_vessel_config(config):
     """
-- 
2.43.0


From 3be304702172cf33fc450573f888f54af330cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:55 +0000
Subject: [PATCH 06/53] fix: fill missing vector components under their own
 name

---
 meshiphi/mesh_generation/cellbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index c2bab10..11e957a 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -377,7 +377,7 @@ class CellBox:
                         agg_value[name] = loader.get_value(parent.bounds, data=parent_data_subset)[name]
                         parent = parent.get_parent()
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
-                    agg_value[data_name] = source.get_value_fill_type()
+                    agg_value[name] = source.get_value_fill_type()
         return agg_value
 
     def deallocate_cellbox(self):
-- 
2.43.0


From cb7ec034696da3f7845915d7aa3c0190230577e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:55 +0000
Subject: [PATCH 07/53] fix: split_points raises when a split leaves the point
 on a cell edge

---
 meshiphi/mesh_generation/environment_mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1bda9a6..afdb235 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -190,9 +190,10 @@ class EnvironmentMesh:
         """
         for point in points:
             splitting_waypoint = True
-            if self.query_inside_mesh(point):
-                while splitting_waypoint:
-                    splitting_waypoint = self._split_loc(point)
+            # A split can leave the point on the edge between the new cellboxes,
+            # in which case no cellbox contains it and there is nothing left to split
+            while splitting_waypoint and self.query_inside_mesh(point):
+                splitting_waypoint = self._split_loc(point)
 
     def get_cellbox(self, cellbox_id):
         """
-- 
2.43.0


From c7cdff9fa0f18f47bcba2206d2a636d14cdb2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:55 +0000
Subject: [PATCH 08/53] fix: merge_mesh modifies the mesh given to it

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index afdb235..1f04244 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 import geopandas as gpd
@@ -219,6 +220,9 @@ class EnvironmentMesh:
 
         assert self.validate_merge_compatibility(mesh2), "The given mesh is not compatible with merging with this mesh" 
 
+        # work on a copy so that the given mesh is not modified
+        mesh2 = copy.deepcopy(mesh2)
+
         # append config files
         if "merged" not in self.config.keys():
             self.config["merged"] = []
-- 
2.43.0


From d3f57202fc1c33a75f02d289a2ae7595606e8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:55 +0000
Subject: [PATCH 09/53] fix: increment_ids adds the increment twice to the id
 in agg_data

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1f04244..e3625d8 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -763,7 +763,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             cellbox.set_id(str(int(cellbox.get_id()) + increment))
-            cellbox.agg_data['id'] = str(int(cellbox.get_id()) + increment)
+            cellbox.agg_data['id'] = cellbox.get_id()
 
         self.neighbour_graph.increment_ids(increment)
         
-- 
2.43.0


From 6b26f1d7df920d0eb341cfe14f99162800078fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:55 +0000
Subject: [PATCH 10/53] fix: swapped image dimensions when sampling a
 non-square raster

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index e3625d8..7383791 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1237,8 +1237,8 @@ class EnvironmentMesh:
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
             mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
-            pixel_height = mesh_height / ncols
-            pixel_width = mesh_width / nlines
+            pixel_height = mesh_height / nlines
+            pixel_width = mesh_width / ncols
             samples = []
             # has to move in this direction as we start rendering from the upper left pixel
             for lat in np.arange(self.bounds.get_lat_max(), self.bounds.get_lat_min(), -1*pixel_height):
-- 
2.43.0


From 766c2a8674915c4ef8869711fe12a2e5060e6993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:55 +0000
Subject: [PATCH 11/53] fix: update_cellbox accepts an invalid cellbox index

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 7383791..ba20ed5 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1466,7 +1466,7 @@ class EnvironmentMesh:
               index (int): the index of the cellbox to be updated
               values (dict): a dict contains perf. metrics names and values
         """
-        if index > -1 or index < len(self.agg_cellboxes):
+        if index > -1 and index < len(self.agg_cellboxes):
             self.agg_cellboxes[index].agg_data.update(values)
         else:
             raise ValueError('Invalid cellbox index')
-- 
2.43.0


From 704262090bb5abd50a731851fa12297a15a24be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:15 +0000
Subject: [PATCH 12/53] fix: select the datapoints inside a boundary crossing
 the antimeridian

The dataframe mask kept the points outside the longitude range instead of
the ones inside it.
---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 ++--
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 36cb389..87fce45 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -272,8 +272,8 @@ class ScalarDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 26cc222..6587775 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -327,8 +327,8 @@ class VectorDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                     (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-- 
2.43.0


From bd428666f77da678fe632318bfaf8fece875e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:51 +0000
Subject: [PATCH 13/53] fix: curl of gridded vector data differentiates along
 the wrong axes

_create_vector_meshgrid gave (long, lat) for a DataFrame but (lat, long) for
an xr.Dataset, so calc_curl computed dFy/dy - dFx/dx for gridded data.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 6587775..02ed5f2 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1064,7 +1064,8 @@ class VectorDataLoader(DataLoaderInterface):
         
         def meshgrid_from_xr(data, data_name_list):
             # Extract out each variable and combine as tuple
-            data_arrays = [data[name].values 
+            # Same axis order as meshgrid_from_df, i.e. (long, lat)
+            data_arrays = [data[name].transpose('long', 'lat', ...).values 
                                 for name in data_name_list]
             # Zip them together to make 2D array of n-dimensional vectors
             return np.dstack(data_arrays)
-- 
2.43.0


From 23e97733da1ae2cbc21ded9b3250bb3a714d4511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:51 +0000
Subject: [PATCH 14/53] fix: calc_dmag fails for gridded vector data

xr.Dataset has no to_numpy(), so a 'dmag' splitting condition on a gridded
vector source raised AttributeError.
---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 02ed5f2..2376451 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1011,7 +1011,8 @@ class VectorDataLoader(DataLoaderInterface):
         else:               dps = data
             
         data_names = self.data_name_list
-        each_vector = dps[data_names].to_numpy()
+        each_vector = np.stack([dps[name].to_numpy().ravel() 
+                                    for name in data_names], axis=-1)
         ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
         
         delta_vector = each_vector - ave_vector
-- 
2.43.0


From 436679a658bf65d3ac4951f64c7f3f298cc35f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:27 +0000
Subject: [PATCH 15/53] fix: numeric value_fill_types given as strings end up
 as strings in the mesh

---
 meshiphi/mesh_generation/mesh_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 7649fe5..8dabce9 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -230,6 +230,9 @@ class MeshBuilder:
         if 'value_fill_types' in data_source['params']:
             if is_float (data_source  ['params']['value_fill_types']) or   data_source['params']['value_fill_types'] in ["parent" ,"Nan"]:
                 value_fill_type = data_source  ['params']['value_fill_types']
+                # Numbers may be given as strings in the config (e.g. "0.0", "Nan")
+                if value_fill_type != "parent":
+                    value_fill_type = float(value_fill_type)
             else:
                 logging.warning("Invalid value for value_fill_types, setting to the default(parent) instead.")
         return value_fill_type
-- 
2.43.0


From 3c654608299675010fc755aef6ae36f7fcbe32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:27 +0000
Subject: [PATCH 16/53] fix: meshes cannot be built after add_dataloader

The metadata held the bare data column, which the dataloader cannot trim, so
building the mesh raised TypeError; the cellboxes now get their subset of the
data as they do for configured data sources. Return the builder as documented.
---
 meshiphi/mesh_generation/mesh_builder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 8dabce9..07248f6 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -307,17 +307,18 @@ class MeshBuilder:
         value_fill_type = self.check_value_fill_type(data_source)
         
         meta_data_obj = Metadata(
-            dataloader, updated_splitting_cond,  value_fill_type)
+            dataloader, updated_splitting_cond,  value_fill_type, dataloader.data)
         
         for cellbox in self.mesh.cellboxes:
             if isinstance(cellbox, CellBox):
                 cellbox.set_minimum_datapoints(min_dp)
                 # Add new meta data to list of data sources per cellbox
                 cellbox.set_data_source(
-                    cellbox.get_data_source() + [meta_data_obj]
+                    cellbox.get_data_source() + 
+                    self.initialize_meta_data_subsets(cellbox.bounds, [meta_data_obj])
                 )
 
-        
+        return self
 
     def validate_bounds(self, bounds, cell_width, cell_height):
         assert (bounds.get_width() / cell_width) % 1 == 0, \
-- 
2.43.0


From 1bcd5bc4b99b338aff2a58365e91b0d5c181cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:27 +0000
Subject: [PATCH 17/53] fix: a later vector source overwrites values that are
 not missing

The check for an existing value used the joint name ('uC,vC'), which is never
a key of the aggregated data.
---
 meshiphi/mesh_generation/cellbox.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index 11e957a..3388451 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -342,13 +342,14 @@ class CellBox:
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
                     agg_value[data_name] = source.get_value_fill_type()
                     
-            # If already and value for {data_name} in cellbox and it's a NaN, overwrite
-            if (data_name in agg_dict):
-                if np.isnan(agg_dict[data_name]):
-                    logging.warning(f'\t{data_name} already exists in cellbox! Overwriting only NaN values')
-                    agg_dict.update(agg_value)
-            else:
-                agg_dict.update(agg_value)
+            # If already and value for {name} in cellbox and it's a NaN, overwrite
+            for name, value in agg_value.items():
+                if name in agg_dict:
+                    if np.isnan(agg_dict[name]):
+                        logging.warning(f'\t{name} already exists in cellbox! Overwriting only NaN values')
+                        agg_dict[name] = value
+                else:
+                    agg_dict[name] = value
                 
         agg_cellbox = AggregatedCellBox(self.bounds, agg_dict, self.get_id())
         # free the memory space used by the cellbox
-- 
2.43.0


From 30063056ab3506fe4c2fbf60bf327074bb5bab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:52 +0000
Subject: [PATCH 18/53] fix: split_to_depth fails if the first cellbox has been
 split before

E.g. when a mesh is built again after adding a dataloader to it.
---
 meshiphi/mesh_generation/mesh_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 07248f6..94d0bf2 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -571,7 +571,9 @@ class MeshBuilder:
         logging.info ("Splitting cellboxes...")
         # loop over the data_sources then cellboxes to implement depth-first splitting. should be simpler and loop over cellboxes only once we switch to breadth-first splitting
         # this impl assumws all the cellboxes have the same data sources. should not be the caase once we switch to breadth-first splitting.
-        data_sources = self.mesh.cellboxes[0].get_data_source()
+        # Cellboxes which have already been split are no longer in the list
+        data_sources = next(cellbox for cellbox in self.mesh.cellboxes 
+                            if isinstance(cellbox, CellBox)).get_data_source()
         
         # Set up data_source progress bar
         ds_pbar = tqdm(range(0, len(data_sources)), position=0, 
-- 
2.43.0


From 1152cd2010cb8dd083c4ca573e6321b8cb3c3d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:52 +0000
Subject: [PATCH 19/53] fix: missing values of a dataloader added to a split
 mesh cannot be filled

The parents of split cellboxes did not know the added dataloader.
---
 meshiphi/mesh_generation/mesh_builder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index 94d0bf2..df562fc 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -309,14 +309,19 @@ class MeshBuilder:
         meta_data_obj = Metadata(
             dataloader, updated_splitting_cond,  value_fill_type, dataloader.data)
         
+        updated_cellboxes = set()
         for cellbox in self.mesh.cellboxes:
-            if isinstance(cellbox, CellBox):
+            # Includes the parents of split cellboxes, as their data is used 
+            # to fill in missing values
+            while isinstance(cellbox, CellBox) and id(cellbox) not in updated_cellboxes:
+                updated_cellboxes.add(id(cellbox))
                 cellbox.set_minimum_datapoints(min_dp)
                 # Add new meta data to list of data sources per cellbox
                 cellbox.set_data_source(
                     cellbox.get_data_source() + 
                     self.initialize_meta_data_subsets(cellbox.bounds, [meta_data_obj])
                 )
+                cellbox = cellbox.get_parent()
 
         return self
 
-- 
2.43.0


From 8fa7a111018c039a6e381c20a78a441cfdc4ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:05 +0000
Subject: [PATCH 20/53] fix: configured data_name is not applied to the data
 column of a LUT dataloader

DataFrame.rename without columns= renames index labels, so get_value
failed with a KeyError whenever data_name differed from the column name.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ec8f987..751649d 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -398,7 +398,7 @@ class LutDataLoader(DataLoaderInterface):
         old_name = self.get_data_col_name()
         if old_name != new_name:
             logging.info(f"\tChanging data name from {old_name} to {new_name}")
-            return self.data.rename({old_name:new_name})
+            return self.data.rename(columns={old_name:new_name})
         else:
             logging.info(f"\tData is already labelled '{new_name}'")
             return self.data
-- 
2.43.0


From e46503ef0e750a01a1a4ac041742b3e3724a1e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:05 +0000
Subject: [PATCH 21/53] fix: LUT splitting conditions without split_lock raise
 a KeyError

Only 'boundary' is documented; split_lock is optional for every other
dataloader.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 751649d..730be09 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -337,7 +337,7 @@ class LutDataLoader(DataLoaderInterface):
         hom_type = 'CLR'
         # If there's no polygon that overlaps with bounds        
         if not any([polygon.intersects(bounds_polygon) for polygon in polygons]):
-            if splitting_conds['split_lock'] == True: 
+            if splitting_conds.get('split_lock') == True:
                 hom_type = "HOM"
         # If we want to split on the boundary
         elif splitting_conds['boundary']:
-- 
2.43.0


From fd10a7d8dcaa01f833d88ab355445cf49b9b55b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:05 +0000
Subject: [PATCH 22/53] fix: LUT polygons sharing an index label are duplicated

Rows were selected by label, so with a time index every row of a date was
added once per region, and a MultiPolygon failed with a length mismatch.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 730be09..1ec29c6 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -148,14 +148,14 @@ class LutDataLoader(DataLoaderInterface):
         # List of rows to include in cleaned dataframe
         new_data = []
         # For each entry
-        for index, row in data.iterrows():
+        for position, (_, row) in enumerate(data.iterrows()):
             # Add row if Polygon
             if row.geometry.geom_type == 'Polygon':
-                new_data.append(data.loc[[index]])
+                new_data.append(data.iloc[[position]])
             # Split out multipolygons to single polygons, and add rows
             elif row.geometry.geom_type == 'MultiPolygon':
                 polygons = list(row.geometry.geoms)
-                new_df = pd.concat([data.loc[[index]]]*len(polygons))
+                new_df = pd.concat([data.iloc[[position]]]*len(polygons))
                 new_df['geometry'] = polygons
                 new_data.append(new_df)
             # Otherwise, geometry not usable
-- 
2.43.0


From fedb0faf604f1af88270fcf7e5fde6903544a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:05 +0000
Subject: [PATCH 23/53] fix: LUT aggregates are not weighted by the area of the
 polygons

assign() calls the lambda once with the whole column, so every polygon got
the coverage of all of them as its weight.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 1ec29c6..bf1f1a2 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -273,10 +273,16 @@ class LutDataLoader(DataLoaderInterface):
             # Skipna not easily parsed to remaining calculations, so force it here
             if skipna: polygons = polygons.dropna()
             # Mean, median, and std dev need to be weighted by size of polygons
-            polygons = polygons.assign(weights=lambda row: 
-                                        self.calculate_coverage(bounds, 
-                                                                row['geometry']))
-            if agg_type == 'MEAN':
+            polygons = polygons.assign(
+                weights=[self.calculate_coverage(bounds, pd.Series([polygon]))
+                         for polygon in polygons['geometry']])
+            # Polygons only touching the edge of bounds hold no data within it
+            polygons = polygons[polygons['weights'] > 0]
+            # If no data
+            if len(polygons) == 0:
+                ret_val = np.nan
+
+            elif agg_type == 'MEAN':
                 ret_val = np.average(polygons[self.data_name], 
                                 weights=polygons['weights'])
             
-- 
2.43.0


From 00286ccd15689bc3305357726ca9aa8acf923f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:05 +0000
Subject: [PATCH 24/53] fix: LUT MEDIAN returns a row of the table instead of
 the median value

The weights were also accumulated in table order rather than by value.
---
 meshiphi/dataloaders/lut/abstract_lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index bf1f1a2..5045662 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -288,6 +288,7 @@ class LutDataLoader(DataLoaderInterface):
             
             elif agg_type == 'MEDIAN':
                 # Chunk by cumulative weight
+                polygons = polygons.sort_values(self.data_name)
                 polygons['cumulative_weights'] = polygons['weights'].cumsum(
                                                                     skipna=skipna)
                 # Find middle of cumulative weight
@@ -295,7 +296,7 @@ class LutDataLoader(DataLoaderInterface):
                 median_pos = total_weight/2
                 # Extract top half and return lowest value (value closest to halfway)
                 top_half = polygons.loc[polygons['cumulative_weights'] >= median_pos]
-                ret_val = top_half.iloc[0]
+                ret_val = top_half[self.data_name].iloc[0]
             
             elif agg_type == 'STD':
                 # Calculate std dev manually to account for weight
-- 
2.43.0


From e0cff8247bc158b90c450d0a0f71d4b9ca9b5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:05 +0000
Subject: [PATCH 25/53] fix: every date gets the sea ice thickness of all
 months in range

Each date should only carry the value of its own season, as it does for
density.
---
 meshiphi/dataloaders/lut/thickness.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/lut/thickness.py b/meshiphi/dataloaders/lut/thickness.py
index a609656..9e387ad 100644
--- a/meshiphi/dataloaders/lut/thickness.py
+++ b/meshiphi/dataloaders/lut/thickness.py
@@ -111,12 +111,11 @@ class ThicknessDataLoader(LutDataLoader):
             if intersection.geom_type in ['Polygon', 'MultiPolygon'] and \
                intersection != Polygon():
                     
-                region_df = pd.concat([
-                        pd.DataFrame({'time': dates,
-                                      'geometry': region.geometry & bounds_polygon,
-                                      'thickness': region.get_value(month)})
-                        for month in dates.month
-                    ])
+                region_df = pd.DataFrame(
+                        {'time': dates,
+                         'geometry': region.geometry & bounds_polygon,
+                         'thickness': [region.get_value(month)
+                                       for month in dates.month]})
                 
                 thickness_df = pd.concat([thickness_df, region_df])
                 
-- 
2.43.0


From 2f0680a225894534fe905c47d5e65771920e7ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:35 +0000
Subject: [PATCH 26/53] fix: MIN/MAX of vectors read from several CSV files is
 not a number

Row labels of the files were kept, so selecting the extreme vector by label
returned one row per file.
---
 meshiphi/dataloaders/vector/vector_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/vector_csv.py b/meshiphi/dataloaders/vector/vector_csv.py
index fe53b5e..976989a 100644
--- a/meshiphi/dataloaders/vector/vector_csv.py
+++ b/meshiphi/dataloaders/vector/vector_csv.py
@@ -21,7 +21,7 @@ class VectorCSVDataLoader(VectorDataLoader):
         # NOTE: All csv files must have same columns for this to work
         for file in self.files:
             df_list += [pd.read_csv(file)]
-        data = pd.concat(df_list)
+        data = pd.concat(df_list, ignore_index=True)
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From 38401cea193b5ccfeb3bc92ebb24610ae4ceb912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:09 +0000
Subject: [PATCH 27/53] fix: default data_name of LUTs read from GeoJSON or
 shapefiles is None

---
 meshiphi/dataloaders/lut/lut_geojson.py   | 6 +++---
 meshiphi/dataloaders/lut/lut_shapefile.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/lut/lut_geojson.py b/meshiphi/dataloaders/lut/lut_geojson.py
index 548fe81..43d0308 100644
--- a/meshiphi/dataloaders/lut/lut_geojson.py
+++ b/meshiphi/dataloaders/lut/lut_geojson.py
@@ -24,12 +24,12 @@ class LutGeoJSON(LutDataLoader):
                 Dictionary of attributes the dataloader will require, 
                 completed with default values if not provided in config.
         '''
-        # Add default scalar params
-        params = super().add_default_params(params)
-        
         # Name of data being read in from GeoJSONs
         if 'data_name' not in params:
             params['data_name'] = 'dummy_data'
+        
+        # Add default scalar params
+        params = super().add_default_params(params)
             
         return params
     
diff --git a/meshiphi/dataloaders/lut/lut_shapefile.py b/meshiphi/dataloaders/lut/lut_shapefile.py
index 852e5b2..eed1493 100644
--- a/meshiphi/dataloaders/lut/lut_shapefile.py
+++ b/meshiphi/dataloaders/lut/lut_shapefile.py
@@ -24,12 +24,12 @@ class LutShapefile(LutDataLoader):
                 Dictionary of attributes the dataloader will require, 
                 completed with default values if not provided in config.
         '''
-        # Add default scalar params
-        params = super().add_default_params(params)
-        
         # Name of data being read in from GeoJSONs
         if 'data_name' not in params:
             params['data_name'] = 'dummy_data'
+        
+        # Add default scalar params
+        params = super().add_default_params(params)
             
         return params
     
-- 
2.43.0


From 5f056a9f4402b86c77499587c4f49f7dcbf285f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:24 +0000
Subject: [PATCH 28/53] fix: configured data_name is ignored by LUTs read from
 CSV

---
 meshiphi/dataloaders/lut/lut_csv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/lut_csv.py b/meshiphi/dataloaders/lut/lut_csv.py
index abef752..af0725c 100644
--- a/meshiphi/dataloaders/lut/lut_csv.py
+++ b/meshiphi/dataloaders/lut/lut_csv.py
@@ -36,8 +36,9 @@ class LutCSV(LutDataLoader):
         assert (len(csv_df.columns) == 2), \
                 "Dataloader only accepts .csv with 2 columns, 'geometry' and {{data_name}}"
         
-        # Set data name to column in CSV
-        self.data_name = list(set(csv_df.columns.values) - set(['geometry']))[0]
+        # Set data name to column in CSV, unless set in config
+        if self.data_name is None:
+            self.data_name = list(set(csv_df.columns.values) - set(['geometry']))[0]
         # Convert strings to shapely geometries
         csv_df['geometry'] = csv_df['geometry'].apply(wkt.loads)
         # Create boundary denoting the world 
-- 
2.43.0


From 139d0b834ce19928de057485f7e837a6eef1f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:44 +0000
Subject: [PATCH 29/53] fix: LUT CSV files with the value column first cannot
 be read

---
 meshiphi/dataloaders/lut/lut_csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/lut/lut_csv.py b/meshiphi/dataloaders/lut/lut_csv.py
index af0725c..71fd702 100644
--- a/meshiphi/dataloaders/lut/lut_csv.py
+++ b/meshiphi/dataloaders/lut/lut_csv.py
@@ -35,6 +35,8 @@ class LutCSV(LutDataLoader):
                 "Only 'Polygon' or 'MultiPolygon' geometry allowed"
         assert (len(csv_df.columns) == 2), \
                 "Dataloader only accepts .csv with 2 columns, 'geometry' and {{data_name}}"
+        # Allow columns in any order
+        csv_df = csv_df[['geometry'] + [col for col in csv_df.columns if col != 'geometry']]
         
         # Set data name to column in CSV, unless set in config
         if self.data_name is None:
-- 
2.43.0


From e5a9a64b7dab345026a3109d1e99c976ffcea16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:17 +0000
Subject: [PATCH 30/53] fix: thickness around the Baltic is lost if the region
 shares an edge with it

---
 meshiphi/dataloaders/lut/thickness.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/thickness.py b/meshiphi/dataloaders/lut/thickness.py
index 9e387ad..3bbfb32 100644
--- a/meshiphi/dataloaders/lut/thickness.py
+++ b/meshiphi/dataloaders/lut/thickness.py
@@ -4,6 +4,7 @@ import logging
 
 import pandas as pd
 from shapely import wkt, Polygon
+from shapely.ops import unary_union
 
 
 # Mapping of month number to season per hemisphere
@@ -108,12 +109,16 @@ class ThicknessDataLoader(LutDataLoader):
         for region in regions:
             
             intersection = region.geometry & bounds_polygon
+            # Edges of region and bounds that coincide are not part of the shape
+            if intersection.geom_type == 'GeometryCollection':
+                intersection = unary_union([geometry for geometry in intersection.geoms
+                                            if geometry.geom_type in ['Polygon', 'MultiPolygon']])
             if intersection.geom_type in ['Polygon', 'MultiPolygon'] and \
                intersection != Polygon():
                     
                 region_df = pd.DataFrame(
                         {'time': dates,
-                         'geometry': region.geometry & bounds_polygon,
+                         'geometry': intersection,
                          'thickness': [region.get_value(month)
                                        for month in dates.month]})
                 
-- 
2.43.0


From 796f19edecfc24bf71d280361d0c7d9cd2044973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:03 +0000
Subject: [PATCH 31/53] fix: downsampling aggregates rows first instead of
 whole bins

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 9 +++------
 meshiphi/dataloaders/vector/abstract_vector.py | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 87fce45..157f6eb 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -766,16 +766,13 @@ class ScalarDataLoader(DataLoaderInterface):
                 data = data.coarsen(long=ds[0],boundary='pad').max()
             elif agg_type == 'MEAN':
                 # Returns mean of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').mean()
-                data = data.coarsen(long=ds[0],boundary='pad').mean()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').mean()
             elif agg_type == 'MEDIAN':
                 # Returns median of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').median()
-                data = data.coarsen(long=ds[0],boundary='pad').median()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').median()
             elif agg_type == 'STD':
                 # Returns std_dev of range
-                data = data.coarsen(lat=ds[1],boundary='pad').std()
-                data = data.coarsen(long=ds[0],boundary='pad').std()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').std()
             elif agg_type =='COUNT': 
                 # Returns every first element in bin
                 data = data.thin(lat=ds[1])
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 2376451..0daccf5 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -766,16 +766,13 @@ class VectorDataLoader(DataLoaderInterface):
                 data = data.coarsen(long=ds[0],boundary='pad').max()
             elif agg_type == 'MEAN':
                 # Returns mean of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').mean()
-                data = data.coarsen(long=ds[0],boundary='pad').mean()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').mean()
             elif agg_type == 'MEDIAN':
                 # Returns median of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').median()
-                data = data.coarsen(long=ds[0],boundary='pad').median()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').median()
             elif agg_type == 'STD':
                 # Returns std_dev of range
-                data = data.coarsen(lat=ds[1],boundary='pad').std()
-                data = data.coarsen(long=ds[0],boundary='pad').std()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').std()
             elif agg_type =='COUNT': 
                 # Returns every first element in bin
                 data = data.thin(lat=ds[1])
-- 
2.43.0


From b0b34b6fa18bd2a506a4cd4c1a41285c9660bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:24 +0000
Subject: [PATCH 32/53] fix: default height of a rectangle overwrites its width

---
 meshiphi/dataloaders/scalar/shape.py        | 2 +-
 meshiphi/dataloaders/vector/vector_shape.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index 32cf6f8..a40d45d 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -47,7 +47,7 @@ class ShapeDataLoader(ScalarDataLoader):
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 2948677..074d1da 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -47,7 +47,7 @@ class VectorShapeDataLoader(VectorDataLoader):
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
-                params['width'] = 1
+                params['height'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-- 
2.43.0


From 98d89d145234cb16ab5035f05d58595a6ea4cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:24 +0000
Subject: [PATCH 33/53] fix: shapes centred on the equator or the prime
 meridian are moved

---
 meshiphi/dataloaders/scalar/shape.py        | 8 ++++----
 meshiphi/dataloaders/vector/vector_shape.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/shape.py b/meshiphi/dataloaders/scalar/shape.py
index a40d45d..88f07b0 100644
--- a/meshiphi/dataloaders/scalar/shape.py
+++ b/meshiphi/dataloaders/scalar/shape.py
@@ -112,8 +112,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny/2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx/2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny/2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx/2)] if self.centre[1] is None else self.centre[1]
         
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(), 
@@ -251,8 +251,8 @@ class ShapeDataLoader(ScalarDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col idx's
         y = np.vstack(np.linspace(bounds.get_lat_min(),
diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index 074d1da..a8dedda 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -161,8 +161,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
@@ -217,8 +217,8 @@ class VectorShapeDataLoader(VectorDataLoader):
         self.long = np.linspace(bounds.get_long_min(), bounds.get_long_max(), self.nx)
 
         # Set centre as centre of data_grid if none specified
-        c_y = self.lat[int(self.ny / 2)] if not self.centre[0] else self.centre[0]
-        c_x = self.long[int(self.nx / 2)] if not self.centre[1] else self.centre[1]
+        c_y = self.lat[int(self.ny / 2)] if self.centre[0] is None else self.centre[0]
+        c_x = self.long[int(self.nx / 2)] if self.centre[1] is None else self.centre[1]
 
         # Create vectors for row and col indices
         y = np.vstack(np.linspace(bounds.get_lat_min(),
-- 
2.43.0


From c3c06f56cebf41ec57377ef058ad41d0b593cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:24 +0000
Subject: [PATCH 34/53] fix: default parameters of vector shapes are not
 applied

---
 meshiphi/dataloaders/vector/vector_shape.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/meshiphi/dataloaders/vector/vector_shape.py b/meshiphi/dataloaders/vector/vector_shape.py
index a8dedda..d09f762 100644
--- a/meshiphi/dataloaders/vector/vector_shape.py
+++ b/meshiphi/dataloaders/vector/vector_shape.py
@@ -32,18 +32,18 @@ class VectorShapeDataLoader(VectorDataLoader):
 
         # Scaling factor to multiply data points by
         if 'multiplier_u' not in params:
-            params['multiplier'] = 1
+            params['multiplier_u'] = 1
         if 'multiplier_v' not in params:
-            params['multiplier'] = 1
+            params['multiplier_v'] = 1
 
         # Define default circle parameters
-        if params['dataloader_name'] == 'circle':
+        if params['dataloader_name'] == 'vector_circle':
             if 'radius' not in params:
                 params['radius'] = 1
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default rectangle parameters
-        elif params['dataloader_name'] == 'rectangle':
+        elif params['dataloader_name'] == 'vector_rectangle':
             if 'width' not in params:
                 params['width'] = 1
             if 'height' not in params:
@@ -51,7 +51,7 @@ class VectorShapeDataLoader(VectorDataLoader):
             if 'centre' not in params:
                 params['centre'] = (None, None)
         # Define default gradient params
-        elif params['dataloader_name'] == 'gradient':
+        elif params['dataloader_name'] == 'vector_gradient':
             if 'vertical' not in params:
                 params['vertical'] = True
 
-- 
2.43.0


From e77178d8c04cbdc922bec3c8ca8b58b4ab548b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:27 +0000
Subject: [PATCH 35/53] fix: raster export fails if rounding adds a line or
 column

np.arange over latitudes (longitudes) with a step of extent / number of pixels
gives one value too many for extents such as 115 degrees and the default 100
pixels, so that the samples do not fit the image and reshape() raises.
---
 meshiphi/mesh_generation/environment_mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index ba20ed5..5815265 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1241,8 +1241,10 @@ class EnvironmentMesh:
             pixel_width = mesh_width / ncols
             samples = []
             # has to move in this direction as we start rendering from the upper left pixel
-            for lat in np.arange(self.bounds.get_lat_max(), self.bounds.get_lat_min(), -1*pixel_height):
-                for long in np.arange(self.bounds.get_long_min(), self.bounds.get_long_max(), pixel_width):
+            for line in range(nlines):
+                lat = self.bounds.get_lat_max() - line * pixel_height
+                for col in range(ncols):
+                    long = self.bounds.get_long_min() + col * pixel_width
                     pixel_lat = lat - 0.5 * pixel_height   # centeralize the pixel lat value
                     pixel_long = long + 0.5*pixel_width   # centeralize the pixel long value
                     samples = np.append(samples, pixel_lat)
-- 
2.43.0


From 87a21c73999af9010c2ca6c674c1f9168ae5c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:27 +0000
Subject: [PATCH 36/53] fix: rasters of meshes crossing the antimeridian show
 the wrong place

The width of the image was long_max - long_min, which is negative for a mesh
crossing the antimeridian: all pixels were sampled outside of the mesh and the
geotransform was mirrored.
---
 meshiphi/mesh_generation/environment_mesh.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 5815265..4a04dfe 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -14,6 +14,7 @@ from shapely import wkt
 from meshiphi.mesh_generation.boundary import Boundary
 from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
 from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
+from meshiphi.utils import longitude_domain
 
 
 from meshiphi.mesh_validation.sampler import Sampler
@@ -1236,7 +1237,7 @@ class EnvironmentMesh:
 
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
-            mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
+            mesh_width = self.bounds.get_width()
             pixel_height = mesh_height / nlines
             pixel_width = mesh_width / ncols
             samples = []
@@ -1248,7 +1249,7 @@ class EnvironmentMesh:
                     pixel_lat = lat - 0.5 * pixel_height   # centeralize the pixel lat value
                     pixel_long = long + 0.5*pixel_width   # centeralize the pixel long value
                     samples = np.append(samples, pixel_lat)
-                    samples = np.append(samples, pixel_long)
+                    samples = np.append(samples, longitude_domain(pixel_long))
             # shape the samples in 2d array (each entry in the array holds sample lat and long
             samples = np.reshape(samples, (nlines * ncols, 2))
             return samples
@@ -1398,8 +1399,8 @@ class EnvironmentMesh:
         ncols = params["sampling_resolution"][1]
 
         # define image extent based on mesh bounds
-        extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(
-        ), self.bounds.get_long_max(), self.bounds.get_lat_max()]
+        extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(),
+                  self.bounds.get_long_min() + self.bounds.get_width(), self.bounds.get_lat_max()]
 
         logging.info("Generating the tif image ...")
         samples = generate_samples()
-- 
2.43.0


From 3552c5d0fe21c62fb3b022c59dfc84122917aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:27 +0000
Subject: [PATCH 37/53] fix: raster pixels centred on a cell edge have no value

contains_point() is false on the edges of a cell, so that pixels whose centre
lies on an edge between two cells (e.g. 100 pixels across 8 cells) were left
without a value.
---
 meshiphi/mesh_generation/environment_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 4a04dfe..42c9ef2 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -10,6 +10,7 @@ import sys
 import os
 import tempfile
 from shapely import wkt
+from shapely.geometry import Point
 
 from meshiphi.mesh_generation.boundary import Boundary
 from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
@@ -1268,7 +1269,7 @@ class EnvironmentMesh:
             long = sample[1]
             value = np.nan
             for agg_cellbox in self.agg_cellboxes:
-                if agg_cellbox.contains_point(lat, long):
+                if agg_cellbox.get_bounds().to_polygon().covers(Point(long, lat)):
                     # get the agg_value
                     try:
                         value = agg_cellbox.agg_data[data_name]
-- 
2.43.0


From fa45e7df31de5f803c24add3759170e06938057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:31 +0000
Subject: [PATCH 38/53] fix: full validation ignores data in cells crossing the
 antimeridian

No longitude lies between long_min and long_max of such a cell.
---
 meshiphi/mesh_validation/full_mesh_validator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_validation/full_mesh_validator.py b/meshiphi/mesh_validation/full_mesh_validator.py
index bf65eef..c7a66c4 100644
--- a/meshiphi/mesh_validation/full_mesh_validator.py
+++ b/meshiphi/mesh_validation/full_mesh_validator.py
@@ -127,7 +127,12 @@ class FullMeshValidator:
         raw_slice: DataFrame containing slice of data
         """
 
-        raw_slice = self.source_data[self.source_data['lat'].between(bounds.lat_range[0], bounds.lat_range[1])]
-        raw_slice = raw_slice[raw_slice['long'].between(bounds.long_range[0], bounds.long_range[1])]
-    
+        raw_slice = self.source_data[self.source_data['lat'].between(bounds.get_lat_min(), bounds.get_lat_max())]
+        # If not going over the antimeridian
+        if bounds.get_long_min() < bounds.get_long_max():
+            raw_slice = raw_slice[raw_slice['long'].between(bounds.get_long_min(), bounds.get_long_max())]
+        else:
+            raw_slice = raw_slice[(raw_slice['long'] >= bounds.get_long_min()) |
+                                  (raw_slice['long'] <= bounds.get_long_max())]
+
         return raw_slice
-- 
2.43.0


From 226d123dc7a6ea3abf57420dcf8da32eaadd9666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:31 +0000
Subject: [PATCH 39/53] fix: full validation counts data on cell edges more
 than once

Data on an edge was compared with the cells on both sides, although (as when
aggregating) it belongs to the cell whose upper bound it lies on.
---
 meshiphi/mesh_validation/full_mesh_validator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/meshiphi/mesh_validation/full_mesh_validator.py b/meshiphi/mesh_validation/full_mesh_validator.py
index c7a66c4..154b20c 100644
--- a/meshiphi/mesh_validation/full_mesh_validator.py
+++ b/meshiphi/mesh_validation/full_mesh_validator.py
@@ -119,7 +119,8 @@ class FullMeshValidator:
 
     def slice_data(self, bounds):
         """
-        return a slice of the source data within the bounds
+        return a slice of the source data within the bounds, excluding the lower
+        bounds so that data on the edge of two cells belongs to one of them only
         Args:
         bounds: Bounds object containing bounds to slice data with
 
@@ -127,12 +128,12 @@ class FullMeshValidator:
         raw_slice: DataFrame containing slice of data
         """
 
-        raw_slice = self.source_data[self.source_data['lat'].between(bounds.get_lat_min(), bounds.get_lat_max())]
+        raw_slice = self.source_data[self.source_data['lat'].between(bounds.get_lat_min(), bounds.get_lat_max(), inclusive='right')]
         # If not going over the antimeridian
         if bounds.get_long_min() < bounds.get_long_max():
-            raw_slice = raw_slice[raw_slice['long'].between(bounds.get_long_min(), bounds.get_long_max())]
+            raw_slice = raw_slice[raw_slice['long'].between(bounds.get_long_min(), bounds.get_long_max(), inclusive='right')]
         else:
-            raw_slice = raw_slice[(raw_slice['long'] >= bounds.get_long_min()) |
+            raw_slice = raw_slice[(raw_slice['long'] > bounds.get_long_min()) |
                                   (raw_slice['long'] <= bounds.get_long_max())]
 
-        return raw_slice
+        return raw_slice.copy()
-- 
2.43.0


From 4dee5939d3a7f239408989dd900e2ecb13770594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:31 +0000
Subject: [PATCH 40/53] fix: meshes whose first cell was split cannot be
 validated

Split cells are replaced by None in the list of cellboxes, so that
cellboxes[0].get_data_source() raised an AttributeError.
---
 meshiphi/mesh_validation/mesh_validator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 039fdc6..d574fc2 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -85,7 +85,7 @@ class MeshValidator:
         lat_range = [sample[0] , lat_end]
         long_range = [sample[1] , long_end ]
         time_range = self.mesh.get_bounds().get_time_range()
-        for source in self.mesh.cellboxes[0].get_data_source():
+        for source in self.get_data_sources():
             data_loader = source.get_data_loader() 
             data_name = data_loader.get_data_col_name()
             dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
@@ -93,6 +93,17 @@ class MeshValidator:
         logging.info("values from data are: {}".format(' '.join(map(str, values))))
         return values
 
+    def get_data_sources(self):
+        """
+            gets the data sources of the mesh (split cellboxes are None in the list of cellboxes)
+            Returns:
+                list<MetaData>: the data sources of the first remaining cellbox
+        """
+        for cellbox in self.mesh.cellboxes:
+            if cellbox is not None:
+                return cellbox.get_data_source()
+        return []
+
     def get_range_end(self, sample):
         """
             calculates the range end of the provided sample lat and long, claculation is based on the specified validation_length
@@ -129,7 +140,7 @@ class MeshValidator:
             time_range = self.mesh.get_bounds().get_time_range()
 
         
-            for source in self.mesh.cellboxes[0].get_data_source():
+            for source in self.get_data_sources():
                 data_loader = source.get_data_loader()
                 dp = data_loader.trim_datapoints( Boundary (lat_range , long_range , time_range))
                 
-- 
2.43.0


From e452b36e9d3c08b9d1907150421c94d64cc4676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:00 +0000
Subject: [PATCH 41/53] fix: validation fails if datapoints lie on cell edges

contains_point() is false on the edges of a cell, so that such datapoints had
no mesh value and the actual and mesh values were of different length.
---
 meshiphi/mesh_validation/mesh_validator.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index d574fc2..1e04add 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -104,6 +104,22 @@ class MeshValidator:
                 return cellbox.get_data_source()
         return []
 
+    def is_data_of(self, bounds, lat, long):
+        """
+            determines whether a datapoint is part of the data of a cellbox, i.e. within its bounds excluding the lower ones (see trim_datapoints)
+            Args:
+              bounds (Boundary): the bounds of the cellbox
+              lat (float): latitude of the datapoint
+              long (float): longitude of the datapoint
+            Returns:
+                bool: True if the datapoint was aggregated in the cellbox
+        """
+        if not bounds.get_lat_min() < lat <= bounds.get_lat_max():
+            return False
+        if bounds.get_long_min() < bounds.get_long_max():
+            return bounds.get_long_min() < long <= bounds.get_long_max()
+        return long > bounds.get_long_min() or long <= bounds.get_long_max()
+
     def get_range_end(self, sample):
         """
             calculates the range end of the provided sample lat and long, claculation is based on the specified validation_length
@@ -150,9 +166,9 @@ class MeshValidator:
                     lat = point ['lat']
                     long = point ['long']
                     for agg_cellbox in self.env_mesh.agg_cellboxes:
-                        if agg_cellbox.contains_point(lat , long):
+                        if self.is_data_of(agg_cellbox.get_bounds(), lat, long):
                             values = np.append ( values , agg_cellbox.agg_data [data_loader.data_name] )#get the agg_value 
-                            break  # break to make sure we avoid getting multiple values (for lat and long on bounds of multiple cellboxes)
+                            break  # datapoints belong to one cellbox only
             logging.info("values from mesh are: {}".format(' '.join(map(str, values))))
          
             return values
-- 
2.43.0


From 4326090ddd03860a4a018d3ba6cfcd9613280074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:00 +0000
Subject: [PATCH 42/53] fix: meshes crossing the antimeridian are validated
 outside of the mesh

Samples were taken between long_min and long_max, i.e. from the part of the
globe that the mesh does not cover.
---
 meshiphi/mesh_validation/mesh_validator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/meshiphi/mesh_validation/mesh_validator.py b/meshiphi/mesh_validation/mesh_validator.py
index 1e04add..8d24bb6 100644
--- a/meshiphi/mesh_validation/mesh_validator.py
+++ b/meshiphi/mesh_validation/mesh_validator.py
@@ -10,6 +10,7 @@ import json
 import math
 import logging
 from meshiphi.mesh_generation.boundary import Boundary
+from meshiphi.utils import longitude_domain
 from sklearn.metrics import mean_squared_error
 import xarray as xr
 class MeshValidator:
@@ -59,7 +60,7 @@ class MeshValidator:
         SAMPLE_DIM = 2  # each sample contains lat and long
     
         bounds = self.mesh.get_bounds()
-        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , bounds.long_range])
+        samples = Sampler(SAMPLE_DIM , number_of_samples).generate_samples([bounds.lat_range , [bounds.get_long_min() , bounds.get_long_min() + bounds.get_width()]])
         # compare the sampled lat and long values in data_file to the values obtained by mesh ( agg_values returned by  get_value)
         actual_value = np.array([])
         mesh_value = np.array([])
@@ -83,7 +84,7 @@ class MeshValidator:
         #calculate the sampling range based on the validation length
         lat_end, long_end = self.get_range_end(sample)
         lat_range = [sample[0] , lat_end]
-        long_range = [sample[1] , long_end ]
+        long_range = longitude_domain([sample[1] , long_end ])
         time_range = self.mesh.get_bounds().get_time_range()
         for source in self.get_data_sources():
             data_loader = source.get_data_loader() 
@@ -133,8 +134,9 @@ class MeshValidator:
         # make sure we are not exceeding the mesh bounds
         if lat_end > self.mesh.get_bounds().get_lat_max():
             lat_end = self.mesh.get_bounds().get_lat_max()
-        if long_end > self.mesh.get_bounds().get_long_max():
-            long_end = self.mesh.get_bounds().get_long_max()
+        long_max = self.mesh.get_bounds().get_long_min() + self.mesh.get_bounds().get_width()
+        if long_end > long_max:
+            long_end = long_max
         return lat_end,long_end
 
 
@@ -152,7 +154,7 @@ class MeshValidator:
             #calculate the sampling range based on the validation length
             lat_end, long_end = self.get_range_end(sample)
             lat_range = [sample[0] , lat_end]
-            long_range = [sample[1] , long_end ]
+            long_range = longitude_domain([sample[1] , long_end ])
             time_range = self.mesh.get_bounds().get_time_range()
 
         
-- 
2.43.0


From 2cb84df6aa4d2d417777aad9036afea1816d8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:00 +0000
Subject: [PATCH 43/53] fix: cells with differing neighbours are reported side
 by side

With several such cells the result had the columns of each of them next to each
other and NaN everywhere but in one block per row.
---
 meshiphi/mesh_validation/mesh_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index ded8c09..3b99e62 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -214,7 +214,7 @@ class MeshComparator:
                     mismatched_rows += [cellbox_row]
         # If there were mismatched rows
         if mismatched_rows:
-            mismatched_df = pd.concat(mismatched_rows, axis=1)
+            mismatched_df = pd.concat(mismatched_rows)
             mismatched_df.index.name = 'geometry'
         # Otherise, create an empty dataframe
         else:
-- 
2.43.0


From 793f037d44d896c9601523aa56c972857b532cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:27 +0000
Subject: [PATCH 44/53] fix: asking for the ids of differing cells fails if
 there are none

The dataframe without differences has no columns.
---
 meshiphi/mesh_validation/mesh_comparator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_validation/mesh_comparator.py b/meshiphi/mesh_validation/mesh_comparator.py
index 3b99e62..e1d2ed0 100644
--- a/meshiphi/mesh_validation/mesh_comparator.py
+++ b/meshiphi/mesh_validation/mesh_comparator.py
@@ -28,7 +28,8 @@ class MeshComparator:
         if return_type in ['cellboxes', 'cb']:
             return df['cellboxes']
         elif return_type in ['id']:
-            return df['id']
+            # No differences are an empty dataframe without columns
+            return df['id'] if 'id' in df else pd.Series(dtype=object)
         elif return_type in ['dataframe', 'df']:
             return df
     
-- 
2.43.0


From fd9e270f37e8cde715ddde71154d77c3ea5d10e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:59 +0000
Subject: [PATCH 45/53] fix: magnitudes of vector grids are stored in another
 order of dimensions

---
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 0daccf5..e1ae64a 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -212,10 +212,10 @@ class VectorDataLoader(DataLoaderInterface):
                 Same as parent method
             '''
             x, y = names
-            data['_magnitude'] = (data.dims, 
+            data['_magnitude'] = (data[x].dims, 
                                   np.linalg.norm([data[x].data, data[y].data], 
                                                  axis=0))
-            data['_direction'] = (data.dims, 
+            data['_direction'] = (data[x].dims, 
                                   np.arctan2(data[y].data, data[x].data))
             return data
         
-- 
2.43.0


From 210b91b40ccd611d921f20750782d111d9e72d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:59 +0000
Subject: [PATCH 46/53] fix: ECMWF forecasts of more than one time cannot be
 loaded

---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index 4e3d895..aca51c3 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -83,6 +83,8 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
                          f'[ {bounds.get_time_min()} : {bounds.get_time_max()} ]')
             raise FileNotFoundError('No ECMWF Wave files found within specified time range!')
         data = xr.concat(data_array,'time')
+        # Files were read from latest to earliest, time has to ascend to be trimmed
+        data = data.sortby('time')
         
         # Extract just SWH
         data = data['swh'].to_dataset()
-- 
2.43.0


From 45b97eae7437b0fdb0bd2d935f4b5d671d639663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:59 +0000
Subject: [PATCH 47/53] fix: MODIS data cannot be loaded

---
 meshiphi/dataloaders/scalar/modis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/modis.py b/meshiphi/dataloaders/scalar/modis.py
index 4f0fe82..16a490c 100644
--- a/meshiphi/dataloaders/scalar/modis.py
+++ b/meshiphi/dataloaders/scalar/modis.py
@@ -18,7 +18,7 @@ class MODISDataLoader(ScalarDataLoader):
                 MODIS dataset within limits of bounds. 
                 Dataset has coordinates 'lat', 'long', and variable 'SIC'
         '''
-        logging.info(f"- Opening file {self.file}")
+        logging.info(f"- Opening file {self.files}")
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
         else:                       data = xr.open_mfdataset(self.files)
@@ -27,6 +27,8 @@ class MODISDataLoader(ScalarDataLoader):
 
         # Set areas obscured by cloud to NaN values
         data = data.where(data.cloud != 1, drop=True)
+        # Limit to just SIC data
+        data = data['SIC'].to_dataset()
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From 7ac2aabd92dc809889227f07412c04410503115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:00 +0000
Subject: [PATCH 48/53] fix: names given for magnitude and direction of vectors
 are not used

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index e1ae64a..7f22c4d 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -221,7 +221,7 @@ class VectorDataLoader(DataLoaderInterface):
         
         # Set defaults if not passed to method
         if data is None:        data = self.data
-        if data_names is None:  names = self.data_name_list
+        names = self.data_name_list if data_names is None else data_names
         
         # Perform operation on appropriate datatype
         if type(data) == pd.core.frame.DataFrame:
-- 
2.43.0


From 9dc9a89ea092894d2abc0668e3f1f2f4f1d6d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:36 +0000
Subject: [PATCH 49/53] fix: config validation accepts relative dates with text
 after the number of days

---
 meshiphi/config_validation/config_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index 24b2acb..a6217ec 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -66,7 +66,7 @@ def validate_mesh_config(config):
         """
         correctly_formatted = False
         # If relative time is parsed
-        if re.match(r'TODAY[+,-]\d+', time_str.replace(' ','')):
+        if re.fullmatch(r'TODAY[+-]\d+', time_str.replace(' ','')):
             correctly_formatted = True
         elif time_str == 'TODAY':
             correctly_formatted = True
-- 
2.43.0


From 466255232973a65e0bc34dac499ef95d615cad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:02 +0000
Subject: [PATCH 50/53] fix: refuse boundaries starting east of 180 or ending
 west of -180

---
 meshiphi/mesh_generation/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index f414a82..7108afe 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -194,7 +194,7 @@ class Boundary:
             raise ValueError('Boundary: range should contain two values')
         if lat_range[0] > lat_range [1]:
              raise ValueError(f'Boundary: Latitude start range {lat_range[0]} should be smaller than range end {lat_range[1]}')
-        if long_range[0] < -180 or long_range[1] > 180:
+        if min(long_range) < -180 or max(long_range) > 180:
             raise ValueError('Boundary: Longtitude range should be within -180:180')
         if time_range != []:
             if len(time_range) == 2:
-- 
2.43.0


From bf10b40be59bb1b3efad7285163611ff41044ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:02 +0000
Subject: [PATCH 51/53] fix: refuse dates that merely contain TODAY, like TODAY
 - 3 + 2

---
 meshiphi/mesh_generation/boundary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 7108afe..ab10ec0 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -1,3 +1,5 @@
+import re
+
 from datetime import datetime
 from datetime import timedelta
 
@@ -153,7 +155,7 @@ class Boundary:
             if datetime_str.strip() == "TODAY":
                 today = datetime.today()
                 return today.strftime(DATE_FORMAT)
-            elif "TODAY" not in datetime_str:
+            elif not re.fullmatch(r'\s*TODAY\s*[+-][^+-]*', datetime_str):
                 raise ValueError(f'Incorrect date format given. Cannot convert "{datetime_str}" to date.')
             
                 # check for increment to system time.
-- 
2.43.0


From 0c3400d06b41849488471c8a49ccd06221935578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:58 +0000
Subject: [PATCH 52/53] fix: mesh configurations with dates in other ISO
 formats are refused

---
 meshiphi/config_validation/config_validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/config_validation/config_validator.py b/meshiphi/config_validation/config_validator.py
index a6217ec..632c4ff 100644
--- a/meshiphi/config_validation/config_validator.py
+++ b/meshiphi/config_validation/config_validator.py
@@ -75,8 +75,9 @@ def validate_mesh_config(config):
             try:
                 # Checks if formatted as YYYY-MM-DD with a valid date
                 datetime.date.fromisoformat(time_str)
-                # If so, then it's correct
-                correctly_formatted = True
+                # If so, then it's correct (other ISO formats, such as YYYYMMDD,
+                # are not understood when building the mesh)
+                correctly_formatted = bool(re.fullmatch(r'\d{4}-\d{2}-\d{2}', time_str))
             except ValueError:
                 # Otherwise, keep correctly_formatted = False
                 pass
-- 
2.43.0


From 9e41e4e6c659248586fe3ea9f72d0710a3d7ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:58 +0000
Subject: [PATCH 53/53] fix: IceNet files may lie in directories with dots in
 their names

---
 meshiphi/dataloaders/scalar/icenet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/icenet.py b/meshiphi/dataloaders/scalar/icenet.py
index 596f639..81fd189 100644
--- a/meshiphi/dataloaders/scalar/icenet.py
+++ b/meshiphi/dataloaders/scalar/icenet.py
@@ -3,6 +3,7 @@ from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
 import logging
 
 from datetime import datetime, timedelta
+from os.path import basename
 
 import xarray as xr
 from pandas import to_timedelta
@@ -30,7 +31,8 @@ class IceNetDataLoader(ScalarDataLoader):
             Assumes file names are in the format 
             <hemisphere>_daily_forecast.<YYYY-MM-DD>.nc
             '''
-            return datetime.strptime(filename.split('.')[1], '%Y-%m-%d')
+            # Directories may have dots in their names as well
+            return datetime.strptime(basename(filename).split('.')[1], '%Y-%m-%d')
         
         # Convert temporal boundary to datetime objects for comparison
         max_time = datetime.strptime(bounds.get_time_max(), '%Y-%m-%d')
-- 
2.43.0

