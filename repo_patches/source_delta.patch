From 514c334af97bdceb3129f9197d2dc62dc59c415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 01/40] fix: build index manifest column statistics with the
 field type

The min and max lists were converted with an inferred Arrow type, which failed
for int32 and float32 primary keys and for files whose keys are all NULL.
---
 python/src/space/core/manifests/index.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 12fdb98..c3a6229 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -97,9 +97,11 @@ class _FieldStats:
 
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
-    return pa.StructArray.from_arrays(
-        [self._min_list, self._max_list],  # type: ignore[arg-type]
-        fields=self._fields)
+    arrays = [
+        pa.array(values, type=f.type)
+        for f, values in zip(self._fields, [self._min_list, self._max_list])
+    ]
+    return pa.StructArray.from_arrays(arrays, fields=self._fields)
 
 
 class IndexManifestWriter:
-- 
2.43.0


From 8502b40f209cc0e3345dd39954a5e97c2f3b7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 02/40] fix: read primary key statistics from the right Parquet
 column

The schema field index was used as the Parquet leaf column index, so a nested
field or a record field declared before a primary key made the manifest record
the statistics of another column, and filtered reads lost rows.
---
 python/src/space/core/manifests/index.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index c3a6229..51dcd3a 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -131,6 +131,7 @@ class IndexManifestWriter:
     # Key is column ID.
     self._field_stats_dict: Dict[int, _FieldStats] = {}
 
+    self._column_names: List[str] = schema.names
     column_id_dict = field_id_to_column_id_dict(schema)
     for field_id_, type_ in self._stats_fields:
       column_id = column_id_dict[field_id_]
@@ -161,10 +162,18 @@ class IndexManifestWriter:
     index_compressed_bytes = 0
     index_uncompressed_bytes = 0
 
+    # Column IDs of Parquet metadata are indexes of leaf columns, a nested field
+    # occupies multiple of them.
+    leaf_column_ids = {
+        parquet_metadata.schema.column(i).path: i
+        for i in range(parquet_metadata.num_columns)
+    }
+
     for rg in range(parquet_metadata.num_row_groups):
       rg_metadata = parquet_metadata.row_group(rg)
       for column_id, field_stats in self._field_stats_dict.items():
-        column_stats = rg_metadata.column(column_id)
+        column_stats = rg_metadata.column(
+            leaf_column_ids[self._column_names[column_id]])
         field_stats.merge(column_stats.statistics)
         index_compressed_bytes += column_stats.total_compressed_size
         index_uncompressed_bytes += column_stats.total_uncompressed_size
-- 
2.43.0


From 736b6b54651902b40b5f9adf8dc9f760a7f5c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 03/40] fix: merge Parquet statistics of row groups without min
 and max

A row group that is empty or has only NULL keys failed the append, or was
treated as a minimum of None. A chunk whose min and max are not recorded (e.g.
long strings) makes the statistics of the file unknown.
---
 python/src/space/core/manifests/index.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 51dcd3a..24894d8 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -79,8 +79,18 @@ class _FieldStats:
     self._min_list: List[Any] = []
     self._max_list: List[Any] = []
 
-  def merge(self, stats: pq.Statistics) -> None:
-    """Merge the cached stats with a new stats."""
+    # True if the file has values not covered by Parquet statistics.
+    self._unknown = False
+
+  def merge(self, column: pq.ColumnChunkMetaData) -> None:
+    """Merge the cached stats with the stats of a new column chunk."""
+    stats = column.statistics
+    if stats is None or not stats.has_min_max:
+      # Chunks that are empty or all NULL don't have stats to merge.
+      num_values = column.num_values if stats is None else stats.num_values
+      self._unknown = self._unknown or num_values > 0
+      return
+
     if self._min is None or stats.min < self._min:
       self._min = stats.min
 
@@ -89,11 +99,12 @@ class _FieldStats:
 
   def finish(self) -> None:
     """Finialize the stats for the current file."""
-    self._min_list.append(self._min)
-    self._max_list.append(self._max)
+    self._min_list.append(None if self._unknown else self._min)
+    self._max_list.append(None if self._unknown else self._max)
 
     self._min = None
     self._max = None
+    self._unknown = False
 
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
@@ -174,7 +185,7 @@ class IndexManifestWriter:
       for column_id, field_stats in self._field_stats_dict.items():
         column_stats = rg_metadata.column(
             leaf_column_ids[self._column_names[column_id]])
-        field_stats.merge(column_stats.statistics)
+        field_stats.merge(column_stats)
         index_compressed_bytes += column_stats.total_compressed_size
         index_uncompressed_bytes += column_stats.total_uncompressed_size
 
-- 
2.43.0


From 2ca51be842f4bcd3e6181133bd4b120c7d424aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 04/40] fix: resolve filter fields by top level index in
 manifest pruning

The Substrait base schema lists nested names too, so a filter on a field after
a struct or record field raised KeyError or was evaluated on another field.
---
 .../core/manifests/falsifiable_filters.py     | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index ffb8e14..1610367 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -30,7 +30,6 @@ import pyarrow.substrait as ps
 from substrait.algebra_pb2 import Expression
 from substrait.extensions.extensions_pb2 import SimpleExtensionDeclaration
 from substrait.extended_expression_pb2 import ExtendedExpression
-from substrait.type_pb2 import NamedStruct
 
 from space.core.schema import utils as schema_utils
 from space.core.schema import constants
@@ -62,7 +61,7 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   expr = _substrait_expr(schema, filter_)
 
   try:
-    ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
+    ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
@@ -95,7 +94,8 @@ class _ExpressionException(Exception):
 
 
 def _falsifiable_filter(
-    filter_: ExtendedExpression, primary_keys: Set[str],
+    filter_: ExtendedExpression, field_names: List[str],
+    primary_keys: Set[str],
     field_name_ids: Dict[str, int]) -> Optional[pc.Expression]:
   if len(filter_.referred_expr) != 1:
     raise _ExpressionException(
@@ -103,7 +103,7 @@ def _falsifiable_filter(
 
   return _falsifiable_filter_internal(
       filter_.extensions,  # type: ignore[arg-type]
-      filter_.base_schema,
+      field_names,
       primary_keys,
       field_name_ids,
       filter_.referred_expr[0].expression)
@@ -111,7 +111,7 @@ def _falsifiable_filter(
 
 # pylint: disable=too-many-locals,too-many-return-statements,too-many-branches,too-many-statements
 def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
-                                 base_schema: NamedStruct,
+                                 field_names: List[str],
                                  primary_keys: Set[str],
                                  field_name_ids: Dict[str, int],
                                  expr: Expression) -> Optional[pc.Expression]:
@@ -124,8 +124,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
           f"Single arg expression is not supported: {expr}")
 
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
-                                  base_schema, primary_keys, field_name_ids)
-  min_max_fn = partial(_min_max, base_schema, primary_keys, field_name_ids)
+                                  field_names, primary_keys, field_name_ids)
+  min_max_fn = partial(_min_max, field_names, primary_keys, field_name_ids)
 
   scalar_fn = expr.scalar_function
   fn = extensions[scalar_fn.function_reference].extension_function.name
@@ -295,10 +295,12 @@ def _value(v: Expression):
               v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
 
 
-def _min_max(base_schema, primary_keys, field_name_ids,
+def _min_max(field_names, primary_keys, field_name_ids,
              v: Expression) -> Tuple[pc.Expression, pc.Expression, bool]:
   field_index = v.selection.direct_reference.struct_field.field
-  field_name = base_schema.names[field_index]
+  # `field_names` has top level fields only, unlike the Substrait base schema
+  # that also has names of nested fields.
+  field_name = field_names[field_index]
   field_id = field_name_ids[field_name]
 
   # Only primary key supports falsifiable filter because of column stats.
-- 
2.43.0


From a1386b2219b686d5a49bf4d89b5cd3a0ad585535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 05/40] fix: prune field != field filters only when both fields
 are constant

The condition pruned every file whose ranges overlap, losing matching rows.
---
 python/src/space/core/manifests/falsifiable_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 1610367..859186f 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -229,7 +229,7 @@ def _falsifiable_condition_fields(
   elif fn == "equal":
     return (l_max < r_min) | (r_max < l_min)
   elif fn == "not_equal":
-    return (l_max >= r_min) & (r_max >= l_min)
+    return (l_min == r_max) & (l_max == r_min)
 
   raise _ExpressionException(f"Unsupported fn: {fn}")
 
-- 
2.43.0


From eed4a6ab49cffb4c6ddaa479a3af265ce5250f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 06/40] fix: don't prune index files whose statistics are
 unknown

NULL statistics (e.g. keys longer than the limit of Parquet statistics, or NaN)
made the manifest filter NULL, which dropped the file from filtered reads,
deletes and upserts.
---
 python/src/space/core/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7eb32fa..9dfa6c7 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -388,6 +388,9 @@ class Storage(paths.StoragePathsMixin):
       manifest_filter = build_manifest_filter(self._physical_schema,
                                               self._primary_keys,
                                               self._field_name_ids, filter_)
+      if manifest_filter is not None:
+        # A file can't be pruned when its column statistics are unknown.
+        manifest_filter = manifest_filter | manifest_filter.is_null()
 
     for manifest_file in manifest_files.index_manifest_files:
       result_per_manifest = read_index_manifests(self.full_path(manifest_file),
-- 
2.43.0


From 3dacf3710bda8d87dd6cc778a31853b27f72b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 07/40] fix: don't prune files by a != filter when they may
 have NaN

NaN rows match the filter but are not covered by the min and max statistics.
---
 python/src/space/core/manifests/falsifiable_filters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 859186f..587d2c6 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -229,7 +229,8 @@ def _falsifiable_condition_fields(
   elif fn == "equal":
     return (l_max < r_min) | (r_max < l_min)
   elif fn == "not_equal":
-    return (l_min == r_max) & (l_max == r_min)
+    # A NaN is not equal to any value but is not included in min and max.
+    return None
 
   raise _ExpressionException(f"Unsupported fn: {fn}")
 
@@ -284,6 +285,10 @@ def _falsifiable_condition_field_literal(
   elif fn == "equal":
     return (field_min > value) | (field_max < value)
   elif fn == "not_equal":
+    if rhs.literal.WhichOneof("literal_type") in ("fp32", "fp64"):
+      # A NaN is not equal to any value but is not included in min and max.
+      return None
+
     return (field_min == value) & (field_max == value)
 
   raise _ExpressionException(f"Unsupported fn: {fn}")
-- 
2.43.0


From 1a2824847ad10fc85e0f59a6570ef0c1354b5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 08/40] fix: use storage types in the physical schema of File
 fields

The extension type can't be converted to Substrait, so any filtered read,
delete, insert or upsert of a dataset with a File field failed.
---
 python/src/space/core/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 9dfa6c7..13b883c 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -77,8 +77,9 @@ class Storage(paths.StoragePathsMixin):
     self._logical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                               record_fields,
                                               physical=False)
-    self._physical_schema = arrow.logical_to_physical_schema(
-        self._logical_schema, record_fields)
+    self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
+                                               record_fields,
+                                               physical=True)
 
     self._field_name_ids: Dict[str, int] = arrow.field_name_to_id_dict(
         self._physical_schema)
-- 
2.43.0


From 0203ae4aec92ddce87ff0683ad939a83994ad513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 09/40] fix: skip manifest pruning for filters that Substrait
 can't represent

isin, casts (int column compared to a float) and functions without a Substrait
mapping failed the read instead of only disabling the pruning.
---
 python/src/space/core/manifests/falsifiable_filters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 587d2c6..65a1bb6 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -58,16 +58,16 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   Returns:
     Falsifiable filter, or None if not supported.
   """
-  expr = _substrait_expr(schema, filter_)
-
   try:
+    expr = _substrait_expr(schema, filter_)
     ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
 
     return ~ff  # pylint: disable=invalid-unary-operand-type
-  except _ExpressionException as e:
+  except (_ExpressionException, pa.ArrowInvalid,
+          pa.ArrowNotImplementedError) as e:
     logging.warning(
         f"Fail to build index manifest filter, query may be slower; error: {e}"
     )
@@ -123,6 +123,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
       raise _ExpressionException(
           f"Single arg expression is not supported: {expr}")
 
+    raise _ExpressionException(f"Expression is not supported: {expr}")
+
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
                                   field_names, primary_keys, field_name_ids)
   min_max_fn = partial(_min_max, field_names, primary_keys, field_name_ids)
-- 
2.43.0


From e420ce6f609e519dc8c789eabeff65da58776df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 10/40] fix: keep rows for which a delete filter is NULL

Only rows where the negated filter is true were written back, so a delete (or
an upsert) also removed rows with NULL in a filtered field.
---
 python/src/space/core/ops/delete.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 18a2be1..a6a0a05 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -73,8 +73,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
           f"Invalid input file set for delete op:\n{file_set}")
 
     self._file_set = file_set
-    # Rows not matching not filter will be reinserted.
-    self._reinsert_filter = ~filter_
+    # Rows not matching the filter will be reinserted, including the rows for
+    # which the filter is NULL.
+    self._reinsert_filter = ~filter_ | filter_.is_null()
 
     self._append_op = LocalAppendOp(location,
                                     metadata,
-- 
2.43.0


From a02640daf0e9304bb7c234ebc170228e5c912731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 11/40] fix: keep the other files of a manifest when all
 matched files are emptied

The manifest of the carried over files was written but its patch was dropped
when no row is reinserted, so the delete lost these files.
---
 python/src/space/core/ops/append.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index 6672323..fec3a40 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -152,7 +152,8 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
       self._patch.addition.record_manifest_files.append(
           self.short_path(record_manifest_path))
 
-    if self._patch.storage_statistics_update.num_rows == 0:
+    if (self._patch.storage_statistics_update.num_rows == 0
+        and not self._patch.addition.index_manifest_files):
       return None
 
     return self._patch
-- 
2.43.0


From 74bdc343643dd21ef3c1d310f3152df06e769590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 12/40] fix: count only replaced files in the statistics update
 of a delete

Files pruned by the filter were added back without being subtracted, and
unmodified files of kept manifests were subtracted without being added back.
---
 python/src/space/core/ops/delete.py | 32 +++++++----------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index a6a0a05..d98eece 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -92,9 +92,6 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     deleted_rows = 0
     stats_before_delete = meta.StorageStatistics()
     for file in self._file_set.index_files:
-      utils.update_index_storage_stats(stats_before_delete,
-                                       file.storage_statistics)
-
       # TODO: this can be down at row group level.
       index_data = pq.read_table(self.full_path(file.path))
       index_data = index_data.append_column(
@@ -108,6 +105,8 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
         continue
 
       # Collect statistics.
+      utils.update_index_storage_stats(stats_before_delete,
+                                       file.storage_statistics)
       deleted_rows += (file.storage_statistics.num_rows - index_data.num_rows)
       all_deleted = index_data.num_rows == 0
 
@@ -160,18 +159,14 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     for f in deleted_manifest_files:
       patch.deletion.index_manifest_files.append(f)
 
-    # Compute storage statistics update.
-    survivor_stats = _read_index_statistics(survivor_index_manifests)
+    # Compute storage statistics update. Survivor files are not changed.
     reinsert_stats = (reinsert_patch.storage_statistics_update if reinsert_patch
                       is not None else meta.StorageStatistics())
 
-    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes +
-                                survivor_stats.index_compressed_bytes
-                               ) - stats_before_delete.index_compressed_bytes
-    deleted_uncompressed_bytes = (
-        reinsert_stats.index_uncompressed_bytes +
-        survivor_stats.index_uncompressed_bytes
-    ) - stats_before_delete.index_uncompressed_bytes
+    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes -
+                                stats_before_delete.index_compressed_bytes)
+    deleted_uncompressed_bytes = (reinsert_stats.index_uncompressed_bytes -
+                                  stats_before_delete.index_uncompressed_bytes)
 
     patch.storage_statistics_update.CopyFrom(
         meta.StorageStatistics(
@@ -188,19 +183,6 @@ def _build_file_path_filter(field_name: str, file_paths: List[str]):
   return filter_
 
 
-def _read_index_statistics(manifest_data: pa.Table) -> meta.StorageStatistics:
-  """Read storage statistics of unmodified index files from manifests."""
-
-  def sum_bytes(field_name: str) -> int:
-    return sum(manifest_data.column(
-        field_name).combine_chunks().to_pylist())  # type: ignore[arg-type]
-
-  return meta.StorageStatistics(index_compressed_bytes=sum_bytes(
-      constants.INDEX_COMPRESSED_BYTES_FIELD),
-                                index_uncompressed_bytes=sum_bytes(
-                                    constants.INDEX_UNCOMPRESSED_BYTES_FIELD))
-
-
 def _validate_files(file_set: rt.FileSet) -> bool:
   """Return false if the file set does not contain sufficient information for
   deletion.
-- 
2.43.0


From c05220b51c95c1bb2045078cbcf7895a18d58bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 13/40] fix: write columns in schema order when a record field
 precedes an index field

---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index fec3a40..8616423 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -180,7 +180,6 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
 
     # Write record fields into files.
     # TODO: to parallelize it.
-    # TODO: to preserve the field order in schema.
     if self._record_address_input:
       for f in self._record_fields:
         index_data = index_data.append_column(f.name, data.column(
@@ -195,6 +194,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
         # TODO: the field/column added must have field ID.
         index_data = index_data.append_column(field_name, address_column)
 
+    # Columns must be in the order of the file schema.
+    index_data = index_data.select(self._physical_schema.names)
+
     # Write index fields into files.
     self._cached_index_file_bytes += index_data.nbytes
 
-- 
2.43.0


From fdf3ae06c0f2bc6e45e98c8facb2e71964d88c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 14/40] fix: skip instead of fail a delete whose filter matches
 no file

---
 python/src/space/core/ops/delete.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index d98eece..c648f28 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -192,7 +192,8 @@ def _validate_files(file_set: rt.FileSet) -> bool:
         f.manifest_file_id == 0):
       return False
 
-  return len(file_set.index_manifest_files) > 0
+  # There may be no file to delete from, e.g., the filter matches no file.
+  return len(file_set.index_manifest_files) > 0 or not file_set.index_files
 
 
 def _build_bitmap(file: rt.DataFile, index_data: pa.Table,
-- 
2.43.0


From 5b7bee3a9cc542850c764e0de83cad7ae0631b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 15/40] fix: reload the storage before changing tags and
 branches

---
 python/src/space/core/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 13b883c..b3e14fe 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -258,6 +258,9 @@ class Storage(paths.StoragePathsMixin):
                      ref_type: meta.SnapshotReference.ReferenceType.ValueType,
                      snapshot_id: Optional[int] = None) -> None:
     """Add reference to a snapshot"""
+    # References must be added to the latest metadata.
+    self.reload()
+
     if snapshot_id is None:
       snapshot_id = self._metadata.current_snapshot_id
 
@@ -299,6 +302,9 @@ class Storage(paths.StoragePathsMixin):
   def _remove_reference(
       self, ref_name: str,
       ref_type: meta.SnapshotReference.ReferenceType.ValueType) -> None:
+    # References must be removed from the latest metadata.
+    self.reload()
+
     if (ref_name not in self._metadata.refs or
         self._metadata.refs[ref_name].type != ref_type):
       raise errors.VersionNotFoundError(
-- 
2.43.0


From e2cb106f80054eb565c9ff622589ba7fd98ee91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 16/40] fix: never reuse the ID of a snapshot on a removed
 branch

---
 python/src/space/core/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index b3e14fe..ced6dc5 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -88,7 +88,7 @@ class Storage(paths.StoragePathsMixin):
     self._current_branch = current_branch or _MAIN_BRANCH
     self._max_snapshot_id = max(
         [ref.snapshot_id for ref in self._metadata.refs.values()] +
-        [self._metadata.current_snapshot_id])
+        list(self._metadata.snapshots) + [self._metadata.current_snapshot_id])
 
   @property
   def metadata(self) -> meta.StorageMetadata:
-- 
2.43.0


From b6b6d71e2ffe3db5ee6d4955077a1e66b9808499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 17/40] fix: don't record an empty bound for keys too long for
 Parquet statistics

---
 python/src/space/core/manifests/index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 24894d8..0d88f1f 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -91,6 +91,11 @@ class _FieldStats:
       self._unknown = self._unknown or num_values > 0
       return
 
+    if stats.min in ("", b"") or stats.max in ("", b""):
+      # A bound too long to be stored in Parquet is read as an empty value.
+      self._unknown = True
+      return
+
     if self._min is None or stats.min < self._min:
       self._min = stats.min
 
-- 
2.43.0


From ccd54bf54eb60ce9ac4afcf1b7514b60dc2161b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 18/40] fix: write the change log in append_parquet and skip it
 when no file matches

---
 python/src/space/core/loaders/parquet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 71e5101..069870e 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -58,12 +58,15 @@ class LocalParquetLoadOp(StoragePathsMixin):
       stats = _write_index_manifest(index_manifest_writer, f)
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
+      patch.change_log.added_rows.append(
+          meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
 
     index_manifest_full_path = index_manifest_writer.finish()
-    if index_manifest_full_path is not None:
-      patch.addition.index_manifest_files.append(
-          self.short_path(index_manifest_full_path))
+    if index_manifest_full_path is None:
+      return None
 
+    patch.addition.index_manifest_files.append(
+        self.short_path(index_manifest_full_path))
     return patch
 
 
-- 
2.43.0


From 57149f4afe6a08d8548ffe47ea23e77130ea1a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 19/40] fix: record absolute paths of files loaded by relative
 patterns

---
 python/src/space/core/loaders/array_record.py | 4 +++-
 python/src/space/core/loaders/parquet.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/loaders/array_record.py b/python/src/space/core/loaders/array_record.py
index be02221..969ac63 100644
--- a/python/src/space/core/loaders/array_record.py
+++ b/python/src/space/core/loaders/array_record.py
@@ -16,6 +16,7 @@
 
 from typing import Any, Callable, Dict, List, Optional, Tuple
 import glob
+from os import path
 
 import pyarrow as pa
 from typing_extensions import TypeAlias
@@ -66,7 +67,8 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
     self._record_field = self._record_fields[0]
 
     self._serializer = DictSerializer.create(logical_schema)
-    self._input_files = glob.glob(pattern)
+    # Paths are persisted, must not depend on the current directory.
+    self._input_files = [path.abspath(f) for f in glob.glob(pattern)]
 
   def write(self) -> Optional[rt.Patch]:
     """Write index files to load ArrayRecord files to Space dataset."""
diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 069870e..71de32d 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -16,6 +16,7 @@
 
 from typing import Optional
 import glob
+from os import path
 
 import pyarrow.parquet as pq
 
@@ -45,7 +46,8 @@ class LocalParquetLoadOp(StoragePathsMixin):
     self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                                set(),
                                                physical=True)
-    self._input_files = glob.glob(pattern)
+    # Paths are persisted, must not depend on the current directory.
+    self._input_files = [path.abspath(f) for f in glob.glob(pattern)]
 
   def write(self) -> Optional[rt.Patch]:
     """Write metadata files to load Parquet files to Space dataset."""
-- 
2.43.0


From 4d5bf7514755d705f97372cf47aa61c01fbef3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 20/40] fix: ignore empty files in append_parquet

---
 python/src/space/core/loaders/parquet.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 71de32d..49b6c77 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -57,7 +57,13 @@ class LocalParquetLoadOp(StoragePathsMixin):
     patch = rt.Patch()
 
     for f in self._input_files:
-      stats = _write_index_manifest(index_manifest_writer, f)
+      parquet_metadata = pq.read_metadata(f)
+      # Index files must not be empty, e.g., to delete from them.
+      if parquet_metadata.num_rows == 0:
+        continue
+
+      # TODO: to verify that file schemas are compatible with dataset.
+      stats = index_manifest_writer.write(f, parquet_metadata)
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
       patch.change_log.added_rows.append(
@@ -70,10 +76,3 @@ class LocalParquetLoadOp(StoragePathsMixin):
     patch.addition.index_manifest_files.append(
         self.short_path(index_manifest_full_path))
     return patch
-
-
-def _write_index_manifest(manifest_writer: IndexManifestWriter,
-                          file_path: str) -> meta.StorageStatistics:
-  # TODO: to verify that file schemas are compatible with dataset.
-  metadata = pq.read_metadata(file_path)
-  return manifest_writer.write(file_path, metadata)
-- 
2.43.0


From b833cba7cac004357dd7968e16a5ad705e6dbd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 21/40] fix: read a record addressed more than once in random
 access as often

---
 python/src/space/core/random_access.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index 243412f..722d451 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -271,7 +271,8 @@ def build_file_instructions(
       if i == len(indexes) - 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
-      elif indexes[i + 1] > idx + 1:
+      elif indexes[i + 1] != idx + 1:
+        # Not contiguous, or the same record is addressed more than once.
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
         start = indexes[i + 1]
-- 
2.43.0


From 69448a7c0eb0dd928c748ee477e01857e54bf423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 22/40] fix: append_array_record fails for files without
 records

---
 python/src/space/core/loaders/array_record.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/loaders/array_record.py b/python/src/space/core/loaders/array_record.py
index 969ac63..29a8bc0 100644
--- a/python/src/space/core/loaders/array_record.py
+++ b/python/src/space/core/loaders/array_record.py
@@ -80,6 +80,10 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
     total_record_bytes = 0
     for f in self._input_files:
       index_data, record_bytes = self._build_index_for_array_record(f)
+      # The file has no record.
+      if index_data is None:
+        continue
+
       total_record_bytes += record_bytes
       append_op.write(index_data)
 
@@ -89,8 +93,8 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
 
     return patch
 
-  def _build_index_for_array_record(self,
-                                    file_path: str) -> Tuple[pa.Table, int]:
+  def _build_index_for_array_record(
+      self, file_path: str) -> Tuple[Optional[pa.Table], int]:
     record_field = self._record_field.name
     # TODO: to avoid loading all data into memory at once.
     serialized_records = read_record_file(file_path)
@@ -102,6 +106,9 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
       record = self._serializer.deserialize({record_field: [sr]})
       indxes.append(self._index_fn(record))
 
+    if not indxes:
+      return None, 0
+
     index_data = pa.Table.from_pylist(indxes, schema=self._physical_schema)
     index_data = index_data.drop(record_field)  # type: ignore[attr-defined]
     index_data = index_data.append_column(
-- 
2.43.0


From f691839e33b787c51a7ffd39847ab8655762042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 23/40] fix: Ray delete duplicates rows when files share a
 manifest

---
 python/src/space/ray/ops/delete.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/src/space/ray/ops/delete.py b/python/src/space/ray/ops/delete.py
index ee85a33..2c76d39 100644
--- a/python/src/space/ray/ops/delete.py
+++ b/python/src/space/ray/ops/delete.py
@@ -15,7 +15,8 @@
 """Distributed delete operation using Ray."""
 
 from __future__ import annotations
-from typing import Optional
+from collections import defaultdict
+from typing import Dict, List, Optional
 
 import pyarrow.compute as pc
 import ray
@@ -45,11 +46,17 @@ class RayDeleteOp(BaseDeleteOp, StoragePathsMixin):
     metadata = self._storage.metadata
     matched_file_set = self._storage.data_files(self._filter)
 
-    remote_delete_patches = []
+    # Files of the same manifest must be processed together, because a manifest
+    # is replaced as a whole.
+    manifest_index_files: Dict[int, List[rt.DataFile]] = defaultdict(list)
     for index_file in matched_file_set.index_files:
+      manifest_index_files[index_file.manifest_file_id].append(index_file)
+
+    remote_delete_patches = []
+    for index_files in manifest_index_files.values():
       # Deletion only needs index file information (no record file information).
       file_set = rt.FileSet(
-          index_files=[index_file],
+          index_files=index_files,
           # TODO: attach all manifest files here, to select related manifests.
           index_manifest_files=matched_file_set.index_manifest_files)
 
-- 
2.43.0


From 0498d1c6672fc45fc0323a53d1dde7ce6e9368a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 24/40] fix: join fails when a key range has no row on one side

---
 python/src/space/ray/ops/join.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 867fe64..86e3dcd 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -96,7 +96,7 @@ class RayJoinOp:
                                  self._left_record_fields),
               _JoinInputInternal(right_ds, self._right.reference_read,
                                  self._right_record_fields), self._join_key,
-              self._schema.names))
+              self._schema))
 
     return ray.data.from_arrow_refs(results)
 
@@ -110,10 +110,11 @@ class _JoinInputInternal:
 
 @ray.remote
 def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
-          output_fields: List[str]) -> Optional[pa.Table]:
+          output_schema: pa.Schema) -> pa.Table:
   left_data, right_data = _read_all(left.ds), _read_all(right.ds)
+  # A Ray block must be a table, even if there is nothing to join.
   if left_data is None or right_data is None:
-    return None
+    return output_schema.empty_table()
 
   # PyArrow does not support joining struct, so tables are flattened.
   # TODO: we only flatten/fold record addresses field. If any other fields are
@@ -133,8 +134,8 @@ def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
   if right.reference_read:
     result = _fold_addresses(result, right.record_fields)
 
-  # output_fields is used for re-ordering fields.
-  return result.select(output_fields)
+  # output_schema is used for re-ordering fields.
+  return result.select(output_schema.names)
 
 
 def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
-- 
2.43.0


From eb1b2bcc0363f076d70107267371228f1c757fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 25/40] fix: join uses statistics of another field when a side
 is a transformed view

---
 python/src/space/ray/ops/join.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 86e3dcd..b42fcde 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -147,17 +147,19 @@ def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
 
 
 def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
-  schema = input_.view.schema
-  field_name_ids = arrow.field_name_to_id_dict(schema)
+  storage = singleton_storage(input_.view)
+  # The statistics are identified by field IDs of the source storage, which are
+  # different from the field IDs of a transform's output schema.
+  field_name_ids = arrow.field_name_to_id_dict(storage.physical_schema)
   if field_name not in field_name_ids:
     raise errors.UserInputError(
-        f"Join key {field_name} not found in schema: {schema}")
+        f"Join key {field_name} not found in schema: {storage.physical_schema}")
 
   field_id = field_name_ids[field_name]
 
   stats_field = stats_field_name(field_id)
   min_, max_ = None, None
-  for manifest in singleton_storage(input_.view).index_manifest():
+  for manifest in storage.index_manifest():
     stats = manifest.column(stats_field).combine_chunks()
 
     batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-- 
2.43.0


From 8a3113f1a7b74af97e1c4dff4a50e8b7738dcebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 26/40] fix: join fails when all keys in a manifest are NULL

---
 python/src/space/ray/ops/join.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index b42fcde..d4b7581 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -164,11 +164,14 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
 
     batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
         stats.field(constants.MIN_FIELD)).as_py()  # type: ignore[arg-type]
-    min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
-        min_, batch_min)
-
     batch_max = pc.max(  # type: ignore[attr-defined] # pylint: disable=no-member
         stats.field(constants.MAX_FIELD)).as_py()  # type: ignore[arg-type]
+    # All keys are NULL.
+    if batch_min is None or batch_max is None:
+      continue
+
+    min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
+        min_, batch_min)
     max_ = batch_max if max_ is None else max(  # type: ignore[call-overload]
         max_, batch_max)
 
-- 
2.43.0


From 1f06d2aab73c31f0829e92ed9c37931d889476f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 27/40] fix: materialized view refresh repeats changes when
 snapshot IDs differ from the source

---
 python/src/space/core/storage.py | 33 +++++++++++++++++++++++++-------
 python/src/space/ray/runners.py  | 18 ++++++++++++++---
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index ced6dc5..76830f0 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -319,7 +319,10 @@ class Storage(paths.StoragePathsMixin):
     self._metadata = new_metadata
     self._metadata_file = new_metadata_path
 
-  def commit(self, patch: rt.Patch, branch: str) -> None:
+  def commit(self,
+             patch: rt.Patch,
+             branch: str,
+             snapshot_id: Optional[int] = None) -> None:
     """Commit changes to the storage.
 
     TODO: only support a single writer; to ensure atomicity in commit by
@@ -328,10 +331,12 @@ class Storage(paths.StoragePathsMixin):
     Args:
       patch: a patch describing changes made to the storage.
       branch: the branch this commit is writing to.
+      snapshot_id: the ID of the new snapshot, must be unused and higher than
+        all existing IDs; default to the next ID.
     """
     new_metadata = meta.StorageMetadata()
     new_metadata.CopyFrom(self._metadata)
-    new_snapshot_id = self._next_snapshot_id()
+    new_snapshot_id = self._next_snapshot_id(snapshot_id)
     if branch != _MAIN_BRANCH:
       branch_snapshot = self.lookup_reference(branch)
       # To block the case delete branch and add a tag during commit
@@ -502,8 +507,15 @@ class Storage(paths.StoragePathsMixin):
     except errors.FileExistError as e:
       raise errors.StorageExistError(str(e)) from None
 
-  def _next_snapshot_id(self) -> int:
-    self._max_snapshot_id = self._max_snapshot_id + 1
+  def _next_snapshot_id(self, snapshot_id: Optional[int] = None) -> int:
+    if snapshot_id is None:
+      snapshot_id = self._max_snapshot_id + 1
+    elif snapshot_id <= self._max_snapshot_id:
+      raise errors.SpaceRuntimeError(
+          f"Snapshot ID {snapshot_id} must be higher than existing ID "
+          f"{self._max_snapshot_id}")
+
+    self._max_snapshot_id = snapshot_id
     return self._max_snapshot_id
 
   def _write_metadata(
@@ -563,8 +575,15 @@ class Transaction:
     self._branch = storage.current_branch
     self._result: Optional[JobResult] = None
 
-  def commit(self, patch: Optional[rt.Patch]) -> None:
-    """Commit the transaction."""
+  def commit(self,
+             patch: Optional[rt.Patch],
+             snapshot_id: Optional[int] = None) -> None:
+    """Commit the transaction.
+
+    Args:
+      patch: a patch describing changes made to the storage.
+      snapshot_id: the ID of the new snapshot, default to the next ID.
+    """
     assert self._result is None
 
     # Check that no other commit has taken place.
@@ -582,7 +601,7 @@ class Transaction:
       self._result = JobResult(JobResult.State.SKIPPED)
       return
 
-    self._storage.commit(patch, self._branch)
+    self._storage.commit(patch, self._branch, snapshot_id)
     self._result = JobResult(JobResult.State.SUCCEEDED,
                              patch.storage_statistics_update)
 
diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 0cfa206..d4e0d5e 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -34,6 +34,7 @@ from space.core.ops.change_data import ChangeData, ChangeType
 from space.core.ops.delete import FileSetDeleteOp
 from space.core.ops.insert import InsertOptions
 from space.core.options import FileOptions, JoinOptions, ReadOptions
+import space.core.proto.metadata_pb2 as meta
 import space.core.proto.runtime_pb2 as rt
 from space.core.utils import errors
 from space.ray.ops.append import RayAppendOp
@@ -203,7 +204,7 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
       # Commit when changes from the same snapshot end.
       if (previous_snapshot_id is not None and
           change.snapshot_id != previous_snapshot_id):
-        txn.commit(utils.merge_patches(patches))
+        self._commit_change(txn, patches, previous_snapshot_id)
         patches.clear()
 
         # Stop early when something is wrong.
@@ -229,12 +230,23 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
 
       previous_snapshot_id = change.snapshot_id
 
-    if patches:
-      txn.commit(utils.merge_patches(patches))
+    if previous_snapshot_id is not None:
+      self._commit_change(txn, patches, previous_snapshot_id)
       job_results.append(txn.result())
 
     return job_results
 
+  def _commit_change(self, txn: Transaction, patches: List[Optional[rt.Patch]],
+                     source_snapshot_id: int) -> None:
+    # The snapshots of the materialized view have the IDs of the source
+    # snapshots, as the start of the next refresh. So a snapshot is needed even
+    # if the change has no effect, e.g., all added rows are filtered out.
+    patch = utils.merge_patches(patches)
+    if patch is None:
+      patch = rt.Patch(change_log=meta.ChangeLog())
+
+    txn.commit(patch, source_snapshot_id)
+
   def _process_delete(self, data: List[ray.data.Dataset]) -> Optional[rt.Patch]:
     # Deletion does not use parallel read streams.
     assert len(data) == 1
-- 
2.43.0


From 1ccdd13a41bce015e0380e25c1d17e099ca0ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 28/40] fix: refreshing an up-to-date materialized view fails

---
 python/src/space/ray/runners.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index d4e0d5e..8c0694c 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -192,6 +192,9 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
             f"version {source_snapshot_id}")
 
     start_snapshot_id = self._storage.metadata.current_snapshot_id
+    if start_snapshot_id == end_snapshot_id:
+      # Already up-to-date.
+      return []
 
     job_results: List[JobResult] = []
     patches: List[Optional[rt.Patch]] = []
-- 
2.43.0


From c6d22bc909b7fa53f01bc26a5f7c8f330fa5d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 29/40] fix: materialized view refresh starts from stale source
 and view snapshots

---
 python/src/space/ray/runners.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 8c0694c..a0a66ee 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -172,6 +172,7 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     return iter_batches(
         self._storage.ray_dataset(self._ray_options, read_options))
 
+  @StorageMixin.reload
   def refresh(self,
               target_version: Optional[Version] = None,
               batch_size: Optional[int] = None) -> List[JobResult]:
@@ -180,6 +181,7 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     TODO: refreshing from a large source is slow, to save refresh state and
     resume from saved state, if any failure happens.
     """
+    self._source_storage.reload()
     source_snapshot_id = self._source_storage.metadata.current_snapshot_id
     if target_version is None:
       end_snapshot_id = source_snapshot_id
-- 
2.43.0


From febb16a15f3f4959be28959721f8150389b1ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 30/40] fix: opening a name of a plain file in a catalog is not
 reported as not found

---
 python/src/space/catalogs/directory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/catalogs/directory.py b/python/src/space/catalogs/directory.py
index 57634b4..4d182e2 100644
--- a/python/src/space/catalogs/directory.py
+++ b/python/src/space/catalogs/directory.py
@@ -53,7 +53,7 @@ class DirCatalog(BaseCatalog):
   def dataset(self, name: str) -> Union[Dataset, MaterializedView]:
     try:
       storage = Storage.load(self._dataset_location(name))
-    except FileNotFoundError as e:
+    except (FileNotFoundError, NotADirectoryError) as e:
       raise errors.StorageNotFoundError(str(e)) from None
 
     if storage.metadata.type == meta.StorageMetadata.DATASET:
-- 
2.43.0


From 87cb7b38f363a01e7f9759aa8ae5e3a7a346cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 31/40] fix: reading a view does not modify the caller's read
 options

---
 python/src/space/core/transform/udfs.py  | 4 ++--
 python/src/space/core/transform/utils.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/transform/udfs.py b/python/src/space/core/transform/udfs.py
index ff2ad05..744a255 100644
--- a/python/src/space/core/transform/udfs.py
+++ b/python/src/space/core/transform/udfs.py
@@ -16,7 +16,7 @@
 
 from __future__ import annotations
 from abc import abstractmethod
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from os import path
 from typing import Dict, List, Tuple
 
@@ -110,7 +110,7 @@ class BaseUdfTransform(View):
           "`fields` is not supported for views, use `input_fields` of "
           "transforms (map_batches, filter) instead")
 
-    read_options.fields = self.input_fields
+    read_options = replace(read_options, fields=self.input_fields)
     return self._transform(
         transform_utils.ray_dataset(self.input_, ray_options, read_options))
 
diff --git a/python/src/space/core/transform/utils.py b/python/src/space/core/transform/utils.py
index eba2bf7..b6ee082 100644
--- a/python/src/space/core/transform/utils.py
+++ b/python/src/space/core/transform/utils.py
@@ -15,6 +15,7 @@
 """Utilities for transforms."""
 
 from __future__ import annotations
+from dataclasses import replace
 from typing import TYPE_CHECKING
 
 from space.core.datasets import Dataset
@@ -37,7 +38,7 @@ def ray_dataset(view: View, ray_options: RayOptions,
 
   # For non-dataset views, fields can't be pushed down to storage.
   fields = read_options.fields
-  read_options.fields = None
+  read_options = replace(read_options, fields=None)
   ds = view._ray_dataset(ray_options, read_options, empty_join_options)  # pylint: disable=protected-access
 
   return ds if fields is None else ds.select_columns(fields)
-- 
2.43.0


From 5740c038adadb91835afd2b1da8cc69a59dab356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 32/40] fix: join does not modify the caller's lists of fields

---
 python/src/space/core/views.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/src/space/core/views.py b/python/src/space/core/views.py
index be15326..ea48a67 100644
--- a/python/src/space/core/views.py
+++ b/python/src/space/core/views.py
@@ -200,20 +200,22 @@ class View(ABC):
     if not (join_key in left.primary_keys and join_key in right.primary_keys):
       raise errors.UserInputError("Join key must be primary key on both sides")
 
-    def _sanitize_fields(field_names: List[str]) -> None:
+    def _sanitize_fields(field_names: List[str]) -> List[str]:
       nonlocal join_key
       if not field_names or field_names == [join_key]:
         raise errors.UserInputError(
             "Join requires reading at least one non-join key")
 
       if join_key not in field_names:
-        field_names.append(join_key)
+        return field_names + [join_key]
+
+      return field_names
 
     if left_fields is not None:
-      _sanitize_fields(left_fields)
+      left_fields = _sanitize_fields(left_fields)
 
     if right_fields is not None:
-      _sanitize_fields(right_fields)
+      right_fields = _sanitize_fields(right_fields)
 
     # pylint: disable=cyclic-import,import-outside-toplevel
     from space.core.transform.join import JoinTransform
-- 
2.43.0


From 92493c565a72c22dd3fa71b3d4159106bea0980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 33/40] fix: a random access data source does not modify the
 caller's feature fields

---
 python/src/space/core/random_access.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index 722d451..c4c5372 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -162,6 +162,9 @@ class RandomAccessDataSource(AbcSequence):
       use_array_record_data_source: use ArrayRecordDataSource if true, it only
         supports one feature field.
     """
+    # Locations are replaced by storages in a copy, not in the caller's dict.
+    feature_fields = dict(feature_fields)
+
     storages: Dict[str, Storage] = {}
     for field, storage_or_location in feature_fields.items():
       if isinstance(storage_or_location, str):
-- 
2.43.0


From fa1b83aa2ebb529f9406a07dd12a3a8b83f2773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 34/40] fix: A commit that failed no longer uses up its
 snapshot ID.

The next snapshot ID was stored before the metadata was written. After an I/O
error, repeating the refresh of a materialized view on the same handle was
refused because the ID of the source's snapshot was not higher.
---
 python/src/space/core/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 76830f0..99dae75 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -377,6 +377,7 @@ class Storage(paths.StoragePathsMixin):
     self._write_metadata(new_metadata_path, new_metadata)
     self._metadata = new_metadata
     self._metadata_file = new_metadata_path
+    self._max_snapshot_id = new_snapshot_id
 
   def data_files(self,
                  filter_: Optional[pc.Expression] = None,
@@ -515,8 +516,7 @@ class Storage(paths.StoragePathsMixin):
           f"Snapshot ID {snapshot_id} must be higher than existing ID "
           f"{self._max_snapshot_id}")
 
-    self._max_snapshot_id = snapshot_id
-    return self._max_snapshot_id
+    return snapshot_id
 
   def _write_metadata(
       self,
-- 
2.43.0


From a79443307b5b8f22d43efe35e4e9d01763a29a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 35/40] fix: A read filter or version of a join is refused
 instead of ignored

---
 python/src/space/core/transform/join.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/space/core/transform/join.py b/python/src/space/core/transform/join.py
index 7586e0b..fcec345 100644
--- a/python/src/space/core/transform/join.py
+++ b/python/src/space/core/transform/join.py
@@ -117,6 +117,11 @@ class JoinTransform(View):
           "`fields` is not supported for join, use `left_fields` and"
           " `right_fields` of join instead")
 
+    if read_options.filter_ is not None or read_options.snapshot_id is not None:
+      # Results would silently include unwanted rows if they were ignored.
+      raise errors.UserInputError(
+          "`filter_` and `version` are not supported for join")
+
     if read_options.reference_read:
       # TODO: need such options for both left and right, will be supported
       # after refactoring the arguments.
-- 
2.43.0


From 685571be201eeb711936a5a9da06f30cf806615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 36/40] fix: reload() of a handle reports its own changes as
 made by other writers

---
 python/src/space/core/storage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 99dae75..a81afba 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -192,7 +192,8 @@ class Storage(paths.StoragePathsMixin):
     snapshot = meta.Snapshot(snapshot_id=_INIT_SNAPSHOT_ID, create_time=now)
     metadata.snapshots[metadata.current_snapshot_id].CopyFrom(snapshot)
 
-    storage = Storage(location, new_metadata_path, metadata)
+    storage = Storage(location, path.relpath(new_metadata_path, location),
+                      metadata)
     storage._initialize_files(new_metadata_path)
     return storage
 
@@ -286,7 +287,7 @@ class Storage(paths.StoragePathsMixin):
     new_metadata_path = self.new_metadata_path()
     self._write_metadata(new_metadata_path, new_metadata)
     self._metadata = new_metadata
-    self._metadata_file = new_metadata_path
+    self._metadata_file = self.short_path(new_metadata_path)
 
   def remove_tag(self, tag: str) -> None:
     """Remove tag from metadata"""
@@ -317,7 +318,7 @@ class Storage(paths.StoragePathsMixin):
     new_metadata_path = self.new_metadata_path()
     self._write_metadata(new_metadata_path, new_metadata)
     self._metadata = new_metadata
-    self._metadata_file = new_metadata_path
+    self._metadata_file = self.short_path(new_metadata_path)
 
   def commit(self,
              patch: rt.Patch,
@@ -376,7 +377,7 @@ class Storage(paths.StoragePathsMixin):
     new_metadata.snapshots[new_snapshot_id].CopyFrom(snapshot)
     self._write_metadata(new_metadata_path, new_metadata)
     self._metadata = new_metadata
-    self._metadata_file = new_metadata_path
+    self._metadata_file = self.short_path(new_metadata_path)
     self._max_snapshot_id = new_snapshot_id
 
   def data_files(self,
-- 
2.43.0


From aac03a2e55e2aee71097d57840271567024eabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:16 +0000
Subject: [PATCH 37/40] fix: The main branch is not found when reading it by
 its name

---
 python/src/space/core/storage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index a81afba..0bbc9b0 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -228,6 +228,10 @@ class Storage(paths.StoragePathsMixin):
     if isinstance(version, int):
       return version
 
+    # The main branch is not in the references.
+    if version == _MAIN_BRANCH:
+      return self._metadata.current_snapshot_id
+
     return self.lookup_reference(version).snapshot_id
 
   def lookup_reference(self, tag_or_branch: str) -> meta.SnapshotReference:
-- 
2.43.0


From bd1f2e9a648c84a8de634be8122c854e88dc333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 38/40] fix: Filters of more than 20 conditions, and so upserts
 of 20 rows, never finish

---
 .../core/manifests/falsifiable_filters.py     | 25 +++++++++++++++++++
 python/src/space/core/ops/utils.py            | 19 +++++++++-----
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 65a1bb6..0f066b9 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -34,6 +34,9 @@ from substrait.extended_expression_pb2 import ExtendedExpression
 from space.core.schema import utils as schema_utils
 from space.core.schema import constants
 
+# Max cost of the filters used for pruning index manifests.
+_MAX_FILTER_COST = 1 << 18
+
 
 def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
                           field_name_ids: Dict[str, int],
@@ -58,6 +61,11 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   Returns:
     Falsifiable filter, or None if not supported.
   """
+  if _too_costly(filter_):
+    logging.warning("Filter is too complex for building index manifest filter, "
+                    "query may be slower")
+    return None
+
   try:
     expr = _substrait_expr(schema, filter_)
     ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids)
@@ -74,6 +82,23 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
     return None
 
 
+def _too_costly(filter_: pc.Expression) -> bool:
+  """Return True if a filter has too many levels or conditions to be converted
+  to Substrait; every level doubles the cost of the conditions in it.
+  """
+  depth, cost = 0, 0
+  for c in str(filter_):
+    if c == "(":
+      depth += 1
+      cost += 2**depth
+      if cost > _MAX_FILTER_COST:
+        return True
+    elif c == ")":
+      depth -= 1
+
+  return False
+
+
 def _substrait_expr(schema: pa.Schema,
                     arrow_expr: pc.Expression) -> ExtendedExpression:
   """Convert an expression from Arrow to Substrait format.
diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index 82244be..faa7fe5 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -14,6 +14,8 @@
 #
 """Utilities for operation classes."""
 
+from functools import reduce
+from operator import or_
 from typing import List, Optional, Set
 
 import numpy as np
@@ -63,7 +65,7 @@ def primary_key_filter(primary_keys: List[str],
   for key in primary_keys:
     columns.append(data.column(key).combine_chunks())
 
-  filter_ = None
+  row_filters: List[pc.Expression] = []
   filter_strs: Set[str] = set()
   for i_row in range(data.num_rows):
     row_filter = None
@@ -83,12 +85,17 @@ def primary_key_filter(primary_keys: List[str],
 
     filter_strs.add(filter_str)
 
-    if filter_ is None:
-      filter_ = row_filter
-    else:
-      filter_ |= row_filter
+    row_filters.append(row_filter)
 
-  return filter_
+  # Combine the filters pairwise, because the cost of converting an expression
+  # is exponential in its depth.
+  while len(row_filters) > 1:
+    row_filters = [
+        reduce(or_, row_filters[i:i + 2])
+        for i in range(0, len(row_filters), 2)
+    ]
+
+  return row_filters[0] if row_filters else None
 
 
 def merge_patches(patches: List[Optional[rt.Patch]]) -> Optional[rt.Patch]:
-- 
2.43.0


From 03b063b4cfcad45edbd6158c7a09fd02f773de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 39/40] fix: Joins miss rows of files without key statistics

---
 python/src/space/ray/ops/join.py | 43 ++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index d4b7581..6a4b360 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -20,6 +20,7 @@ from typing import List, Optional, TYPE_CHECKING
 
 import pyarrow as pa
 import pyarrow.compute as pc
+import pyarrow.parquet as pq
 import ray
 
 from space.core.options import JoinOptions, Range, ReadOptions
@@ -161,19 +162,35 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
   min_, max_ = None, None
   for manifest in storage.index_manifest():
     stats = manifest.column(stats_field).combine_chunks()
-
-    batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MIN_FIELD)).as_py()  # type: ignore[arg-type]
-    batch_max = pc.max(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MAX_FIELD)).as_py()  # type: ignore[arg-type]
-    # All keys are NULL.
-    if batch_min is None or batch_max is None:
-      continue
-
-    min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
-        min_, batch_min)
-    max_ = batch_max if max_ is None else max(  # type: ignore[call-overload]
-        max_, batch_max)
+    file_mins = stats.field(constants.MIN_FIELD)
+    file_maxs = stats.field(constants.MAX_FIELD)
+    bounds = [(file_mins, file_maxs)]
+
+    # Files without statistics may still have keys to join.
+    file_paths = manifest.column(constants.FILE_PATH_FIELD)
+    for file_path, file_min, file_max in zip(file_paths.to_pylist(),
+                                             file_mins.to_pylist(),
+                                             file_maxs.to_pylist()):
+      if file_min is not None and file_max is not None:
+        continue
+
+      keys = pq.read_table(storage.full_path(file_path),
+                           columns=[field_name]).column(field_name)
+      bounds.append((keys, keys))
+
+    for mins, maxs in bounds:
+      batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
+          mins).as_py()  # type: ignore[arg-type]
+      batch_max = pc.max(  # type: ignore[attr-defined] # pylint: disable=no-member
+          maxs).as_py()  # type: ignore[arg-type]
+      # All keys are NULL.
+      if batch_min is None or batch_max is None:
+        continue
+
+      min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
+          min_, batch_min)
+      max_ = batch_max if max_ is None else max(  # type: ignore[call-overload]
+          max_, batch_max)
 
   if min_ is None and max_ is None:
     return None
-- 
2.43.0


From 64a7238ce87a3634ae3d455227aa21facfb46afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 40/40] fix: Record fields with slashes in their names can't be
 written, or are written elsewhere

---
 python/src/space/core/utils/paths.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/utils/paths.py b/python/src/space/core/utils/paths.py
index 9bba268..5aef284 100644
--- a/python/src/space/core/utils/paths.py
+++ b/python/src/space/core/utils/paths.py
@@ -15,6 +15,7 @@
 """Utility methods for file paths."""
 
 from os import path
+from urllib.parse import quote
 
 from space.core.utils.uuids import uuid_
 
@@ -25,6 +26,8 @@ _METADATA_DIR = "metadata"
 _CHANGE_DATA_DIR = "changes"
 # Folder of user defined functions for materialized views.
 UDF_DIR = 'udfs'
+# Maximal length of the part of a file name taken from a field name.
+_MAX_FILE_PREFIX_LENGTH = 100
 
 
 def new_index_file_path(data_dir_: str):
@@ -34,7 +37,9 @@ def new_index_file_path(data_dir_: str):
 
 def new_record_file_path(data_dir_: str, field_name: str):
   """Return a random record file path in a given data directory.."""
-  return path.join(data_dir_, f"{field_name}_{uuid_()}.array_record")
+  # A field name may be no valid file name, e.g., when it has slashes.
+  prefix = quote(field_name, safe=" ")[:_MAX_FILE_PREFIX_LENGTH]
+  return path.join(data_dir_, f"{prefix}_{uuid_()}.array_record")
 
 
 def new_index_manifest_path(metadata_dir_: str):
-- 
2.43.0

