"""Differential test of the environment model: the same calls on fixed values,
answered by the model and by the real libraries.

  /opt/venv/bin/python tools/diff_pa.py          # prints every difference

Not a check: it exercises the model's API surface beyond what the code under
test calls today, so that a refactoring which calls something else still gets
the right answer (or falls back to the real library).
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))

PRE = '''
a = pa.array([3, 1, None, 2], type=pa.int64())
b = pa.array([1, 1, 4, None], type=pa.int64())
s = pa.array(["x", None, "", "yz"])
by = pa.array([b"x", None, b"", b"yz"])
fl = pa.array([1.5, None, -0.0, 2.0])
bo = pa.array([True, None, False, True])
li = pa.array([[1, 2], None, [], [3]], type=pa.list_(pa.int64()))
st = pa.array([{"p": 1, "q": "a"}, None, {"p": None, "q": "b"}, {"p": 4, "q": None}], type=pa.struct([("p", pa.int64()), ("q", pa.string())]))
t = pa.table({"k": a, "s": s, "f": fl})
t2 = pa.concat_tables([t, t.slice(1, 2)])
u = pa.table({"k": pa.array([3, 1, 9], type=pa.int64()), "z": pa.array(["A", "B", "C"])})
sch = pa.schema([pa.field("k", pa.int64()), pa.field("s", pa.string()), pa.field("f", pa.float64())])
ch = pa.chunked_array([a, b])
'''

SNIPPETS = '''
a.to_pylist()
len(a)
a.null_count
a.type
a[0].as_py()
a[2].as_py()
a[-1].as_py()
a[1:3].to_pylist()
a.slice(1).to_pylist()
a.is_null().to_pylist()
a.is_valid().to_pylist()
a.drop_null().to_pylist()
a.fill_null(0).to_pylist()
a.take(pa.array([0, 3])).to_pylist()
a.take([0, 3]).to_pylist()
a.filter(pa.array([True, False, None, True])).to_pylist()
a.cast(pa.int32()).type
a.cast("float64").to_pylist()
a.cast(pa.string()).to_pylist()
a.equals(a)
a.equals(b)
a == a
a.sum().as_py()
a.unique().to_pylist()
a.sort().to_pylist()
a.sort(order="descending").to_pylist()
a.tolist()
a.to_numpy(zero_copy_only=False).tolist()
a.value_counts().to_pylist()
a.index(pa.scalar(2)).as_py()
a.nbytes
s.nbytes
a.dictionary_encode().to_pylist()
a.to_string()
a.validate()
a.copy_to if hasattr(a, "copy_to") else None
pa.concat_arrays([a, b]).to_pylist()
pc.min(a).as_py()
pc.max(a).as_py()
pc.min(s).as_py()
pc.max(s).as_py()
pc.min_max(a).as_py()
pc.min_max(a)["min"].as_py()
pc.min_max(s).as_py()
pc.min_max(ch).as_py()
pc.min_max(fl).as_py()
pc.min(ch).as_py()
pc.sum(a).as_py()
pc.count(a).as_py()
pc.count(a, mode="all").as_py()
pc.count(a, mode="only_null").as_py()
pc.count_distinct(a).as_py()
pc.any(bo).as_py()
pc.all(bo).as_py()
pc.any(pc.is_null(a)).as_py()
pc.is_null(a).to_pylist()
pc.is_null(ch).to_pylist()
pc.is_nan(fl).to_pylist()
pc.is_valid(a).to_pylist()
pc.invert(bo).to_pylist()
pc.and_(bo, bo).to_pylist()
pc.and_kleene(bo, pa.array([None, None, None, False])).to_pylist()
pc.or_(bo, pa.array([None, True, None, False])).to_pylist()
pc.and_(bo, pa.array([None, None, None, False])).to_pylist()
t.filter(pc.or_(pc.field("k") > 1, pc.field("f") > 1.6)).to_pylist()
t.filter(~pc.and_(pc.field("k") > 2, pc.field("f") > 1.6)).to_pylist()
pc.or_kleene(bo, pa.array([None, True, None, False])).to_pylist()
pc.xor(bo, bo).to_pylist()
pc.equal(a, b).to_pylist()
pc.equal(a, 3).to_pylist()
pc.not_equal(a, b).to_pylist()
pc.less(a, b).to_pylist()
pc.less_equal(a, 2).to_pylist()
pc.greater(a, 1).to_pylist()
pc.greater_equal(ch, 1).to_pylist()
pc.add(a, b).to_pylist()
pc.add(a, 1).to_pylist()
pc.subtract(a, 1).to_pylist()
pc.multiply(a, 2).to_pylist()
pc.divide(a, 2).to_pylist()
pc.is_in(a, value_set=pa.array([1, 2])).to_pylist()
pc.is_in(a, pa.array([1, None], type=pa.int64())).to_pylist()
pc.is_in(ch, value_set=pa.array([1, 2])).to_pylist()
pc.index_in(a, value_set=pa.array([1, 2])).to_pylist()
pc.index(a, 2).as_py()
pc.unique(a).to_pylist()
pc.unique(ch).to_pylist()
pc.value_counts(a).to_pylist()
pc.sort_indices(a).to_pylist()
pc.array_sort_indices(a).to_pylist()
pc.sort_indices(t, sort_keys=[("k", "ascending")]).to_pylist()
pc.take(a, pa.array([1])).to_pylist()
pc.take(t, pa.array([1, 3])).to_pylist()
pc.filter(a, pa.array([True, False, True, True])).to_pylist()
pc.filter(t, pc.greater(t["k"], 1)).to_pylist()
pc.drop_null(a).to_pylist()
pc.drop_null(t).to_pylist()
pc.fill_null(a, 7).to_pylist()
pc.fill_null(ch, 7).to_pylist()
pc.coalesce(a, b).to_pylist()
pc.if_else(bo, a, b).to_pylist()
pc.if_else(bo, a, 0).to_pylist()
pc.if_else(bo, 1, 0).to_pylist()
pc.cast(a, pa.string()).to_pylist()
pc.cast(a, "int32").type
pc.utf8_length(s).to_pylist()
pc.binary_length(by).to_pylist()
pc.starts_with(s, pattern="x").to_pylist()
pc.string_is_ascii(s).to_pylist()
pc.struct_field(st, [0]).to_pylist()
pc.struct_field(st, "q").to_pylist()
pc.make_struct(a, b, field_names=["p", "q"]).to_pylist()
pc.list_flatten(li).to_pylist()
pc.list_value_length(li).to_pylist()
pc.list_parent_indices(li).to_pylist()
pc.first(a).as_py()
pc.last(a).as_py()
pc.mean(a).as_py()
pc.cumulative_sum(pa.array([1,2,3])).to_pylist()
pc.abs(a).to_pylist()
pc.negate(a).to_pylist()
pc.rank(a).to_pylist()
pc.max_element_wise(a, b).to_pylist()
pc.min_element_wise(a, b).to_pylist()
pc.call_function("add", [a, b]).to_pylist()
pc.nonzero if False else pc.indices_nonzero(bo).to_pylist()
pa.array([1, 2, 3])
pa.array([1, None]).type
pa.array(["a", None]).type
pa.array([b"a"]).type
pa.array([1.0]).type
pa.array([True]).type
pa.array([]).type
pa.array([None, None]).type
pa.array([[1], [2]]).type
pa.array([{"a": 1}]).type
pa.array([1, 2], pa.int32()).type
pa.array([1, "a"])
pa.array([1, 2.5]).type
pa.array(["a"], type=pa.int64())
pa.array([1.5], type=pa.int64())
pa.array([1], type=pa.string())
pa.array([300], type=pa.int8())
pa.array([-1], type=pa.uint8())
pa.array(range(3)).to_pylist()
pa.array((1, 2)).to_pylist()
pa.array(x for x in [1, 2]).to_pylist()
pa.array({1: 2})
pa.array([1, 2], mask=np.array([True, False])).to_pylist()
pa.array(np.array([1, 2])).to_pylist()
pa.array(np.array([1, 2], dtype="int32")).type
pa.array(a).to_pylist()
pa.scalar(1).type
pa.scalar(1, pa.int32()).as_py()
pa.scalar(None).as_py()
pa.scalar("a") == pa.scalar("a")
pa.scalar(1).equals(pa.scalar(1))
pa.scalar(1).is_valid
pa.scalar(1).cast(pa.string()).as_py()
pa.nulls(3).to_pylist()
pa.nulls(2, pa.int64()).type
pa.repeat(5, 3).to_pylist()
pa.repeat("a", 2).to_pylist()
st.field(0).to_pylist()
st.field("q").to_pylist()
[x.to_pylist() for x in st.flatten()]
st.type
st[0].as_py()
st[0]["p"].as_py()
st.to_pylist()
st.is_null().to_pylist()
pa.StructArray.from_arrays([a, s], names=["p", "q"]).to_pylist()
pa.StructArray.from_arrays([a, s], ["p", "q"]).type
pa.StructArray.from_arrays([a, s], fields=[pa.field("p", pa.int64()), pa.field("q", pa.string())]).to_pylist()
li.flatten().to_pylist()
li.values.to_pylist()
li.offsets.to_pylist()
li.value_lengths().to_pylist()
pa.ListArray.from_arrays(pa.array([0, 2, 3]), pa.array([1, 2, 3])).to_pylist()
ch.to_pylist()
ch.num_chunks
len(ch)
ch.type
ch.chunk(0).to_pylist()
[c.to_pylist() for c in ch.chunks]
[c.to_pylist() for c in ch.iterchunks()]
ch.combine_chunks().to_pylist()
ch.slice(2, 4).to_pylist()
ch[5].as_py()
ch[2:6].to_pylist()
ch.null_count
ch.nbytes
ch.is_null().to_pylist()
ch.unique().to_pylist()
ch.filter(pa.chunked_array([[True]*8])).to_pylist()
ch.take(pa.array([7, 0])).to_pylist()
ch.cast(pa.float64()).to_pylist()
ch.equals(pa.chunked_array([a, b]))
ch.equals(pa.chunked_array([pa.concat_arrays([a, b])]))
ch.to_numpy().tolist()[0]
ch.index(pa.scalar(2)).as_py()
ch.sort().to_pylist()
ch.drop_null().to_pylist()
ch.fill_null(0).to_pylist()
ch.length()
ch.value_counts().to_pylist()
ch.dictionary_encode().to_pylist()
ch.flatten()[0].to_pylist()
ch.validate()
pa.chunked_array([], type=pa.int64()).to_pylist()
pa.chunked_array([[1], [2]]).to_pylist()
pa.chunked_array([])
t.num_rows
t.num_columns
t.shape
t.column_names
t.schema
t.schema.names
t.nbytes
t.get_total_buffer_size()
len(t)
t.columns[0].to_pylist()
t.column("k").to_pylist()
t.column(0).to_pylist()
t["k"].to_pylist()
t["nope"]
t[0].to_pylist()
t[1:3].to_pylist()
t[:2].to_pydict()
t[-2:].to_pydict()
"k" in t.column_names
t.to_pydict()
t.to_pylist()
t.select(["f", "k"]).to_pylist()
t.select([0]).to_pylist()
t.select(["nope"])
t.drop(["k"]).column_names
t.drop("k").column_names
t.drop_columns(["k", "s"]).column_names
t.drop(["nope"])
t.drop_null().to_pylist()
t.rename_columns(["a", "b", "c"]).column_names
t.rename_columns(["a"])
t.append_column("n", pa.array([1, 2, 3, 4])).to_pylist()
t.append_column(pa.field("n", pa.int64()), pa.array([1, 2, 3, 4])).schema
t.append_column("n", [[1, 2, 3, 4]]).to_pylist()
t.append_column("n", pa.array([1]))
t.add_column(0, "n", pa.array([1, 2, 3, 4])).column_names
t.add_column(1, "n", [pa.array([1, 2, 3, 4])]).to_pydict()
t.set_column(0, "k", pa.array([1, 2, 3, 4])).to_pydict()
t.set_column(1, "n", pa.array([1, 2, 3, 4])).column_names
t.remove_column(0).column_names
t.slice(1).to_pylist()
t.slice(1, 2).to_pylist()
t.slice(9).num_rows
t.slice(0, 0).schema
t.filter(pc.field("k") > 1).to_pylist()
t.filter(pc.field("s").is_null()).to_pylist()
t.filter(~(pc.field("k") == 1)).to_pylist()
t.filter(pc.field("k").isin([1, 3])).to_pylist()
t.filter((pc.field("k") > 1) & (pc.field("f") > 1.6)).to_pylist()
t.filter((pc.field("k") > 1) | (pc.field("f") > 1.6)).to_pylist()
t.filter(pc.is_in(pc.field("k"), pa.array([2]))).to_pylist()
t.filter(pc.is_in(pc.field("k"), value_set=pa.array([2]))).to_pylist()
t.filter(pc.equal(pc.field("k"), pc.scalar(2))).to_pylist()
t.filter(pc.scalar(True)).num_rows
t.filter(pc.scalar(False)).num_rows
t.filter(pa.array([True, False, None, True])).to_pylist()
t.filter([True, False, True, True]).to_pylist()
t.filter(pc.is_in(t["k"], value_set=pa.array([1, 2]))).to_pylist()
t.filter(pc.invert(pc.is_in(t["k"], value_set=pa.array([1, 2])))).to_pylist()
t.filter(pc.field("k") + 1 > 2).to_pylist()
t.filter(pc.field("nope") > 1)
t.take([0, 2]).to_pylist()
t.take(pa.array([3])).to_pylist()
t.sort_by("k").to_pylist()
t.sort_by([("k", "descending")]).to_pylist()
t.sort_by([("s", "ascending"), ("k", "ascending")]).to_pylist()
t.group_by("k").aggregate([("f", "sum")]).to_pylist()
t2.group_by("k").aggregate([("f", "count")]).column_names
t2.group_by(["k", "s"]).aggregate([]).to_pylist()
t2.group_by("k").aggregate([([], "count_all")]).to_pylist()
t2.group_by("k", use_threads=False).aggregate([("s", "min")]).to_pylist()
t2.group_by("k").aggregate([("s", "list")]).num_rows
t2.group_by("k").aggregate([("s", "count_distinct")]).to_pylist()
t.join(u, "k").sort_by("k").to_pylist()
t.join(u, keys="k", join_type="inner").to_pylist()
t.join(u, "k", join_type="left semi").to_pylist()
t.join(u, "k", join_type="left anti").to_pylist()
t.join(u, ["k"], join_type="right outer").sort_by("k").to_pylist()
t.join(u, ["k"], join_type="full outer").sort_by("k").num_rows
t.join(u, "k", right_keys="k", join_type="inner").column_names
t.join(u, "nope")
t.combine_chunks().column(0).num_chunks
t2.column(0).num_chunks
t2.combine_chunks().column(0).num_chunks
[x.num_rows for x in t2.to_batches()]
[x.num_rows for x in t2.to_batches(max_chunksize=3)]
[x.to_pydict() for x in t.to_batches()]
[x.num_rows for x in t2.to_reader(3)]
[x.num_rows for x in t2.to_reader(max_chunksize=1)]
t2.to_reader().read_all().num_rows
t2.to_reader().schema
pa.Table.from_batches(t2.to_batches()).equals(t2)
pa.Table.from_batches([], schema=sch).num_rows
pa.Table.from_batches([])
pa.RecordBatchReader.from_batches(sch, t.to_batches()).read_all().to_pylist()
pa.RecordBatch.from_pydict({"a": [1, 2]}).to_pylist()
pa.RecordBatch.from_pylist([{"a": 1}, {"a": 2}]).to_pydict()
pa.RecordBatch.from_arrays([a], names=["k"]).num_rows
pa.record_batch({"a": [1]}).schema
pa.record_batch([a], names=["k"]).column("k").to_pylist()
t.to_batches()[0].column(0).to_pylist()
t.to_batches()[0]["k"].to_pylist()
t.to_batches()[0].slice(1, 1).to_pydict()
t.to_batches()[0].filter(pa.array([True, False, True, True])).num_rows
t.to_batches()[0].select(["k"]).to_pydict()
t.to_batches()[0].equals(t.to_batches()[0])
t.to_batches()[0].to_struct_array().to_pylist()
t.to_struct_array().to_pylist()
t.equals(t)
t.equals(t2)
t == t
t != t2
t.equals(pa.table({"k": a, "s": s, "f": fl}, schema=sch))
t.cast(pa.schema([("k", pa.int32()), ("s", pa.string()), ("f", pa.float32())])).schema
t.cast(pa.schema([("k", pa.int32())]))
t.flatten().column_names
pa.table({"st": st}).flatten().to_pydict()
pa.table({"st": st}).column("st").flatten()[0].to_pylist()
pa.table({"st": st})["st"].combine_chunks().field("p").to_pylist()
pa.table({"a": [1]}).schema
pa.table([a, b], names=["x", "y"]).to_pydict()
pa.table([a, b], schema=pa.schema([("x", pa.int64()), ("y", pa.int64())])).to_pydict()
pa.table({"a": [1, 2], "b": [1]})
pa.table({"k": [1], "s": ["a"], "f": [1.0]}, schema=sch).to_pylist()
pa.table({"k": [1], "s": ["a"]}, schema=sch)
pa.table({"k": ["a"], "s": ["a"], "f": [1.0]}, schema=sch)
pa.Table.from_pydict({"k": [1], "s": ["a"], "f": [1]}, schema=sch).to_pylist()
pa.Table.from_pydict({"a": [1, None]}).schema
pa.Table.from_pylist([{"k": 1}, {"k": 2, "s": "x"}], schema=sch).to_pylist()
pa.Table.from_pylist([{"a": 1}, {"b": 2}]).to_pylist()
pa.Table.from_pylist([]).num_rows
pa.Table.from_pylist([], schema=sch).num_rows
pa.Table.from_arrays([a, s, fl], schema=sch).to_pylist()
pa.Table.from_arrays([a, s], names=["x", "y"]).to_pylist()
pa.Table.from_arrays([a, s], schema=sch)
pa.Table.from_arrays([s, a, fl], schema=sch)
pa.Table.from_arrays([a, pa.array([1])], names=["x", "y"])
pa.Table.from_arrays([ch, ch], names=["x", "y"]).num_rows
sch.empty_table().to_pydict()
sch.empty_table().schema
pa.concat_tables([t, t]).num_rows
pa.concat_tables([t, u])
pa.concat_tables([t, u], promote_options="default").to_pylist()
pa.concat_tables([t, u], promote=True).num_rows
pa.concat_tables([])
pa.concat_tables(x for x in [t, t]).num_rows
pa.concat_tables([t.select(["k"]), t.select(["k"]).cast(pa.schema([("k", pa.int32())]))])
pa.concat_tables([t.select(["k"]), t.select(["k"]).cast(pa.schema([("k", pa.int32())]))], promote_options="permissive").schema
pa.concat_batches(t.to_batches() + t.to_batches()).num_rows if hasattr(pa, "concat_batches") else None
t.column("k").combine_chunks().to_pylist()
t.itercolumns().__next__().to_pylist()
t.field("k")
t.field(0)
t.schema.field("k").type
t.schema.get_field_index("s")
t.replace_schema_metadata({"a": "b"}).schema.metadata
t.replace_schema_metadata(None).schema.metadata
t.validate()
t.unify_dictionaries().num_rows
t.to_pandas()["k"].tolist()[0]
pa.Table.from_pandas(t.to_pandas(), preserve_index=False).num_rows
pc.field("a") == 1
str(pc.field("a") == 1)
str((pc.field("a") == 1) & (pc.field("b") > "x"))
str(~(pc.field("a") == 1))
str(pc.field("a").is_null())
str(pc.field("a").isin([1, 2]))
str(pc.field("a", "b") < 2.5)
str(pc.scalar(1))
str(pc.scalar("a"))
str(pc.scalar(b"a"))
str(pc.scalar(True))
(pc.field("a") == 1).equals(pc.field("a") == 1)
(pc.field("a") == 1).equals(pc.field("a") == 2)
isinstance(pc.field("a"), pc.Expression)
isinstance(pc.field("a") > 1, pc.Expression)
pq.write_table(t, "w.parquet") or pq.read_table("w.parquet").to_pylist()
pq.write_table(t2, "w.parquet", row_group_size=2) or pq.read_metadata("w.parquet").num_row_groups
pq.read_table("w.parquet", columns=["k"]).to_pylist()
pq.read_table("w.parquet", columns=[]).num_rows
pq.read_table("w.parquet", columns=["nope"]).column_names
pq.read_table("w.parquet", filters=pc.field("k") > 1).to_pylist()
pq.read_table("w.parquet", columns=["s"], filters=pc.field("k") > 1).to_pylist()
pq.read_table("w.parquet", filters=[("k", ">", 1)]).to_pylist()
pq.read_table("w.parquet", filters=[[("k", "=", 1)], [("k", "in", [3])]]).to_pylist()
pq.ParquetFile("w.parquet").metadata.num_rows
pq.ParquetFile("w.parquet").num_row_groups
pq.ParquetFile("w.parquet").schema_arrow
pq.ParquetFile("w.parquet").read().num_rows
pq.ParquetFile("w.parquet").read(columns=["k"]).to_pylist()
pq.ParquetFile("w.parquet").read_row_group(0).to_pylist()
pq.ParquetFile("w.parquet").read_row_groups([0, 1]).to_pylist()
pq.ParquetFile("w.parquet").read_row_group(1, columns=["s"]).to_pylist()
[x.num_rows for x in pq.ParquetFile("w.parquet").iter_batches(batch_size=4)]
[x.num_rows for x in pq.ParquetFile("w.parquet").iter_batches()]
pq.read_metadata("w.parquet").num_rows
pq.read_metadata("w.parquet").num_columns
pq.read_metadata("w.parquet").row_group(0).num_rows
pq.read_metadata("w.parquet").row_group(0).num_columns
pq.read_metadata("w.parquet").row_group(0).column(0).path_in_schema
pq.read_metadata("w.parquet").row_group(0).column(0).is_stats_set
pq.read_metadata("w.parquet").row_group(0).column(0).statistics.min
pq.read_metadata("w.parquet").row_group(0).column(0).statistics.max
pq.read_metadata("w.parquet").row_group(0).column(0).statistics.has_min_max
pq.read_metadata("w.parquet").row_group(0).column(0).statistics.null_count
pq.read_metadata("w.parquet").row_group(0).column(1).statistics.min
pq.read_metadata("w.parquet").row_group(0).column(0).num_values
pq.read_metadata("w.parquet").schema.names
pq.read_metadata("w.parquet").schema.to_arrow_schema()
pq.read_schema("w.parquet")
pq.ParquetDataset("w.parquet").read().num_rows
pq.ParquetDataset(["w.parquet"], filters=pc.field("k") > 1).read().to_pylist()
pq.ParquetDataset("w.parquet").schema
pq.ParquetDataset("w.parquet").files
[f.count_rows() for f in pq.ParquetDataset("w.parquet").fragments]
pq.read_table("none.parquet")
[w.write_table(t) for w in [pq.ParquetWriter("x.parquet", t.schema)]] and [None]
[(w.write_table(t), w.write(t), w.close()) and 0 for w in [pq.ParquetWriter("x.parquet", t.schema)]] + pq.read_table("x.parquet").to_pylist()
[(w.write_batch(t.to_batches()[0]), w.close()) and 0 for w in [pq.ParquetWriter("x.parquet", t.schema)]] + [pq.read_metadata("x.parquet").num_rows]
[(w.write_table(t), w.close()) and 0 for w in [pq.ParquetWriter("x.parquet", t.schema, compression="zstd")]]
[(w.write_table(u), w.close()) and 0 for w in [pq.ParquetWriter("x.parquet", t.schema)]]
w_with()
[m.append(0) or 0 for m in [[]]]
pa.types.is_integer(a.type)
pa.types.is_string(s.type)
isinstance(a, pa.Array)
isinstance(a, pa.Int64Array)
isinstance(s, pa.StringArray)
isinstance(s, pa.BinaryArray)
isinstance(st, pa.StructArray)
isinstance(a, pa.StructArray)
isinstance(li, pa.ListArray)
isinstance(ch, pa.ChunkedArray)
isinstance(ch, pa.Array)
isinstance(t, pa.Table)
isinstance(t.to_batches()[0], pa.RecordBatch)
isinstance(t, pa.RecordBatch)
isinstance(a[0], pa.Scalar)
isinstance(pa.scalar(1), pa.Scalar)
type(t) is pa.Table
isinstance(t.schema, pa.Schema)
pa.ArrowInvalid
pa.lib.ArrowInvalid
pa.lib.Table is pa.Table
hash(a[0]) == hash(pa.scalar(3))
{x.as_py() for x in a} == {1, 2, 3, None}
set(a.to_pylist()) == {1, 2, 3, None}
list(a)[0].as_py()
[x.as_py() for x in ch]
dict(zip(a.to_pylist(), b.to_pylist())) == {3: 1, 1: 1, None: 4, 2: None}
max(x for x in a.to_pylist() if x is not None)
str(a.type)
repr(pa.scalar(1))
bool(pa.scalar(True))
bool(a[0].as_py())
pa.unify_schemas([sch, u.schema]).names
pa.schema([("a", "int64")])
t.column("k").slice(1, 2).to_pylist()
t["k"].combine_chunks().slice(1, 2).to_pylist()
a.to_pylist().index(2)
pa.Table.from_struct_array(st).to_pydict() if hasattr(pa.Table, "from_struct_array") else None
pa.compute.min(a).as_py()
pa.parquet.read_metadata("w.parquet").num_rows
pa.fs.LocalFileSystem is not None
ds_.dataset("w.parquet").to_table().num_rows
ds_.dataset("w.parquet").to_table(filter=pc.field("k") > 1).to_pylist()
ds_.dataset("w.parquet").count_rows()
'''


def run(mode):
  import numpy as np
  cwd = os.getcwd()
  if mode == "fake":
    sys.path.insert(0, os.path.dirname(HERE))
    from symx import install
    sys.path.append(install.Z3_SITE)
    install.install(True)
    from symx import engine as E, fakeio, fakepa, stepfs
    stepfs.SCRATCH[0] = cwd
  import pyarrow as pa
  import pyarrow.compute as pc
  import pyarrow.parquet as pq
  try:
    import pyarrow.dataset as ds_
  except Exception:  # pylint: disable=broad-except
    ds_ = None

  def canon(x, d=0):
    if d > 6:
      return repr(x)
    if isinstance(x, (list, tuple)):
      return [canon(y, d + 1) for y in x]
    if isinstance(x, dict):
      return {str(k): canon(v, d + 1) for k, v in x.items()}
    if isinstance(x, (bool, int, str, bytes, type(None))):
      return repr(x)
    if isinstance(x, float):
      return repr(x)
    if hasattr(x, "to_pylist"):
      return [type(x).__name__[-5:] and "arr", canon(x.to_pylist(), d + 1)]
    return str(x) if not isinstance(x, type) else x.__name__

  out = []
  for line in SNIPPETS.strip().splitlines():
    if mode == "fake":
      E.set_cur(E.Path([]))
      fakeio.STEP_HOOK[0] = None
    g = {"pa": pa, "pc": pc, "pq": pq, "np": np, "ds_": ds_}
    try:
      exec(PRE, g)

      def w_with():
        with pq.ParquetWriter("y.parquet", g["t"].schema) as w:
          w.write_table(g["t"])
        return pq.read_table("y.parquet").num_rows

      g["w_with"] = w_with
      r = canon(eval(line, g))
      # Fixed values must come back fixed.
      r = ["ok", json.loads(json.dumps(r, default=str))]
    except BaseException as e:  # pylint: disable=broad-except
      r = ["raise", type(e).__name__, str(e)[:150]]
    out.append((line, r))
  print("RESULT" + json.dumps(out))


if __name__ == "__main__":
  if len(sys.argv) > 1:
    run(sys.argv[1])
    sys.exit()
  res = {}
  for mode_ in ("real", "fake"):
    with tempfile.TemporaryDirectory() as tmp:
      p = subprocess.run([sys.executable, os.path.abspath(__file__), mode_],
                         cwd=tmp, capture_output=True, text=True, check=False)
    line_ = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
    if not line_:
      sys.exit(p.stderr[-3000:])
    res[mode_] = json.loads(line_[0][6:])
  n = 0
  for (l, r_), (_, f_) in zip(res["real"], res["fake"]):
    same = r_ == f_ or (r_[0] == f_[0] == "raise" and r_[1] == f_[1])
    if not same:
      n += 1
      print(l, "\n   real", str(r_)[:200], "\n   fake", str(f_)[:200])
  print(len(res["real"]), "calls,", n, "differ")
