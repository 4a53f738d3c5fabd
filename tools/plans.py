"""Per property: what is decided, against which oracle."""
PLANS = {
"C01": """
Executes `append` / `append_from` (local runner, append op, record writers,
manifest writers, commit) on symbolic cells, with the three size thresholds as
symbolic integers, so every flush decision of row groups, Parquet files and
record files is taken both ways. Assertion: a fresh load reads exactly the
given rows, in order, with each cell equal (NULLs included), and snapshot and
file row numbers add up. Tests use one threshold; the solver covers the
boundary cases of all of them.""",
"C02": """
Executes `delete(filter)` on several layouts with symbolic keys and constant.
Oracle: the three-valued meaning of the filter per row. Assertion: a row survives
iff the filter is not true for it, bit for bit and in order; files not matched stay
referenced; JobResult says SUCCEEDED iff something was removed. """,
"C03": """
Executes insert (fails iff a key exists or is repeated, leaves the dataset
unchanged then) and upsert (result equals stored rows with other keys plus
the input). Keys are symbolic; all patterns of coincidence between stored and
new keys are paths.""",
"C04": """
Filtered reads (pruning through Substrait conversion, manifest statistics, Parquet
row-group pruning, residual filter) against the three-valued row filter of the
full read. Symbolic cells and constants make "statistics allow some, not all
rows" cases queries instead of examples.""",
"C05": """
After each commit the index manifests are read and every statistic is compared with
the data file it describes: row number, min/max per key = the extreme values
(bounds where the Parquet library only gives bounds), NULL when there is none,
byte sizes.""",
"C06": """
`read_all` is compared with batched reads (symbolic batch size), field subsets
(every subset and order), `reference_read`, snapshot/tag reads; batches obey the
size limit and carry the projected schema.""",
"C07": """
Record fields are written to ArrayRecord files and addressed by (file, row) cells;
assertion: reading gives every row its own record values, through all
histories and all splits of record files by the symbolic size threshold.""",
"C08": """
`diff(start, end)` is replayed on the rows of the start version (delete by key,
add) and compared with the end version; forward and backward, across branches
and tags, errors for incomparable versions.""",
"C09": """
After each operation all snapshots seen so far are read again and compared (rows
and metadata message); snapshot IDs are never assigned twice, tags and branches
added or removed in between.""",
"C10": """
Commits on any of main/branches by two handles; each ref's rows are compared with a
reference history per branch after every step.""",
"C11": """
The operation runs with a symbolic step index at which the process stops, a
write is cut or an I/O error is raised. Afterwards a fresh load must read
either the previous or the new state; the live handle (after an I/O error) too;
and one further operation must work and give the right rows.""",
"C12": """
A complete operation of another handle runs before one symbolic step of the
first handle's operation, up to the final check. The outcome must equal one of
the serial orders, or one of the operations must report failure and have
no effect.""",
"C13": """
Every snapshot's statistics (rows, compressed and uncompressed index bytes, record
bytes) are compared with sums over the manifest entries and with file contents.""",
"C14": """
The dataset directory is renamed or copied between shapes of locations and loaded
there: all reads, versions, diff and further operations give the same rows; no
stored path mentions the old location (loaded external files excepted).""",
"C15": """
After each operation through any handle: live handle (after `reload`), the
acting handle, and `Dataset.load` agree on schema, keys, refs, head, current
branch, rows; after failures of the operation too.""",
"C16": """
Schemas are enumerated as structure, loaded back from disk, compared field by field
(logical and physical), IDs unique and stable; rows round trip through
every type.""",
"C17": """
Sequences of tag/branch operations against a reference map name -> snapshot;
rejections exactly for the documented reasons and without effect.""",
"C18": """
`create` on an existing location (six ways of naming it) fails and leaves the
existing dataset untouched; invalid schemas are rejected before anything is
written, valid ones accepted.""",
"C19": """
Random access (by index, by index lists, by given addresses) is compared with a
full read of the record fields, with deleted rows absent.""",
"C20": """
External Parquet/ArrayRecord files are loaded by glob pattern (the order of matches
is symbolic); reads give the union of rows, followed by every pair of
other operations, which must behave as on rows appended normally.""",
"C21": """
Ray append (`append_from`/`append`) of several forms of input; the rows read
afterwards are the given ones as a multiset, each source's order kept per
the layout, statistics right; a failing source leaves the dataset as it was.""",
"C22": """
Ray reads (block splits by rows or files, batch size, filters, projections,
versions) are compared with the local read as multisets, batch limits kept.""",
"C23": """
The same operation by the Ray and the local runner on copies of the dataset:
same rows, same refusal, same SUCCEEDED/SKIPPED.""",
"C24": """
Ray diff versus local diff and versus the rows of both versions.""",
"C25": """
After a refresh, the rows of the materialized view equal the view read at the
source version it was refreshed to; repeated refreshes change nothing.""",
"C26": """
Join results against the nested-loop oracle with SQL key equality (NULLs
never match), multiplicity included; partition points symbolic.""",
"C27": """
The persisted logical plan (protobuf, pickled UDFs) is loaded and executed: same
schema, same rows as the original view, for symbolic cells and constants.""",
"C28": """
Serialize/deserialize of `DictSerializer` and the dataset-level reads: fields
without serializer are untouched, deserialize(serialize(x)) = x, per value
and field.""",
"C29": """
For every reachable snapshot all manifests, data files and record addresses exist,
lie within the file's row number, and are referenced once; after crashes and
failures as well.""",
"C30": """
Histories of creations in a catalog: `datasets()` lists exactly the created ones,
each opens with its own schema and rows; refused creations leave no trace in the list;
unknown names raise the documented error.""",
"C31": """
Every argument object is copied before the call and compared with itself after it,
cell by cell with symbolic cells; the call is repeated with the same objects and its
result compared with the first one (reads) or with the oracle (writes).""",
"C32": """
The listings of every snapshot, tag and branch of a history are compared with the rows
read from the listed files and with the oracle's rows of that version; filters have
symbolic constants, and a file left out by `data_files` must not hold a row that can
satisfy the filter.""",
"C33": """
The oracle applies the same row functions in Python to the oracle rows of the
source version; runner reads, `read_all`, Ray datasets and diffs of the view must give
that bag for all cells and constants.""",
"C34": """
A read is advanced to a symbolic batch number, further operations run, the read is
finished; what it returned must be the rows at its start, and what
the operations did must be as if there had been no read.""",
"C35": """
One fault at a symbolic file step (or transform call) of a refresh, or another
operation run there; afterwards the materialized view must equal the view at the source
snapshot with its snapshot ID, and a further refresh must bring it up to date.""",
"C36": """
All column orders with additional columns are compared with the oracle; ill-formed
batches at a chosen place must raise and leave rows, snapshots and
statistics as they were.""",
"C37": """
The limits are symbolic; after every append each index file's row groups and
each record file's rows are cut into the written tables, and their summed bytes
compared with the limit: the last table crosses it, the ones before do not.
The other operations run with limits 0 and 2^40.""",
}
