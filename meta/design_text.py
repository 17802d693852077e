HEAD = r'''
# Deciding the semantic properties of vortex by property-based testing

Contents: 1 what vortex promises and how it is cut into properties; 2 the machinery; 3 each property; 4 planted bugs
and what they taught; 5 decisions and false alarms; 6 defects found in vortex; 7 limits. (Written by meta/design.py from
meta/design_text.py, meta/props.py and the lists beside them.)

## 1. What is promised

Vortex stores columns in compressed encodings that nest, computes on them without decoding, writes them to streams and
files, reads them back lazily under projections and filters, and hands them to Arrow, DataFusion and Python. Nearly all
it promises is of one shape: *whatever the encodings, the answer is that of the plain values*. The properties follow the
layers from which users see this:

- values: C02 decoding, C30 construction, C01 compression, C32 what compression achieves, C12 validity, C23 accessors and views, C26 lazily parsed arrays
- compute: C04 slice, C05 take, C06 filter, C07 search, C08 compare, C09 and/or, C10 cast, subtract, fill, C11 statistics, C24 chunks, C17 refusal of invalid arguments, C28 threads
- types and scalars: C19, C20
- storage: C13 streams, C14 files, C15 row filters, C31 footers and what a scan reads, C25 faults, C27 buffers and I/O adapters
- neighbours: C18 Arrow, C21 expressions, C22 DataFusion, C29 Python

C03 and C16 of an earlier numbering were merged into C02 and into C14/C15.

All properties are decided by this task's technique, generated-input search against an explicit oracle; none is not
applicable. What the technique cannot do here is listed under 7.

## 2. Machinery

**Harness** (`harness/`, one binary `vxcheck`, path dependencies on /repo's crates, an empty workspace of its own).
`build.sh` builds it from /repo's working tree with /repo's toolchain (debug assertions and overflow checks on) into
/verif/target; `check.sh <id>` builds and runs one property. /repo needs no hooks: everything is reached through public
interfaces, so the checks judge what the code does, not how it is written.

**Choice tapes** (`pbt.rs`). A property is a function of a generator `G` that draws numbers. A random run records them;
shrinking edits the recorded tape (deletes blocks, zeroes, halves and decrements values) and replays the property, so any
generator shrinks for free, and the shrunk tape is the replay file (`replays/<id>-<sub>-<seed>-<case>.json`, run again
with `vxcheck replay FILE`). A case is a pure function of (seed, property, sub-check, case number); runs are deterministic.

**Runner** (`main.rs`). Cases are dealt to 8 worker processes. A panic is a failure, and so is the death of a worker (stack
overflow, abort, memory fault) and a case that does not end (the worker writes the case number before it starts; the
runner finds the case by it, and shrinks it in child processes). Memory is limited per worker. Pinned cases of the
recorded findings are run on every check: if one no longer fails, or fails otherwise, it is reported. The evidence file
counts cases, distinct non-trivial cases (by tape hash; the rule is stated per property), labels (which encodings and
situations occurred), exclusions by known findings, and samples.

**Model** (`model.rs`). A column is a vector of optional values with a type: null, bool, all integers, f16/f32/f64 (bit
exact), UTF-8, binary, structs, temporal extension types. All oracles for arrays work on it: slicing a vector, a
stable sort, IEEE total order, element-wise operations.

**Generator of arrays** (`gen.rs`). Draws a type, a column (values with runs, few distinct values, small ranges with
outliers, sortedness, extreme and special floats, strings with shared parts, lengths around block boundaries such as
0, 1, 63-65, 1023-1025, 2048) and then *a tree of encodings that represents it*: primitive, bool, byte-bool, roaring bool
and int, constant, sparse, chunked (empty chunks, zero chunks), dict, run-end, run-end bool, bit-packed with patches,
frame of reference, delta, ALP, ALP-RD, FSST, zigzag, datetime-parts, varbin (all offset types), varbin view, struct,
extension, and what the compressor returns; validity likewise in any boolean encoding. Arrays pass through slices (of
something longer), IPC round trips (so they are views over bytes, with stored statistics) and statistics computed
beforehand, at any level. One generator serves all array properties, so a new encoding or situation strengthens all.

**Python** (`py/`). C29 builds the extension module of pyvortex from /repo and drives it from CPython with a port of the
same tape-based runner (`vxpbt.py`): same shrinking, replay files, evidence.

**Why not coverage-guided fuzzing.** The domain is typed and the oracles need valid arrays; libFuzzer on bytes would spend
its time in rejected flatbuffers. Structured generation reaches all but a few lines of the non-test code in scope (see 4:
line coverage and mutation testing were used in its place to find what is not exercised). Malformed input is fuzzed
structurally where it is part of a property (C19, C20, C25).
'''
A = "arrays of all types in random trees of encodings (section 2)"
M = "the model column"
PER = {
"C01": dict(gen="any, sampled (small samples, deep recursion), chunked (chunks of one column, so later chunks use the tree of the former) and like (compressing with the tree learned from another, similar or unrelated array); random subsets of compressors and excluded encodings, input in any encoding", oracle="type, length, values and nulls of the model column, by decoding, by scalar lookup and by slices of the result; every statistic left on the result is checked as in C11", cost="88 500 cases, 25 s"),
"C02": dict(gen=A, oracle=f"{M}: canonical form (type, length, values bit for bit, nulls), `scalar_at` at every index, `is_valid`, `logical_validity`; canonicalizing twice is the identity", bounds="inputs an encoder documents as unsupported (nulls in roaring arrays, unsorted ends) belong to C30 and C17", cost="280 000 cases, 18 s"),
"C04": dict(gen=A + "; a chain of 1 to 4 slices, ranges drawn with preference for ends, empty ranges and block boundaries", oracle="the sliced model column; length and type after every step", cost="280 000 cases, 16 s"),
"C05": dict(gen=A + "; indices of all integer types, in any encoding, sorted or not, with repeats, clustered in a block or spread; takes of takes", oracle="indexing the model column", cost="280 000 cases, 22 s"),
"C06": dict(gen=A + "; masks random at any density, in runs, all or none set, in any boolean encoding", oracle="the retained elements of the model column", cost="280 000 cases, 13 s"),
"C07": dict(gen="sorted columns (total order, nulls last as the library sorts) with duplicates in random encodings and slices; needles present, between, outside of the range and outside of the type's range; one, many at once, native integers (usize/u64)", oracle="binary search over the model column, both sides, found or not found", cost="600 000 cases, 20 s"),
"C08": dict(gen="pairs of columns of one type in independent trees, or a column and a constant (from the column, near to it, or not representable in its encoding); six operators", oracle="element-wise comparison in total order; null where either is null", bounds="struct columns (not supported)", cost="420 000 cases, 27 s"),
"C09": dict(gen="pairs of boolean columns in independent encodings, constant ones among them", oracle="element-wise and/or, null where either is null (see 5)", cost="280 000 cases, 5 s"),
"C10": dict(gen="columns in random encodings x target types (all widths, signs, nullabilities, floats) ; numeric columns x scalars of their type; nullable columns to fill", oracle="element-wise: exact value, null, or error exactly where a value or null has no representation; subtraction exact; fill-forward by a loop", bounds="differences outside of the type's range; encodings without a kernel may say so", cost="560 000 cases, 15 s"),
"C11": dict(gen="columns in random encodings whose statistics are computed in random order; derivations by slice, take, filter, compression, IPC and chunking with statistics computed in between; columns cut into parts, any statistics of each part put in a set and the sets merged", oracle="each statistic recomputed from the model column, for merged sets of statistics from the column of all parts; whatever is reported must be true (minimum and maximum over valid values, NaN last; runs; bit widths)", bounds="`is_constant = false` is accepted for constant columns outside plain arrays; run counts of chunked arrays are upper bounds as documented", cost="420 000 cases, 25 s"),
"C12": dict(gen="validities of each kind (array ones in any boolean encoding, sliced) and sequences of operations", oracle="vectors of booleans", cost="360 000 cases, 9 s"),
"C13": dict(gen="sequences of arrays and pages written by every writer to sinks that split writes, read by every reader from sources that split reads; selections of rows over chunked streams", oracle="model columns, encoding ids, statistics; recorded chunk offsets reread on their own; taken rows by indexing", bounds="selections sorted, as the interface demands; arrays of no chunks of extension types (KF1)", cost="180 000 cases, 20 s"),
"C14": dict(gen="files of 0 to several chunks, columns in random trees and of different chunkings, written by struct, stream and repeated writes; projections by name, position, mixed, repeated, reordered, empty; batch sizes from 1 up; readers over memory, files, object stores, split reads; `read_all` and the Arrow record-batch reader; schemas and footers larger than the initial read; and what must be refused: arrays of another type, unknown columns, missing encodings", oracle="model columns: schema, batch lengths, rows in order; an error for what must be refused", bounds="KF2 (null rows of the top-level struct), KF3 (no columns)", cost="53 000 cases, 22 s"),
"C15": dict(gen="the files of C14 with predicates: trees of comparisons, and, or over columns by name and position, literals inside and outside the range; projections with and without the filter's columns", oracle="the predicate evaluated on model rows, null not selecting", bounds="KF4 (`with_indices`)", cost="30 000 cases, 30 s"),
"C17": dict(gen="arguments: every compute function with one argument made invalid (range, index, length, type, position) on arrays in random encodings; parts: constructors of every encoding with consistent parts or one made inconsistent (length, type, nullability, offsets, ends)", oracle="refusal with an error, no panic; consistent parts accepted and readable", bounds="data-level inconsistencies that are unchecked by design (codes or offsets beyond the range, values in unsorted runs unless sortedness is stated)", cost="256 000 cases, 4 s"),
"C18": dict(gen="columns of all Arrow-expressible types in random trees; Arrow arrays with offsets, null buffers, values under nulls, large/view layouts (views over several, empty, unused and shared buffers; offsets that start behind zero), nested structs, record batches with schema; Arrow datums; raw buffers", oracle="Arrow values read one by one against the model; inferred types; schema of record batches; both directions", bounds="types documented as unsupported (lists, durations, intervals, decimals, dictionaries)", cost="500 000 cases, 22 s"),
"C19": dict(gen="nested types, struct schemas with hostile names, extension metadata; temporal metadata and calendar values; corrupted bytes of each serialization", oracle="equality after each round trip; a list of names for lookups and projections, compared with projections applied in serialized form; for corrupted bytes: error or a type that serializes again; calendar arithmetic by a reference for civil dates", bounds="dates outside of jiff's range", cost="3.75 million cases, 15 s"),
"C20": dict(gen="nested scalars of all types; protobuf, flexbuffer and serde round trips; corrupted protobuf; casts between all pairs; native reads; order on pairs and triples; DataFusion's scalars", oracle="the model value; order: antisymmetry, transitivity, agreement with equality and with the value order; a cast is exact, null or an error", bounds="flexbuffers is not corrupted (the dependency panics on its own); JSON of bytes and non-finite floats", cost="6.3 million cases, 18 s"),
"C21": dict(gen="struct arrays in random trees x expression trees (columns by name and position, literals, six comparisons, and/or, selections)", oracle="evaluation row by row on the model; references of the expression; equality of expressions", cost="120 000 cases, 16 s"),
"C22": dict(gen="struct arrays registered as memory tables (pushdown on and off) or written to files and registered through the Vortex file format (one and several files); queries with projections, filters (and, or, not, null tests, in lists, ranges), limits, sorts, aggregates; expressions converted between DataFusion and Vortex", oracle="DataFusion itself over the same rows as an Arrow table (differential); converted expressions evaluated on both sides", bounds="queries at which the reference errors, counts over Null-typed columns, literals DataFusion cannot print", cost="62 000 cases, 21 s"),
"C23": dict(gen="columns in random trees x accessors, iterators, batch sizes; boolean, struct and extension views; element-wise helpers", oracle="the model column; for boolean views true counts, set indices and ranges; for structs each field and projection", bounds="KF5; constant structs and extensions, which cannot be canonicalized", cost="450 000 cases, 16 s"),
"C24": dict(gen="chunkings with empty chunks and of different encodings; rechunk targets in rows and bytes, also where small chunks must be joined; iterators and streams with failing items and pending polls", oracle="the concatenated model column; chunk offsets; sizes of rechunked chunks; the error is delivered, what came before is right", cost="100 000 cases, 17 s"),
"C25": dict(gen="streams cut at any byte, reads failing at any call with several error kinds, files with damaged trailers, sources that fail while taking rows, sinks that fail or write nothing", oracle="an error and never a shorter result, and nothing after it; batches before it equal the model; writers report", bounds="a corrupted postscript is only required not to panic or loop: it may point at other valid data", cost="340 000 cases, 16 s"),
"C26": dict(gen="arrays in random trees written and read back as views; contexts lacking encodings", oracle="tree of encodings, types, lengths, buffers, sizes compared with the owned array, part by part; traversal sums; conversion back to owned; statistics", bounds="nbytes of bit-packed data (padding), rendered metadata", cost="90 000 cases, 11 s"),
"C27": dict(gen="bytes in all kinds of memory, slices of slices, strings, conversions; reads through memory, file, object store, cursor, offset and limit adapters, sequences of writes", oracle="plain byte vectors; out-of-range reads fail with an unexpected end", bounds="the monoio adapter (io_uring runtime) is not run", cost="1.4 million cases, 7 s"),
"C28": dict(gen="2 to 5 threads released by a barrier on one array in a random tree; each runs a random sequence of statistics, scalar, validity, slice, take, filter, decode and serialize", oracle="each answer against the model; a watchdog against deadlock; statistics left behind checked as in C11", bounds="schedules are those the operating system produces, not enumerated: the only shared state is the lock around the statistics", cost="36 000 cases, 11 s"),
"C29": dict(gen="from Python: Arrow arrays, chunked arrays, tables (sliced, nested), lists; compress; compare, slice, take, filter, fill_forward, scalar_at; files read with projections, row filters, Arrow filters; the dataset interface (scanner, head, take, count_rows, to_batches)", oracle="pyarrow, NumPy, pandas and Polars values and plain Python", bounds="types the package does not convert; NaN and -0.0 in comparisons; string and unsigned columns in Arrow filters (pyarrow 17 and Substrait); KF6", cost="17 000 cases, 17 s"),
"C30": dict(gen="vectors, options, iterators, strings, sets; builder histories (value, null, bulk pushes, finish); nested arrays; every encoder called directly on values it accepts or refuses", oracle="the list of values: type, length, nulls, values, readable in every way; an encoder gives the values back or an error", bounds="nullability where the constructor's documentation leaves it open (`from_iter_bin`, byte-bool vectors)", cost="430 000 cases, 11 s"),
"C31": dict(gen="the files of C14 (0 to 5 batches, random trees and chunkings, four ways to write); scans with projections, filters and batch sizes of C15, seen batch by batch through a reader that records reads", oracle="the flatbuffers of the footer walked by the harness, each chunk decoded on its own and compared with the model rows at the offset the footer implies; the row-offset table against the lengths of the chunks; recorded reads against the byte ranges of the columns asked for", bounds="KF3 (no columns); filters by position may read every column", cost="28 000 cases, 22 s"),
"C32": dict(gen="encoders: values of every kind the encoders take (runs, repeats, narrow with outliers, shifted and scaled, signed, decimals, timestamps) given to each encoder directly; larger: arrays of up to 1 024 rows in random trees given to random subsets of compressors; structured: data of one plain structure (constant, runs, narrow, signed, outliers, shifted, low cardinality, decimals, text, timestamps; in plain arrays, structs, chunks, or blocks of two shapes) given to the default compressor", oracle="the structure counted on the values: number of runs, distinct values, best bit width by trying all widths and exactly the values beyond it as patches, minimum and common shift, exponents by trying all; no result larger than its input; sizes of structured data against the size of that structure", bounds="sizes with a slack of 1.6 times plus 4 000 bytes, as the choice is made on samples; constants of extension types; which compressor is chosen is left open", cost="126 000 cases, 10 s"),
}
TAIL = dict(before_catch=r'''
## 4. Planted bugs, and what they taught

Bugs were planted from the text of the properties (seeded/, one directory each). All of them build, pass the 390 stable
tests, and have a demonstration. "Caught by" names the checks that report a VIOLATION with the change applied.
''', after_catch=r'''
Missed at first, and what changed:

- c07-search-signed-zero: search over floats was generated without both zeros and NaNs; C07 generates them since.
- The conjunction of two constants was wrong in a way C09 did not see but C21 did: C09 now draws constants on both sides.
- A writer that held back bytes until flushed was found by C29 (a truncated file from Python), not by C14; C25 checks sinks with buffered writes since.
- Roaring encoders that lost nulls and repeated values were reached only by C30's direct calls to encoders: C02's generator respects what encoders accept.
- c23-varbin-iterate-sliced: the checks named encodings by their id, which prints with a code (`vortex.bool(0x02)`), so a branch of
  C23 (and the exact statistics of leaves in C11 and C28) had never run. The labels in the evidence had said so; they are read since.
- c28-try-lock-statistics: C28 took a missing statistic for "not computed". It compares with what one thread gets since, and lets
  threads ask for the same statistic at the same moment.
- c25-filter-read-past-end: faults were injected only into scans without filters; C25 reads with row filters since.
- Positions beyond the end of an array hung, panicked or gave rows depending on the encoding; C17 and C13 had checked refusals only for
  sorted, single-encoding cases. Both draw impossible positions for every encoding and for streams since (two fixes).
- c32-alp-sample-prefix: the decimals of a column were alike from end to end. C32 draws columns since of which one end has no decimals.
- c18-view-empty-buffers: Arrow view arrays had a single buffer. Several, empty, unused and shared ones are drawn since, for Vortex's own
  view arrays too, and strings whose first offset is not zero.
- c26-view-sorted-from-strict: arrays had all their statistics set or none; the generator sets any subset of true ones since.

Rejected because the existing tests catch them: the first best bit width; reading delivered columns again; casts between integers of one width; guessing the chunk of an index; nullability of
Arrow fields; rechunking one row too far; delta slice offset; `>=` in the bit-packing patch bound; `<=` in the frame-of-reference minimum; fill-forward by runs.

**Mutation testing.** An own mutator (4 320 mutants of the non-test code: comparison and arithmetic operators, constants,
conditions, early returns, as run-time switches in one build) was run against the checks at 1.5 % of the quick scale. About
three quarters were killed at that scale; survivors were read one by one. Most are equivalent (capacity hints, fast paths
with an equal slow path, error texts, display) or need the full scale; the rest led to generators that were missing: chunked
arrays of no chunks, `read_all`, constructions from values (C30), refusals (C17), row-taking streams with chunk boundaries.

**Line coverage** over the non-test code in scope was used to the same end. Left unreached: the inline-dtype layout (no
writer or context creates it), the monoio adapter, tracing and display of rare errors.

## 5. Decisions and false alarms

- *Nulls in and/or.* SQL's Kleene logic would make `false and null` false. The existing tests demand null (Arrow's `and`/`or`
  kernels), so the models of C09, C15, C21 propagate nulls. Where Kleene logic is the contract of the neighbour (DataFusion,
  C22), Vortex refuses to take over disjunctions whose sides can be null (a `fix:` commit); pyarrow filters remain as KF6.
- *Floats* compare by IEEE total order everywhere, as Vortex scalars and Arrow kernels do; some kernels did not, and were repaired.
- *Casts* of values under nulls may not fail the cast; out-of-range values of valid elements must.
- *Statistics*: a missing statistic is never a violation except where computing it is the question (C28).
- First versions that raised false alarms and were corrected, not suppressed: Arrow's `==` on view arrays inside structs looks
  at values under nulls, so record batches with views are compared row by row (C22); run counts of chunked arrays (documented upper
  bound), `nbytes` of padded bit-packed views, DataFusion literals without a textual form, jiff's range of dates, Arrow's
  `From<ArrayData> for StructArray` ignoring offsets (arrow-rs 53.2; worked around in pyvortex), corrupted postscripts that
  happen to point to valid data, JSON numbers serde_json does not round trip.
- Refactorings stay quiet by construction: the checks use public interfaces and values, never encodings chosen by the compressor,
  error texts, or the chunking of results, unless a property names them.
''', end=r'''
## 7. Limits

- Exploration, not proof: every property held on every case generated; counts are in the evidence files.
- Lengths are mostly below 5 000 rows; offsets beyond 32 bits (columns of more than 4 GiB) are not reached.
- C28 relies on real schedules. loom or shuttle would need the locks in vortex to be replaced by theirs.
- Crashes while writing a file are covered as cuts and failing sinks (C25); there is no recovery to check.
- The sandbox lacks io_uring set-ups for monoio, and a Spark/JVM or network object store; the object-store reader is run over the in-memory and local stores.
''')
CATCH = {}
