# The property list: id -> (title, statement, over, quantifier text, why tests can't, files, mechanisms, technique note)
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), note=note))

prop("C02", "Every encoding decodes to exactly the values it was built from",
 "For every encoding the library offers and every array of values that encoding accepts, decoding the encoded array gives back a column of the same length, the same data type (nullability included) and bit-for-bit the same values and nulls. Reading one element at a time and asking which elements are null give the same answer as decoding the whole array.",
 ["inputs"], "all data types, all value vectors (special floats, extreme integers, empty, all-null, block-boundary lengths), all encodings and every nesting of encodings inside each other",
 "Unit tests pin a few hand-written vectors per encoding; the encodings nest arbitrarily and their errors sit at block boundaries, extreme values, null patterns and combinations of nested children.",
 ["vortex-array/src/canonical.rs", "vortex-array/src/array/sparse/flatten.rs", "encodings/alp/src/alp/array.rs", "encodings/dict/src/compress.rs", "encodings/runend/src/compress.rs", "encodings/fastlanes/src/bitpacking/compress.rs", "encodings/fastlanes/src/for/compress.rs", "encodings/fastlanes/src/delta/compress.rs", "encodings/fsst/src/canonical.rs", "encodings/datetime-parts/src/compress.rs"],
 [("IntoCanonical", "vortex-array/src/canonical.rs"), ("ScalarAtFn", "vortex-array/src/compute/unary/scalar_at.rs"), ("ArrayValidity", "vortex-array/src/validity.rs")],
 "generated columns encoded into random encoding trees, decoded and compared with the model column")

prop("C04", "Slicing any array selects exactly the requested range",
 "Slicing an array of any encoding to any in-range start and end gives an array of the same type whose elements are the elements of that range, nulls included. Slices may be sliced again, any number of times, with the same result as the combined range.",
 ["inputs", "histories"], "all encoded arrays x all sequences of nested in-range slices",
 "Every encoding keeps its own offsets (bit offsets, block offsets, run offsets, chunk offsets); errors show only for particular combinations of offset, length and earlier slices.",
 ["vortex-array/src/compute/slice.rs", "encodings/fastlanes/src/bitpacking/compute/slice.rs", "encodings/runend/src/compute.rs", "encodings/fastlanes/src/delta/compute.rs", "vortex-array/src/array/sparse/compute/slice.rs", "vortex-array/src/array/chunked/compute/slice.rs"],
 [("slice", "vortex-array/src/compute/slice.rs"), ("SliceFn implementations", "vortex-array/src/array/*/compute, encodings/*/src/compute")],
 "random encoding trees sliced repeatedly and compared with the sliced model column")

prop("C05", "Taking indices from any array selects exactly those elements",
 "Taking a list of in-range indices (repeated, unordered, of any integer type and encoding) from an array of any encoding gives an array of the same type whose i-th element is the element at the i-th index, nulls included.",
 ["inputs"], "all encoded arrays x all in-range index vectors of all integer types and encodings, including takes of takes",
 "Takes are specialised per encoding with separate code paths for dense, sparse, sorted, patched and per-block index patterns, which hand-written index lists do not reach.",
 ["vortex-array/src/compute/take.rs", "encodings/fastlanes/src/bitpacking/compute/take.rs", "vortex-array/src/array/chunked/compute/take.rs", "vortex-array/src/array/varbin/compute/take.rs", "vortex-array/src/array/sparse/compute/take.rs"],
 [("take", "vortex-array/src/compute/take.rs"), ("TakeFn implementations", "vortex-array/src/array/*/compute, encodings/*/src/compute")],
 "random encoding trees and index vectors, compared with the model column")

prop("C06", "Filtering any array keeps exactly the selected elements in order",
 "Filtering an array of any encoding with a boolean mask of the same length, itself in any encoding, gives an array of the same type holding exactly the elements whose mask bit is set, in their original order, nulls included.",
 ["inputs"], "all encoded arrays x all masks (random, runs, all/none, near-boundary) in all boolean encodings",
 "Filters switch between index-wise and range-wise strategies by selectivity, split masks across chunks and fall back between implementations, so the behaviour depends on mask density and layout that samples do not cover.",
 ["vortex-array/src/compute/filter.rs", "vortex-array/src/array/chunked/compute/filter.rs", "vortex-array/src/array/varbin/compute/filter.rs", "vortex-array/src/array/bool/compute/filter.rs", "vortex-array/src/array/primitive/compute/filter.rs"],
 [("filter", "vortex-array/src/compute/filter.rs"), ("FilterFn implementations", "vortex-array/src/array/*/compute")],
 "random encoding trees and masks, compared with the model column")

prop("C07", "Searching a sorted array agrees with binary search over its values",
 "For every sorted array in any encoding and every needle, searching from the left and from the right gives the index (and the found / not found verdict) that binary search over the plain values gives, floats being ordered by the total order and nulls coming last. Searching many needles at once, searching with native integers and searching in slices give the same answers as one-by-one searches.",
 ["inputs"], "all sorted columns (ascending, with duplicates and nulls as the library orders them) x encodings x slices x needles present, absent, out of range and out of the type's range x both sides",
 "Search is reimplemented per encoding (bit-packed with patches, frame-of-reference, run-end, sparse, constant, chunked), with boundary behaviour at patch, run, chunk and slice edges that fixed needles do not hit.",
 ["vortex-array/src/compute/search_sorted.rs", "encodings/fastlanes/src/bitpacking/compute/search_sorted.rs", "encodings/fastlanes/src/for/compute.rs", "encodings/runend/src/compute.rs", "vortex-array/src/array/sparse/compute/mod.rs", "vortex-array/src/array/primitive/compute/search_sorted.rs"],
 [("search_sorted", "vortex-array/src/compute/search_sorted.rs"), ("SearchSortedFn implementations", "vortex-array/src/array/*/compute, encodings/*/src/compute")],
 "sorted columns in random encoding trees searched for generated needles, against binary search over the model column")

prop("C08", "Comparing arrays is the element-wise comparison of their values",
 "Comparing two arrays of the same type and length with any of the six operators, whatever their encodings, gives a boolean column whose elements are the comparisons of the two elements, null wherever either is null.",
 ["inputs"], "all pairs of comparable columns x encodings on both sides x six operators, including comparisons with constant arrays inside and outside the encoding's range",
 "Encodings push comparisons below themselves (dictionary codes, FSST-compressed strings, ALP-encoded floats, frame-of-reference, runs), where needles that cannot be encoded, nulls and extreme values decide correctness.",
 ["vortex-array/src/compute/compare.rs", "encodings/alp/src/alp/compute.rs", "encodings/fsst/src/compute.rs", "vortex-array/src/array/primitive/compute/compare.rs", "vortex-array/src/array/constant/compute.rs", "vortex-array/src/array/varbin/compute/compare.rs"],
 [("compare", "vortex-array/src/compute/compare.rs"), ("MaybeCompareFn/CompareFn", "encodings/*/src/compute, vortex-array/src/array/*/compute")],
 "pairs of random columns in random encoding trees compared with the element-wise model")

prop("C09", "Boolean and/or of arrays is element-wise whatever their encodings",
 "The conjunction and disjunction of two boolean arrays of the same length, in any encodings, is the element-wise one, null wherever either side is null.",
 ["inputs"], "all pairs of boolean columns x boolean encodings (bitmap with offsets, byte-bool, roaring, run-end, sparse, constant, chunked)",
 "The results depend on bit offsets, validity representation and on which of several kernels is chosen for a pair of encodings.",
 ["vortex-array/src/compute/boolean.rs", "vortex-array/src/array/bool/compute/boolean.rs", "vortex-array/src/array/constant/compute.rs", "encodings/runend-bool/src/compute.rs"],
 [("and / or", "vortex-array/src/compute/boolean.rs")],
 "pairs of random boolean columns in random encodings compared with the element-wise model")

prop("C10", "Casts, subtraction and fill-forward compute the element-wise result or fail",
 "Casting an array to another type keeps every value and null exactly, or reports an error when a value or a null has no representation in the target; it never changes a value silently. Subtracting a scalar subtracts it from every valid element, and filling forward replaces every null by the last value before it, in every encoding.",
 ["inputs"], "all columns and encodings x all target types; all integer/float columns x scalars whose differences are representable; all nullable columns",
 "Lossy conversions hide in pairs of types, extreme values and nullability combinations, in code paths per encoding.",
 ["vortex-array/src/compute/unary/cast.rs", "vortex-array/src/compute/unary/scalar_subtract.rs", "vortex-array/src/compute/unary/fill_forward.rs", "vortex-array/src/array/primitive/compute/cast.rs", "vortex-array/src/array/primitive/compute/fill.rs"],
 [("try_cast", "vortex-array/src/compute/unary/cast.rs"), ("subtract_scalar", "vortex-array/src/compute/unary/scalar_subtract.rs"), ("fill_forward", "vortex-array/src/compute/unary/fill_forward.rs")],
 "random columns in random encodings, results compared with the element-wise model")

prop("C11", "Every statistic an array reports is true of its values",
 "Whatever statistics an array reports (minimum, maximum, null count, true count, sortedness, constantness, run count, bit-width and trailing-zero frequencies), stored or computed, in any encoding, are true of the values the array holds. Slicing, taking, filtering, compressing, chunking and sending over IPC never leave an array with a statistic that is false of its new contents, and what is known of the parts of an array, merged, is true of the whole. An array without valid values has no minimum and no maximum but null.",
 ["inputs", "histories"], "all columns x encodings x sequences of derivations (slice, take, filter, compress, IPC) with statistics computed in between, and all cuts of columns into parts of which any statistics are known",
 "Statistics are computed per encoding, merged over chunks and carried along by transformations; they silently steer compression and pruning, so a false one corrupts results far away from where tests look.",
 ["vortex-array/src/stats/statsset.rs", "vortex-array/src/array/primitive/stats.rs", "vortex-array/src/array/bool/stats.rs", "vortex-array/src/array/varbin/stats.rs", "vortex-array/src/array/chunked/stats.rs", "vortex-array/src/array/constant/stats.rs", "encodings/dict/src/stats.rs", "encodings/runend/src/array.rs"],
 [("ArrayStatisticsCompute", "vortex-array/src/stats/mod.rs"), ("StatsSet::merge", "vortex-array/src/stats/statsset.rs")],
 "random columns in random encodings taken through derivation sequences, every reported statistic checked against the model column")

prop("C12", "Validity operations agree with the booleans they stand for",
 "A validity, in any of its representations, answers every query (per element, as logical validity, as a null buffer) like the vector of booleans it stands for, and slicing, taking, filtering, intersecting, concatenating and making it nullable are the corresponding operations on that vector.",
 ["inputs"], "all validities (non-nullable, all valid, all invalid, arrays in every boolean encoding) x operations",
 "Shortcuts for the constant representations and for validity arrays in unusual encodings multiply into combinations that samples do not cover.",
 ["vortex-array/src/validity.rs"],
 [("Validity", "vortex-array/src/validity.rs"), ("LogicalValidity", "vortex-array/src/validity.rs")],
 "random validities and operations compared with boolean vectors")

prop("C01", "Compressing any array preserves its type, length, values and nulls",
 "Compressing an array with the sampling compressor, with any subset of compressors, with or without a learned tree from a similar array, yields an array of the same type and length that decodes to bit-for-bit the same values and nulls, and its statistics stay true. Recompressing compressed arrays and chunked arrays preserves them as well.",
 ["inputs", "configurations"], "all columns of all types x all encodings of the input x all subsets of compressors and sample settings x compression trees learned from other arrays",
 "The compressor picks encodings from samples of the data, so which code runs depends on the whole distribution; every combination of chosen encodings must be lossless, including the choice for data unlike the sample.",
 ["vortex-sampling-compressor/src/lib.rs", "vortex-sampling-compressor/src/compressors/mod.rs", "vortex-sampling-compressor/src/compressors/chunked.rs", "vortex-sampling-compressor/src/sampling.rs", "vortex-sampling-compressor/src/compressors/sparse.rs"],
 [("SamplingCompressor", "vortex-sampling-compressor/src/lib.rs"), ("EncodingCompressor implementations", "vortex-sampling-compressor/src/compressors")],
 "random columns compressed with random compressor sets and trees, decoded and compared with the model column")

prop("C13", "A stream carries arrays and pages unchanged through any reader and writer",
 "Arrays and byte pages written to a stream come back from it in order with the same type, encoding, values, nulls and true statistics, whatever sizes the underlying reads and writes are split into. The recorded chunk offsets describe where chunks lie, and taking sorted row numbers from the stream, or unique sorted ones through the chunked reader, returns exactly those rows. Positional readers return exactly the bytes asked for or fail.",
 ["inputs", "schedules"], "all sequences of arrays in all encodings and of pages x all splits of reads and writes, readers and writers x all sorted row selections",
 "Messages are framed with lengths, paddings and nested buffer indices that depend on the encoding tree and buffer sizes; short reads and writes and chunk boundaries multiply the cases beyond hand-written streams.",
 ["vortex-serde/src/message_reader.rs", "vortex-serde/src/message_writer.rs", "vortex-serde/src/messages.rs", "vortex-serde/src/stream_reader/mod.rs", "vortex-serde/src/stream_writer/mod.rs", "vortex-serde/src/chunked_reader/take_rows.rs", "vortex-array/src/stream/take_rows.rs", "vortex-array/src/view.rs"],
 [("MessageReader", "vortex-serde/src/message_reader.rs"), ("MessageWriter", "vortex-serde/src/message_writer.rs"), ("TakeRows", "vortex-array/src/stream/take_rows.rs")],
 "random arrays and pages written and read through adapters that split every read and write at random, compared with the model columns")

prop("C14", "A file reads back exactly as written under any projection, batch size and reader",
 "Struct arrays written to a file, in any encodings and chunking and through any writer, are read back with the same schema, rows, order, values and nulls: every projection (by name or position, in any order, or empty) returns exactly those columns, every batch size splits the same rows, every positional reader (memory, file, object store, slow or short) gives the same answer, and the record batch reader delivers the same rows as Arrow batches of the projected schema. An array of another type than the file's, a projection of a column that is not there and an encoding the reader was not given are refused with an error.",
 ["inputs", "schedules"], "all sequences of struct arrays in all encodings x projections x batch sizes x readers",
 "Layouts, byte ranges, message caches and batch splitting depend on how many chunks each column has and how large they are; tests read a few small files.",
 ["vortex-serde/src/layouts/write/writer.rs", "vortex-serde/src/layouts/read/builder.rs", "vortex-serde/src/layouts/read/stream.rs", "vortex-serde/src/layouts/read/batch.rs", "vortex-serde/src/layouts/read/buffered.rs", "vortex-serde/src/layouts/read/footer.rs", "vortex-serde/src/layouts/read/recordbatchreader.rs"],
 [("LayoutWriter", "vortex-serde/src/layouts/write/writer.rs"), ("LayoutBatchStream", "vortex-serde/src/layouts/read/stream.rs"), ("VortexRecordBatchReader", "vortex-serde/src/layouts/read/recordbatchreader.rs")],
 "random files read with random projections, batch sizes and readers, compared with the model columns")

prop("C15", "A row filter returns exactly the rows its predicate selects",
 "Reading a file with a row filter returns exactly the rows for which the predicate is true (null does not select), in order, with the projected columns, whether or not the filter's columns are projected, whether they are referred to by name or by position, and whatever the batch size, chunking and encodings are.",
 ["inputs"], "all files x comparison trees over their columns x projections x batch sizes",
 "The filter and the data are read by separate readers that have to stay in step over batches that select nothing, nulls, and columns chunked differently; tests filter single batches.",
 ["vortex-serde/src/layouts/read/filtering.rs", "vortex-serde/src/layouts/read/stream.rs", "vortex-serde/src/layouts/read/builder.rs", "vortex-expr/src/binary.rs"],
 [("RowFilter", "vortex-serde/src/layouts/read/filtering.rs"), ("LayoutBatchStream", "vortex-serde/src/layouts/read/stream.rs")],
 "random files filtered by random predicate trees, compared with evaluating the predicate on the model rows")

prop("C18", "Conversion to and from Arrow keeps types, values and nulls",
 "Every array whose type Arrow can express converts, from any encoding, to an Arrow array of the expected type with the same values and nulls, and every supported Arrow array (sliced, with any offsets and null buffers, in record batches and nested structs) converts to a Vortex array of the expected type with the same values, nulls and nullability, so that both round trips are the identity. Null struct rows survive or are rejected, never silently turned into values. Scalars convert to one-element Arrow values.",
 ["inputs"], "all columns of the common types in all encodings, and all Arrow arrays with random offsets, buffers and nulls under them",
 "Arrow arrays carry bit offsets, view layouts, masked values and child nulls in many physical forms; a conversion that ignores one of them returns plausible but wrong data.",
 ["vortex-array/src/arrow/array.rs", "vortex-array/src/arrow/recordbatch.rs", "vortex-array/src/arrow/dtype.rs", "vortex-array/src/arrow/wrappers.rs", "vortex-array/src/canonical.rs", "vortex-array/src/array/datetime/mod.rs", "vortex-scalar/src/arrow.rs"],
 [("FromArrowArray", "vortex-array/src/arrow/array.rs"), ("Canonical::into_arrow", "vortex-array/src/canonical.rs"), ("TryFrom<&Scalar> for Arc<dyn Datum>", "vortex-scalar/src/arrow.rs")],
 "random columns and random Arrow arrays converted both ways and compared value by value with the model")

prop("C19", "Types and schemas survive serialization, and field lookups and projections agree",
 "A type written as protobuf, flatbuffer or through serde reads back equal, and malformed input is rejected or read as a consistent type, without panicking. Looking fields up by name and by position, projecting struct types and schemas, in memory and in serialized form, agree with each other and fail for fields that do not exist. Nullability operations change nothing but the nullability. Temporal types keep unit and time zone, also through Arrow, and their values denote the right calendar values.",
 ["inputs"], "all nested types, names, projections and metadata, and byte-level corruptions of their serialized forms",
 "Every file, stream and query carries types through several serializers, and every projection resolves fields in three different ways; the tests round-trip a handful of flat types.",
 ["vortex-dtype/src/dtype.rs", "vortex-dtype/src/ptype.rs", "vortex-dtype/src/serde/proto.rs", "vortex-dtype/src/serde/flatbuffers/mod.rs", "vortex-dtype/src/serde/flatbuffers/project.rs", "vortex-schema/src/lib.rs", "vortex-datetime-dtype/src/temporal.rs", "vortex-datetime-dtype/src/arrow.rs"],
 [("DType", "vortex-dtype/src/dtype.rs"), ("Schema", "vortex-schema/src/lib.rs"), ("TemporalMetadata", "vortex-datetime-dtype/src/temporal.rs")],
 "random nested types through every serializer, corrupted ones too, and random field lookups and projections compared with a list of names")

prop("C20", "Scalars keep their value through serialization, casts, conversions and order",
 "A scalar written as protobuf, flatbuffer or through serde reads back with the same type and value. Casting and reading as a Rust value give exactly that value, a null, or an error, without panicking. Equality and order of scalars of one type agree with each other and with the order of their values, nulls last. Conversion to and from DataFusion keeps type, value and nullness. Fields, elements and projections of nested scalars are the right ones, and every scalar can be printed.",
 ["inputs"], "all scalars of nested types, including extreme numbers, NaNs, zeros of both signs, empty and multi-byte strings, and pairs of types",
 "Scalars carry statistics, constants, fill values and literals; serializers change the width of their values, and the pairs of types and special values are too many for examples.",
 ["vortex-scalar/src/lib.rs", "vortex-scalar/src/value.rs", "vortex-scalar/src/pvalue.rs", "vortex-scalar/src/primitive.rs", "vortex-scalar/src/serde/proto.rs", "vortex-scalar/src/serde/flatbuffers.rs", "vortex-scalar/src/serde/serde.rs", "vortex-scalar/src/datafusion.rs", "vortex-scalar/src/display.rs", "vortex-scalar/src/struct_.rs", "vortex-scalar/src/list.rs"],
 [("Scalar", "vortex-scalar/src/lib.rs"), ("PValue", "vortex-scalar/src/pvalue.rs"), ("ScalarValue", "vortex-scalar/src/value.rs")],
 "random nested scalars through serializers, casts, conversions and comparisons, checked against the model value")


prop("C21", "Expressions over struct arrays compute SQL's row-by-row result",
 "Evaluating an expression built from columns, literals, comparisons, conjunctions, disjunctions and column selections over a struct array gives, for every row, the documented result (anything compared or combined with null is null), whatever the encodings of the columns. Selections and exclusions keep exactly the named columns in the documented order. The references an expression reports are the columns it reads, and inverting or swapping a comparison operator gives the operator that means so.",
 ["inputs"], "all struct arrays in all encodings x expression trees over their columns",
 "Trees of operators combine constant, chunked and compressed operands, nulls and shortcuts; tests evaluate single operators on small plain arrays.",
 ["vortex-expr/src/binary.rs", "vortex-expr/src/column.rs", "vortex-expr/src/literal.rs", "vortex-expr/src/select.rs", "vortex-expr/src/identity.rs", "vortex-expr/src/operators.rs"],
 [("VortexExpr", "vortex-expr/src/lib.rs"), ("BinaryExpr", "vortex-expr/src/binary.rs"), ("Select", "vortex-expr/src/select.rs")],
 "random expression trees evaluated over random struct arrays, compared with evaluation on the model rows")

prop("C22", "SQL over Vortex tables returns what it returns over the same Arrow data",
 "Registering a struct array as an in-memory DataFusion table, with or without filter pushdown, or Vortex files as a file table, and running a query with projections, filters, limits, sorting and aggregation returns the same rows as the same query over the same data as Arrow, with the same column names and types. An expression that claims to be convertible converts, and means the same.",
 ["inputs", "configurations"], "all struct arrays in all encodings and chunkings x pushdown settings x queries",
 "Pushdown splits a query between DataFusion and Vortex; nulls, literals, type coercion, projection order and statistics all have to agree for each pair of query and encoding.",
 ["vortex-datafusion/src/memory.rs", "vortex-datafusion/src/lib.rs", "vortex-datafusion/src/plans.rs", "vortex-datafusion/src/persistent/execution.rs", "vortex-datafusion/src/persistent/opener.rs", "vortex-datafusion/src/persistent/provider.rs", "vortex-expr/src/datafusion.rs", "vortex-datafusion/src/statistics.rs"],
 [("VortexMemTable", "vortex-datafusion/src/memory.rs"), ("VortexFileTableProvider", "vortex-datafusion/src/persistent/provider.rs"), ("RowSelectorExec", "vortex-datafusion/src/plans.rs")],
 "random tables and random queries, run over Vortex and over Arrow by the same DataFusion and compared")

prop("C23", "Accessors, iterators and typed views present the array's own rows",
 "Typed accessors and iterators of an array of any encoding yield its values and nulls in order, in batches which together are all the rows. The boolean, struct and extension views of an array answer true counts, set ranges, indices, fields, projections and storage according to its values. Elementwise unary and binary functions apply to every row, null where an operand is null.",
 ["inputs"], "all columns in all encodings x accessors, batch sizes, fields and projections",
 "Each encoding overrides these views with its own arithmetic over offsets, runs, exceptions and nulls; the tests use them on a few encodings.",
 ["vortex-array/src/accessor.rs", "vortex-array/src/iter/mod.rs", "vortex-array/src/elementwise.rs", "vortex-array/src/variants.rs", "vortex-array/src/array/primitive/mod.rs", "vortex-array/src/array/constant/variants.rs", "vortex-array/src/array/sparse/variants.rs", "vortex-array/src/array/chunked/variants.rs", "encodings/alp/src/alp/array.rs", "encodings/runend-bool/src/array.rs", "encodings/roaring/src/boolean/mod.rs"],
 [("ArrayAccessor", "vortex-array/src/accessor.rs"), ("VectorizedArrayIter", "vortex-array/src/iter/mod.rs"), ("BoolArrayTrait / StructArrayTrait / ExtensionArrayTrait", "vortex-array/src/variants.rs")],
 "random columns in random encodings read through every view and compared with the model column")

prop("C24", "Splitting, joining, iterating and streaming chunks keeps the rows",
 "A chunked array answers position lookups, slices and chunk accesses consistently with the concatenation of its chunks. Rechunking to any target sizes keeps type, rows, nulls and order and respects the target. Iterating or streaming an array and collecting it again, in memory or through a source that delivers chunks at any pace, keeps the rows; an error from the source is reported and never taken for the end.",
 ["inputs", "schedules"], "all chunkings (empty chunks too) of all columns x target sizes x polling schedules and failing sources",
 "Chunk boundaries, empty chunks and targets have to meet in particular ways for an off-by-one to show.",
 ["vortex-array/src/array/chunked/mod.rs", "vortex-array/src/array/chunked/canonical.rs", "vortex-array/src/iter/ext.rs", "vortex-array/src/iter/adapter.rs", "vortex-array/src/stream/ext.rs", "vortex-array/src/stream/adapter.rs"],
 [("ChunkedArray", "vortex-array/src/array/chunked/mod.rs"), ("ArrayStreamExt", "vortex-array/src/stream/ext.rs")],
 "random chunkings, targets and sources compared with the concatenated model column")

prop("C25", "Truncation and I/O failures are reported, never read as complete data",
 "A stream or file cut short anywhere before its end, a read that fails, or a damaged end of file leads to an error, not to a shorter result taken for complete and not to a panic; the batches delivered before the fault are right, and a scan that reported an error delivers nothing after it. A writer whose sink fails reports the failure, and a source that fails while being written fails the write.",
 ["inputs", "crash points"], "all streams and files x every cut, failing read, failing write and damaged trailer byte",
 "A fault can strike at every byte and every call; the tests only cover runs without faults.",
 ["vortex-serde/src/message_reader.rs", "vortex-serde/src/message_writer.rs", "vortex-serde/src/stream_reader/mod.rs", "vortex-serde/src/stream_writer/mod.rs", "vortex-serde/src/layouts/read/footer.rs", "vortex-serde/src/layouts/read/stream.rs", "vortex-serde/src/layouts/write/writer.rs"],
 [("MessageReader", "vortex-serde/src/message_reader.rs"), ("LayoutDescriptorReader", "vortex-serde/src/layouts/read/footer.rs"), ("LayoutWriter", "vortex-serde/src/layouts/write/writer.rs")],
 "random streams and files with injected cuts, failing reads, failing writes and corrupted trailers")

prop("C26", "A lazily parsed array describes itself and answers like the owned one",
 "An array read back as a view over serialized bytes has the same tree of encodings, types, lengths, buffers and sizes as the owned array it was written from; so has the owned array made from the view. Sizes and buffer counts are the sums over the tree, the traversal visits every part once in order, and the statistics carried over or computed on the view are true. A context without the encoding of an array refuses to read it.",
 ["inputs"], "all arrays of all encodings, read back through the stream format, and contexts with or without their encodings",
 "Views rebuild every encoding from metadata and buffer indices, with parallel implementations of each accessor; a mismatch shows only for particular trees of encodings.",
 ["vortex-array/src/view.rs", "vortex-array/src/data.rs", "vortex-array/src/lib.rs", "vortex-array/src/tree.rs", "vortex-array/src/implementation.rs", "vortex-array/src/context.rs"],
 [("ArrayView", "vortex-array/src/view.rs"), ("ArrayData", "vortex-array/src/data.rs"), ("Context", "vortex-array/src/context.rs")],
 "random arrays compared part by part with the views read back from their serialized form")

prop("C27", "Buffers and I/O adapters are byte exact and fail at the end of the data",
 "A buffer, whatever memory it wraps, sliced any number of times, holds exactly the bytes of the range, without copying; equality, order, conversions to vectors, Arrow buffers and strings go by the bytes. Every positional and sequential reader (memory, buffer, offset, file, object store, asynchronous sources that deliver in pieces) returns exactly the bytes asked for and fails beyond the end, reports its size, and every writer stores exactly the bytes written in order.",
 ["inputs", "schedules"], "all byte contents and memory kinds x slices x sequences of reads and writes through every adapter",
 "Ranges at and beyond the end, empty slices, alignment and short reads are corner cases of each of many small implementations without tests of their own.",
 ["vortex-buffer/src/lib.rs", "vortex-buffer/src/string.rs", "vortex-buffer/src/io_buf.rs", "vortex-serde/src/io/read.rs", "vortex-serde/src/io/write.rs", "vortex-serde/src/io/offset.rs", "vortex-serde/src/io/tokio.rs", "vortex-serde/src/io/futures.rs", "vortex-serde/src/io/object_store.rs"],
 [("Buffer", "vortex-buffer/src/lib.rs"), ("VortexReadAt / VortexRead", "vortex-serde/src/io/read.rs"), ("VortexWrite", "vortex-serde/src/io/write.rs")],
 "random bytes, slices and read and write sequences through every buffer kind and adapter, compared with plain byte vectors")

prop("C28", "Arrays shared between threads answer as they do on one thread",
 "Threads that share an array and compute or look up its statistics, read scalars and validity, slice, take, filter, decode or serialize it at the same time each get the answer they would get alone, without deadlock, and the statistics left behind are true.",
 ["inputs", "schedules"], "all arrays in all encodings x sequences of operations on two to five threads",
 "Statistics are cached behind locks shared by all clones of an array and its children; a race or a lock held across a computation shows only under particular interleavings.",
 ["vortex-array/src/data.rs", "vortex-array/src/stats/mod.rs", "vortex-array/src/stats/statsset.rs", "vortex-array/src/view.rs"],
 [("ArrayData statistics", "vortex-array/src/data.rs"), ("ArrayStatistics", "vortex-array/src/stats/mod.rs")],
 "random operations on random arrays from several threads released together, each compared with the model column")

prop("C29", "The Python package agrees with pyarrow and plain Python on what it is given",
 "Arrays made in Python from Arrow arrays, chunked arrays, tables (sliced or nested) or lists convert back to Arrow, NumPy, pandas and Polars as the same values, types and rows, compressed or not; comparisons, slice, take, filter, fill_forward and scalar_at return what plain Python does. vortex.io and VortexDataset read back exactly the rows, columns, batches and schemas written, with projections and filters. Data types print and parse as documented; what cannot be expressed is an exception, never a panic.",
 ["inputs"], "all Arrow types the package converts x arrays x chains of operations x file reads with projections and filters, from Python",
 "The binding layer has its own conversions for values, types, expressions and row selection; the few Python tests sample one or two arrays each.",
 ["pyvortex/src/array.rs", "pyvortex/src/encode.rs", "pyvortex/src/dtype.rs", "pyvortex/src/scalar.rs", "pyvortex/src/python_repr.rs", "pyvortex/src/expr.rs", "pyvortex/src/io.rs", "pyvortex/src/dataset.rs", "pyvortex/src/compress.rs", "pyvortex/python/vortex/encoding.py", "pyvortex/python/vortex/dataset.py", "pyvortex/python/vortex/substrait.py"],
 [("_encode", "pyvortex/src/encode.rs"), ("PyArray", "pyvortex/src/array.rs"), ("TokioFileDataset", "pyvortex/src/dataset.rs"), ("VortexDataset", "pyvortex/python/vortex/dataset.py")],
 "random arrays, tables and files through the built Python package, compared with pyarrow and plain Python values")

prop("C17", "Invalid arguments and inconsistent parts are refused with an error",
 "Slice, scalar lookup, take, filter, compare, boolean logic, search, subtraction, cast and conversion to a kind of array reject what cannot be right - ranges or positions beyond the array, indices, predicates or operands of another type or length - with an error, never a panic or a made-up result. So does the constructor of every encoding for parts whose types, lengths, nullability, validity or parameters contradict each other; consistent parts are accepted, and whatever a constructor accepts can be decoded, looked up and sliced.",
 ["inputs"], "all arrays x invalid arguments of each operation, and the parts of every encoding with none or one of them made inconsistent",
 "Each encoding checks its own parts and each kernel relies on those checks, so a missing one is a panic or wrong rows far away; the tests construct consistent arrays.",
 ["vortex-array/src/compute/slice.rs", "vortex-array/src/compute/take.rs", "vortex-array/src/compute/filter.rs", "vortex-array/src/compute/compare.rs", "vortex-array/src/compute/boolean.rs", "vortex-array/src/validity.rs", "vortex-array/src/array/sparse/mod.rs", "vortex-array/src/array/varbin/mod.rs", "vortex-array/src/array/varbinview/mod.rs", "vortex-array/src/array/struct_/mod.rs", "encodings/alp/src/alp_rd/array.rs", "encodings/fastlanes/src/bitpacking/mod.rs", "encodings/fastlanes/src/delta/mod.rs", "encodings/runend/src/array.rs", "encodings/fsst/src/array.rs", "encodings/dict/src/array.rs"],
 [("operation argument checks", "vortex-array/src/compute/mod.rs"), ("try_new of every encoding", "encodings"), ("Validity::to_metadata", "vortex-array/src/validity.rs")],
 "random arrays with invalid arguments, and random parts of every encoding with at most one perturbed, checked for refusal, acceptance and readability")

prop("C30", "Arrays, builders and validities made from Rust values hold exactly those values",
 "Every constructor from values - vectors, slices, iterators with or without nulls, sets, strings, the VarBin builder after any history of pushes, nested arrays - yields an array whose length, type, nulls and values are those given. An encoder applied to any array of its kind either refuses it with an error or yields an array that decodes to equal values. Validity made from booleans, arrays or other validities answers is_valid, slice, take, filter, conversion to logical form and equality as the list of booleans it stands for.",
 ["inputs"], "all value sequences x every constructor and encoder, with operation histories for builders",
 "Constructors choose offsets, nullability and validity forms by the values they meet, and encoders hold unstated assumptions about nulls, order and sign; tests give each a short list.",
 ["vortex-array/src/array/varbin/builder.rs", "vortex-array/src/array/varbin/mod.rs", "vortex-array/src/array/varbinview/mod.rs", "vortex-array/src/array/primitive/mod.rs", "vortex-array/src/array/bool/mod.rs", "vortex-array/src/validity.rs", "encodings/bytebool/src/array.rs", "encodings/runend-bool/src/compress.rs", "encodings/roaring/src/integer/compress.rs", "encodings/roaring/src/boolean/compress.rs", "encodings/fastlanes/src/delta/compress.rs", "encodings/dict/src/compress.rs"],
 [("VarBinBuilder", "vortex-array/src/array/varbin/builder.rs"), ("Validity", "vortex-array/src/validity.rs"), ("encoders", "encodings")],
 "random value lists through every public constructor and encoder, and random builder histories, compared value by value with the list")

prop("C31", "A file's footer describes its data, and a scan reads only what it needs",
 "The footer of every file counts its rows and lists, for each column of the schema, the byte ranges of its chunks: in order, disjoint, within the data, each holding on its own one message with exactly the next rows of that column, its buffers aligned and its padding empty; the table of row offsets kept with a column gives the first row of each of its chunks, however many writes the file was made with. A scan reads, after opening, only bytes of columns that its projection or its filter names (a filter that refers to columns by position may read all of them, and where no column is named the first one tells the number of rows), no byte twice, and, without a filter, no chunk before a batch reaches its first row.",
 ["inputs"], "all sequences of struct arrays in all encodings and chunkings x ways to write them x projections x filters x batch sizes",
 "The reader in this repository does not use row counts or row offsets, and reads too much as correctly as it reads what it needs, so no test that compares rows can tell; other readers of the format and the cost of a scan depend on them.",
 ["vortex-serde/src/layouts/write/writer.rs", "vortex-serde/src/layouts/write/layouts.rs", "vortex-serde/src/layouts/write/footer.rs", "vortex-serde/src/message_writer.rs", "vortex-serde/src/messages.rs", "vortex-serde/src/layouts/read/builder.rs", "vortex-serde/src/layouts/read/layouts/column.rs", "vortex-serde/src/layouts/read/buffered.rs", "vortex-serde/src/layouts/read/cache.rs"],
 [("LayoutWriter", "vortex-serde/src/layouts/write/writer.rs"), ("Footer and Layout", "vortex-flatbuffers/src/generated/footer.rs"), ("ColumnLayout", "vortex-serde/src/layouts/read/layouts/column.rs")],
 "random files taken apart by their footers and compared chunk by chunk with the model columns; scans through a reader that records every read")

prop("C32", "Encoders and the compressor find the structure they are for",
 "Compression makes data smaller, as well as reversible. Run-length encoders store one entry for each maximal run; the dictionary encoder stores each distinct value once; frame of reference subtracts the minimum and shifts out common zero bits; bit packing uses the cheapest width and keeps as patches exactly the values that do not fit; zigzag maps small magnitudes to small numbers; ALP and ALP-RD find exponents and cuts that leave few exceptions; timestamps split into days, seconds and fractions in range. No compressor makes a small array larger than it was, and the default compressor reduces data of one plain structure (constant, runs, narrow range, outliers, few distinct values, decimals, repetitive text, timestamps) to about the size of that structure, alone, in structs or in chunks.",
 ["inputs"], "all value sequences with or without such structure x every encoder, and random subsets of compressors or the default one",
 "An encoder that misses the structure still returns equal values, so no round trip can tell; the tests look at the sizes or encodings of a few fixed arrays.",
 ["vortex-sampling-compressor/src/lib.rs", "vortex-sampling-compressor/src/compressors/mod.rs", "vortex-sampling-compressor/src/compressors/chunked.rs", "encodings/dict/src/compress.rs", "encodings/runend/src/compress.rs", "encodings/runend-bool/src/compress.rs", "encodings/fastlanes/src/bitpacking/compress.rs", "encodings/fastlanes/src/for/compress.rs", "encodings/alp/src/alp/mod.rs", "encodings/alp/src/alp/compress.rs", "encodings/alp/src/alp_rd/mod.rs", "encodings/zigzag/src/compress.rs", "encodings/datetime-parts/src/compress.rs"],
 [("SamplingCompressor", "vortex-sampling-compressor/src/lib.rs"), ("find_best_bit_width", "encodings/fastlanes/src/bitpacking/compress.rs"), ("dict_encode_primitive", "encodings/dict/src/compress.rs"), ("find_best_exponents", "encodings/alp/src/alp/mod.rs")],
 "random values with a known structure given to each encoder and to the compressor, whose result is compared with the structure counted on the values")
