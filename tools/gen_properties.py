#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay editable)."""
import json, os
VALID = ("valid history = schema of any supported shape; Short/Int/Date values in their type's range, any i64 for Long, any float bits, "
         "decimals with |unscaled| < 10^precision, scale <= precision <= 38, timestamps with nanos < 10^9 and |seconds| <= 9*10^15, any UTF-8 / bytes; "
         "block size 1..0x7fffff; every value covered by a write_batch whose count matches")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Scalar values and nulls read back exactly",
 "Every value and every null written to a boolean, integer, date, floating-point, decimal, timestamp, string, char, varchar or binary column is recovered, in order and bit for bit, by a reader that follows the ORC specification and knows nothing of this writer. This holds whatever the compression codec, compression block size, index stride, stripe size and batch sizes.",
 ["inputs", "configurations", "histories"],
 "all valid histories over schemas whose leaves are scalar columns at the root or in (nullable) structs. " + VALID,
 "The 6 unit tests feed about 30 short hand-picked sequences to the private RLE/varint encoders, uncompressed; no test writes a file, and none reaches decimals, timestamps, strings, null streams, compression, or more than one stripe.",
 ["src/writer/data/*.rs", "src/writer/encoder/*.rs", "src/writer/compression.rs"],
 [("per-type column writers", "src/writer/data/{boolean,long,float,double,timestamp,decimal,string,binary}.rs write/write_null"),
  ("run-length and varint encoders", "src/writer/encoder/*.rs"), ("chunking of streams", "src/writer/compression.rs CompressionStream")],
 [("PRESENT stream", "which rows are non-null", "src/writer/encoder/boolean_rle.rs")],
 ["bytes received by the Write sink"])
prop("C02", "Nested structure reads back exactly",
 "Structs, lists, maps and unions nested to any depth, with nulls, empty collections and absent variants at any level, are recovered exactly by a reader that follows the ORC specification: the same nulls, lengths, tags, and the same child values attached to the same parents.",
 ["inputs", "configurations", "histories"],
 "all valid histories over schemas with compound types (unions of 1..256 variants). " + VALID,
 "No test writes any compound column; the relation between parent lengths/tags and child streams only exists across several streams of a whole file.",
 ["src/writer/data/struct_.rs", "src/writer/data/list.rs", "src/writer/data/map.rs", "src/writer/data/union.rs", "src/writer/encoder/byte_rle.rs"],
 [("length streams", "src/writer/data/list.rs, map.rs write"), ("tag stream", "src/writer/data/union.rs write"), ("pre-order stream emission", "write_data_streams of compound columns")],
 None, ["bytes received by the Write sink"])
prop("C03", "The declared layout accounts for every byte of the file",
 "A finished file starts with the ORC magic and ends with a self-describing tail; the declared offsets and lengths of stripes, streams, stripe footers, metadata, footer and postscript tile the file exactly, with no gap, overlap or stray byte, and name every column consistently. The recorded header, content length, row counts, index stride and format version agree with what was written, also when the file exceeds 4 GiB.",
 ["inputs", "configurations", "histories"],
 "all valid histories, any number of stripes, file sizes below and above 2^32 bytes. " + VALID,
 "No test produces a file, so no offset or length is ever compared with real bytes; large offsets need gigabytes of output.",
 ["src/writer.rs", "src/writer/stripe.rs", "src/writer/count_write.rs", "src/writer/data/common.rs"],
 [("position counter", "src/writer/count_write.rs"), ("stripe bookkeeping", "src/writer/stripe.rs finish"), ("tail", "src/writer.rs write_metadata/write_footer/write_postscript")],
 [("stripe offset", "file position where the next stripe starts", "src/writer/stripe.rs Stripe.offset")],
 ["bytes received by the Write sink"])
prop("C04", "Compression framing obeys the declared codec and block size",
 "When compression is enabled, every index stream, data stream, stripe footer, file metadata and file footer is a sequence of chunks, each of which expands to between 1 byte and the block size declared in the postscript, using the declared codec or marked as stored. No chunk takes more bytes than the data it holds, and the postscript names the codec and block size the caller configured; when compression is disabled the same data appear unframed.",
 ["inputs", "configurations"],
 "all valid histories x {none, snappy, zstd levels 1..22} x block sizes 1..0x7fffff, including single values longer than a block",
 "Unit tests use only NoCompression; whether a value or footer straddles a chunk boundary depends on the block size and on everything written before.",
 ["src/writer/compression.rs", "src/writer/compression/snappy.rs", "src/writer/compression/zstd.rs", "src/buffer.rs"],
 [("chunk cutting", "src/writer/compression.rs write_u8/write_bytes/finish_block"), ("stored-chunk fallback", "src/writer/compression.rs finish_block"), ("chunk headers", "src/writer/compression.rs finish")],
 None, ["bytes received by the Write sink"])
prop("C05", "Stripe statistics describe exactly that stripe's values",
 "For every stripe and column, the recorded statistics give the exact number of non-null values, whether any value was null, and the exact minimum, maximum, sum or total length (true count for booleans) of the values of that stripe, in the form and unit the format prescribes for the column's type. A total that does not fit its type is absent, never wrong, and columns whose values cannot be ordered because of NaN have a NaN sum.",
 ["inputs", "histories"],
 "all valid histories; any position of stripe and row-group boundaries relative to the values; sums up to and beyond the type's range. " + VALID,
 "No test reads any statistic; correctness depends on how values fall into row groups and stripes.",
 ["src/writer/statistics.rs", "src/writer/statistics/*.rs", "src/writer/stripe.rs", "src/writer.rs"],
 [("per-type accumulators", "src/writer/statistics/*.rs update/merge"), ("snapshot at stripe end", "src/writer/stripe.rs finish"), ("serialisation", "src/writer/statistics.rs to_proto")],
 None, ["Metadata section of the file"])
prop("C06", "File statistics describe exactly the whole file's values",
 "The statistics in the file footer give, for every column, the exact number of non-null values, presence of nulls, and minimum, maximum, sum or total length over all stripes of the file. A total that does not fit its type is absent, never wrong, and a file without values has no minimum or maximum.",
 ["inputs", "histories"],
 "all valid histories with 0, 1 or many stripes, including stripes whose column is entirely null and extremes sitting in any stripe. " + VALID,
 "No test reads any statistic or writes more than zero stripes.",
 ["src/writer.rs", "src/writer/statistics.rs", "src/writer/statistics/*.rs"],
 [("merging over stripes", "src/writer.rs merge_statistics"), ("serialisation", "src/writer/statistics.rs to_proto")],
 None, ["Footer of the file"])
prop("C07", "Row-group statistics describe exactly that row group",
 "Every row-index entry's statistics give the exact number of non-null values, presence of nulls, and minimum, maximum, sum or total length of exactly the values of that row group, so a reader that skips row groups by them never skips a matching row. A row group's statistics are not influenced by values before or after it.",
 ["inputs", "configurations", "histories"],
 "all valid histories x index strides 1..2^32-1; for columns under a list, map, union or nullable struct the row group is the one the entry delimits (see C09). " + VALID,
 "No test writes an index; only multi-row-group stripes distinguish row-group from stripe statistics.",
 ["src/writer/data/*.rs", "src/writer/statistics/*.rs", "src/writer/data/common.rs"],
 [("row group closing", "finish_row_group / check_row_group in src/writer/data/*.rs"), ("index stream", "src/writer/data/common.rs write_index")],
 None, ["ROW_INDEX streams of the file"])
prop("C08", "Row-index positions lead to the right values",
 "For every column and every row-index entry, seeking each of the column's streams to the recorded positions as the ORC specification prescribes, and decoding from there, yields exactly the values of that row group and those after it. Entries have exactly the positions the column's streams require: those of the null stream are present if and only if the stripe has that stream for that column.",
 ["inputs", "configurations", "histories"],
 "all valid histories x strides x codecs x block sizes, with row-group boundaries falling at any point of a run, a literal group, a bit-packed byte or a compression block. " + VALID,
 "No test reads or even calls position(); the interaction of boundary, pending run and pending block is a product of three state machines.",
 ["src/writer/data/*.rs", "src/writer/encoder/*.rs", "src/writer/compression.rs"],
 [("position capture", "position() of CompressionStream, ByteRLE, BooleanRLE, IntRLEv1"), ("position ordering", "record() in src/writer/data/*.rs")],
 None, ["ROW_INDEX streams of the file"])
prop("C09", "Row groups are cut every index-stride rows of the table",
 "In every stripe each column has one row-index entry per started group of (index stride) rows of the table, and entry i describes the column's values belonging to rows i*stride up to (i+1)*stride of that stripe, for nested columns too.",
 ["inputs", "configurations", "histories"],
 "all valid histories x strides. " + VALID,
 "No test writes an index.",
 ["src/writer/data/*.rs", "src/writer/stripe.rs"],
 [("row group closing", "check_row_group in src/writer/data/*.rs")],
 None, ["ROW_INDEX streams of the file"])
prop("C10", "The file describes the schema it was written with",
 "The type list in the footer reproduces the writer's schema exactly: kinds, nesting, pre-order column numbering, field names and their order, decimal precision and scale, and char/varchar lengths. Each column's streams in every stripe are the ones its type requires, under that column's number, with a direct (version 1) encoding.",
 ["inputs", "configurations"],
 "all schemas the API can express (all 17 constructors, empty structs, 1..256-variant unions, arbitrary Unicode field names, duplicates), with any data",
 "No test builds a schema.",
 ["src/writer.rs", "src/schema.rs", "src/writer/data.rs", "src/writer/data/*.rs"],
 [("type list", "src/writer.rs make_types"), ("column numbering", "Data::new / column_id in src/writer/data/*.rs"), ("stream table", "write_data_streams, write_index_streams, column_encodings")],
 None, ["Footer and StripeFooters of the file"])
prop("C11", "Stripes hold whole batches and roll over at the configured size",
 "A batch is never split between stripes; a stripe is closed at the first batch end at which its buffered encoded data exceed the configured stripe size (up to what the encoders still hold back) and at finish, and no stripe is empty. Stripe row counts and the file's row count equal the rows of the batches in them, in order, and none is lost or duplicated across a rollover.",
 ["histories", "configurations", "inputs"],
 "all valid histories: any sequence of batch sizes including 0, any stripe size from 0 up, any column type carrying the bulk of the data. " + VALID,
 "No test calls write_batch.",
 ["src/writer.rs", "src/writer/stripe.rs", "src/writer/data/*.rs"],
 [("size test", "src/writer.rs write_batch"), ("size estimate", "estimated_size in src/writer/data/*.rs and encoders"), ("stripe reset", "src/writer/stripe.rs finish")],
 None, ["sink length after each write_batch", "stripe list of the footer"])
prop("C12", "File content does not depend on call order or batching",
 "The file produced depends only on schema, configuration and the rows of each stripe: writing row by row or column by column, children before or after their parents, in any interleaving of columns, through any of the equivalent accessors and equivalent write calls, and with the same rows divided into any batches (between the same stripe boundaries), gives the same bytes.",
 ["histories"],
 "all valid histories and all reorderings of their calls that keep the order within each column and all calls within their batch; all subdivisions of batches that do not trigger a rollover",
 "Tests never exercise the column API; the number of orders is combinatorial.",
 ["src/writer/data/*.rs", "src/writer.rs"],
 [("independent column buffers", "src/writer/data/*.rs"), ("batch commit", "src/writer/stripe.rs write_batch")],
 None, ["bytes received by the Write sink"])
prop("C13", "Short and interrupted sink writes do not change the file",
 "If the destination accepts data in arbitrarily small pieces or reports interruptions, the bytes it ends up with are exactly those an all-accepting destination would have received, and every call succeeds.",
 ["fault_sequences", "inputs"],
 "all valid histories x all patterns of partial acceptance (at least one byte eventually accepted) and Interrupted results",
 "No test uses the Writer; Vec sinks never accept partially.",
 ["src/writer.rs", "src/writer/count_write.rs", "src/writer/compression.rs"],
 [("write calls on the sink", "src/writer.rs write_header/finish, src/writer/compression.rs finish"), ("position counter", "src/writer/count_write.rs")],
 None, ["call log of an adversarial Write sink"])
prop("C14", "Sink errors are reported and success means a complete, flushed file",
 "If the destination fails at any point, the call in progress returns an error instead of panicking or succeeding, nothing but a prefix of the correct file has reached the destination by then, and no later finish reports success. If finish succeeds, the destination has received the complete file, was flushed after the last byte, and is handed back to the caller.",
 ["fault_sequences", "crash_points", "inputs"],
 "all valid histories x a permanent, transient or zero-length-write failure at every byte offset or write call, and at flush",
 "No test injects a fault; the number of failure points grows with the file.",
 ["src/writer.rs", "src/writer/count_write.rs", "src/writer/stripe.rs", "src/writer/compression.rs"],
 [("error propagation", "? on every sink call in src/writer*.rs"), ("flush", "src/writer.rs finish")],
 None, ["call log of a failing Write sink", "results of new/write_batch/finish"])
prop("C15", "Data that do not add up are rejected",
 "If, at a batch end, any column at any depth has been given more or fewer values than its parents and the declared row count call for, the batch is refused; values never committed by a batch make finish refuse. A union tag without a variant, a union of more than 256 variants and access to a column as the wrong type are refused, while consistent batches never are.",
 ["histories", "inputs"],
 "all single- and multi-column count discrepancies (any column, any depth, surplus or shortage, any position in the history), all out-of-range tags",
 "No test covers the consistency check.",
 ["src/writer/stripe.rs", "src/writer/data/*.rs", "src/writer/data.rs"],
 [("count verification", "verify_row_count in src/writer/data/*.rs"), ("batch commit", "src/writer/stripe.rs write_batch/finish")],
 None, ["panic or error from write_batch/finish/write/new"])
prop("C16", "Valid input is always accepted",
 "No sequence of valid calls panics, overflows or returns an error when the destination accepts all data: not for extreme values, empty or enormous batches, deep or wide schemas, extreme strides, stripe sizes, block sizes or compression levels.",
 ["inputs", "configurations", "histories"],
 "all valid histories, with arithmetic-overflow checks enabled. " + VALID,
 "Tests sample a handful of small values in three encoders.",
 ["src/writer.rs", "src/writer/**/*.rs", "src/buffer.rs"],
 [("wrapping/checked arithmetic", "src/writer/encoder/*.rs, src/writer/statistics/*.rs"), ("buffer growth", "src/buffer.rs, src/writer/compression.rs")],
 None, ["panics and results of the public API"])
prop("C17", "Output is deterministic and writers are isolated",
 "Writing the same rows with the same schema, configuration and batches always produces the same bytes, regardless of what other writers exist, have existed or are being used concurrently on other threads, and of whether earlier writers failed or were dropped unfinished.",
 ["schedules", "histories", "inputs"],
 "all valid histories x any number of live writers interleaved on one thread or running on several threads",
 "Tests run each encoder once.",
 ["src/writer.rs", "src/writer/**/*.rs"],
 [("per-writer state only", "src/writer.rs Writer, src/writer/stripe.rs Stripe"), ("per-stream compressors", "src/writer/compression.rs")],
 None, ["bytes received by the Write sinks"])
prop("C18", "Memory is bounded by the stripe, not by the file",
 "However many rows have been written, the writer's heap use never exceeds a fixed multiple of the configured stripe size and the current batch, plus its fixed block buffers and a fixed amount per row-index entry of the current stripe; when a stripe has been emitted everything held for its rows is released, leaving only its per-column statistics, and when the writer is finished or dropped nothing remains.",
 ["histories", "configurations"],
 "all valid histories with bounded batches, for every column type and codec",
 "No test observes allocation or writes a stripe.",
 ["src/writer/stripe.rs", "src/writer/compression.rs", "src/buffer.rs", "src/writer.rs"],
 [("stripe reset", "src/writer/stripe.rs finish"), ("rollover", "src/writer.rs write_batch")],
 None, ["global allocator"])
prop("C19", "No memory errors or undefined behaviour",
 "No use of the safe public API, with any codec, leads to an invalid memory access, use of uninitialised memory (in particular none reaches the destination), leak or other undefined behaviour in this crate or in the native and unsafe code it calls.",
 ["inputs", "histories", "configurations"],
 "all valid histories, plus rejected and failing ones, in the code reached by the workload under AddressSanitizer/LeakSanitizer, valgrind memcheck and Miri",
 "Ordinary test runs do not observe undefined behaviour, and no test reaches snappy, zstd or protobuf code.",
 ["src/buffer.rs", "src/writer/compression/*.rs", "src/writer/compression.rs"],
 [("output buffer sizing for native compressors", "src/writer/compression/{snappy,zstd}.rs"), ("buffers", "src/buffer.rs")],
 None, ["sanitizer and interpreter reports"])
prop("C20", "Encoded streams are well-formed and compact",
 "Every stream holds exactly the encoding of its column's values: run and literal groups of legal size, exactly the expected number of values, no byte left over; a null stream exists exactly for the columns that have nulls in that stripe. Repeated or arithmetically progressing values (step within a signed byte) cost a constant number of bytes per 130 values, and no sequence costs more than its plain variable-length form plus a fixed fraction.",
 ["inputs", "histories"],
 "all valid histories; all run lengths and mixtures of runs and literals, including the limits 2/3, 127..131 and step limits -129..128. " + VALID,
 "Unit tests fix the encoding of about 20 short sequences; group-size limits and mixtures need long ones.",
 ["src/writer/encoder/*.rs", "src/writer/data/*.rs"],
 [("byte run-length encoder", "src/writer/encoder/byte_rle.rs"), ("integer run-length encoder", "src/writer/encoder/int_rle_v1.rs"), ("bit packing", "src/writer/encoder/boolean_rle.rs"), ("null stream suppression", "write_data_streams in src/writer/data/*.rs")],
 None, ["decompressed data streams"])
prop("C21", "Between calls the sink holds the header and whole stripes only",
 "After creation the destination has received exactly the 3-byte magic; after every successful batch it has received the magic followed by zero or more complete stripes, which the footer of the finished file later lists at exactly those places. Bytes once emitted are never superseded, and the destination can be inspected through the writer at any time.",
 ["histories", "crash_points"],
 "all valid histories, observed after every call",
 "No test uses a Writer.",
 ["src/writer.rs", "src/writer/stripe.rs"],
 [("rollover", "src/writer.rs write_batch"), ("stripe emission", "src/writer/stripe.rs finish")],
 None, ["sink content after each call"])
prop("C22", "Metadata messages conform to the published wire format",
 "The public metadata message types encode and decode exactly the wire format published in the project's protocol definition: any well-formed encoding parses to the field values it carries and serialises back to the same fields (unknown ones preserved), declared sizes equal actual sizes, and concatenated encodings merge. Arbitrary bytes give a value or an error, never a panic.",
 ["inputs"],
 "all messages and fields of the definition, boundary values of every field type, packed and unpacked repeated fields, truncated and corrupted encodings; plus the metadata of every file written",
 "No test touches the 6,900 lines of message code.",
 ["src/protos/orc_proto.rs", "src/protos/mod.rs", "protos/orc_proto.proto"],
 [("generated (de)serialisers", "src/protos/orc_proto.rs merge_from/write_to_with_cached_sizes/compute_size")],
 None, ["message parse and serialise results"])
prop("C23", "Every configuration option takes effect however it is built",
 "The index stride, stripe size, codec, block size and compression level a file is written with are those its caller set last, in whatever order and number of calls, with configurations, codecs and their builders cloned and shared between writers in any way; options never set keep their defaults (10,000 rows, 64 MiB, no compression, 256 KiB blocks, level 3). Using or changing one configuration never affects another or a writer already created; block sizes a chunk header cannot express and levels outside 1 to 22 are refused.",
 ["configurations", "histories"],
 "all sequences of configuration calls and clones over any number of configurations, codec builders and writers, with settings over their whole range",
 "No test sets an option: the effect of a setting shows only in a whole file, and interference between settings only in sequences of calls.",
 ["src/writer.rs", "src/writer/compression.rs", "src/writer/compression/snappy.rs", "src/writer/compression/zstd.rs", "src/writer/compression/no_compression.rs"],
 [("configuration setters", "src/writer.rs Config::with_*"), ("codec builders", "src/writer/compression/{snappy,zstd}.rs with_*, build")],
 None, ["bytes received by the Write sink", "panics of configuration calls"])
prop("C24", "Column handles tell the truth about their column",
 "At any time, every handle reached through a writer's data, by whichever accessor, is that of the same column: its number is the one the file's footer gives it, and its type, field or variant count, lengths, precision and scale are the schema's. The buffered size it reports never falls while values are added uncompressed, includes its children's, stays within what the encoders hold back of the encoded data, and returns to that of a new writer once a stripe is emitted; the number of values it holds is confirmed exactly when it is right. Looking changes nothing.",
 ["histories", "configurations", "inputs"],
 "all valid histories over all schemas, observed after creation, while values are written, before and after every batch and across stripe rollovers. " + VALID,
 "No test creates a writer; the handles are replaced at each rollover and nested arbitrarily.",
 ["src/writer/data.rs", "src/writer/data/*.rs", "src/writer/compression.rs", "src/writer/encoder/*.rs"],
 [("pre-order numbering", "Data::new and the constructors in src/writer/data/*.rs"), ("accessors", "child, children, keys, values, schema, precision, scale, column_id"), ("size and count queries", "estimated_size, verify_row_count")],
 None, ["values returned by the accessors between calls"])
prop("C25", "The cost of writing is proportional to what is written",
 "The work of a call is bounded by the values and bytes handed to it, the number of columns, and what it completes of a stripe or file; it does not grow with the rows, batches, row groups, blocks or stripes written before. Producing a file therefore takes time linear in its rows, columns, nesting depth, value lengths, batches, row groups and stripes, whatever the codec, and parsing its metadata takes time linear in their size.",
 ["inputs", "histories", "configurations"],
 "all valid histories; measured along each dimension with the others fixed, and for random schemas and configurations",
 "Tests are too small for growing cost to show, and time is too noisy for them to assert on.",
 ["src/writer.rs", "src/writer/stripe.rs", "src/writer/compression.rs", "src/buffer.rs", "src/writer/data/*.rs", "src/writer/statistics/*.rs", "src/writer/encoder/*.rs"],
 [("incremental buffering", "src/writer/compression.rs, src/buffer.rs"), ("incremental size and count queries", "estimated_size, verify_row_count in src/writer/data/*.rs"), ("statistics merged once", "src/writer.rs merge_statistics, finish_row_group")],
 None, ["instructions executed, counted by a dynamic binary instrumenter"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
