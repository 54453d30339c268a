"""The property catalogue: source of properties.jsonl and MANIFEST.json (see mkdocs.py)."""
S = "src/jogasaki/"
E = S + "executor/"
I = "include/jogasaki/"
U = S + "utils/"
ENGINE = "The whole engine runs on an in-memory stand-in for sharksfin; statements are built as the execution plans the SQL compiler would give, because the compiler itself (mizugaki) is not installed."
EXPL = ("Exploration: no counterexample among the generated cases (counts and samples in the evidence file). "
        "Built from /repo's sources with address and undefined-behaviour sanitizers. ")

PROPS = [
 dict(id="P01", title="Arbitrary bytes become safe, well-formed text and are never misread",
  statement="Any byte string is turned into well-formed UTF-8 by escaping exactly the bytes that are not part of a well-formed character and keeping the rest; well-formed UTF-8 is always recognised, structurally broken UTF-8 never is, and no byte outside the given string is read. "
            "Log text made from a byte string holds only printable ASCII, with control bytes replaced one for one. Trimming removes exactly the leading or trailing spaces, prefix tests agree with byte comparison, and the hexadecimal rendering of bytes can be converted back to them and leaves the output stream's formatting as it was.",
  over=["inputs"], quant="every byte string, including strings that end inside a multi-byte character, and every output stream format state",
  why="The tests convert a few fixed strings; they do not reach the overlong, surrogate, out-of-range and truncated sequences at every offset.",
  files=[U + "sanitize_utf8.cpp", U + "utf8_utils.cpp", U + "convert_control_characters.cpp", U + "string_manipulation.cpp", U + "string_utils.cpp", U + "binary_printer.h"],
  mech=[("escaping of ill-formed sequences", U + "sanitize_utf8.cpp"), ("encoding length detection", U + "utf8_utils.cpp"), ("control character replacement", U + "convert_control_characters.cpp"), ("hex rendering", U + "binary_printer.h")],
  note=EXPL + "The oracle is an independent UTF-8 automaton (Unicode table 3-7). Overlong/surrogate three- and four-byte forms may be accepted or rejected by the recogniser: the code documents only the structure."),
 dict(id="P02", title="Variable-length values keep their content and compare by it",
  statement="A character or octet value yields exactly the bytes it was made from, whatever its length, however it was stored (inline, in a resource, borrowed or concatenated) and after copying, moving or hashing. "
            "Two values are equal, ordered and hashed by their bytes alone, as unsigned bytes and then by length, so sorting a set of values gives the byte order. A growable aligned buffer keeps its content and alignment through growth, copy, move and assignment, and hands out exactly the requested size.",
  over=["inputs", "histories"], quant="all byte strings around the inline limit and far above it, all construction paths, all operation sequences on a buffer",
  why="The tests compare a handful of short and long literals; they do not combine construction paths, lengths at the inline boundary, embedded NULs and bytes above 0x7f.",
  files=[S + "accessor/text.cpp", S + "data/aligned_buffer.cpp", S + "data/binary_string_value.cpp", S + "accessor/text.h", S + "accessor/binary.h"],
  mech=[("short/long representation and comparison", S + "accessor/text.cpp"), ("buffer growth", S + "data/aligned_buffer.cpp")],
  note=EXPL + "Oracle: std::string and std::vector models. Moved-from objects are not inspected; bytes exposed by growing within capacity are unspecified."),
 dict(id="P03", title="Records exchanged with user-defined functions arrive complete and in order",
  statement="A record for a user-defined function yields the values added to it in order with their kinds and NULLs, reports the end exactly once all are consumed, and reading a value as another kind is refused rather than misread. "
            "A stream of records delivers every record pushed before it was closed exactly once and in order, then reports the end; an aborted or closed stream never blocks a consumer forever nor delivers a record twice, whatever threads push and take. The context of a call keeps its settings: its timeout becomes the call's deadline, and debug text is logged exactly when enabled.",
  over=["inputs", "histories", "schedules"], quant="all value sequences, all push/take/close/abort/move histories, concurrent producers and consumers",
  why="No existing test covers these classes; the guarantees concern histories with closing, aborting and timeouts interleaved with taking.",
  files=[S + "udf/generic_record_impl.cpp", S + "udf/generic_record_impl.h", S + "udf/generic_record.h"],
  mech=[("typed cursor", S + "udf/generic_record_impl.cpp"), ("queue with close and abort", S + "udf/generic_record_impl.cpp")],
  note=EXPL + "The concurrent facet runs real threads with generated plans: schedules are sampled, not enumerated."),
 dict(id="P04", title="The catalogue of user-defined functions reflects its descriptors exactly",
  statement="From a set of descriptor files, the catalogue lists every function with its file, service and call path, every message with the files that define and use it, and one error for each unreadable or malformed file, and flags exactly the functions and messages that are defined more than once. "
            "The callable argument patterns of a record are exactly the choices of one member from each alternative group together with every plain column, in column order and without repetition. Load results and configuration are reported as given, and each status is classified as success, skip or failure consistently and has a name of its own.",
  over=["inputs", "configurations"], quant="all sets of descriptor files (including missing, empty and damaged ones) and all layouts of alternative groups",
  why="No existing test loads descriptors; nesting, package prefixes, duplicates and damaged files combine in more ways than examples can list.",
  files=[S + "udf/descriptor_impl.cpp", S + "udf/descriptor/descriptor_analyzer.cpp", S + "udf/descriptor/descriptor_reader.cpp",
         S + "udf/descriptor/validation/message_duplicate_validator.cpp", S + "udf/descriptor/validation/rpc_duplicate_validator.cpp", S + "udf/plugin_api.cpp", S + "udf/udf_config.cpp"],
  mech=[("argument pattern expansion", S + "udf/descriptor_impl.cpp"), ("descriptor analysis", S + "udf/descriptor/descriptor_analyzer.cpp"), ("duplicate detection", S + "udf/descriptor/validation/message_duplicate_validator.cpp")],
  note=EXPL + "Descriptor files are written to a scratch directory the check removes."),
 dict(id="P05", title="Base64 and hexadecimal text convert losslessly and malformed text is rejected",
  statement="Encoding any bytes as base64 and decoding the result gives the same bytes, and text is recognised as base64 exactly when it is a correctly padded encoding. "
            "Hexadecimal text converts to exactly its bytes whatever the letter case, text of odd length or with a foreign character is refused, and integers print in hexadecimal with their exact value and width.",
  over=["inputs"], quant="all byte strings and all texts, including near misses of valid encodings",
  why="The tests check a few literals; corrupted padding, foreign characters at every position and long inputs are not reached.",
  files=[U + "base64_utils.cpp", U + "hex_to_octet.cpp", U + "hex.h"],
  mech=[("encoder, decoder and recogniser", U + "base64_utils.cpp"), ("hex decoder", U + "hex_to_octet.cpp")],
  note=EXPL + "Oracle: an independent base64/hex implementation."),
 dict(id="P06", title="Column and table descriptions cross the wire without loss",
  statement="Describing a column or table in a protocol message and reading it back gives an equal description: names, type, dimension, length, precision, scale (bounded, arbitrary or absent), nullability, varying flag, comment, column order and primary key all survive. "
            "Two descriptions are equal exactly when every attribute is. The one-line debug rendering of a message is valid JSON that carries the message's own field names and values.",
  over=["inputs"], quant="all combinations of present and absent attributes, all types including ones unknown to this version",
  why="The existing tests of describe-table run a full database and check a few tables; absent-versus-zero and arbitrary-versus-bounded attributes are not separated.",
  files=[S + "executor/dto/common_column_utils.cpp", S + "executor/dto/describe_table_utils.cpp", S + "executor/dto/common_column.h", S + "executor/dto/describe_table.h", U + "proto_debug_string.cpp"],
  mech=[("column conversion", S + "executor/dto/common_column_utils.cpp"), ("table conversion", S + "executor/dto/describe_table_utils.cpp"), ("debug rendering", U + "proto_debug_string.cpp")],
  note=EXPL + "Messages are the ones generated from /repo's .proto files by the installed protoc."),
 dict(id="P07", title="Error reports reach the client with the right code and full content",
  statement="Every error code is sent to clients as the published code of the same name (internal ones as the generic service error), and the published code numbers never change; statuses are classified as success, warning or error and print under their own names. "
            "An error report keeps its message, code, status, source position, stack trace and additional text, and its supplemental text is well-formed JSON that contains them. Diagnostics keep their arguments in the order they were given.",
  over=["inputs"], quant="all error and status codes, all message texts including quotes, control characters and non-UTF-8 bytes",
  why="The tests trigger individual errors; no test walks the whole code table or puts hostile text into a report.",
  files=[S + "error/error_info.cpp", S + "api/impl/error_info.cpp", S + "api/impl/map_error_code.h", I + "error_code.h", I + "status.h", S + "executor/diagnostic_record.h"],
  mech=[("code mapping", S + "api/impl/map_error_code.h"), ("supplemental text", S + "error/error_info.cpp")],
  note=EXPL + "The list of codes is fixed in the harness from the pinned headers; a report with text that is not UTF-8 may be left out, but never be malformed."),
 dict(id="P08", title="Waiting primitives never lose a wake-up, and counts stay exact",
  statement="A thread waiting on a latch or on an atomic value is released by every state change or notification that should release it, including one that happens between its check and its sleep, and a timed wait tells truthfully whether the condition came. "
            "Operations on the atomic value have the usual read, exchange and compare-and-exchange results. A shared-use counter always equals the number of live sharing copies, through copies, moves, resets and concurrent use.",
  over=["histories", "schedules"], quant="all operation sequences, and sampled schedules of waiters and notifiers",
  why="The tests run one or two threads through a fixed order; lost wake-ups need a specific interleaving.",
  files=[U + "latch.cpp", U + "latch.h", U + "waitable_atomic.h", U + "use_counter.cpp", U + "use_counter.h"],
  mech=[("latch", U + "latch.cpp"), ("wait and notify", U + "waitable_atomic.h"), ("reference count", U + "use_counter.h")],
  note=EXPL + "Schedules are sampled with real threads; the check-then-sleep window of the atomic is forced open with a comparison hook in the value type. A lost wake-up shows as a hang of at least 20 s."),
 dict(id="P09", title="Requests keep what was asked, and their statistics add up",
  statement="Looking up a column of a key-value record returns the value sent under exactly that name (the first, if a name repeats) and nothing for other names; transaction and batch options keep every setting independently of the others. "
            "Per-request counters report, for each kind that was counted, exactly the sum counted, even when several writers add at once, and durations are the exact difference of end and start. Timing points record the first passage per worker and report the earliest, the latest and averages over the workers that passed.",
  over=["inputs", "histories", "schedules"], quant="all records including repeated and near-identical names, all setter sequences, concurrent writers",
  why="The tests use records with distinct short names and do not check the statistics.",
  files=[S + "api/kvsservice/mapped_record.cpp", S + "api/kvsservice/transaction_options.cpp", S + "request_statistics.cpp", I + "request_statistics.h",
         S + "executor/io/record_channel_stats.h", U + "watch.cpp", U + "performance_tools.cpp", S + "executor/batch/batch_executor_option.cpp"],
  mech=[("column lookup", S + "api/kvsservice/mapped_record.cpp"), ("counters", S + "request_statistics.cpp"), ("timers", U + "watch.cpp")],
  note=EXPL + "Timing is judged only against clock readings taken around the calls."),
 dict(id="P10", title="Small arithmetic, list and naming laws hold for all arguments",
  statement="Rounding to a power of two gives the nearest power on the promised side, subtracting one list from another removes exactly as many occurrences as are listed and keeps the order of the rest, and mixing functions map different inputs to different outputs. "
            "Pseudo-random generators are reproducible from their seed and stay in range, aligned arrays are aligned and as large as requested, storage identifiers survive conversion to bytes and back. File names, schema names, numbers as text and log prefixes follow their documented form, diagnostic records keep their code, message and arguments, and region identifiers compare by kind and index.",
  over=["inputs"], quant="the whole 64-bit range, lists with repetitions, all seeds and names",
  why="The tests use small numbers and lists without repetition.",
  files=[U + "round.h", U + "subtract_vectors.h", I + "utils/hash_combine.h", I + "utils/split_mix64.h", U + "random.h", U + "aligned_unique_ptr.h", U + "base_filename.h", U + "surrogate_id_utils.cpp", S + "logging_helper.h", "src/jogasaki/executor/diagnostic_record.h", "src/jogasaki/executor/process/impl/region_id.h"],
  mech=[("rounding", U + "round.h"), ("list difference", U + "subtract_vectors.h"), ("identifier bytes", U + "surrogate_id_utils.cpp")],
  note=EXPL + "Values above 2^63 have no next power of two in 64 bits and are not judged."),
 dict(id="P11", title="Type attributes, large-object references and kinds are told apart exactly",
  statement="Type attributes (length, varying, precision, scale, offset) keep their values, default as documented, and compare equal exactly when all of them are equal. "
            "A large-object reference keeps its kind, object id, provider, location and tag, and two references are equal exactly when they denote the same object in the same way. Every enumerated kind prints under its own name, life-cycle states are ordered by the life cycle, and region identities compare by kind and index.",
  over=["inputs"], quant="all combinations of present and absent attributes and of reference kinds",
  why="The tests do not compare these objects attribute by attribute.",
  files=[S + "meta/character_field_option.cpp", S + "meta/decimal_field_option.cpp", S + "meta/octet_field_option.cpp", S + "meta/time_of_day_field_option.cpp", S + "meta/time_point_field_option.cpp",
         I + "lob/lob_reference.h", I + "lob/lob_locator.h", I + "lob/blob_reference.h"],
  mech=[("option comparison", S + "meta/decimal_field_option.cpp"), ("reference comparison", I + "lob/lob_reference.h")],
  note=EXPL),
 dict(id="P12", title="Working memory is never shared, lost or handed back too early",
  statement="A region handed out by a working-memory resource is aligned, disjoint from every other live region, and keeps its bytes until it is released, in whatever order the resource allows and across releases back to earlier points. "
            "Releasing to a point frees exactly what was allocated after it (or before it, for first-in-first-out memory), a request larger than a page fails without disturbing live regions, and pages return to the shared pool exactly once, also when threads take and return pages together.",
  over=["histories", "inputs", "schedules"], quant="all allocation, release and checkpoint histories with sizes around the page size and alignments up to a page",
  why="The tests run short fixed histories with small sizes and rarely cross a page.",
  files=[S + "memory/lifo_paged_memory_resource.cpp", S + "memory/fifo_paged_memory_resource.cpp", S + "memory/monotonic_paged_memory_resource.cpp", S + "memory/page_pool.cpp",
         S + "memory/details/page_allocation_info.cpp", S + "memory/block_memory_resource.h", U + "checkpoint_holder.h", U + "lazy_checkpoint_holder.h"],
  mech=[("page bookkeeping", S + "memory/details/page_allocation_info.cpp"), ("checkpoints", S + "memory/lifo_paged_memory_resource.cpp"), ("page pool", S + "memory/page_pool.cpp")],
  note=EXPL + "takatori's maybe_shared_ptr and exception headers are replaced by small stand-ins in /verif/shim. Histories respect the documented release order of each resource."),
 dict(id="P13", title="Values in result streams are written exactly and read back unchanged",
  statement="A sequence of values of any kind written to a result or parameter stream is read back as the same kinds and values in the same order, and the bytes are exactly those of the published format, in its shortest form. "
            "A value that does not fit in the space left is refused, leaving position and buffer as they were. Input that is cut short or malformed is refused by an exception without moving the position or reading past the end, and a value is never read as another kind.",
  over=["inputs"], quant="all values of all kinds at every boundary of the format, all buffer sizes, all byte strings",
  why="The tests write a few values per kind into a buffer large enough for them; boundaries between short and long forms and exactly full buffers are sampled at a handful of points.",
  files=[S + "serializer/value_output.cpp", S + "serializer/value_input.cpp", S + "serializer/base128v.cpp", S + "serializer/details/value_io_constants.h", S + "serializer/value_input_exception.cpp"],
  mech=[("writer", S + "serializer/value_output.cpp"), ("reader", S + "serializer/value_input.cpp"), ("variable length integers", S + "serializer/base128v.cpp")],
  note=EXPL + "The oracle is an encoder of the published format written independently in the harness. takatori's date, time, decimal and view types are replaced by small stand-ins in /verif/shim."),
 dict(id="P14", title="Stored keys and values are encoded exactly, in order, and read back",
  statement="A row written as a storage key or value is encoded in the documented data format and read back as the same row, for every column type, nullability and direction, within any mixture of columns. "
            "Comparing encoded keys byte by byte gives the SQL order of the rows: ascending or descending per column, null smallest, and no key being a prefix of another value's key. "
            "A value that does not fit its column or the room left is refused, null in a not-null column is refused, and damaged stored data is reported as an error without reading outside it.",
  over=["inputs"], quant="all rows over all column types, lengths, precisions, nullabilities and directions; all damaged byte strings",
  why="The tests encode a few values per type; order of encoded keys, boundary lengths and damaged data are sampled at a handful of points.",
  files=[S + "kvs/coder.cpp", S + "kvs/readable_stream.cpp", S + "kvs/readable_stream.h", S + "kvs/writable_stream.cpp", S + "kvs/writable_stream.h", U + "coder.cpp", U + "decimal.cpp"],
  mech=[("field encoding", S + "kvs/coder.cpp"), ("key transformation", S + "kvs/writable_stream.h"), ("checked reading", S + "kvs/readable_stream.h")],
  note=EXPL + "The oracle is an encoder of docs/dataformat-ja.md written independently in the harness. Varying octets are not keys. takatori and decimal types are replaced by stand-ins in /verif/shim."),
 dict(id="P15", title="Rows keep their values through layout, copying and buffering",
  statement="Every field of a row has a place of its own, so that setting a value or a null flag changes no other field, and two layouts are equal exactly when their types and nullability are. "
            "A deep copy of a row is unaffected by what happens to its source afterwards. Rows and values put into a buffer come back complete, in order and with their nulls, over any number of memory pages and after the buffer is reset, and result partitions are read once each however many are empty or cleared.",
  over=["inputs", "histories", "schedules"], quant="all row layouts and rows, all sequences of appends, resets and clears over pages of any size",
  why="The tests store a few rows in one page of 2 MB; page changes, resets and mixtures of nulls are hardly reached.",
  files=[S + "meta/record_meta.cpp", S + "meta/impl/record_layout_creator.cpp", S + "accessor/record_ref.cpp", S + "accessor/const_record_ref.cpp", S + "accessor/record_copier.cpp", S + "data/record_store.cpp",
         S + "data/iterable_record_store.cpp", S + "data/small_record_store.cpp", S + "data/value_store.h", S + "data/result_store.cpp", S + "data/any.h", S + "data/any_sequence.cpp"],
  mech=[("layout", S + "meta/impl/record_layout_creator.cpp"), ("copy", S + "accessor/record_copier.cpp"), ("value buffer", S + "data/value_store.h"), ("result partitions", S + "data/result_store.cpp")],
  note=EXPL + "Pages are made small in the harness, so that every store spans several. takatori types are replaced by stand-ins in /verif/shim."),
 dict(id="P16", title="Rows handed from one process to the next arrive complete and in order",
  statement="Every row written to a partition of a forward exchange is read from the same partition exactly once, with its values and nulls, in the order written, while writer and reader work at the same time and whatever memory the rows need. "
            "With a limit the exchange delivers that many rows in total over all its partitions and upstreams and discards the rest, and a reader sees the end only after the writer has finished. "
            "A row stays readable until the next one is requested, and the memory of rows that have been read is given back.",
  over=["histories", "schedules"], quant="all interleavings of writes and reads over all partitions, limits and row sizes up to a memory page",
  why="The tests push two small rows and pop them on one thread; rows larger than a page's remainder, limits over several partitions and concurrent use are not reached.",
  files=[S + "data/fifo_record_store.cpp", E + "exchange/forward/flow.cpp", E + "exchange/forward/input_partition.cpp", E + "exchange/forward/writer.cpp", E + "exchange/forward/reader.cpp",
         E + "exchange/forward/sink.cpp", E + "exchange/forward/source.cpp", S + "memory/fifo_paged_memory_resource.cpp"],
  mech=[("row queue", S + "data/fifo_record_store.cpp"), ("limit", E + "exchange/forward/writer.cpp"), ("memory release", S + "memory/fifo_paged_memory_resource.cpp")],
  note=EXPL + "Threads are scheduled by the operating system, not enumerated. The scheduler and the compiled statement are left out; the exchange is driven through its sinks and sources."),
 dict(id="P17", title="Rows are ordered, matched and distributed by their SQL values alone",
  statement="Comparing two rows is a total order given column by column: null before everything, numbers by value (NaN above all others, decimals regardless of scale), strings by their bytes, times in order, reversed for descending columns, and independent of the layouts of the two rows. "
            "Equality and less-than of single values agree with that order, so exactly one of less, equal and greater holds. Rows that are equal in it have the same hash and go to the same partition, whatever their layout or spelling (signed zero, NaN bits, trailing zeros).",
  over=["inputs"], quant="all pairs and lists of rows over all column types, nullabilities, directions and layouts",
  why="The tests compare a few hand-written rows per type; order laws and the agreement of hash with equality are relations between all pairs.",
  files=[E + "comparator.h", E + "less.h", E + "equal_to.h", E + "compare_info.cpp", E + "hash.h", E + "partitioner.cpp"],
  mech=[("comparison", E + "comparator.h"), ("hash", E + "hash.h"), ("partition", E + "partitioner.cpp")],
  note=EXPL + "takatori and decimal types are replaced by stand-ins in /verif/shim; hashes of date, time and decimal values are theirs."),
 dict(id="P18", title="Grouping and sorting keep every row, in its group, in order",
  statement="Every row written to a group exchange, by any number of upstreams, is read exactly once with its values, in exactly one group, together with all rows of an equal key and no others. "
            "Within a partition, groups come in ascending order of their keys and members in the requested sort order; with a limit each group holds its first rows by that order and nothing is lost from the other groups. Both reading strategies give this result, and the exchange reports no input exactly when no row was written.",
  over=["histories", "inputs"], quant="all row sets, key and sort columns, directions, limits, numbers of upstreams and partitions, run boundaries",
  why="The tests group a few rows of one or two integer columns with one reader and no limit.",
  files=[E + "exchange/group/flow.cpp", E + "exchange/group/group_info.cpp", E + "exchange/group/input_partition.cpp", E + "exchange/group/priority_queue_reader.cpp", E + "exchange/group/sorted_vector_reader.cpp",
         E + "exchange/group/writer.cpp", E + "exchange/group/sink.cpp", E + "exchange/group/source.cpp", E + "exchange/shuffle/pointer_table.cpp"],
  mech=[("merge", E + "exchange/group/priority_queue_reader.cpp"), ("runs", E + "exchange/group/input_partition.cpp"), ("partitioning", E + "exchange/group/writer.cpp")],
  note=EXPL + "The exchange is driven through its sinks, sources and readers; the scheduler and the compiled statement are left out. Readers are read to the end of each group, as their interface asks."),
 dict(id="P19", title="Aggregates equal their definition over the rows of each group",
  statement="An aggregate exchange yields one row for every distinct key among the rows written, in key order within a partition, whose values are COUNT, SUM, AVG, MAX and MIN over exactly the rows of that key: nulls are ignored, the aggregate of no value is null, counts are never null. "
            "The values do not depend on how the rows were spread over upstreams, hash tables and partitions; integer results are exact while sums fit the type, decimal results are exact to 38 digits, and AVG of integers truncates. An ungrouped aggregate of no row yields exactly one row, unless the request already failed.",
  over=["histories", "inputs"], quant="all row sets, group keys, argument types, nulls and distributions of the rows over upstreams, tables and partitions",
  why="The tests aggregate a few small rows of one type in one table; merging of partial results, decimals of many digits, and null-only groups in only one of the tables are not reached.",
  files=[E + "function/incremental/builtin_functions.cpp", E + "function/incremental/aggregate_function_info.cpp", E + "function/value_generator.cpp", E + "exchange/aggregate/aggregate_info.cpp",
         E + "exchange/aggregate/input_partition.cpp", E + "exchange/aggregate/reader.cpp", E + "exchange/aggregate/flow.cpp", E + "exchange/aggregate/writer.cpp"],
  mech=[("functions", E + "function/incremental/builtin_functions.cpp"), ("merging", E + "exchange/aggregate/reader.cpp"), ("tables", E + "exchange/aggregate/input_partition.cpp")],
  note=EXPL + "Sums that overflow the type are not judged, and floating point sums are compared on values that add exactly. The decimal library and takatori are replaced by stand-ins in /verif/shim."),
 dict(id="P20", title="CAST converts exactly, or follows the loss-of-precision policy",
  statement="A cast gives the value of its operand in the target type: exactly if the type can hold it, otherwise truncated, rounded to nearest (floating point) or limited to the type's range, and then always as the policy says: ignored, warned about, refused with an error, or null - never silently wrong. "
            "Fixed-length strings come out with exactly their length, never cut inside a character, and text converts to a number, boolean, date, time or timestamp exactly when it spells one. "
            "Null stays null, pairs of types without a conversion and types not enabled are refused, and large objects read and written by a cast keep their content or report the storage error.",
  over=["inputs", "faults"], quant="all operand values of all types, all target types, lengths, precisions and scales, all policies, failures of the large object store",
  why="The tests cast a few values for each pair of types; strings of spaces, characters cut by the target length, boundaries of precision and scale, and policies are combinations they sample at a few points.",
  files=[E + "expr/details/cast_evaluation.cpp", E + "expr/details/cast_evaluation.h", E + "expr/details/cast_evaluation_temporal.cpp", E + "expr/details/common.h", E + "expr/details/constants.h",
         E + "expr/details/decimal_context.cpp", E + "expr/details/decimal_context_guard.cpp", "docs/internal/char_padding.md"],
  mech=[("conversion", E + "expr/details/cast_evaluation.cpp"), ("lengths and padding", E + "expr/details/cast_evaluation.h"), ("temporal text", E + "expr/details/cast_evaluation_temporal.cpp")],
  note=EXPL + "The oracle computes with exact decimal numbers of any length. The decimal library, takatori and the large object store are replaced by stand-ins in /verif/shim; parsing of temporal text is takatori's. The policy `unknown` may give null or the limited value."),
 dict(id="P21", title="Expressions give their SQL value, or an error, never something else",
  statement="Evaluating a compiled expression over a row gives the value SQL defines: arithmetic by value after promotion (exact for integers and decimals, division by zero and other arithmetic errors reported, never a crash), comparisons and three-valued logic, NULL as the result of any operator with a NULL operand, "
            "CASE and COALESCE taking the first applicable alternative in the result's type without evaluating the others, LIKE matching whole strings by UTF-8 characters with its escape. Errors of a subexpression that is evaluated are what the whole expression gives. "
            "Variables read the column, block variable or host variable they were bound to, a filter condition holds only when it is true, operand types an operator does not take are refused, and temporary memory is given back after each row.",
  over=["inputs"], quant="all typed expression trees over the supported operators, all values and nulls of the variables, all block structures and host variables, all texts, patterns and escapes",
  why="The tests evaluate one operator on one or two chosen values; extreme operands, nested errors, mixed result types and patterns over multi-byte text are combinations they do not reach.",
  files=[E + "expr/evaluator.cpp", E + "expr/evaluator.h", E + "expr/evaluator_context.cpp", E + "expr/error.cpp", E + "process/impl/variable_table.cpp", E + "process/impl/variable_table_info.cpp",
         E + "conv/unify.cpp", E + "conv/parameter_apply.cpp", S + "utils/as_any.cpp", "docs/like-ja.md"],
  mech=[("operators", E + "expr/evaluator.cpp"), ("variables", E + "process/impl/variable_table_info.cpp"), ("type unification", E + "conv/unify.cpp"), ("LIKE", E + "expr/evaluator.cpp")],
  note=EXPL + "Integer overflow of + - * and of the negation of the smallest integer is not judged (unspecified), nor are decimals beyond the range of double. Expression trees are built directly, without the SQL compiler; takatori, yugawara and the decimal library are stand-ins in /verif/shim."),
 dict(id="P22", title="Built-in functions give the values they are documented to give",
  statement="Every built-in scalar function is found under its name for each of the documented argument types and gives, called from an expression, the documented value for all arguments: SUBSTRING, POSITION and CHARACTER_LENGTH count UTF-8 characters and give NULL for text that is not UTF-8, UPPER and LOWER change ASCII letters only, LTRIM and RTRIM remove spaces only, "
            "ENCODE and DECODE follow RFC 4648, ABS, CEIL, FLOOR, ROUND and MOD are exact for integers and decimals and keep special floating point values. A NULL argument gives NULL, arguments out of range and results that do not fit give an error. "
            "The current date, time and timestamp are those of the start of the transaction, shifted by the configured zone offset for the local ones.",
  over=["inputs"], quant="all arguments of all overloads, with implicit promotion, fixed and varying lengths, text that is not UTF-8, and all zone offsets",
  why="The tests call each function on a handful of short arguments; text cut inside a character, huge lengths, numbers at the ends of their types and scales at the limits are not among them.",
  files=[E + "function/builtin_scalar_functions.cpp", E + "function/scalar_function_info.cpp", E + "function/scalar_function_repository.cpp", E + "expr/single_function_evaluator.cpp", E + "expr/evaluator.cpp",
         S + "utils/base64_utils.cpp", S + "utils/string_utils.cpp", S + "utils/find_function.cpp", "docs/substring_substr-ja.md", "docs/round-ja.md", "docs/position-jp.md", "docs/internal/current_timestamp.md"],
  mech=[("functions", E + "function/builtin_scalar_functions.cpp"), ("call", E + "expr/evaluator.cpp"), ("function numbers", E + "function/builtin_scalar_functions_id.h")],
  note=EXPL + "ROUND of REAL and DOUBLE is judged to a few units in the last place. Functions of text that is not UTF-8 are judged only where a document says what they give. The SQL compiler's choice of an overload is not covered; the list of functions is in the check."),
 dict(id="P23", title="Sequences number on, whatever fails and whoever asks",
  statement="Successive values of a sequence follow its definition: initial value first, then steps of the increment within minimum and maximum, wrapping to the other end when the cycle option is set and otherwise reporting its exhaustion without changing; concurrent callers never get the same value twice within a cycle and skip none. "
            "A sequence created, used and committed goes on after a restart from the last committed value; what an aborted transaction took is not reused in this run. "
            "The table of sequence ids kept in storage has exactly one entry for every existing sequence with the parameters it was created with, a creation or removal that fails leaves neither an entry nor a sequence behind, and no definition id is handed out while in use.",
  over=["histories", "schedules", "faults"], quant="all definitions (ends of the 64 bit range included), histories of creation, use, commit, abort, restart and removal, interleavings of callers, failures of any storage operation",
  why="The tests step a handful of small sequences in one thread and never fail a storage call; ranges wider than half the integers and failed creations are not reached.",
  files=[E + "sequence/sequence.cpp", E + "sequence/manager.cpp", E + "sequence/metadata_store.cpp", E + "sequence/info.cpp"],
  mech=[("numbering", E + "sequence/sequence.cpp"), ("life cycle", E + "sequence/manager.cpp"), ("definition ids", E + "sequence/metadata_store.cpp")],
  note=EXPL + "The storage engine is an in-memory stand-in for sharksfin with injected failures. Updates are notified before each commit, as the engine does. Increment zero is excluded."),
 dict(id="P24", title="Tables and their indexes hold exactly what the statements wrote",
  statement="After every INSERT (plain, IF NOT EXISTS, OR REPLACE; from VALUES, from a plan or from another table), UPDATE and DELETE, each table holds exactly the rows the statement's semantics give - defaults, generated and identity values, assignment conversions and padding included - and the counters reported are the numbers of rows changed. "
            "Every secondary index has exactly one entry for every row, under the key the row has now, in the directions it was defined with. "
            "A duplicate key, a NULL in a NOT NULL column or a value that does not fit is refused with the error kind that says so.",
  over=["histories"], quant="all table and index definitions of up to eight columns and all histories of statements and transactions over them",
  why="The tests run a dozen fixed statements per feature on fixed tables and cannot look at the stored entries.",
  files=[E + "common/write_statement.cpp", E + "wrt/fill_record_fields.cpp", E + "wrt/insert_new_record.cpp", E + "process/impl/ops/write_create.cpp", E + "process/impl/ops/write_existing.cpp", "src/jogasaki/index/primary_target.cpp", "src/jogasaki/index/secondary_target.cpp", "src/jogasaki/plan/storage_processor.cpp"],
  mech=[("INSERT VALUES", E + "common/write_statement.cpp"), ("INSERT from a plan", E + "process/impl/ops/write_create.cpp"), ("UPDATE and DELETE", E + "process/impl/ops/write_existing.cpp"), ("index entries", "src/jogasaki/index/secondary_target.cpp"), ("defaults and generated values", E + "wrt/fill_record_fields.cpp")],
  note=EXPL + ENGINE),
 dict(id="P25", title="A failed statement or transaction leaves nothing behind",
  statement="A statement that fails at any point - in an expression on its third row, on a duplicate key, in any call of the transaction engine - reports an error with its kind and message, and its transaction is inactive from then on: nothing of the half-done statement or of the transaction's earlier statements can be committed or seen again, in tables or indexes. "
            "The same holds for an aborted transaction and for a commit the engine refuses. "
            "No scan stays open and no engine handle is used after its release on any of these ways out.",
  over=["faults", "histories"], quant="all histories of statements, failures of any call of the transaction engine at any point, expression errors on any row",
  why="The tests never fail the transaction engine and have expression errors only on the first row of a statement.",
  files=[E + "executor.cpp", E + "common/write_statement.cpp", E + "process/impl/ops/write_create.cpp", E + "process/impl/ops/write_existing.cpp", E + "process/impl/ops/scan.cpp", E + "process/impl/ops/find.cpp", "src/jogasaki/kvs/transaction.cpp", "src/jogasaki/transaction_context.cpp"],
  mech=[("end of a statement", E + "executor.cpp"), ("write operators", E + "process/impl/ops/write_existing.cpp"), ("INSERT VALUES", E + "common/write_statement.cpp"), ("transaction", "src/jogasaki/transaction_context.cpp")],
  note=EXPL + ENGINE),
 dict(id="P26", title="Reading through an index gives exactly the rows of its range",
  statement="Every scan, point find and index join - forward or backward key directions, primary or secondary index, any equality prefix with inclusive, exclusive or open bounds behind it - gives each row of the table that satisfies the range and the join condition exactly once, in index order, and no other; NULL keys match nothing, and an outer join pads a row exactly when nothing matched. "
            "Parallel scans, block sizes and yields change neither the rows nor their number. "
            "A failing read and an index entry without its row are reported and leave no scan open.",
  over=["inputs", "histories", "faults"], quant="all tables, indexes and search ranges on them, all scan configurations and read failures",
  why="The tests sample a few ranges over int columns with one scan configuration and never fail a read.",
  files=[E + "process/impl/ops/scan.cpp", E + "process/impl/ops/find.cpp", E + "process/impl/ops/index_join.h", E + "process/impl/ops/details/encode_key.cpp", "src/jogasaki/index/index_accessor.cpp", "src/jogasaki/dist/uniform_key_distribution.cpp"],
  mech=[("scan", E + "process/impl/ops/scan.cpp"), ("find", E + "process/impl/ops/find.cpp"), ("index join", E + "process/impl/ops/index_join.h"), ("ranges of parallel scans", "src/jogasaki/dist/uniform_key_distribution.cpp")],
  note=EXPL + ENGINE),
 dict(id="P27", title="A query gives the rows of the relational algebra",
  statement="For every execution plan of scans, literal rows, filters, projections, groupings with sort keys and limits, aggregations, joins of every kind (inner, outer, semi, anti, with conditions) and unions, the result is exactly the bag of rows the relational algebra gives for the tables' contents, sorted where an order was asked for and cut only where a limit allows. "
            "Number of partitions, worker threads, scan blocks and yields in the middle of a pipeline change nothing in it.",
  over=["inputs", "schedules"], quant="all plans up to depth five over up to three tables, any contents, partition count, scan configuration and worker schedule",
  why="The tests run hand-written operator graphs and a fixed set of queries, and their expected rows were listed by hand for one partitioning each.",
  files=[E + "process/impl/ops/join.h", E + "process/impl/ops/take_cogroup.cpp", E + "process/impl/ops/take_group.cpp", E + "process/impl/ops/aggregate_group.cpp", E + "exchange/group/group_info.h", E + "exchange/forward/forward_info.h", "src/jogasaki/plan/compiler.cpp"],
  mech=[("joins", E + "process/impl/ops/join.h"), ("cogroups", E + "process/impl/ops/take_cogroup.cpp"), ("groups", E + "process/impl/ops/take_group.cpp"), ("aggregation", E + "process/impl/ops/aggregate_group.cpp"), ("plan construction", "src/jogasaki/plan/compiler.cpp")],
  note=EXPL + ENGINE + " NULL join keys are judged with the key equality present in the join condition."),
 dict(id="P28", title="Definitions, privileges and rows follow the statements, across restarts",
  statement="After every history of CREATE/DROP/TRUNCATE TABLE, CREATE/DROP INDEX, GRANT, REVOKE, INSERT, SELECT and DELETE by administrators and ordinary users in overlapping transactions, tables, indexes, columns, privileges, sequence positions and rows are exactly those of the statements that succeeded, also after any restart, and a dropped storage is removed once (and only once) no transaction can reach it. "
            "A statement needs the privileges of its user and tables not held by a definition statement of another transaction, and otherwise fails with the right error, changes nothing and leaves its transaction inactive; after a failure of the storage engine the same definition may be tried again.",
  over=["histories", "faults", "crash_points"], quant="all histories up to forty statements by four kinds of users over three tables, one storage-engine failure at any call, restart between any two statements",
  why="The tests run single definition statements with one user at a time, restart only in a few of them and never make the storage engine fail.",
  files=[E + "common/create_table.cpp", E + "common/drop_table.cpp", E + "common/create_index.cpp", E + "common/truncate_table.cpp", E + "common/grant_table.cpp", E + "common/ddl_common.cpp", "src/jogasaki/storage/storage_manager.cpp", "src/jogasaki/storage/maintenance_storage.cpp", "src/jogasaki/auth/", "src/jogasaki/recovery/", "src/jogasaki/utils/storage_metadata_serializer.cpp"],
  mech=[("definition statements", E + "common/ddl_common.cpp"), ("locks, privileges and deferred removal", "src/jogasaki/storage/storage_manager.h"), ("recovery of definitions", "src/jogasaki/recovery/storage_options.cpp"), ("statement authorization", E + "executor.cpp")],
  note=EXPL + ENGINE + " Statements prepared before a definition change are not judged after it (documented as unstable), nor are aborted transactions that ran definition statements expected to undo them."),
 dict(id="P29", title="Every request gets one answer, and the answers agree with what was done",
  statement="For every sequence of wire requests from several sessions - begin, prepare, execute, query, dump of state, commit with any notification level, rollback, dispose, cancel, statement information, large objects - each request is answered exactly once, with the success or the error kind its history calls for, and rows, counters, transaction states and table contents agree with those answers. "
            "A request that is damaged in any byte, out of order, of another session or unauthorised is refused and changes nothing that belongs to others, and what a client is told about durability is never earlier than the datastore reported it. "
            "At the end no transaction, statement, result channel or engine handle is left over.",
  over=["inputs", "histories", "faults"], quant="all sequences of up to forty requests by three sessions over several transactions, every mutation of an encoded request, failures of the transaction engine and of the endpoint",
  why="The service tests send each kind of request once in a fixed order from one session and look at the error kind of a few of them.",
  files=["src/jogasaki/api/impl/service.cpp", "src/jogasaki/api/impl/service.h", "src/jogasaki/api/impl/database.cpp", E + "executor.cpp", "src/jogasaki/durability_manager.cpp", "src/jogasaki/durability_common.cpp", "src/jogasaki/utils/extract_sql_and_tx_id.cpp", "src/jogasaki/scheduler/flat_task.cpp", "src/jogasaki/plan/compiler.cpp", "src/jogasaki/utils/decimal.cpp"],
  mech=[("request dispatch and answers", "src/jogasaki/api/impl/service.cpp"), ("commit and its notifications", E + "executor.cpp"), ("durability", "src/jogasaki/durability_manager.cpp"), ("end of a task", "src/jogasaki/scheduler/flat_task.cpp")],
  note=EXPL + ENGINE + " At most one active transaction has changes at a time, because the stand-in transaction engine does not detect conflicts."),
 dict(id="P30", title="The key-value service and SQL see the same rows",
  statement="For every sequence of key-value requests - begin, put with any overwrite rule, get, remove, commit, rollback, dispose - mixed with SQL on the same tables, each request is answered exactly once with the status its history calls for, a get returns every column of the row as it was stored by either side, and SQL sees exactly the rows of committed transactions. "
            "Values of every column type, key order, padding and NULL take the same stored form on both sides, and a value that the column cannot hold is refused instead of altered. "
            "A damaged request or requests of several threads on one transaction get an answer each, change nothing else and leave no transaction behind.",
  over=["inputs", "histories", "schedules"], quant="all sequences of up to ninety requests over three tables of any columns, every mutation of an encoded request, two to four threads sharing transactions",
  why="The key-value tests use int4 and int8 columns mostly, ascending keys only, never mix with SQL and send no request twice or from two threads.",
  files=["src/jogasaki/api/kvsservice/impl/service.cpp", "src/jogasaki/api/kvsservice/store.cpp", "src/jogasaki/api/kvsservice/transaction.cpp", "src/jogasaki/api/kvsservice/transaction_utils.cpp", "src/jogasaki/api/kvsservice/record_columns.cpp", "src/jogasaki/api/kvsservice/serializer.cpp", "src/jogasaki/api/kvsservice/convert.h"],
  mech=[("requests and answers", "src/jogasaki/api/kvsservice/impl/service.cpp"), ("operations on rows", "src/jogasaki/api/kvsservice/transaction.cpp"), ("stored form of values", "src/jogasaki/api/kvsservice/serializer.cpp"), ("columns of a record", "src/jogasaki/api/kvsservice/record_columns.cpp")],
  note=EXPL + ENGINE + " At most one transaction has changes at a time. Octet columns and tables with secondary indexes are documented as not implemented and expected to be refused."),
 dict(id="P31", title="Loads and dumps carry every row exactly once and report every failure",
  statement="For every mixture of loads and dumps with other requests, a load that is answered as done has inserted every record of every row group of every file once with the column the request names for each placeholder, and a dump answered as done has put every row the query gives once into complete files, within the limits asked for, whose list the client received. "
            "Whatever fails - a file, a record, a privilege, the storage engine, the result channel - and in whatever order the tasks of the load run, the request is answered once and as failed: a load in a transaction then aborts it, any other load has applied each block as a whole or not at all, and a dump leaves only the files it was told to keep and none of another dump overwritten. "
            "No reader, writer, job or transaction is left over.",
  over=["inputs", "histories", "schedules", "faults"], quant="all sequences of up to fourteen requests with loads of up to three files of four row groups in any task order, dumps with any options, a failure of any file operation, endpoint write or engine call",
  why="The tests load one or two small files and dump one table per case, on one schedule, and fail only on missing files.",
  files=[E + "batch/batch_executor.cpp", E + "batch/batch_file_executor.cpp", E + "batch/batch_block_executor.cpp", E + "batch/batch_execution_state.cpp", E + "file/loader.cpp", E + "io/dump_channel.cpp", E + "io/dump_channel_writer.cpp", E + "executor.cpp", "src/jogasaki/api/impl/service.cpp"],
  mech=[("loads by blocks", E + "batch/batch_executor.cpp"), ("loads in a transaction", E + "file/loader.cpp"), ("dumps", E + "io/dump_channel_writer.cpp"), ("requests", "src/jogasaki/api/impl/service.cpp")],
  note=EXPL + ENGINE + " The Parquet and Arrow readers and writers are replaced by files in memory, since the arrow libraries are not installed."),
 dict(id="P32", title="The audit log tells what was asked, by whom, and how it ended",
  statement="For every history of requests, the event log holds for each statement that was started one start and exactly one end, with the same job, transaction, text and parameters, the session, user and database it came from, and the outcome, error code and row counts the client was answered with. "
            "Each transaction has one start, at most one end, and exactly one if it was committed or rolled back, whose result is what became of it - a refused second commit or rollback adds none. "
            "Nothing is recorded above the level asked for except the end of statements over the duration threshold, and a plan is recorded exactly when the session or the configuration asks for it.",
  over=["inputs", "histories", "faults"], quant="all sequences of up to forty requests by three sessions, every level and threshold, failures of the transaction engine and of the endpoint",
  why="The build under test leaves the event log out, and the tests that have it look at trace output by hand.",
  files=[E + "executor.cpp", "src/jogasaki/external_log/event_logging.cpp", "src/jogasaki/external_log/details/altimeter_event_logging.cpp", "src/jogasaki/commit_common.cpp", "src/jogasaki/durability_common.cpp", "src/jogasaki/utils/external_log_utils.cpp", "src/jogasaki/api/impl/database.cpp", "src/jogasaki/scheduler/flat_task.cpp"],
  mech=[("start and end of statements", E + "executor.cpp"), ("end of transactions", "src/jogasaki/commit_common.cpp"), ("records", "src/jogasaki/external_log/details/altimeter_event_logging.cpp")],
  note=EXPL + ENGINE + " jogasaki is compiled with ENABLE_ALTIMETER and the altimeter library is replaced by a list of records in memory."),
 dict(id="P33", title="Settings take effect exactly as given, and wrong ones stop the start",
  statement="For every set of server settings, each setting given reaches its engine property unchanged, every property without one keeps its default (worker threads: 80% of the physical cores, 1 to 32), and settings of other components change nothing. "
            "One invalid value - an unknown name, a malformed number, boolean or time zone offset, zero or more than 256 result writers, an empty plugin directory - refuses the whole configuration instead of starting with part of it. "
            "The engine is created once with that configuration and the server's store, runs only in the server's normal mode, and is stopped exactly once for each successful start, also when a start or a stop fails in between.",
  over=["inputs", "histories", "faults"], quant="all subsets of the settings, valid and invalid values in any letter case, and all sequences of setup, start, shutdown and destruction in every boot mode with failures",
  why="The tests check a handful of keys; a misrouted or dropped key only shows up in the deployment that uses it.",
  files=["src/jogasaki/api/resource/bridge.cpp", I + "configuration.h", "src/jogasaki/utils/convert_offset_string.cpp", I + "commit_response.h", I + "key_distribution_kind.h"],
  mech=[("reading settings and lifecycle", "src/jogasaki/api/resource/bridge.cpp"), ("properties and their printed form", I + "configuration.h"), ("time zone offsets", "src/jogasaki/utils/convert_offset_string.cpp")],
  note=EXPL + " The server's configuration, environment and resources are stand-ins; the database is a recorder of its start and stop."),
]
