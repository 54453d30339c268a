# One entry per property: what is built from /repo and which harness decides it.
U = "src/jogasaki/utils/"
GROUPS = {
    "utils": [U + x + ".cpp" for x in (
        "base64_utils", "convert_control_characters", "hex_to_octet", "latch", "performance_tools",
        "sanitize_utf8", "string_manipulation", "string_utils", "use_counter", "utf8_utils", "watch")],
}
GROUPS["values"] = ["src/jogasaki/accessor/text.cpp", "src/jogasaki/data/aligned_buffer.cpp", "src/jogasaki/data/binary_string_value.cpp"]
D = "src/jogasaki/udf/"
GROUPS["udf"] = [D + x + ".cpp" for x in ("descriptor_impl", "error_info", "generic_client_context", "generic_record_impl", "plugin_api", "udf_config",
    "descriptor/descriptor_analyzer", "descriptor/descriptor_reader", "descriptor/validation/message_duplicate_validator",
    "descriptor/validation/rpc_duplicate_validator")]
GROUPS["errors"] = ["src/jogasaki/error/error_info.cpp", "src/jogasaki/api/impl/error_info.cpp"]
K = "src/jogasaki/api/kvsservice/"
M = "src/jogasaki/memory/"
SZ = "src/jogasaki/serializer/"
MT = "src/jogasaki/meta/"
X = "src/jogasaki/executor/"
GROUPS["rows"] = [MT + x + ".cpp" for x in ("character_field_option", "decimal_field_option", "octet_field_option", "time_of_day_field_option", "time_point_field_option",
    "record_meta", "impl/record_layout_creator")] + ["src/jogasaki/accessor/" + x + ".cpp" for x in ("record_ref", "const_record_ref", "text")]
DT = "src/jogasaki/data/"
EX = X + "exchange/"
GROUPS["pages"] = [M + x + ".cpp" for x in ("details/page_allocation_info", "fifo_paged_memory_resource", "lifo_paged_memory_resource", "monotonic_paged_memory_resource", "page_pool")]
FI = X + "function/incremental/"
XP = X + "expr/"
GROUPS["kvs"] = ["src/jogasaki/kvs/" + x + ".cpp" for x in ("coder", "database", "error", "iterator", "readable_stream", "storage", "transaction", "writable_stream")] + [
    "src/jogasaki/storage/" + x + ".cpp" for x in ("reference_scope", "shared_lock", "storage_manager", "unique_lock")] + [
    U + x + ".cpp" for x in ("abort_transaction", "coder", "decimal", "fail", "get_storage_by_index_name", "modify_status")] + [X + "expr/details/decimal_context.cpp"]
CHECKS = {
    "P26": dict(harness=["read.cpp"], engine=True, shim=True, proto="sql", level="exploration", factor=1),
    "P28": dict(harness=["ddl.cpp"], engine=True, shim=True, proto="sql", level="exploration", factor=1),
    "P30": dict(harness=["kvs.cpp"], engine=True, shim=True, proto="sql", level="exploration", factor=1),
    "P33": dict(harness=["settings.cpp"], repo=["src/jogasaki/api/resource/bridge.cpp", U + "convert_offset_string.cpp"], shim=True, proto="sql",
        libs="-lglog -lboost_container -lboost_thread -ldl", factor=1, level="exploration"),
    "P32": dict(harness=["audit.cpp"], engine=True, shim=True, proto="sql", cflags="-DENABLE_ALTIMETER", level="exploration", factor=1),
    "P31": dict(harness=["load.cpp"], engine=True, shim=True, proto="sql", level="exploration", factor=1),
    "P29": dict(harness=["service.cpp"], engine=True, shim=True, proto="sql", level="exploration", factor=1),
    "P27": dict(harness=["query.cpp"], engine=True, shim=True, proto="sql", level="exploration", factor=1),
    "P25": dict(harness=["dml_faults.cpp"], engine=True, shim=True, proto="sql", level="exploration", factor=1),
    "P24": dict(harness=["dml.cpp"], engine=True, shim=True, proto="sql", level="exploration", factor=1),
    "P23": dict(harness=["sequences.cpp"], groups=["rows", "kvs", "errors"], repo=[X + "sequence/" + x + ".cpp" for x in ("info", "manager", "metadata_store", "sequence")] + ["src/jogasaki/transaction_context.cpp", "src/jogasaki/transaction_state.cpp", DT + "any.cpp", DT + "aligned_buffer.cpp", M + "page_pool.cpp", M + "details/page_allocation_info.cpp"],
        shim=True, proto="sql", libs="-latomic -lglog -lnuma -ltbb -lboost_container -lboost_filesystem -ldl", factor=4, level="exploration"),
    "P22": dict(harness=["functions.cpp"], groups=["rows", "errors"], repo=[XP + x + ".cpp" for x in ("evaluator", "single_function_evaluator", "error", "evaluator_context", "lob_processing", "details/cast_evaluation", "details/cast_evaluation_temporal",
        "details/decimal_context", "details/decimal_context_guard")] + [X + x + ".cpp" for x in ("conv/unify", "conv/parameter_apply", "process/impl/variable_table", "process/impl/variable_table_info",
        "function/scalar_function_info", "function/scalar_function_repository", "function/builtin_scalar_functions")] + ["src/jogasaki/error/error_info_factory.cpp"]
        + [DT + "any.cpp", DT + "small_record_store.cpp", DT + "aligned_buffer.cpp", "src/jogasaki/accessor/record_copier.cpp", M + "lifo_paged_memory_resource.cpp", U + "as_any.cpp", U + "find_function.cpp", U + "base64_utils.cpp", U + "string_utils.cpp", U + "field_types.cpp", U + "utf8_utils.cpp", U + "fail.cpp", U + "hex_to_octet.cpp", M + "page_pool.cpp", M + "details/page_allocation_info.cpp"],
        shim=True, proto="sql", libs="-lglog -lnuma -ltbb -lboost_container -lboost_filesystem -ldl", factor=4, level="exploration"),
    "P21": dict(harness=["expr_eval.cpp"], groups=["rows", "errors"], repo=[XP + x + ".cpp" for x in ("evaluator", "error", "evaluator_context", "lob_processing", "details/cast_evaluation", "details/cast_evaluation_temporal",
        "details/decimal_context", "details/decimal_context_guard")] + [X + x + ".cpp" for x in ("conv/unify", "conv/parameter_apply", "process/impl/variable_table", "process/impl/variable_table_info",
        "function/scalar_function_info", "function/scalar_function_repository")] + ["src/jogasaki/error/error_info_factory.cpp"]
        + [DT + "any.cpp", DT + "small_record_store.cpp", DT + "aligned_buffer.cpp", "src/jogasaki/accessor/record_copier.cpp", M + "lifo_paged_memory_resource.cpp", U + "as_any.cpp", U + "field_types.cpp", U + "utf8_utils.cpp", U + "fail.cpp", U + "hex_to_octet.cpp", M + "page_pool.cpp", M + "details/page_allocation_info.cpp"],
        shim=True, proto="sql", libs="-lglog -lnuma -ltbb -lboost_container -lboost_filesystem -ldl", factor=4, level="exploration"),
    "P20": dict(harness=["casts.cpp"], groups=["rows", "errors"], repo=[XP + x + ".cpp" for x in ("error", "evaluator_context", "details/cast_evaluation", "details/cast_evaluation_temporal",
        "details/decimal_context", "details/decimal_context_guard")] + ["src/jogasaki/error/error_info_factory.cpp"] + [DT + "any.cpp", U + "fail.cpp", U + "hex_to_octet.cpp", M + "page_pool.cpp", M + "details/page_allocation_info.cpp"],
        shim=True, proto="sql", libs="-lglog -lnuma -ltbb -lboost_container -lboost_filesystem -ldl", factor=4, level="exploration"),
    "P19": dict(harness=["aggregate.cpp"], groups=["rows", "pages"], repo=[EX + "aggregate/" + x + ".cpp" for x in ("aggregate_info", "flow", "input_partition", "reader", "sink", "source", "writer")]
        + [FI + x + ".cpp" for x in ("aggregate_function_info", "aggregate_function_repository", "aggregator_info", "builtin_functions")]
        + [EX + "shuffle/flow.cpp", EX + "shuffle/pointer_table.cpp", EX + "shuffle/run_info.cpp", X + "compare_info.cpp", X + "partitioner.cpp", X + "function/field_locator.cpp", X + "function/value_generator.cpp",
           X + "expr/details/decimal_context.cpp", U + "field_types.cpp", U + "copy_field_data.cpp", DT + "any.cpp", DT + "binary_string_value.cpp", DT + "record_store.cpp", DT + "small_record_store.cpp", DT + "aligned_buffer.cpp", MT + "group_meta.cpp",
           "src/jogasaki/accessor/record_copier.cpp", X + "io/reader_container.cpp", X + "common/task.cpp", U + "fail.cpp", U + "watch.cpp"], shim=True, proto="sql", libs="-lglog -lnuma -ltbb -lboost_container -ldl", factor=4, level="exploration"),
    "P18": dict(harness=["group.cpp"], groups=["rows", "pages"], repo=[EX + "group/" + x + ".cpp" for x in ("flow", "group_info", "input_partition", "priority_queue_reader", "sink", "sorted_vector_reader", "source", "writer")]
        + [EX + "shuffle/flow.cpp", EX + "shuffle/pointer_table.cpp", EX + "shuffle/run_info.cpp", X + "compare_info.cpp", X + "partitioner.cpp", DT + "record_store.cpp", DT + "small_record_store.cpp", DT + "aligned_buffer.cpp", MT + "group_meta.cpp",
           "src/jogasaki/accessor/record_copier.cpp", X + "io/reader_container.cpp", X + "common/task.cpp", U + "fail.cpp", U + "watch.cpp"], shim=True, proto="sql", libs="-lglog -lnuma -ltbb -lboost_container -ldl", factor=4, level="exploration"),
    "P17": dict(harness=["compare.cpp"], groups=["rows"], repo=[X + "compare_info.cpp", X + "partitioner.cpp", U + "fail.cpp"], shim=True, proto="sql",
        libs="-lglog -lboost_container -ldl", factor=4, level="exploration"),
    "P16": dict(harness=["forward.cpp"], groups=["rows", "pages"], repo=[EX + "forward/" + x + ".cpp" for x in ("flow", "forward_info", "input_partition", "reader", "sink", "source", "writer")]
        + [DT + "fifo_record_store.cpp", "src/jogasaki/accessor/record_copier.cpp", X + "io/reader_container.cpp", X + "common/task.cpp", U + "fail.cpp"], shim=True, proto="sql", libs="-lglog -lnuma -ltbb -lboost_container -ldl", factor=2, level="exploration"),
    "P15": dict(harness=["rows.cpp"], groups=["rows", "errors"], repo=[DT + x + ".cpp" for x in ("any", "any_sequence", "value", "record_store", "iterable_record_store", "small_record_store",
        "result_store", "aligned_buffer", "binary_string_value")] + ["src/jogasaki/accessor/record_copier.cpp", X + "expr/error.cpp", U + "fail.cpp", M + "page_pool.cpp", M + "monotonic_paged_memory_resource.cpp",
        M + "details/page_allocation_info.cpp"], shim=True, proto="sql", libs="-lglog -lnuma -ltbb -lboost_container -ldl", factor=4, level="exploration"),
    "P14": dict(harness=["kv_coder.cpp"], groups=["rows"], repo=["src/jogasaki/kvs/" + x + ".cpp" for x in ("coder", "readable_stream", "writable_stream")]
        + [U + x + ".cpp" for x in ("coder", "decimal", "fail")] + ["src/jogasaki/data/any.cpp", "src/jogasaki/data/aligned_buffer.cpp", X + "expr/details/decimal_context.cpp"], shim=True,
        libs="-lglog -lboost_container -ldl", factor=4, level="exploration"),
    "P13": dict(harness=["wire_values.cpp"], repo=[SZ + x + ".cpp" for x in ("base128v", "value_input", "value_input_exception", "value_output")], shim=True,
        libs="-lglog", factor=4, level="exploration"),
    "P12": dict(harness=["memory.cpp"], repo=[M + x + ".cpp" for x in ("details/page_allocation_info", "fifo_paged_memory_resource", "lifo_paged_memory_resource",
        "monotonic_paged_memory_resource", "page_pool")], shim=True, libs="-lglog -lnuma -ltbb -lboost_container", factor=15, level="exploration"),
    "P10": dict(harness=["laws.cpp"], repo=[U + "fail.cpp", U + "surrogate_id_utils.cpp"], shim=True, libs="-lglog -ldl", factor=10, level="exploration"),
    "P11": dict(harness=["typeopts.cpp"], repo=["src/jogasaki/meta/%s_field_option.cpp" % x for x in ("character", "decimal", "octet", "time_of_day", "time_point")]
        + ["src/jogasaki/request_statistics.cpp"], libs="-lglog", factor=20, level="exploration"),
    "P09": dict(harness=["requests.cpp"], repo=[K + "mapped_record.cpp", K + "transaction_options.cpp", "src/jogasaki/request_statistics.cpp",
        U + "watch.cpp", U + "performance_tools.cpp", "src/jogasaki/executor/batch/batch_executor_option.cpp"], proto="kvs", libs="-lglog", factor=8, level="exploration"),
    "P08": dict(harness=["sync.cpp"], groups=["utils"], libs="-lglog", factor=8, level="exploration"),
    "P06": dict(harness=["wire.cpp"], repo=["src/jogasaki/executor/dto/common_column_utils.cpp", "src/jogasaki/executor/dto/describe_table_utils.cpp",
        U + "proto_debug_string.cpp"], proto="sql", libs="-lglog", factor=10, level="exploration"),
    "P07": dict(harness=["errors.cpp"], groups=["errors"], proto="sql", libs="-lglog", factor=12, level="exploration"),
    "P05": dict(harness=["binary_codecs.cpp"], groups=["utils"], libs="-lglog", factor=20, level="exploration"),
    "P03": dict(harness=["udf_records.cpp"], groups=["udf"], libs="-lglog -lgrpc++ -lgrpc -lgpr -lprotobuf", factor=2, level="exploration"),
    "P04": dict(harness=["udf_catalog.cpp"], groups=["udf"], libs="-lglog -lgrpc++ -lgrpc -lgpr -lprotobuf", factor=2, level="exploration"),
    "P02": dict(harness=["values.cpp"], groups=["values", "utils"], libs="-lglog -lboost_container", factor=2, level="exploration"),
    "P01": dict(harness=["text_codecs.cpp"], groups=["utils"], libs="-lglog", factor=3, level="exploration"),
}
