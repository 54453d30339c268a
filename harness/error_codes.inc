// The published codes: names and numbers as released.
std::vector<std::pair<std::string, error_code>> const kErrorCodes{
    {"none", static_cast<error_code>(0)},
    {"sql_service_exception", static_cast<error_code>(1000)},
    {"sql_execution_exception", static_cast<error_code>(2000)},
    {"constraint_violation_exception", static_cast<error_code>(2001)},
    {"unique_constraint_violation_exception", static_cast<error_code>(2002)},
    {"not_null_constraint_violation_exception", static_cast<error_code>(2003)},
    {"referential_integrity_constraint_violation_exception", static_cast<error_code>(2004)},
    {"check_constraint_violation_exception", static_cast<error_code>(2005)},
    {"evaluation_exception", static_cast<error_code>(2010)},
    {"value_evaluation_exception", static_cast<error_code>(2011)},
    {"scalar_subquery_evaluation_exception", static_cast<error_code>(2012)},
    {"target_not_found_exception", static_cast<error_code>(2014)},
    {"target_already_exists_exception", static_cast<error_code>(2016)},
    {"inconsistent_statement_exception", static_cast<error_code>(2018)},
    {"restricted_operation_exception", static_cast<error_code>(2020)},
    {"dependencies_violation_exception", static_cast<error_code>(2021)},
    {"write_operation_by_rtx_exception", static_cast<error_code>(2022)},
    {"ltx_write_operation_without_write_preserve_exception", static_cast<error_code>(2023)},
    {"read_operation_on_restricted_read_area_exception", static_cast<error_code>(2024)},
    {"inactive_transaction_exception", static_cast<error_code>(2025)},
    {"parameter_exception", static_cast<error_code>(2027)},
    {"unresolved_placeholder_exception", static_cast<error_code>(2028)},
    {"load_file_exception", static_cast<error_code>(2030)},
    {"load_file_not_found_exception", static_cast<error_code>(2031)},
    {"load_file_format_exception", static_cast<error_code>(2032)},
    {"dump_file_exception", static_cast<error_code>(2033)},
    {"dump_directory_inaccessible_exception", static_cast<error_code>(2034)},
    {"sql_limit_reached_exception", static_cast<error_code>(2036)},
    {"transaction_exceeded_limit_exception", static_cast<error_code>(2037)},
    {"sql_request_timeout_exception", static_cast<error_code>(2039)},
    {"data_corruption_exception", static_cast<error_code>(2041)},
    {"secondary_index_corruption_exception", static_cast<error_code>(2042)},
    {"request_failure_exception", static_cast<error_code>(2044)},
    {"transaction_not_found_exception", static_cast<error_code>(2045)},
    {"statement_not_found_exception", static_cast<error_code>(2046)},
    {"internal_exception", static_cast<error_code>(2048)},
    {"unsupported_runtime_feature_exception", static_cast<error_code>(2050)},
    {"blocked_by_high_priority_transaction_exception", static_cast<error_code>(2052)},
    {"invalid_runtime_value_exception", static_cast<error_code>(2054)},
    {"value_out_of_range_exception", static_cast<error_code>(2056)},
    {"value_too_long_exception", static_cast<error_code>(2058)},
    {"invalid_decimal_value_exception", static_cast<error_code>(2060)},
    {"compile_exception", static_cast<error_code>(3000)},
    {"syntax_exception", static_cast<error_code>(3001)},
    {"analyze_exception", static_cast<error_code>(3002)},
    {"type_analyze_exception", static_cast<error_code>(3003)},
    {"symbol_analyze_exception", static_cast<error_code>(3004)},
    {"value_analyze_exception", static_cast<error_code>(3005)},
    {"unsupported_compiler_feature_exception", static_cast<error_code>(3010)},
    {"cc_exception", static_cast<error_code>(4000)},
    {"occ_exception", static_cast<error_code>(4001)},
    {"occ_read_exception", static_cast<error_code>(4010)},
    {"conflict_on_write_preserve_exception", static_cast<error_code>(4015)},
    {"occ_write_exception", static_cast<error_code>(4011)},
    {"ltx_exception", static_cast<error_code>(4003)},
    {"ltx_read_exception", static_cast<error_code>(4013)},
    {"ltx_write_exception", static_cast<error_code>(4014)},
    {"rtx_exception", static_cast<error_code>(4005)},
    {"blocked_by_concurrent_operation_exception", static_cast<error_code>(4007)},
    {"request_canceled", static_cast<error_code>(50011)},
    {"lob_file_io_error", static_cast<error_code>(50012)},
    {"lob_reference_invalid", static_cast<error_code>(50013)},
    {"operation_denied", static_cast<error_code>(50014)},
    {"permission_error", static_cast<error_code>(50015)},
    {"unknown_internal_error", static_cast<error_code>(50016)},
};
std::vector<std::pair<char const*, status>> const kStatuses{
    {"ok", status::ok},
    {"not_found", status::not_found},
    {"already_exists", status::already_exists},
    {"user_rollback", status::user_rollback},
    {"concurrent_operation", status::concurrent_operation},
    {"request_canceled", status::request_canceled},
    {"err_unknown", status::err_unknown},
    {"err_io_error", status::err_io_error},
    {"err_parse_error", status::err_parse_error},
    {"err_translator_error", status::err_translator_error},
    {"err_compiler_error", status::err_compiler_error},
    {"err_invalid_argument", status::err_invalid_argument},
    {"err_invalid_state", status::err_invalid_state},
    {"err_unsupported", status::err_unsupported},
    {"err_user_error", status::err_user_error},
    {"err_aborted", status::err_aborted},
    {"err_serialization_failure", status::err_serialization_failure},
    {"err_not_found", status::err_not_found},
    {"err_already_exists", status::err_already_exists},
    {"err_inconsistent_index", status::err_inconsistent_index},
    {"err_time_out", status::err_time_out},
    {"err_integrity_constraint_violation", status::err_integrity_constraint_violation},
    {"err_expression_evaluation_failure", status::err_expression_evaluation_failure},
    {"err_unresolved_host_variable", status::err_unresolved_host_variable},
    {"err_type_mismatch", status::err_type_mismatch},
    {"err_not_implemented", status::err_not_implemented},
    {"err_illegal_operation", status::err_illegal_operation},
    {"err_missing_operation_target", status::err_missing_operation_target},
    {"err_conflict_on_write_preserve", status::err_conflict_on_write_preserve},
    {"err_inactive_transaction", status::err_inactive_transaction},
    {"err_resource_limit_reached", status::err_resource_limit_reached},
    {"err_data_corruption", status::err_data_corruption},
    {"err_unique_constraint_violation", status::err_unique_constraint_violation},
    {"err_write_without_write_preserve", status::err_write_without_write_preserve},
    {"err_read_area_violation", status::err_read_area_violation},
    {"err_write_operation_by_rtx", status::err_write_operation_by_rtx},
    {"err_invalid_key_length", status::err_invalid_key_length},
    {"err_insufficient_field_storage", status::err_insufficient_field_storage},
    {"err_invalid_runtime_value", status::err_invalid_runtime_value},
    {"waiting_for_other_transaction", status::waiting_for_other_transaction},
};
std::vector<std::pair<char const*, int>> const kWireCodes{
    {"CODE_UNSPECIFIED", 0},
    {"SQL_SERVICE_EXCEPTION", 1},
    {"SQL_EXECUTION_EXCEPTION", 2},
    {"CONSTRAINT_VIOLATION_EXCEPTION", 3},
    {"UNIQUE_CONSTRAINT_VIOLATION_EXCEPTION", 4},
    {"NOT_NULL_CONSTRAINT_VIOLATION_EXCEPTION", 5},
    {"REFERENTIAL_INTEGRITY_CONSTRAINT_VIOLATION_EXCEPTION", 6},
    {"CHECK_CONSTRAINT_VIOLATION_EXCEPTION", 7},
    {"EVALUATION_EXCEPTION", 8},
    {"VALUE_EVALUATION_EXCEPTION", 9},
    {"SCALAR_SUBQUERY_EVALUATION_EXCEPTION", 10},
    {"TARGET_NOT_FOUND_EXCEPTION", 11},
    {"TARGET_ALREADY_EXISTS_EXCEPTION", 12},
    {"INCONSISTENT_STATEMENT_EXCEPTION", 13},
    {"RESTRICTED_OPERATION_EXCEPTION", 14},
    {"DEPENDENCIES_VIOLATION_EXCEPTION", 15},
    {"WRITE_OPERATION_BY_RTX_EXCEPTION", 16},
    {"LTX_WRITE_OPERATION_WITHOUT_WRITE_PRESERVE_EXCEPTION", 17},
    {"READ_OPERATION_ON_RESTRICTED_READ_AREA_EXCEPTION", 18},
    {"INACTIVE_TRANSACTION_EXCEPTION", 19},
    {"PARAMETER_EXCEPTION", 20},
    {"UNRESOLVED_PLACEHOLDER_EXCEPTION", 21},
    {"LOAD_FILE_EXCEPTION", 22},
    {"LOAD_FILE_NOT_FOUND_EXCEPTION", 23},
    {"LOAD_FILE_FORMAT_EXCEPTION", 24},
    {"DUMP_FILE_EXCEPTION", 25},
    {"DUMP_DIRECTORY_INACCESSIBLE_EXCEPTION", 26},
    {"SQL_LIMIT_REACHED_EXCEPTION", 27},
    {"TRANSACTION_EXCEEDED_LIMIT_EXCEPTION", 28},
    {"SQL_REQUEST_TIMEOUT_EXCEPTION", 29},
    {"DATA_CORRUPTION_EXCEPTION", 30},
    {"SECONDARY_INDEX_CORRUPTION_EXCEPTION", 31},
    {"REQUEST_FAILURE_EXCEPTION", 32},
    {"TRANSACTION_NOT_FOUND_EXCEPTION", 33},
    {"STATEMENT_NOT_FOUND_EXCEPTION", 34},
    {"INTERNAL_EXCEPTION", 35},
    {"UNSUPPORTED_RUNTIME_FEATURE_EXCEPTION", 36},
    {"BLOCKED_BY_HIGH_PRIORITY_TRANSACTION_EXCEPTION", 37},
    {"INVALID_RUNTIME_VALUE_EXCEPTION", 38},
    {"VALUE_OUT_OF_RANGE_EXCEPTION", 39},
    {"VALUE_TOO_LONG_EXCEPTION", 40},
    {"INVALID_DECIMAL_VALUE_EXCEPTION", 41},
    {"COMPILE_EXCEPTION", 101},
    {"SYNTAX_EXCEPTION", 102},
    {"ANALYZE_EXCEPTION", 103},
    {"TYPE_ANALYZE_EXCEPTION", 104},
    {"SYMBOL_ANALYZE_EXCEPTION", 105},
    {"VALUE_ANALYZE_EXCEPTION", 106},
    {"UNSUPPORTED_COMPILER_FEATURE_EXCEPTION", 107},
    {"CC_EXCEPTION", 201},
    {"OCC_EXCEPTION", 202},
    {"OCC_READ_EXCEPTION", 203},
    {"CONFLICT_ON_WRITE_PRESERVE_EXCEPTION", 204},
    {"OCC_WRITE_EXCEPTION", 205},
    {"LTX_EXCEPTION", 206},
    {"LTX_READ_EXCEPTION", 207},
    {"LTX_WRITE_EXCEPTION", 208},
    {"RTX_EXCEPTION", 209},
    {"BLOCKED_BY_CONCURRENT_OPERATION_EXCEPTION", 210},
};
