// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <cstdint>
#include <ostream>
namespace sharksfin {
enum class StatusCode : std::int64_t {
    OK = 0,
    NOT_FOUND = 1,
    ALREADY_EXISTS = 2,
    USER_ROLLBACK = 3,
    WAITING_FOR_OTHER_TRANSACTION = 4,
    PREMATURE = 5,
    CONCURRENT_OPERATION = 6,
    ERR_UNKNOWN = -1,
    ERR_IO_ERROR = -2,
    ERR_INVALID_ARGUMENT = -3,
    ERR_INVALID_STATE = -4,
    ERR_UNSUPPORTED = -5,
    ERR_USER_ERROR = -6,
    ERR_ABORTED = -7,
    ERR_ABORTED_RETRYABLE = -8,
    ERR_TIME_OUT = -9,
    ERR_NOT_IMPLEMENTED = -10,
    ERR_ILLEGAL_OPERATION = -11,
    ERR_CONFLICT_ON_WRITE_PRESERVE = -12,
    ERR_WRITE_WITHOUT_WRITE_PRESERVE = -14,
    ERR_INACTIVE_TRANSACTION = -15,
    ERR_BLOCKED_BY_CONCURRENT_OPERATION = -16,
    ERR_RESOURCE_LIMIT_REACHED = -17,
    ERR_INVALID_KEY_LENGTH = -18,
    ERR_READ_AREA_VIOLATION = -19,
};
inline std::ostream& operator<<(std::ostream& o, StatusCode c) { return o << static_cast<std::int64_t>(c); }
enum class ErrorCode : std::int32_t { OK = 0, ERROR = 1, KVS_KEY_ALREADY_EXISTS, KVS_KEY_NOT_FOUND, CC_LTX_READ_UPPER_BOUND_VIOLATION, CC_LTX_WRITE_ERROR, CC_OCC_READ_ERROR };
inline std::ostream& operator<<(std::ostream& o, ErrorCode c) { return o << static_cast<std::int32_t>(c); }
enum class ErrorLocatorKind : std::int32_t { unknown = 0, storage_key };
inline std::ostream& operator<<(std::ostream& o, ErrorLocatorKind c) { return o << static_cast<std::int32_t>(c); }
}  // namespace sharksfin
