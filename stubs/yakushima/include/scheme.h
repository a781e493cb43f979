#pragma once
#include <cstdint>
#include <ostream>
namespace yakushima {

using Token = void*;
enum class value_align_type : std::size_t {};
enum class scan_endpoint : char { EXCLUSIVE, INCLUSIVE, INF };

enum class status : std::int32_t {
    WARN_ABORTED_BY_USER,
    WARN_BAD_USAGE,
    WARN_CONCURRENT_OPERATIONS,
    WARN_EXIST,
    WARN_INVALID_TOKEN,
    WARN_MAX_SESSIONS,
    WARN_NOT_EXIST,
    WARN_STORAGE_NOT_EXIST,
    WARN_UNIQUE_RESTRICTION,
    OK,
    OK_DESTROY_ALL,
    OK_NOT_FOUND,
    OK_ROOT_IS_DELETED,
    OK_ROOT_IS_NULL,
    OK_SCAN_END,
    ERR_BAD_USAGE,
    ERR_FATAL,
};

inline std::ostream& operator<<(std::ostream& out, status s) { return out << static_cast<std::int32_t>(s); }

} // namespace yakushima
