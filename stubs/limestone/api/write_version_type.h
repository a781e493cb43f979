#pragma once
#include "epoch_id_type.h"
namespace limestone::api {
class write_version_type {
public:
    write_version_type() = default;
    write_version_type(epoch_t major, std::uint64_t minor) : major_(major), minor_(minor) {}
    epoch_t get_major() const { return major_; }
    std::uint64_t get_minor() const { return minor_; }
    bool operator<(const write_version_type& r) const {
        return major_ < r.major_ || (major_ == r.major_ && minor_ < r.minor_);
    }

private:
    epoch_t major_{0};
    std::uint64_t minor_{0};
};
} // namespace limestone::api
