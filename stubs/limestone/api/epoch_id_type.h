#pragma once
#include <cstdint>
namespace limestone::api { using epoch_id_type = std::uint64_t; using epoch_t = std::uint64_t; }
