#pragma once
#include <atomic>
#include <cstdint>
namespace yakushima {

class node_version64_body {
public:
    [[nodiscard]] std::uint64_t get_vinsert_delete() const { return vid_; }
    [[nodiscard]] std::uint64_t get_vsplit() const { return vs_; }
    bool operator==(const node_version64_body& r) const { return vid_ == r.vid_ && vs_ == r.vs_; }
    bool operator!=(const node_version64_body& r) const { return !(*this == r); }
    std::uint64_t vid_{0};
    std::uint64_t vs_{0};
};

class node_version64 {
public:
    [[nodiscard]] node_version64_body get_stable_version() const {
        node_version64_body b;
        b.vid_ = vid_.load(std::memory_order_acquire);
        return b;
    }
    [[nodiscard]] node_version64_body get_body() const { return get_stable_version(); }
    void bump() { vid_.fetch_add(1); }

private:
    std::atomic<std::uint64_t> vid_{0};
};

} // namespace yakushima
