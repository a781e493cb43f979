// A small functional stand-in for the yakushima index, exposing the part of its interface that
// shirakami uses.  yakushima is not installed in this sandbox; the analyser needs declarations to
// type-check all of /repo/src, and the demonstrations need something to run on.
// One mutex per tree, one "border node" per tree: every insert/remove bumps the node version.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

#include "scheme.h"
#include "version.h"

namespace yakushima {

struct inserted_node_info {
    node_version64* modified_nvp{nullptr};
    node_version64* created_nvp{nullptr};
};

class tree_instance {
public:
    std::mutex mtx_;
    std::map<std::string, void*, std::less<>> map_;
    node_version64 ver_;
    void store_root_ptr(void*) { map_.clear(); }
};

class storage {
public:
    static std::mutex& mtx() {
        static std::mutex m;
        return m;
    }
    static std::map<std::string, std::shared_ptr<tree_instance>, std::less<>>& trees() {
        static std::map<std::string, std::shared_ptr<tree_instance>, std::less<>> t;
        return t;
    }
    // trees stay allocated once created: node versions may be dereferenced after drop
    static std::vector<std::shared_ptr<tree_instance>>& graveyard() {
        static std::vector<std::shared_ptr<tree_instance>> g;
        return g;
    }
    static tree_instance* get_storages() {
        static tree_instance top;
        return &top;
    }
    static std::shared_ptr<tree_instance> find(std::string_view name) {
        std::lock_guard<std::mutex> lk{mtx()};
        auto itr = trees().find(name);
        if (itr == trees().end()) { return nullptr; }
        return itr->second;
    }
};

struct iscan_context {
    std::shared_ptr<tree_instance> tree_;
    std::string l_key_, r_key_;
    scan_endpoint l_end_{}, r_end_{};
    bool right_to_left_{false};
    bool started_{false};
    std::string cur_;
};

inline std::atomic<std::int64_t>& session_count() {
    static std::atomic<std::int64_t> c{0};
    return c;
}

inline void init() {}

inline void fin() {
    std::lock_guard<std::mutex> lk{storage::mtx()};
    for (auto& e : storage::trees()) { storage::graveyard().emplace_back(e.second); }
    storage::trees().clear();
}

inline status enter(Token& token) {
    ++session_count();
    token = new int{1}; // NOLINT
    return status::OK;
}

inline status leave(Token token) {
    --session_count();
    delete static_cast<int*>(token); // NOLINT
    return status::OK;
}

inline status create_storage(std::string_view name) {
    std::lock_guard<std::mutex> lk{storage::mtx()};
    auto r = storage::trees().emplace(std::string(name), std::make_shared<tree_instance>());
    return r.second ? status::OK : status::WARN_EXIST;
}

inline status delete_storage(std::string_view name) {
    std::lock_guard<std::mutex> lk{storage::mtx()};
    auto itr = storage::trees().find(name);
    if (itr == storage::trees().end()) { return status::WARN_NOT_EXIST; }
    storage::graveyard().emplace_back(itr->second);
    storage::trees().erase(itr);
    return status::OK;
}

inline status find_storage(std::string_view name, tree_instance** found = nullptr) {
    auto t = storage::find(name);
    if (!t) { return status::WARN_NOT_EXIST; }
    if (found != nullptr) { *found = t.get(); }
    return status::OK;
}

inline status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out) {
    out.clear();
    std::lock_guard<std::mutex> lk{storage::mtx()};
    for (auto& e : storage::trees()) { out.emplace_back(e.first, e.second.get()); }
    return out.empty() ? status::WARN_NOT_EXIST : status::OK;
}

template<class ValueType>
status get(std::string_view storage_name, std::string_view key, std::pair<ValueType*, std::size_t>& out,
           std::pair<node_version64_body, node_version64*>* checked_version = nullptr) {
    auto t = storage::find(storage_name);
    if (!t) { return status::WARN_STORAGE_NOT_EXIST; }
    std::lock_guard<std::mutex> lk{t->mtx_};
    if (checked_version != nullptr) {
        checked_version->first = t->ver_.get_stable_version();
        checked_version->second = &t->ver_;
    }
    auto itr = t->map_.find(key);
    if (itr == t->map_.end()) { return status::WARN_NOT_EXIST; }
    out.first = reinterpret_cast<ValueType*>(itr->second); // NOLINT
    out.second = sizeof(ValueType);
    return status::OK;
}

template<class ValueType>
status put([[maybe_unused]] Token token, std::string_view storage_name, std::string_view key, ValueType* value,
           std::size_t = sizeof(ValueType), ValueType** = nullptr,
           value_align_type = static_cast<value_align_type>(alignof(ValueType)), bool unique_restriction = false,
           inserted_node_info* ii = nullptr) {
    auto t = storage::find(storage_name);
    if (!t) { return status::WARN_STORAGE_NOT_EXIST; }
    std::lock_guard<std::mutex> lk{t->mtx_};
    auto itr = t->map_.find(key);
    if (itr != t->map_.end()) {
        if (unique_restriction) { return status::WARN_UNIQUE_RESTRICTION; }
        itr->second = reinterpret_cast<void*>(*value); // NOLINT
        return status::OK;
    }
    t->map_.emplace(std::string(key), reinterpret_cast<void*>(*value)); // NOLINT
    t->ver_.bump();
    if (ii != nullptr) {
        ii->modified_nvp = &t->ver_;
        ii->created_nvp = nullptr;
    }
    return status::OK;
}

inline status remove([[maybe_unused]] Token token, std::string_view storage_name, std::string_view key) {
    auto t = storage::find(storage_name);
    if (!t) { return status::WARN_STORAGE_NOT_EXIST; }
    std::lock_guard<std::mutex> lk{t->mtx_};
    auto itr = t->map_.find(key);
    if (itr == t->map_.end()) { return status::OK_NOT_FOUND; }
    t->map_.erase(itr);
    t->ver_.bump();
    return status::OK;
}

inline bool in_range(std::string_view k, std::string_view l_key, scan_endpoint l_end, std::string_view r_key,
                     scan_endpoint r_end) {
    if (l_end != scan_endpoint::INF) {
        if (k < l_key || (l_end == scan_endpoint::EXCLUSIVE && k == l_key)) { return false; }
    }
    if (r_end != scan_endpoint::INF) {
        if (k > r_key || (r_end == scan_endpoint::EXCLUSIVE && k == r_key)) { return false; }
    }
    return true;
}

template<class ValueType>
status scan(std::string_view storage_name, std::string_view l_key, scan_endpoint l_end, std::string_view r_key,
            scan_endpoint r_end, std::vector<std::tuple<std::string, ValueType*, std::size_t>>& out,
            std::vector<std::pair<node_version64_body, node_version64*>>* v = nullptr, std::size_t max_size = 0,
            bool right_to_left = false) {
    out.clear();
    if (v != nullptr) { v->clear(); }
    auto t = storage::find(storage_name);
    if (!t) { return status::WARN_STORAGE_NOT_EXIST; }
    std::lock_guard<std::mutex> lk{t->mtx_};
    auto add = [&](const std::string& key, void* val) {
        if (!in_range(key, l_key, l_end, r_key, r_end)) { return true; }
        out.emplace_back(key, reinterpret_cast<ValueType*>(val), sizeof(ValueType)); // NOLINT
        if (v != nullptr) { v->emplace_back(t->ver_.get_stable_version(), &t->ver_); }
        return max_size == 0 || out.size() < max_size;
    };
    if (right_to_left) {
        for (auto itr = t->map_.rbegin(); itr != t->map_.rend(); ++itr) {
            if (!add(itr->first, itr->second)) { break; }
        }
    } else {
        for (auto& e : t->map_) {
            if (!add(e.first, e.second)) { break; }
        }
    }
    if (out.empty() && v != nullptr) { v->emplace_back(t->ver_.get_stable_version(), &t->ver_); }
    return status::OK;
}

using iscan_callback = std::function<bool(node_version64*, node_version64_body)>;

inline status iscan_step(iscan_context* c, void*& value, const iscan_callback& cb) {
    std::lock_guard<std::mutex> lk{c->tree_->mtx_};
    if (cb) {
        if (cb(&c->tree_->ver_, c->tree_->ver_.get_stable_version())) { return status::WARN_ABORTED_BY_USER; }
    }
    auto& m = c->tree_->map_;
    if (!c->right_to_left_) {
        auto itr = c->started_ ? m.upper_bound(c->cur_) : m.begin();
        for (; itr != m.end(); ++itr) {
            if (in_range(itr->first, c->l_key_, c->l_end_, c->r_key_, c->r_end_)) {
                c->started_ = true;
                c->cur_ = itr->first;
                value = itr->second;
                return status::OK;
            }
        }
    } else {
        auto itr = c->started_ ? m.lower_bound(c->cur_) : m.end();
        while (itr != m.begin()) {
            --itr;
            if (in_range(itr->first, c->l_key_, c->l_end_, c->r_key_, c->r_end_)) {
                c->started_ = true;
                c->cur_ = itr->first;
                value = itr->second;
                return status::OK;
            }
        }
    }
    return status::OK_SCAN_END;
}

inline status iscan_open(std::string_view storage_name, std::string_view l_key, scan_endpoint l_end,
                         std::string_view r_key, scan_endpoint r_end, bool right_to_left,
                         [[maybe_unused]] bool early_abort, iscan_context*& context, void*& value,
                         const iscan_callback& cb = nullptr) {
    auto t = storage::find(storage_name);
    if (!t) { return status::WARN_STORAGE_NOT_EXIST; }
    context = new iscan_context(); // NOLINT
    context->tree_ = t;
    context->l_key_ = l_key;
    context->r_key_ = r_key;
    context->l_end_ = l_end;
    context->r_end_ = r_end;
    context->right_to_left_ = right_to_left;
    return iscan_step(context, value, cb);
}

inline status iscan_next(iscan_context* context, void*& value, const iscan_callback& cb = nullptr) {
    return iscan_step(context, value, cb);
}

inline void iscan_close(iscan_context* context) { delete context; } // NOLINT

} // namespace yakushima
