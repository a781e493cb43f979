// A small functional stand-in for the limestone log datastore (see yakushima/include/kvs.h for why).
// Durable state lives in process memory, keyed by data location, so it survives shirakami::fin().
#pragma once
#include <atomic>
#include <cstdint>
#include <filesystem>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

#include <boost/filesystem/path.hpp>

#include "blob_id_type.h"
#include "epoch_id_type.h"
#include "storage_id_type.h"
#include "write_version_type.h"

namespace limestone::api {

class configuration {
public:
    configuration() = default;
    void set_data_location(const std::filesystem::path& p) { loc_ = p.string(); }
    void set_recover_max_parallelism(int n) { para_ = n; }
    std::string loc_{"default"};
    int para_{1};
};

struct fake_entry {
    enum kind_t { ADD, REMOVE, ADD_STORAGE, REMOVE_STORAGE } kind{};
    storage_id_type st{};
    std::string key;
    std::string val;
    write_version_type wv;
    std::vector<blob_id_type> lobs;
    epoch_t session_epoch{};
};

// everything written to one data location
struct fake_image {
    std::mutex mtx;
    std::vector<fake_entry> pending;  // ended sessions, not yet durable
    std::vector<fake_entry> durable;
    epoch_t durable_epoch{0};
};

inline std::map<std::string, std::shared_ptr<fake_image>>& fake_images() {
    static std::map<std::string, std::shared_ptr<fake_image>> m;
    return m;
}
inline std::mutex& fake_images_mtx() {
    static std::mutex m;
    return m;
}
inline std::shared_ptr<fake_image> fake_image_of(const std::string& loc) {
    std::lock_guard<std::mutex> lk{fake_images_mtx()};
    auto& p = fake_images()[loc];
    if (!p) { p = std::make_shared<fake_image>(); }
    return p;
}

class datastore;

class log_channel {
public:
    explicit log_channel(datastore* ds) : ds_(ds) {}
    void begin_session();
    void end_session();
    void add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv) {
        staged_.push_back({fake_entry::ADD, st, std::string(key), std::string(val), wv, {}, epoch_});
    }
    void add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv,
                   const std::vector<blob_id_type>& lobs) {
        staged_.push_back({fake_entry::ADD, st, std::string(key), std::string(val), wv, lobs, epoch_});
    }
    void remove_entry(storage_id_type st, std::string_view key, write_version_type wv) {
        staged_.push_back({fake_entry::REMOVE, st, std::string(key), {}, wv, {}, epoch_});
    }
    void add_storage(storage_id_type st, write_version_type wv) {
        staged_.push_back({fake_entry::ADD_STORAGE, st, {}, {}, wv, {}, epoch_});
    }
    void remove_storage(storage_id_type st, write_version_type wv) {
        staged_.push_back({fake_entry::REMOVE_STORAGE, st, {}, {}, wv, {}, epoch_});
    }
    datastore* ds_;
    std::vector<fake_entry> staged_;
    std::atomic<epoch_t> epoch_{0}; // 0: no session
};

class cursor {
public:
    struct row { storage_id_type st; std::string key, val; std::vector<blob_id_type> lobs; };
    explicit cursor(std::vector<row> rows) : rows_(std::move(rows)) {}
    bool next() { return ++pos_ <= static_cast<std::int64_t>(rows_.size()) - 1; }
    storage_id_type storage() const { return rows_.at(pos_).st; }
    void key(std::string& b) const { b = rows_.at(pos_).key; }
    void value(std::string& b) const { b = rows_.at(pos_).val; }
    std::vector<blob_id_type>& large_objects() { return rows_.at(pos_).lobs; }

private:
    std::vector<row> rows_;
    std::int64_t pos_{-1};
};

class snapshot {
public:
    explicit snapshot(std::vector<cursor::row> rows) : rows_(std::move(rows)) {}
    std::unique_ptr<cursor> get_cursor() const { return std::make_unique<cursor>(rows_); }
    std::vector<std::unique_ptr<cursor>> get_partitioned_cursors(std::size_t n) {
        std::vector<std::vector<cursor::row>> parts(n);
        for (std::size_t i = 0; i < rows_.size(); ++i) { parts[i % n].push_back(rows_[i]); }
        std::vector<std::unique_ptr<cursor>> ret;
        for (auto& p : parts) { ret.emplace_back(std::make_unique<cursor>(std::move(p))); }
        return ret;
    }

private:
    std::vector<cursor::row> rows_;
};

class datastore {
public:
    datastore() = default;
    explicit datastore(const configuration& c) : img_(fake_image_of(c.loc_)) {}
    log_channel& create_channel() {
        std::lock_guard<std::mutex> lk{mtx_};
        channels_.emplace_back(this);
        return channels_.back();
    }
    log_channel& create_channel(const boost::filesystem::path&) { return create_channel(); }
    void recover() {}
    void ready() { ready_ = true; }
    epoch_t last_epoch() const { return img_->durable_epoch; }
    void switch_epoch(epoch_t e) {
        std::unique_lock<std::mutex> lk{mtx_};
        epoch_.store(e);
        publish(lk);
    }
    void switch_available_boundary_version(write_version_type) {}
    void add_persistent_callback(std::function<void(epoch_t)> cb) { cb_ = std::move(cb); }
    void remove_persistent_callback() { cb_ = nullptr; }
    std::unique_ptr<snapshot> get_snapshot() const {
        std::map<std::pair<storage_id_type, std::string>, const fake_entry*> m;
        std::map<storage_id_type, write_version_type> removed;
        for (auto& e : img_->durable) {
            if (e.kind == fake_entry::REMOVE_STORAGE) {
                auto& w = removed[e.st];
                if (w < e.wv) { w = e.wv; }
            }
            if (e.kind != fake_entry::ADD && e.kind != fake_entry::REMOVE) { continue; }
            auto& slot = m[{e.st, e.key}];
            if (slot == nullptr || !(e.wv < slot->wv)) { slot = &e; }
        }
        std::vector<cursor::row> rows;
        for (auto& kv : m) {
            if (kv.second->kind != fake_entry::ADD) { continue; }
            auto itr = removed.find(kv.first.first);
            if (itr != removed.end() && kv.second->wv < itr->second) { continue; }
            rows.push_back({kv.first.first, kv.first.second, kv.second->val, kv.second->lobs});
        }
        return std::make_unique<snapshot>(std::move(rows));
    }
    std::future<void> shutdown() {
        std::promise<void> p;
        p.set_value();
        return p.get_future();
    }
    // everything in a session of epoch x is durable once the current epoch is past x and no session of
    // epoch <= x is open
    void publish(std::unique_lock<std::mutex>& lk) {
        epoch_t upper = epoch_.load() - 1;
        for (auto& c : channels_) {
            auto e = c.epoch_.load();
            if (e != 0 && e - 1 < upper) { upper = e - 1; }
        }
        bool changed = false;
        {
            std::lock_guard<std::mutex> lk2{img_->mtx};
            std::vector<fake_entry> rest;
            for (auto& e : img_->pending) {
                if (e.session_epoch <= upper) {
                    img_->durable.push_back(e);
                } else {
                    rest.push_back(e);
                }
            }
            img_->pending = std::move(rest);
            if (img_->durable_epoch < upper) {
                img_->durable_epoch = upper;
                changed = true;
            }
        }
        lk.unlock();
        if (changed && cb_) { cb_(upper); }
    }
    std::shared_ptr<fake_image> img_{fake_image_of("default")};
    std::mutex mtx_;
    std::list<log_channel> channels_;
    std::atomic<epoch_t> epoch_{1};
    std::function<void(epoch_t)> cb_;
    bool ready_{false};
};

inline void log_channel::begin_session() {
    std::lock_guard<std::mutex> lk{ds_->mtx_};
    epoch_.store(ds_->epoch_.load());
    staged_.clear();
}

inline void log_channel::end_session() {
    std::lock_guard<std::mutex> lk{ds_->mtx_};
    {
        std::lock_guard<std::mutex> lk2{ds_->img_->mtx};
        for (auto& e : staged_) { ds_->img_->pending.push_back(e); }
    }
    staged_.clear();
    epoch_.store(0);
}

} // namespace limestone::api
