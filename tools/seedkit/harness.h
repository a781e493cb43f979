#pragma once
// Helpers for the demonstration programs.
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "shirakami/interface.h"
#include "concurrency_control/include/epoch.h"
#include "concurrency_control/include/session.h"

namespace sk = shirakami;
using sk::Status;
using sk::Token;
using sk::Storage;
using tt = sk::transaction_options::transaction_type;

#define EXPECT(c)                                                             \
    do {                                                                      \
        if (!(c)) {                                                           \
            std::printf("FAILED line %d: %s\n", __LINE__, #c);                \
            std::fflush(stdout);                                              \
            std::_Exit(1);                                                    \
        }                                                                     \
    } while (0)
#define SAME(a, b)                                                            \
    do {                                                                      \
        auto va = (a);                                                        \
        auto vb = (b);                                                        \
        if (!(va == vb)) {                                                    \
            std::cout << "FAILED line " << __LINE__ << ": " #a " is " << va   \
                      << ", expected " << vb << std::endl;                    \
            std::_Exit(1);                                                    \
        }                                                                     \
    } while (0)

inline std::string g_log;

inline void up(const std::string& dir, bool recover = false) {
    g_log = dir;
    sk::database_options o{recover ? sk::database_options::open_mode::CREATE_OR_RESTORE
                                   : sk::database_options::open_mode::CREATE,
                           dir};
    SAME(sk::init(o), Status::OK);
}
inline void down() { sk::fin(); }
inline void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
inline void next_epoch() {
    auto e = sk::epoch::get_global_epoch();
    while (sk::epoch::get_global_epoch() <= e) { nap(1); }
}
inline Storage mkst(const std::string& n) {
    Storage s{};
    SAME(sk::create_storage(n, s), Status::OK);
    next_epoch();
    return s;
}
inline Token sess() {
    Token t{};
    SAME(sk::enter(t), Status::OK);
    return t;
}
inline Status begin(Token t, tt k = tt::SHORT, std::vector<Storage> wp = {}) {
    return sk::tx_begin({t, k, wp});
}
// an LTX that is past its first epoch
inline void begin_ltx(Token t, std::vector<Storage> wp = {}) {
    SAME(begin(t, tt::LONG, wp), Status::OK);
    next_epoch();
    next_epoch();
}
inline void put1(Token t, Storage s, const std::string& k, const std::string& v) {
    SAME(begin(t), Status::OK);
    SAME(sk::upsert(t, s, k, v), Status::OK);
    SAME(sk::commit(t), Status::OK);
}
inline void run_done() {
    std::fflush(stdout);
    std::_Exit(0);
}
