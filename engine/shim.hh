// Includes the library under test with its atomics and yields replaced by scheduler-aware versions with the same
// memory orders. All standard headers come first, so that only the library's own text sees the macros.
#pragma once
#include "sched.hh"

#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <shared_mutex>
#include <numeric>
#include <optional>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <forward_list>
#include <fstream>
#include <future>
#include <initializer_list>
#include <locale>
#include <new>
#include <queue>
#include <random>
#include <ratio>
#include <stack>
#include <string_view>
#include <system_error>
#include <typeindex>
#include <any>
#include <charconv>
#include <complex>
#if __cplusplus >= 202002L
    #include <barrier>
    #include <bit>
    #include <compare>
    #include <concepts>
    #include <latch>
    #include <ranges>
    #include <semaphore>
    #include <span>
    #include <stop_token>
    #include <version>
#endif

namespace verif {
    // Called when a thread that is not scheduled would block for ever (single-threaded harnesses).
    void blockedForEver(const char *what);

    template<typename T>
    class atomic_shim {
        mutable std::atomic<T> v;

    public:
        using value_type = T;
        static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free;
        constexpr atomic_shim() noexcept : v() {}
        constexpr atomic_shim(T x) noexcept : v(x) {}
        atomic_shim(const atomic_shim &) = delete;
        atomic_shim &operator=(const atomic_shim &) = delete;
        bool is_lock_free() const noexcept {
            return v.is_lock_free();
        }
        T load(std::memory_order mo = std::memory_order_seq_cst) const {
            sched::point();
            return v.load(mo);
        }
        operator T() const {
            return load();
        }
        void store(T x, std::memory_order mo = std::memory_order_seq_cst) {
            sched::point();
            v.store(x, mo);
            sched::wrote();
        }
        T operator=(T x) {
            store(x);
            return x;
        }
        T exchange(T x, std::memory_order mo = std::memory_order_seq_cst) {
            sched::point();
            T r = v.exchange(x, mo);
            sched::wrote();
            return r;
        }
        static constexpr std::memory_order failOrder(std::memory_order mo) {
            return mo == std::memory_order_acq_rel   ? std::memory_order_acquire
                   : mo == std::memory_order_release ? std::memory_order_relaxed
                                                     : mo;
        }
        bool compare_exchange_strong(T &e, T d, std::memory_order s, std::memory_order f) {
            sched::point();
            if (v.compare_exchange_strong(e, d, s, f)) {
                sched::wrote();
                return true;
            }
            return false;
        }
        bool compare_exchange_strong(T &e, T d, std::memory_order s = std::memory_order_seq_cst) {
            return compare_exchange_strong(e, d, s, failOrder(s));
        }
        bool compare_exchange_weak(T &e, T d, std::memory_order s, std::memory_order f) {
            sched::point();
            if (sched::spurious()) {
                e = v.load(f);
                return false;
            }
            if (v.compare_exchange_strong(e, d, s, f)) {
                sched::wrote();
                return true;
            }
            return false;
        }
        bool compare_exchange_weak(T &e, T d, std::memory_order s = std::memory_order_seq_cst) {
            return compare_exchange_weak(e, d, s, failOrder(s));
        }
#define VERIF_FETCH(name)                                                                                              \
    template<typename U>                                                                                               \
    T name(U x, std::memory_order mo = std::memory_order_seq_cst) {                                                    \
        sched::point();                                                                                                \
        T r = v.name(x, mo);                                                                                           \
        sched::wrote();                                                                                                \
        return r;                                                                                                      \
    }
        VERIF_FETCH(fetch_add)
        VERIF_FETCH(fetch_sub)
        VERIF_FETCH(fetch_and)
        VERIF_FETCH(fetch_or)
        VERIF_FETCH(fetch_xor)
#undef VERIF_FETCH
        T operator++() {
            return fetch_add(1) + 1;
        }
        T operator++(int) {
            return fetch_add(1);
        }
        T operator--() {
            return fetch_sub(1) - 1;
        }
        T operator--(int) {
            return fetch_sub(1);
        }
        template<typename U>
        T operator+=(U x) {
            return fetch_add(x) + x;
        }
        template<typename U>
        T operator-=(U x) {
            return fetch_sub(x) - x;
        }
        template<typename U>
        T operator|=(U x) {
            return fetch_or(x) | x;
        }
        template<typename U>
        T operator&=(U x) {
            return fetch_and(x) & x;
        }
        void wait(T old, std::memory_order mo = std::memory_order_seq_cst) const {
            while (true) {
                sched::point();
                if (v.load(mo) != old) return;
                if (!sched::active()) blockedForEver("atomic wait");
                sched::blockOn(this);
            }
        }
        void notify_one() {
            sched::point();
            sched::notify(this, false);
        }
        void notify_all() {
            sched::point();
            sched::notify(this, true);
        }
    };

    class atomic_flag_shim {
        atomic_shim<bool> v{false};

    public:
        constexpr atomic_flag_shim() noexcept {}
        bool test_and_set(std::memory_order mo = std::memory_order_seq_cst) {
            return v.exchange(true, mo);
        }
        void clear(std::memory_order mo = std::memory_order_seq_cst) {
            v.store(false, mo);
        }
        bool test(std::memory_order mo = std::memory_order_seq_cst) const {
            return v.load(mo);
        }
        void wait(bool old, std::memory_order mo = std::memory_order_seq_cst) const {
            v.wait(old, mo);
        }
        void notify_one() {
            v.notify_one();
        }
        void notify_all() {
            v.notify_all();
        }
    };

    // Locks, should the library use any: built from the scheduler-aware atomic
    class shared_mutex_shim {
        atomic_shim<int> s{0}; // -1 exclusive, n > 0 shared

    public:
        void lock() {
            while (!try_lock()) {
                int c = s.load();
                if (c != 0) s.wait(c);
            }
        }
        bool try_lock() {
            int e = 0;
            return s.compare_exchange_strong(e, -1, std::memory_order_acquire, std::memory_order_relaxed);
        }
        void unlock() {
            s.store(0, std::memory_order_release);
            s.notify_all();
        }
        void lock_shared() {
            while (!try_lock_shared()) {
                int c = s.load();
                if (c < 0) s.wait(c);
            }
        }
        bool try_lock_shared() {
            int e = s.load();
            if (e < 0) return false;
            return s.compare_exchange_strong(e, e + 1, std::memory_order_acquire, std::memory_order_relaxed);
        }
        void unlock_shared() {
            s.fetch_sub(1, std::memory_order_release);
            s.notify_all();
        }
    };
    class recursive_mutex_shim {
        shared_mutex_shim m;
        std::thread::id owner;
        int depth = 0;

    public:
        void lock() {
            if (depth && owner == std::this_thread::get_id()) {
                depth++;
                return;
            }
            m.lock();
            owner = std::this_thread::get_id();
            depth = 1;
        }
        void unlock() {
            if (--depth == 0) {
                owner = std::thread::id();
                m.unlock();
            }
        }
    };
    class condition_variable_shim {
        atomic_shim<uint32_t> n{0};

    public:
        template<typename L>
        void wait(L &l) {
            uint32_t before = n.load();
            l.unlock();
            n.wait(before);
            l.lock();
        }
        template<typename L, typename P>
        void wait(L &l, P p) {
            while (!p())
                wait(l);
        }
        void notify_one() {
            n.fetch_add(1);
            n.notify_one();
        }
        void notify_all() {
            n.fetch_add(1);
            n.notify_all();
        }
    };

    void yieldHook();
} // namespace verif

namespace std {
    template<typename T>
    using verif_atomic = ::verif::atomic_shim<T>;
    using verif_atomic_bool = ::verif::atomic_shim<bool>;
    using verif_atomic_char = ::verif::atomic_shim<char>;
    using verif_atomic_int = ::verif::atomic_shim<int>;
    using verif_atomic_uint = ::verif::atomic_shim<unsigned>;
    using verif_atomic_long = ::verif::atomic_shim<long>;
    using verif_atomic_ulong = ::verif::atomic_shim<unsigned long>;
    using verif_atomic_llong = ::verif::atomic_shim<long long>;
    using verif_atomic_ullong = ::verif::atomic_shim<unsigned long long>;
    using verif_atomic_uint8_t = ::verif::atomic_shim<uint8_t>;
    using verif_atomic_uint16_t = ::verif::atomic_shim<uint16_t>;
    using verif_atomic_uint32_t = ::verif::atomic_shim<uint32_t>;
    using verif_atomic_uint64_t = ::verif::atomic_shim<uint64_t>;
    using verif_atomic_int32_t = ::verif::atomic_shim<int32_t>;
    using verif_atomic_int64_t = ::verif::atomic_shim<int64_t>;
    using verif_atomic_size_t = ::verif::atomic_shim<size_t>;
    using verif_atomic_flag = ::verif::atomic_flag_shim;
    using verif_mutex = ::verif::shared_mutex_shim;
    using verif_shared_mutex = ::verif::shared_mutex_shim;
    using verif_condition_variable = ::verif::condition_variable_shim;
    using verif_condition_variable_any = ::verif::condition_variable_shim;
    using verif_recursive_mutex = ::verif::recursive_mutex_shim;
    namespace this_thread {
        inline void verif_yield() {
            ::verif::yieldHook();
        }
        template<typename D>
        inline void verif_sleep_for(const D &) {
            ::verif::yieldHook();
        }
        template<typename D>
        inline void verif_sleep_until(const D &) {
            ::verif::yieldHook();
        }
    } // namespace this_thread
} // namespace std

#define atomic verif_atomic
#define atomic_bool verif_atomic_bool
#define atomic_char verif_atomic_char
#define atomic_int verif_atomic_int
#define atomic_uint verif_atomic_uint
#define atomic_long verif_atomic_long
#define atomic_ulong verif_atomic_ulong
#define atomic_llong verif_atomic_llong
#define atomic_ullong verif_atomic_ullong
#define atomic_uint8_t verif_atomic_uint8_t
#define atomic_uint16_t verif_atomic_uint16_t
#define atomic_uint32_t verif_atomic_uint32_t
#define atomic_uint64_t verif_atomic_uint64_t
#define atomic_int32_t verif_atomic_int32_t
#define atomic_int64_t verif_atomic_int64_t
#define atomic_size_t verif_atomic_size_t
#define atomic_flag verif_atomic_flag
#define mutex verif_mutex
#define shared_mutex verif_shared_mutex
#define recursive_mutex verif_recursive_mutex
#define condition_variable verif_condition_variable
#define condition_variable_any verif_condition_variable_any
#define yield verif_yield
#define sleep_for verif_sleep_for
#define sleep_until verif_sleep_until

#if !defined(VERIF_TECS_SOURCE) || defined(TECS_HEADER_ONLY)
    #include <Tecs.hh>
#else
    #include VERIF_TECS_SOURCE
#endif

#undef atomic
#undef atomic_bool
#undef atomic_char
#undef atomic_int
#undef atomic_uint
#undef atomic_long
#undef atomic_ulong
#undef atomic_llong
#undef atomic_ullong
#undef atomic_uint8_t
#undef atomic_uint16_t
#undef atomic_uint32_t
#undef atomic_uint64_t
#undef atomic_int32_t
#undef atomic_int64_t
#undef atomic_size_t
#undef atomic_flag
#undef mutex
#undef shared_mutex
#undef recursive_mutex
#undef condition_variable
#undef condition_variable_any
#undef yield
#undef sleep_for
#undef sleep_until
