// Force-included into the perturbed builds: every std::atomic operation of the code under test may be
// delayed, yielded around, and weak compare-exchange may fail spuriously (which the standard allows).
// Only adds delays: every execution produced is one the unperturbed program could have.
#pragma once
#include <atomic>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <thread>
#include <future>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <list>
#include <deque>
#include <algorithm>
#include <random>
#include <regex>
#include <iostream>
#include <fstream>
#include <sstream>
#include <chrono>
#include <exception>
#include <stdexcept>
#include <uv.h>
#include <openssl/ssl.h>
#include <openssl/rand.h>
extern "C" void vf_perturb_point(int kind);
extern "C" bool vf_perturb_fail();
namespace std {
template<typename T> using vf_real_atomic = std::atomic<T>;
template<typename T> struct perturb_atomic: public vf_real_atomic<T> {
    using B = vf_real_atomic<T>;
    perturb_atomic() noexcept = default;
    constexpr perturb_atomic(T v) noexcept: B(v) {}
    perturb_atomic(const perturb_atomic &) = delete;
    perturb_atomic &operator=(const perturb_atomic &) = delete;
    T load(memory_order m = memory_order_seq_cst) const noexcept {
        vf_perturb_point(0); T r = B::load(m); vf_perturb_point(1); return r; }
    void store(T v, memory_order m = memory_order_seq_cst) noexcept {
        vf_perturb_point(2); B::store(v, m); vf_perturb_point(3); }
    operator T() const noexcept { return load(); }
    T operator=(T v) noexcept { store(v); return v; }
    T exchange(T v, memory_order m = memory_order_seq_cst) noexcept {
        vf_perturb_point(4); T r = B::exchange(v, m); vf_perturb_point(5); return r; }
    bool compare_exchange_weak(T &e, T d, memory_order s = memory_order_seq_cst) noexcept {
        vf_perturb_point(6);
        if (vf_perturb_fail()) { e = B::load(memory_order_relaxed); return false; }
        bool r = B::compare_exchange_weak(e, d, s); vf_perturb_point(7); return r; }
    bool compare_exchange_weak(T &e, T d, memory_order s, memory_order f) noexcept {
        vf_perturb_point(6);
        if (vf_perturb_fail()) { e = B::load(memory_order_relaxed); return false; }
        bool r = B::compare_exchange_weak(e, d, s, f); vf_perturb_point(7); return r; }
    bool compare_exchange_strong(T &e, T d, memory_order s = memory_order_seq_cst) noexcept {
        vf_perturb_point(6); bool r = B::compare_exchange_strong(e, d, s); vf_perturb_point(7); return r; }
    bool compare_exchange_strong(T &e, T d, memory_order s, memory_order f) noexcept {
        vf_perturb_point(6); bool r = B::compare_exchange_strong(e, d, s, f); vf_perturb_point(7); return r; }
#define VF_OP(name) template<typename U> T name(U v, memory_order m = memory_order_seq_cst) noexcept { \
        vf_perturb_point(8); T r = B::name(v, m); vf_perturb_point(9); return r; }
    VF_OP(fetch_add) VF_OP(fetch_sub) VF_OP(fetch_and) VF_OP(fetch_or) VF_OP(fetch_xor)
#undef VF_OP
    T operator++() noexcept { return fetch_add(1) + 1; }
    T operator--() noexcept { return fetch_sub(1) - 1; }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    template<typename U> T operator+=(U v) noexcept { return fetch_add(v) + v; }
    template<typename U> T operator-=(U v) noexcept { return fetch_sub(v) - v; }
    template<typename U> T operator|=(U v) noexcept { return fetch_or(v) | v; }
    template<typename U> T operator&=(U v) noexcept { return fetch_and(v) & v; }
};
using perturb_atomic_size_t = perturb_atomic<size_t>;
using perturb_atomic_bool = perturb_atomic<bool>;
using perturb_atomic_int = perturb_atomic<int>;
using perturb_atomic_uint = perturb_atomic<unsigned>;
}
#define atomic perturb_atomic
#define atomic_size_t perturb_atomic_size_t
#define atomic_bool perturb_atomic_bool
#define atomic_int perturb_atomic_int
#define atomic_uint perturb_atomic_uint
