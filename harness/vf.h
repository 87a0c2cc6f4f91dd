// Common part of all harnesses: arguments, PRNG, event/verdict records, no-progress watchdog,
// access to the wrapped system calls.  Monitors use only pthread/libc primitives of their own.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <string>
#include <vector>
#include <functional>
#include <set>

// ---- implemented in wraps.cpp (never perturbed) ----
extern "C" {
// syscalls without fault injection and without descriptor accounting
int vfr_socket(int, int, int);
int vfr_close(int);
ssize_t vfr_send(int, const void *, size_t, int);
ssize_t vfr_recv(int, void *, size_t, int);
int vfr_connect(int, const struct sockaddr *, socklen_t);
int vfr_accept(int, struct sockaddr *, socklen_t *);
// fault injection on the library's socket calls; probabilities in 1/1024
struct vf_fault_cfg {
    int short_send, short_recv;   // truncate the length
    int eagain_send, eagain_recv; // pretend the socket would block
    int delay;                    // sleep a little before the call
    int max_short;                // truncated length is 1..max_short
    int sndbuf, rcvbuf;           // applied to sockets created/accepted by the library (0: leave)
};
void vf_set_faults(const struct vf_fault_cfg *);
void vf_fault_seed(uint64_t);
// bytes moved by the library's socket calls count as progress for the watchdog
void vf_io_progress(int on);
long vf_recv_bytes();   // bytes the library has taken from plain sockets
// connect() redirection: if set, maps the destination port (host order) to another one
void vf_set_redirect(int (*f)(int port));
// makes the k-th next socket()/accept()/... call fail with errno (0 = off)
void vf_fail_call(const char *name, int nth, int err);
long vf_syscall_count(const char *name);   // calls made by the code under test
// descriptor accounting: what the library opened (socket/accept/eventfd) and closed
int vf_fd_open_count();
const char *vf_fd_violation();             // first double/foreign close, or NULL
void vf_fd_reset();
std::string *vf_fd_dump();
void vf_perturb_config(int rate_1024, int spin, int max_us);
}

// TSan cannot see the reference counting of exception objects inside libstdc++, so TSan builds never
// read the content of an exception that crossed threads
#if defined(__SANITIZE_THREAD__)
#define VF_TSAN 1
#else
#define VF_TSAN 0
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#else
#define VF_ASAN 0
#endif

namespace vf {

struct Args {
    std::string mode = "default", out, tier = "quick";
    uint64_t seed = 1;
    long n = 100;
    int attempt = 0;
    std::vector<std::string> extra;
    bool thorough() const { return tier == "thorough"; }
};
extern Args args;

struct Rng { // splitmix64/xorshift
    uint64_t s;
    explicit Rng(uint64_t seed = 1): s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); } // inclusive
    bool chance(int num, int den) { return (long)below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

void init(int argc, char **argv);
// verdict records (thread-safe, flushed at once)
void violation(const std::string &key, const std::string &detail);
bool violated();
void stat(const std::string &k, long v = 1);      // summed counters
void stat_max(const std::string &k, long v);
void sig(uint64_t h);                              // signature of a distinct non-trivial case
void sig(const std::string &s);
void eval(long v = 1);                             // cases evaluated
void sample(const std::string &s);
// progress for the watchdog; if nothing progresses for stall_s seconds the process reports a stall
void progress();
void watchdog(double stall_s, std::function<std::string()> describe = nullptr, const std::string &key = "stall");
void watchdog_key(const std::string &key);
// longest scheduling delay the watchdog saw since the last reset
double hiccup(bool reset = false);
void watchdog_pause();   // during phases that may legitimately take long
// writes the summary and ends the process (never returns): 0 if no violation
[[noreturn]] void finish();
uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
uint64_t hash(const std::string &s);
inline uint64_t mix(uint64_t a, uint64_t b) { return (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2))) * 0xff51afd7ed558ccdull; }
double now();
void msleep(int ms);
void usleep_(int us);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void *p, size_t n);
long count_fds();          // open descriptors of this process
long count_threads();      // threads of this process
std::string scratch();     // scratch directory of this shard
// waits until cond() or the deadline; calls progress() while cond is false and ticks advance
bool wait_until(std::function<bool()> cond, double seconds);
int free_port();           // a currently unused TCP port
struct Mutex { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; void lock() { pthread_mutex_lock(&m); } void unlock() { pthread_mutex_unlock(&m); } };
struct Lock { Mutex &m; explicit Lock(Mutex &m): m(m) { m.lock(); } ~Lock() { m.unlock(); } };

#define VF_CHECK(cond, key, ...) do { if (!(cond)) vf::violation(key, vf::fmt(__VA_ARGS__)); } while (0)
}
