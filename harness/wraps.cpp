// Monitor core: wrapped system calls (fault injection + descriptor accounting), perturbation points,
// verdict records and watchdog.  Compiled without perturbation.
#include "vf.h"
#include <atomic>
#include <map>
#include <mutex>
#include <thread>
#include <unordered_set>
#include <stdarg.h>
#include <time.h>
#include <sched.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <arpa/inet.h>
#include <signal.h>

#if defined(__SANITIZE_THREAD__)
#define NO_TSAN __attribute__((no_sanitize("thread")))
#else
#define NO_TSAN
#endif

extern "C" {
int __real_socket(int, int, int);
int __real_close(int);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_recv(int, void *, size_t, int);
int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __real_eventfd(unsigned, int);
static void fd_foreign(int fd, bool open);

int vfr_socket(int a, int b, int c) { int fd = __real_socket(a, b, c); fd_foreign(fd, true); return fd; }
int vfr_close(int a) { fd_foreign(a, false); return __real_close(a); }
ssize_t vfr_send(int a, const void *b, size_t c, int d) { return __real_send(a, b, c, d); }
ssize_t vfr_recv(int a, void *b, size_t c, int d) { return __real_recv(a, b, c, d); }
int vfr_connect(int a, const struct sockaddr *b, socklen_t c) { return __real_connect(a, b, c); }
int vfr_accept(int a, struct sockaddr *b, socklen_t *c) { int fd = __real_accept(a, b, c); fd_foreign(fd, true); return fd; }
}

static std::atomic<int> f_ss{0}, f_sr{0}, f_es{0}, f_er{0}, f_d{0}, f_ms{16}, f_sb{0}, f_rb{0};
static std::atomic<uint64_t> f_seed{1};
static std::atomic<uint64_t> tl_ctr{0};
static std::atomic<int (*)(int)> redirect{nullptr};
enum { C_SOCKET, C_ACCEPT, C_CONNECT, C_SEND, C_RECV, C_CLOSE, C_EVENTFD, NCALL };
static const char *call_names[NCALL] = {"socket", "accept", "connect", "send", "recv", "close", "eventfd"};
static std::atomic<long> ncall[NCALL];
static std::atomic<int> fail_nth[NCALL], fail_err[NCALL];

static uint64_t tl_rand() {
    static thread_local uint64_t s = 0;
    if (!s) s = (f_seed.load(std::memory_order_relaxed) + 1) * 0x9E3779B97F4A7C15ull + (tl_ctr.fetch_add(1, std::memory_order_relaxed) + 1) * 0xD1B54A32D192ED03ull;
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s * 0x2545F4914F6CDD1Dull >> 11;
}
static bool roll(std::atomic<int> &p) {
    int v = p.load(std::memory_order_relaxed);
    return v && (int)(tl_rand() & 1023) < v;
}
static bool injected(int c) {
    ncall[c].fetch_add(1, std::memory_order_relaxed);
    if (fail_nth[c].load(std::memory_order_relaxed) > 0 && fail_nth[c].fetch_sub(1, std::memory_order_relaxed) == 1) {
        errno = fail_err[c].load(std::memory_order_relaxed);
        return true;
    }
    return false;
}
// descriptor table: 0 = unknown origin, 1 = opened by the code under test, 2 = opened by it and closed again,
// 3 = opened by the harness
static const int MAXFD = 65536;
static std::atomic<unsigned char> fdst[MAXFD];
static std::atomic<int> fd_open{0};
static std::atomic<const char *> fd_viol{nullptr};
static char fd_viol_buf[256];
static void fd_opened(int fd) {
    if (fd < 0 || fd >= MAXFD) return;
    fdst[fd].store(1, std::memory_order_relaxed);
    fd_open.fetch_add(1, std::memory_order_relaxed);
}
static void fd_foreign(int fd, bool open) {
    if (fd < 0 || fd >= MAXFD) return;
    fdst[fd].store(open ? 3 : 0, std::memory_order_relaxed);
}

extern "C" {
void vf_set_faults(const struct vf_fault_cfg *c) {
    f_ss = c->short_send; f_sr = c->short_recv; f_es = c->eagain_send; f_er = c->eagain_recv;
    f_d = c->delay; f_ms = c->max_short ? c->max_short : 16; f_sb = c->sndbuf; f_rb = c->rcvbuf;
}
void vf_fault_seed(uint64_t s) { f_seed = s; }
void vf_set_redirect(int (*f)(int)) { redirect = f; }
void vf_fail_call(const char *name, int nth, int err) {
    for (int i = 0; i < NCALL; i++) if (!strcmp(name, call_names[i])) { fail_err[i] = err; fail_nth[i] = nth; }
}
long vf_syscall_count(const char *name) {
    for (int i = 0; i < NCALL; i++) if (!strcmp(name, call_names[i])) return ncall[i];
    return -1;
}
int vf_fd_open_count() { return fd_open; }
const char *vf_fd_violation() { return fd_viol; }
void vf_fd_reset() { for (int i = 0; i < MAXFD; i++) fdst[i] = 0; fd_open = 0; fd_viol = nullptr; }
std::string *vf_fd_dump() {
    auto *s = new std::string();
    for (int i = 0; i < MAXFD; i++) if (fdst[i] == 1) *s += std::to_string(i) + " ";
    return s;
}

int __wrap_socket(int a, int b, int c) {
    if (injected(C_SOCKET)) return -1;
    int fd = __real_socket(a, b, c);
    if (fd >= 0) {
        fd_opened(fd);
        int v;
        if ((v = f_sb)) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
        if ((v = f_rb)) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &v, sizeof v);
    }
    return fd;
}
int __wrap_eventfd(unsigned a, int b) {
    if (injected(C_EVENTFD)) return -1;
    int fd = __real_eventfd(a, b);
    fd_opened(fd);
    return fd;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
    if (injected(C_ACCEPT)) return -1;
    int r = __real_accept(fd, a, l);
    if (r >= 0) {
        fd_opened(r);
        int v;
        if ((v = f_sb)) setsockopt(r, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
        if ((v = f_rb)) setsockopt(r, SOL_SOCKET, SO_RCVBUF, &v, sizeof v);
    }
    return r;
}
int __wrap_close(int fd) {
    injected(C_CLOSE);
    if (fd >= 0 && fd < MAXFD) {
        int st = fdst[fd].load(std::memory_order_relaxed);
        if (st == 1) {
            fdst[fd].store(2, std::memory_order_relaxed);
            fd_open.fetch_sub(1, std::memory_order_relaxed);
        } else {
            const char *why = nullptr;
            if (fcntl(fd, F_GETFD) == -1) why = "is not open";
            else if (st == 3) why = "does not belong to the library";
            if (why && !fd_viol.load()) {
                snprintf(fd_viol_buf, sizeof fd_viol_buf, "close(%d) of a descriptor that %s", fd, why);
                fd_viol = fd_viol_buf;
            }
        }
    }
    return __real_close(fd);
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    if (injected(C_ACCEPT)) return -1;
    int r = __real_accept4(fd, a, l, fl);
    if (r >= 0) {
        fd_opened(r);
        int v;
        if ((v = f_sb)) setsockopt(r, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
        if ((v = f_rb)) setsockopt(r, SOL_SOCKET, SO_RCVBUF, &v, sizeof v);
    }
    return r;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (injected(C_CONNECT)) return -1;
    auto r = redirect.load();
    if (r && a->sa_family == AF_INET) {
        struct sockaddr_in s = *(const struct sockaddr_in *)a;
        int np = r(ntohs(s.sin_port));
        if (np > 0) s.sin_port = htons(np);
        return __real_connect(fd, (struct sockaddr *)&s, sizeof s);
    }
    return __real_connect(fd, a, l);
}
static std::atomic<bool> io_progress{false};
static std::atomic<long> recv_bytes{0};
void vf_io_progress(int on) { io_progress.store(on); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) {
    if (injected(C_SEND)) return -1;
    if (n == 0) return __real_send(fd, b, n, fl);
    if (roll(f_d)) vf::usleep_(tl_rand() % 300);
    if (roll(f_es)) { errno = EWOULDBLOCK; return -1; }
    if (n > 1 && roll(f_ss)) n = 1 + tl_rand() % std::min<uint64_t>(n - 1, (uint64_t)f_ms.load());
    ssize_t r = __real_send(fd, b, n, fl);
    if (r > 0 && io_progress.load(std::memory_order_relaxed)) { int e = errno; vf::progress(); errno = e; }
    return r;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) {
    if (injected(C_RECV)) return -1;
    if (roll(f_d)) vf::usleep_(tl_rand() % 300);
    if (roll(f_er)) { errno = EWOULDBLOCK; return -1; }
    if (n > 1 && roll(f_sr)) n = 1 + tl_rand() % std::min<uint64_t>(n - 1, (uint64_t)f_ms.load());
    ssize_t r = __real_recv(fd, b, n, fl);
    if (r > 0) recv_bytes.fetch_add(r, std::memory_order_relaxed);
    if (r > 0 && io_progress.load(std::memory_order_relaxed)) vf::progress();
    return r;
}
long vf_recv_bytes() { return recv_bytes.load(); }

// ---- perturbation ----
static std::atomic<int> p_rate{40}, p_spin{200}, p_us{60};
static std::atomic<uint64_t> p_count{0}; 
void vf_perturb_config(int rate, int spin, int us) { p_rate = rate; p_spin = spin; p_us = us; }
void vf_perturb_point(int) {
    int rate = p_rate.load(std::memory_order_relaxed);
    if (!rate) return;
    uint64_t r = tl_rand();
    if ((int)(r & 1023) >= rate) return;
    uint64_t k = (r >> 10) & 63;
    if (k < 40) { volatile int x = 0; int m = (int)((r >> 16) % (unsigned)(p_spin.load(std::memory_order_relaxed) + 1)); for (int i = 0; i < m; i++) x = x + i; }
    else if (k < 62) sched_yield();
    else { int us = p_us.load(std::memory_order_relaxed); if (us) vf::usleep_((r >> 16) % us); }
}
bool vf_perturb_fail() {
    int rate = p_rate.load(std::memory_order_relaxed);
    return rate && (int)(tl_rand() & 1023) < rate / 2;
}
}

namespace vf {
Args args;
static FILE *out_f;
static Mutex &mu() { static Mutex *m = new Mutex(); return *m; }
static std::map<std::string, long> *stats, *maxes;
static std::unordered_set<uint64_t> *sigs;
static std::atomic<long> n_eval{0}, n_viol{0}, n_sample{0};
static std::atomic<uint64_t> prog{0};
static std::atomic<bool> wd_on{false}, wd_paused{false};
static std::atomic<double> wd_s{0};
static std::function<std::string()> *wd_desc;
static std::string *wd_key;

static std::string jesc(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c: s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void usleep_(int us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; nanosleep(&t, nullptr); }
void msleep(int ms) { usleep_(ms * 1000); }

void init(int argc, char **argv) {
    stats = new std::map<std::string, long>(); maxes = new std::map<std::string, long>();
    sigs = new std::unordered_set<uint64_t>();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--mode") args.mode = val();
        else if (a == "--out") args.out = val();
        else if (a == "--tier") args.tier = val();
        else if (a == "--seed") args.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--n") args.n = atol(val().c_str());
        else if (a == "--attempt") args.attempt = atoi(val().c_str());
        else args.extra.push_back(a);
    }
    out_f = args.out.empty() ? stdout : fopen(args.out.c_str(), "a");
    if (!out_f) { perror("out"); _exit(3); }
    vf_fault_seed(args.seed);
    srand((unsigned)args.seed);
    struct rlimit rl = {65536, 65536};
    setrlimit(RLIMIT_NOFILE, &rl);
}
static void put(const std::string &l) {
    fputs(l.c_str(), out_f); fputc('\n', out_f); fflush(out_f);
}
void violation(const std::string &key, const std::string &detail) {
    if (n_viol.fetch_add(1) >= 20) return;
    Lock g(mu());
    put("{\"t\":\"viol\",\"key\":" + jesc(key) + ",\"detail\":" + jesc(detail.substr(0, 6000)) + "}");
}
bool violated() { return n_viol.load() > 0; }
void stat(const std::string &k, long v) { Lock g(mu()); (*stats)[k] += v; }
void stat_max(const std::string &k, long v) { Lock g(mu()); long &x = (*maxes)[k]; if (v > x) x = v; }
void sig(uint64_t h) { Lock g(mu()); if (sigs->size() < 200000) sigs->insert(h); }
void sig(const std::string &s) { sig(hash(s)); }
void eval(long v) { n_eval += v; prog++; }
void sample(const std::string &s) {
    if (n_sample.fetch_add(1) >= 3) return;
    Lock g(mu());
    put("{\"t\":\"sample\",\"v\":" + jesc(s.substr(0, 1500)) + "}");
}
void progress() { prog.fetch_add(1, std::memory_order_relaxed); }
void watchdog_pause() { wd_paused = true; }
void watchdog_key(const std::string &k) { Lock g(mu()); if (wd_key) *wd_key = k; }
static double cpu_s() { struct rusage u; getrusage(RUSAGE_SELF, &u); return u.ru_utime.tv_sec + u.ru_stime.tv_sec + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) * 1e-6; }
static std::atomic<double> hiccup_max{0};
double hiccup(bool reset) { return reset ? hiccup_max.exchange(0) : hiccup_max.load(); }
static void *wd_main(void *) {
    sigset_t m; sigfillset(&m); pthread_sigmask(SIG_BLOCK, &m, nullptr);
    uint64_t last = prog; double t = now(), c = cpu_s(), worst = 0;
    for (;;) {
        for (int i = 0; i < 10; i++) { double a = now(); msleep(20); double o = now() - a - 0.02; if (o > worst) worst = o; if (o > hiccup_max) hiccup_max = o; }
        uint64_t p = prog;
        if (p != last) { last = p; t = now(); c = cpu_s(); worst = 0; wd_paused = false; continue; }
        if (wd_paused) { t = now(); worst = 0; continue; }
        if (now() - t > wd_s) {
            std::function<std::string()> df; { Lock g(mu()); df = *wd_desc; }
            std::string d = df ? df() : "";
            // quiet: the threads could run whenever they wanted and had nothing to do
            bool quiet = cpu_s() - c < 0.15 * (now() - t) && worst < 1;
            char b[200]; snprintf(b, sizeof b, "no progress for %.0fs (process used %.1fs CPU meanwhile, longest scheduling delay %.2fs); ", now() - t, cpu_s() - c, worst);
            Lock g(mu());
            put("{\"t\":\"stall\",\"key\":" + jesc(*wd_key) + ",\"detail\":" + jesc(std::string(b) + d) + ",\"quiet\":" + (quiet ? "true" : "false") + "}");
            if (getenv("VF_HOLD")) { fflush(nullptr); for (;;) msleep(1000); }
            _exit(77);
        }
    }
    return nullptr;
}
void watchdog(double s, std::function<std::string()> d, const std::string &key) {
    {
        Lock g(mu());
        wd_s = s;
        if (!wd_desc) wd_desc = new std::function<std::string()>(d); else *wd_desc = d;
        if (!wd_key) wd_key = new std::string(key); else *wd_key = key;
    }
    prog++;
    if (!wd_on.exchange(true)) {
        pthread_t th;
        pthread_create(&th, nullptr, wd_main, nullptr);
        pthread_detach(th);
    }
}
void finish() {
    {
        Lock g(mu());
        for (auto &kv: *stats) put("{\"t\":\"stat\",\"k\":" + jesc(kv.first) + ",\"v\":" + std::to_string(kv.second) + "}");
        for (auto &kv: *maxes) put("{\"t\":\"max\",\"k\":" + jesc(kv.first) + ",\"v\":" + std::to_string(kv.second) + "}");
        std::string l; size_t c = 0;
        for (auto s: *sigs) {
            l += (l.empty() ? "" : ",") + std::to_string(s % 9007199254740991ull);
            if (++c % 5000 == 0) { put("{\"t\":\"sig\",\"v\":[" + l + "]}"); l.clear(); }
        }
        if (!l.empty()) put("{\"t\":\"sig\",\"v\":[" + l + "]}");
        put("{\"t\":\"eval\",\"v\":" + std::to_string(n_eval.load()) + "}");
        put("{\"t\":\"end\"}");
        fclose(out_f);
    }
    fflush(nullptr);
    _exit(0);
}
uint64_t hash(const void *p, size_t n, uint64_t h) {
    auto b = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }
std::string fmt(const char *f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
std::string hex(const void *p, size_t n) {
    std::string r; char b[4];
    for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]); r += b; }
    return r;
}
static long count_dir(const char *d) {
    DIR *p = opendir(d); if (!p) return -1;
    long c = 0; while (auto e = readdir(p)) if (e->d_name[0] != '.') c++;
    closedir(p); return c;
}
long count_fds() { return count_dir("/proc/self/fd") - 1; }
long count_threads() {
    // without the kernel's io_uring workers of libuv's loops, which end asynchronously
    DIR *p = opendir("/proc/self/task"); if (!p) return -1;
    long c = 0;
    while (auto e = readdir(p)) {
        if (e->d_name[0] == '.') continue;
        char n[300], b[32] = {0}; snprintf(n, sizeof n, "/proc/self/task/%s/comm", e->d_name);
        int fd = open(n, O_RDONLY); if (fd < 0) continue;
        ssize_t r = read(fd, b, sizeof b - 1); __real_close(fd);
        if (r > 0 && strncmp(b, "iou-", 4)) c++;
    }
    closedir(p); return c;
}
std::string scratch() { const char *s = getenv("VF_SCRATCH"); return s ? s : "/tmp"; }
bool wait_until(std::function<bool()> c, double s) {
    double t = now();
    while (!c()) { if (now() - t > s) return false; usleep_(1000); }
    return true;
}
int free_port() {
    // outside the ephemeral range; the driver gives each concurrently running shard its own range
    static std::atomic<int> next{0};
    const char *b = getenv("VF_PORTBASE");
    int base = b ? atoi(b) : 10000 + (getpid() % 50) * 400;
    for (int i = 0; i < 2000; i++) {
        int p = base + (next++ % 400);
        int fd = vfr_socket(AF_INET, SOCK_STREAM, 0);
        struct sockaddr_in a; memset(&a, 0, sizeof a);
        a.sin_family = AF_INET; a.sin_addr.s_addr = INADDR_ANY; a.sin_port = htons(p);
        int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        int r = bind(fd, (struct sockaddr *)&a, sizeof a);
        if (!r) r = listen(fd, 1);
        vfr_close(fd);
        if (!r) return p;
    }
    fprintf(stderr, "no free port\n");
    _exit(3);
}
}
