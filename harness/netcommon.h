// Shared by the network harnesses: loops, message streams with an exact oracle, raw sockets, a fault proxy,
// certificates, connection/callback ledgers.
#pragma once
#include "vf.h"
#include <atomic>
#include <thread>
#include <memory>
#include <map>
#include <unordered_map>
#include <mutex>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <openssl/sha.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include "salticidae/network.h"
#if VF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

using namespace salticidae;
using vf::Rng;
using std::string;
using std::vector;
typedef bytearray_t bytes;
typedef uint8_t op_t;
typedef MsgNetwork<op_t> MNet;
typedef MNet::Msg Msg;

static inline size_t live_heap() {
#if VF_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

// ---------------------------------------------------------------- loops
struct Loop {
    EventContext ec;
    std::unique_ptr<ThreadCall> tc;
    std::thread th;
    std::atomic<std::thread::id> tid;
    std::atomic<bool> up{false};
    bool ended = false;
    Loop(): tc(new ThreadCall(ec)) {
        th = std::thread([this]() { tid = std::this_thread::get_id(); up = true; ec.dispatch(); });
        while (!up) vf::usleep_(10);
    }
    bool on() const { return std::this_thread::get_id() == tid.load(); }
    // runs f on the loop and waits
    void run(std::function<void()> f) {
        std::atomic<bool> done{false};
        tc->async_call([&](ThreadCall::Handle &) {
            try { f(); } catch (const std::exception &e) { vf::violation("loop:exception", std::string("an operation that must succeed threw: ") + e.what()); }
            done.store(true);
        });
        int i = 0;
        while (!done.load()) { vf::usleep_(i < 100 ? 20 : 500); i++; }
    }
    void post(std::function<void()> f) { tc->async_call([f](ThreadCall::Handle &) { f(); }); }
    // everything queued on the loop before this call has been handled twice over
    void flush() { for (int i = 0; i < 2; i++) run([] {}); }
    void end() {
        if (ended) return;
        ended = true;
        EventContext e = ec;
        tc->async_call([e](ThreadCall::Handle &) { e.stop(); });
        th.join();
        tc.reset();
    }
    ~Loop() { end(); }
};

// ---------------------------------------------------------------- message streams
// The i-th message of a stream is a pure function of (stream id, i), so the receiver can check number, order and
// content of every message, also of empty ones.
struct Stream {
    uint64_t id = 0;
    size_t maxlen = 1024;
    int shape = 0;         // 0 mixed sizes, 1 tiny, 2 fixed at maximum, 3 empty only, 4 around the chunk size
    size_t chunk = 4096;
    size_t len(uint64_t i) const {
        Rng r(vf::mix(id, i));
        switch (shape) {
            case 1: return std::min<size_t>(maxlen, r.below(9));
            case 2: return maxlen;
            case 3: return 0;
            case 4: { long c = (long)chunk * (long)r.range(1, 3) - 13 + r.range(-2, 2); return std::min<size_t>(maxlen, c < 0 ? 0 : c); }
            default: {
                int k = r.below(20);
                if (k == 0) return 0;
                if (k == 1) return maxlen;
                if (k < 5) return r.below(maxlen + 1);
                return std::min<size_t>(maxlen, r.below(200));
            }
        }
    }
    bytes content(uint64_t i) const {
        size_t n = len(i);
        bytes b(n);
        Rng r(vf::mix(id ^ 0x5bd1e995, i));
        size_t k = 0;
        while (k + 8 <= n) { uint64_t v = r.next(); memcpy(&b[k], &v, 8); k += 8; }
        while (k < n) b[k++] = (uint8_t)r.next();
        return b;
    }
    Msg msg(op_t op, uint64_t i) const {
        Msg m;
        m.set_opcode(op);
        m.set_payload(content(i));
        m.set_checksum();
        return m;
    }
};
// a message type for the typed interface
template<op_t OP> struct MsgTyped {
    static const op_t opcode = OP;
    DataStream serialized;
    bytes data;
    MsgTyped(const bytes &b) { serialized.put_data(b); }
    MsgTyped(DataStream &&s) { data = bytes(std::move(s)); }
};
template<op_t OP> const op_t MsgTyped<OP>::opcode;

// the wire format, encoded independently of the library
static inline bytes wire(op_t op, const bytes &pl, uint32_t magic = 0, bool bad_sum = false, long declared = -1) {
    unsigned char d[20];
    ::SHA1(pl.data(), pl.size(), d);
    bytes w(13);
    uint32_t n = declared >= 0 ? (uint32_t)declared : (uint32_t)pl.size();
    memcpy(&w[0], &magic, 4); w[4] = op; memcpy(&w[5], &n, 4); memcpy(&w[9], d, 4);
    if (bad_sum) w[9] ^= 0x41;
    w.insert(w.end(), pl.begin(), pl.end());
    return w;
}

// Ledger of one stream at its receiver
struct Recv {
    Stream s;
    std::atomic<uint64_t> next{0};
    std::atomic<uint64_t> bytes_{0};
};

// ---------------------------------------------------------------- raw sockets (not seen by fault injection)
static inline struct sockaddr_in sa_of(int port) {
    struct sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    return a;
}
static inline NetAddr na(int port) { auto a = sa_of(port); return NetAddr(&a); }
struct Raw {
    int fd = -1;
    Raw() {}
    explicit Raw(int f): fd(f) {}
    Raw(const Raw &) = delete;
    Raw(Raw &&o): fd(o.fd) { o.fd = -1; }
    Raw &operator=(Raw &&o) { close(); fd = o.fd; o.fd = -1; return *this; }
    ~Raw() { close(); }
    void close() { if (fd >= 0) vfr_close(fd); fd = -1; }
    void reset() { if (fd >= 0) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); vfr_close(fd); fd = -1; } }
    bool connect(int port, int rcvbuf = 0, int sndbuf = 0, int local = 0, uint32_t local_ip = INADDR_LOOPBACK) {
        fd = vfr_socket(AF_INET, SOCK_STREAM, 0);
        if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        if (sndbuf) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
        int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        if (local) {
            setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
            auto l = sa_of(local); l.sin_addr.s_addr = htonl(local_ip);
            if (bind(fd, (struct sockaddr *)&l, sizeof l) < 0) { close(); return false; }
        }
        auto a = sa_of(port);
        if (vfr_connect(fd, (struct sockaddr *)&a, sizeof a) < 0) { close(); return false; }
        return true;
    }
    bool listen(int port, int backlog = 64) {
        fd = vfr_socket(AF_INET, SOCK_STREAM, 0);
        int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        auto a = sa_of(port);
        return bind(fd, (struct sockaddr *)&a, sizeof a) == 0 && ::listen(fd, backlog) == 0;
    }
    // accepts with a deadline
    Raw accept(double s) {
        struct pollfd p = {fd, POLLIN, 0};
        if (::poll(&p, 1, (int)(s * 1000)) <= 0) return Raw();
        return Raw(vfr_accept(fd, nullptr, nullptr));
    }
    bool send_all(const void *b, size_t n) {
        size_t k = 0;
        while (k < n) {
            ssize_t r = vfr_send(fd, (const char *)b + k, n - k, MSG_NOSIGNAL);
            if (r <= 0) return false;
            k += r;
        }
        return true;
    }
    bool send_all(const bytes &b) { return send_all(b.data(), b.size()); }
    // reads what is there within s seconds: -1 error, 0 closed, >0 bytes, -2 nothing
    ssize_t recv_some(void *b, size_t n, double s) {
        struct pollfd p = {fd, POLLIN, 0};
        int r = ::poll(&p, 1, (int)(s * 1000));
        if (r == 0) return -2;
        return vfr_recv(fd, b, n, 0);
    }
    bool recv_exact(void *b, size_t n, double s) {
        size_t k = 0; double t = vf::now();
        while (k < n) {
            ssize_t r = recv_some((char *)b + k, n - k, std::max(0.0, s - (vf::now() - t)));
            if (r <= 0) return false;
            k += r;
        }
        return true;
    }
    // true if the remote closed (or reset) within s seconds; discards data
    bool closed_within(double s) {
        double t = vf::now(); char b[4096];
        for (;;) {
            double left = s - (vf::now() - t);
            if (left <= 0) return false;
            ssize_t r = recv_some(b, sizeof b, left);
            if (r == 0 || r == -1) return true;
        }
    }
    int local_port() const { struct sockaddr_in a; socklen_t l = sizeof a; if (getsockname(fd, (struct sockaddr *)&a, &l)) return -1; return ntohs(a.sin_port); }
};

// parses framed messages from a byte stream (independent of the library)
struct Parser {
    bytes buf; size_t off = 0;
    struct M { op_t op; uint32_t magic, sum; bytes pl; };
    void feed(const void *b, size_t n) { buf.insert(buf.end(), (const uint8_t *)b, (const uint8_t *)b + n); }
    bool next(M &m) {
        if (buf.size() - off < 13) return false;
        uint32_t n; memcpy(&n, &buf[off + 5], 4);
        if (buf.size() - off - 13 < n) return false;
        memcpy(&m.magic, &buf[off], 4); m.op = buf[off + 4]; memcpy(&m.sum, &buf[off + 9], 4);
        m.pl.assign(buf.begin() + off + 13, buf.begin() + off + 13 + n);
        off += 13 + n;
        if (off > (1 << 20)) { buf.erase(buf.begin(), buf.begin() + off); off = 0; }
        return true;
    }
    size_t left() const { return buf.size() - off; }
};

// ---------------------------------------------------------------- fault proxy
// Forwards byte streams between the ports; can hold data back, delay it, cut everything or swallow it.
struct Proxy {
    int port, target;
    Raw ls;
    std::thread th;
    std::atomic<bool> quit{false}, blackhole{false}, refuse{false}, cut_flag{false}, freeze_flag{false};
    std::atomic<int> delay_ms{0}, max_chunk{65536};
    std::atomic<long> cut_after{-1};    // cut all links after that many more bytes
    std::atomic<long> links{0}, forwarded{0}, cuts{0}, total_links{0};
    struct Seg { double due; bytes d; };
    struct Dir { vector<Seg> q; size_t qoff = 0; bool eof = false, eof_sent = false; };
    struct Link { int a, b; Dir ab, ba; bool dead = false; };
    Proxy(int listen_port, int target_port): port(listen_port), target(target_port) {
        if (!ls.listen(port)) { fprintf(stderr, "proxy cannot listen\n"); _exit(3); }
        th = std::thread([this] { main(); });
    }
    ~Proxy() { quit = true; th.join(); }
    void cut() { cut_flag = true; vf::wait_until([this] { return !cut_flag.load(); }, 5); }
    // the links there are stay open but carry nothing any more (until the proxy ends); new ones are normal
    void freeze() { freeze_flag = true; vf::wait_until([this] { return !freeze_flag.load(); }, 5); }
    static void hard_close(int fd, bool rst) {
        if (rst) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
        vfr_close(fd);
    }
    std::vector<std::unique_ptr<Link>> ln, frozen;
    void kill(Link &l, bool rst) { if (l.dead) return; l.dead = true; hard_close(l.a, rst); hard_close(l.b, rst); links--; }
    // moves data; false if the link broke
    bool pump(Link &l, int from, int to, Dir &d, short rev) {
        if ((rev & (POLLIN | POLLHUP | POLLERR)) && !d.eof) {
            char b[65536];
            ssize_t r = vfr_recv(from, b, std::min<int>(sizeof b, max_chunk), MSG_DONTWAIT);
            if (r == 0) d.eof = true;
            else if (r < 0) { if (errno != EAGAIN) return false; }
            else if (!blackhole) {
                d.q.push_back(Seg{vf::now() + delay_ms / 1e3, bytes((uint8_t *)b, (uint8_t *)b + r)});
            }
        }
        while (!d.q.empty() && d.q.front().due <= vf::now()) {
            auto &s = d.q.front();
            size_t n = std::min<size_t>(s.d.size() - d.qoff, max_chunk);
            long ca = cut_after;
            if (ca >= 0 && (long)n > ca) n = ca;
            if (n) {
                ssize_t w = vfr_send(to, s.d.data() + d.qoff, n, MSG_NOSIGNAL | MSG_DONTWAIT);
                if (w < 0) { if (errno == EAGAIN) break; return false; }
                forwarded += w; d.qoff += w;
                if (ca >= 0) cut_after = ca - w;
            }
            if (ca >= 0 && cut_after.load() <= 0) { cut_after = -1; cut_flag = true; return true; }
            if (d.qoff == s.d.size()) { d.q.erase(d.q.begin()); d.qoff = 0; }
        }
        if (d.eof && d.q.empty() && !d.eof_sent) { d.eof_sent = true; shutdown(to, SHUT_WR); }
        return true;
    }
    void main() {
        sigset_t m; sigfillset(&m); pthread_sigmask(SIG_BLOCK, &m, nullptr);
        Rng r(port);
        while (!quit) {
            vector<struct pollfd> p;
            p.push_back({ls.fd, POLLIN, 0});
            int to = 50;
            for (auto &l: ln) {
                // while data is held back, the sender has to wait, too
                p.push_back({l->a, (short)((l->ab.eof || l->ab.q.size() > 64 ? 0 : POLLIN) | (!l->ba.q.empty() && l->ba.q.front().due <= vf::now() ? POLLOUT : 0)), 0});
                p.push_back({l->b, (short)((l->ba.eof || l->ba.q.size() > 64 ? 0 : POLLIN) | (!l->ab.q.empty() && l->ab.q.front().due <= vf::now() ? POLLOUT : 0)), 0});
                if (!l->ab.q.empty() || !l->ba.q.empty()) to = 2;
            }
            ::poll(p.data(), p.size(), to);
            if (freeze_flag) { for (auto &l: ln) { links--; frozen.push_back(std::move(l)); } ln.clear(); freeze_flag = false; continue; }
            if (cut_flag) {
                for (auto &l: ln) kill(*l, r.chance(1, 2));
                ln.clear(); cuts++; cut_flag = false;
                continue;
            }
            for (size_t i = 0; i < ln.size(); i++) {
                auto &l = *ln[i];
                short ra = p[1 + 2 * i].revents, rb = p[2 + 2 * i].revents;
                bool ok = !((ra | rb) & POLLNVAL);
                ok = ok && pump(l, l.a, l.b, l.ab, ra) && pump(l, l.b, l.a, l.ba, rb);
                if (cut_flag) break;
                // a connection that is gone in both directions
                if (!ok || (l.ab.eof_sent && l.ba.eof_sent) || (ra & POLLERR) || (rb & POLLERR)) kill(l, !ok);
                else if (((ra & POLLHUP) && l.ab.eof && l.ab.q.empty()) || ((rb & POLLHUP) && l.ba.eof && l.ba.q.empty())) kill(l, false);
                else if ((l.ab.eof_sent || l.ba.eof_sent) && !blackhole) kill(l, false); // half-closed: close the whole link
            }
            for (size_t i = 0; i < ln.size();) { if (ln[i]->dead) ln.erase(ln.begin() + i); else i++; }
            if (!p.empty() && (p[0].revents & POLLIN)) {
                int a = vfr_accept(ls.fd, nullptr, nullptr);
                if (a >= 0) {
                    if (refuse) { vfr_close(a); continue; }
                    Raw t;
                    if (!t.connect(target)) { vfr_close(a); continue; }
                    int one = 1; setsockopt(a, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
                    auto *l = new Link(); l->a = a; l->b = t.fd; t.fd = -1;
                    ln.emplace_back(l); links++; total_links++;
                }
            }
        }
        for (auto &l: ln) kill(*l, false);
        for (auto &l: frozen) { links++; kill(*l, false); }
    }
};

// ---------------------------------------------------------------- certificates
struct Ident { bytes cert_der, key_der; };
static inline const vector<Ident> &idents() {
    static vector<Ident> *v = [] {
        auto *w = new vector<Ident>();
        for (int i = 0; i < 4; i++) {
            auto k = PKey::create_privkey_rsa(2048);
            auto c = salticidae::X509::create_self_signed_from_pubkey(k, "US", vf::fmt("node%d", i).c_str());
            w->push_back(Ident{c.get_der(), k.get_privkey_der()});
        }
        return w;
    }();
    return *v;
}
// certificates that do not fit into a small socket buffer: the handshake has to wait for the socket, too
static inline const vector<Ident> &fat_idents() {
    static vector<Ident> *v = [] {
        auto *w = new vector<Ident>();
        for (int i = 0; i < 2; i++) {
            auto &d = idents()[i]; const uint8_t *p = d.cert_der.data(), *q = d.key_der.data();
            ::X509 *x = d2i_X509(nullptr, &p, d.cert_der.size()); EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &q, d.key_der.size());
            ASN1_OCTET_STRING *o = ASN1_OCTET_STRING_new(); bytes junk(60000, 'x'); ASN1_OCTET_STRING_set(o, junk.data(), junk.size());
            ASN1_OBJECT *oid = OBJ_txt2obj("1.3.6.1.4.1.99999.1", 1); X509_EXTENSION *e = X509_EXTENSION_create_by_OBJ(nullptr, oid, 0, o);
            X509_add_ext(x, e, -1); X509_sign(x, k, EVP_sha256());
            unsigned char *out = nullptr; int n = i2d_X509(x, &out); w->push_back(Ident{bytes(out, out + n), d.key_der});
            OPENSSL_free(out); X509_EXTENSION_free(e); ASN1_OBJECT_free(oid); ASN1_OCTET_STRING_free(o); X509_free(x); EVP_PKEY_free(k);
        }
        return w;
    }();
    return *v;
}
// 100 and 101: the fat ones
template<typename C> static inline void set_tls(C &cfg, int i) {
    auto &d = i >= 100 ? fat_idents()[i - 100] : idents()[i % idents().size()];
    cfg.enable_tls(true);
    cfg.tls_cert(new salticidae::X509(salticidae::X509::create_from_der(d.cert_der)));
    cfg.tls_key(new PKey(PKey::create_privkey_from_der(d.key_der)));
}

static inline int err_code(const std::exception_ptr &e) {
    try { std::rethrow_exception(e); }
    catch (const SalticidaeError &x) { return x.get_code(); }
    catch (...) { return -1; }
}

// ---------------------------------------------------------------- TLS endpoints of the harness itself
static inline ::X509 *x509_of(const bytes &d) { const uint8_t *p = d.data(); return d2i_X509(nullptr, &p, d.size()); }
static inline EVP_PKEY *key_of(const bytes &d) { const uint8_t *p = d.data(); return d2i_AutoPrivateKey(nullptr, &p, d.size()); }
// the harness' own TLS endpoints must not die of SIGPIPE (the library's threads keep the default disposition)
struct NoPipe {
    sigset_t old, pipe;
    NoPipe() { sigemptyset(&pipe); sigaddset(&pipe, SIGPIPE); pthread_sigmask(SIG_BLOCK, &pipe, &old); }
    ~NoPipe() { struct timespec z = {0, 0}; while (sigtimedwait(&pipe, nullptr, &z) > 0) {} pthread_sigmask(SIG_SETMASK, &old, nullptr); }
};
struct TlsC {
    Raw c; SSL_CTX *cx = nullptr; SSL *s = nullptr; bool ok = false; string why;
    ~TlsC() { if (s) SSL_free(s); if (cx) SSL_CTX_free(cx); }
    // ident < 0: no certificate
    bool open(int port, int ident, int maxver = 0, const bytes *early = nullptr) {
        if (!c.connect(port)) return false;
        return on_fd(ident, false, maxver);
        (void)early;
    }
    bool on_fd(int ident, bool server, int maxver = 0) {
        cx = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
        if (maxver) SSL_CTX_set_max_proto_version(cx, maxver);
        if (ident >= 0) {
            auto *x = x509_of(idents()[ident].cert_der); auto *k = key_of(idents()[ident].key_der);
            SSL_CTX_use_certificate(cx, x); SSL_CTX_use_PrivateKey(cx, k); X509_free(x); EVP_PKEY_free(k);
        }
        struct timeval tv = {10, 0}; setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        s = SSL_new(cx); SSL_set_fd(s, c.fd);
        NoPipe np; ERR_clear_error();
        errno = 0;
        int rc; double t0 = vf::now();
        do { errno = 0; ERR_clear_error(); rc = server ? SSL_accept(s) : SSL_connect(s); }
        while (rc != 1 && errno == EINTR && SSL_get_error(s, rc) == SSL_ERROR_WANT_READ && vf::now() - t0 < 10);
        ok = rc == 1;
        if (!ok) why = vf::fmt("rc %d ssl error %d errno %d %s", rc, SSL_get_error(s, rc), errno, ERR_error_string(ERR_peek_error(), nullptr));
        return ok;
    }
    bool send(const bytes &b) { NoPipe np; ERR_clear_error(); return SSL_write(s, b.data(), b.size()) == (int)b.size(); }
    // closed (or failed) within t seconds
    bool closed(double t) {
        NoPipe np; double t0 = vf::now(); char x[512];
        struct timeval tv = {0, 50000}; setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        while (vf::now() - t0 < t) {
            ERR_clear_error(); errno = 0;
            int n = SSL_read(s, x, sizeof x);
            if (n > 0) continue;
            int e = SSL_get_error(s, n);
            if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE) continue;
            if (e == SSL_ERROR_SYSCALL && errno == EAGAIN) continue;
            return true;
        }
        return false;
    }
};
