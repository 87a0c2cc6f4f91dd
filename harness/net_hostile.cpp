// C06 (hostile, flood, peerhostile, tlshostile): arbitrary bytes against listening and dialling networks while healthy
// traffic runs next to them.  C08 (auth, construct): what TLS clients and servers of every kind can achieve.
// Oracle: every hostile script has known effects (messages that must arrive, connections that must be closed, errors
// that must be reported); the healthy stream is exact; allocations stay within the configured limits.
#include "netcommon.h"
#include <sys/resource.h>
#include <array>

static string cfgs;
typedef PeerNetwork<uint8_t> PNet;

// ---- allocation monitor: the largest single request while hostile input is processed
static std::atomic<size_t> max_alloc{0};
#if VF_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
static void on_malloc(const volatile void *, size_t n) { size_t m = max_alloc.load(std::memory_order_relaxed); while (n > m && !max_alloc.compare_exchange_weak(m, n, std::memory_order_relaxed)); }
static void on_free(const volatile void *) {}
#endif

struct MsgTooLong: public std::exception {};
struct MsgItem { // count, then count bytes
    static const op_t opcode = 1;
    DataStream serialized; bytes d; uint32_t uid = 0, seq = 0;
    MsgItem(DataStream &&s) {
        uint32_t n; s >> uid >> seq >> n; n = letoh(n);
        if (n > 100000) switch (n % 7) { // what message classes of applications throw
            case 0: throw std::runtime_error("too long");
            case 1: throw std::length_error("too long");
            case 2: throw std::bad_alloc();
            case 3: throw std::invalid_argument("too long");
            case 4: throw SalticidaeError(SALTI_ERROR_GENERIC);
            case 5: throw MsgTooLong();
            default: d.reserve((size_t)-1);   // std::length_error of the standard library
        }
        for (uint32_t i = 0; i < n; i++) { uint8_t x; s >> x; d.push_back(x); }
        if (s.size()) throw std::runtime_error("trailing bytes");
    }
};
const op_t MsgItem::opcode;
static bytes item(uint32_t uid, uint32_t seq, uint32_t n, size_t actual) {
    bytes b(12 + actual, (uint8_t)seq);
    memcpy(&b[0], &uid, 4); memcpy(&b[4], &seq, 4); memcpy(&b[8], &n, 4);
    return b;
}
static bytes tag(uint32_t uid, uint32_t seq, size_t extra) { bytes b(8 + extra, (uint8_t)(uid * 7 + seq)); memcpy(&b[0], &uid, 4); memcpy(&b[4], &seq, 4); return b; }
static void append_stat() { vf::stat("bad_checksums"); }
// a complete message with a checksum that is not the right one
static bytes badsum(op_t op, const bytes &pl, Rng &q) {
    bytes w = wire(op, pl, q.chance(1, 2) ? 0 : (uint32_t)q.next());
    bytes good(w.begin() + 9, w.begin() + 13), s = good;
    switch (q.below(8)) {
        case 0: s = bytes(4, 0); break;
        case 1: s = bytes(4, 0xff); break;
        case 2: for (auto &x: s) x = q.next(); break;
        case 3: { unsigned char d[20]; ::SHA1(pl.data(), 0, d); s = bytes(d, d + 4); break; }                                  // of the empty payload
        case 4: { unsigned char d[32]; ::SHA256(pl.data(), pl.size(), d); s = bytes(d, d + 4); break; }                         // another digest
        case 5: std::reverse(s.begin(), s.end()); break;
        case 6: if (pl.size()) { w[13 + q.below(pl.size())] ^= 1 << q.below(8); append_stat(); return w; } s[3] ^= 1; break;        // the payload was altered
        default: s[q.below(4)] ^= 1 << q.below(8);
    }
    if (s == good) s[0] ^= 1;
    std::copy(s.begin(), s.end(), w.begin() + 9);
    append_stat();
    return w;
}
static void append(bytes &a, const bytes &b) { a.insert(a.end(), b.begin(), b.end()); }

// ---- ledger of what hostile clients' valid messages may do
struct Exp { std::atomic<uint32_t> next{0}; vector<size_t> lens; };
static const int MAXU = 4096;
struct Bench {
    std::atomic<long> oversized{0}, otherr{0}, ups{0}, downs{0}, got{0};
    vector<std::unique_ptr<Exp>> ex; vf::Mutex mu;
    Exp *reg(uint32_t &uid) { vf::Lock g(mu); uid = ex.size(); ex.emplace_back(new Exp()); return ex.back().get(); }
    Exp *find(uint32_t uid) { vf::Lock g(mu); return uid < ex.size() ? ex[uid].get() : nullptr; }
    void arrived(uint32_t uid, uint32_t seq, size_t len) {
        auto *e = find(uid);
        if (!e) { vf::violation("hostile:invented-message", vf::fmt("uid %u [%s]", uid, cfgs.c_str())); return; }
        if (seq != e->next.load()) vf::violation("hostile:wrong-message", vf::fmt("client %u: message %u, expected %u (messages after a malformed one must not be affected) [%s]", uid, seq, e->next.load(), cfgs.c_str()));
        { vf::Lock g(mu); if (seq < e->lens.size() && e->lens[seq] != len) vf::violation("hostile:altered-message", cfgs); }
        e->next = seq + 1; got++;
        vf::progress();
    }
};
// healthy traffic: a client network against the network under attack, echo with a window
struct Healthy {
    Stream st; std::atomic<uint64_t> sent{0}, at_server{0}, back{0};
    std::atomic<bool> quit{false}, downs_ok{false}; std::thread th;
};
static const op_t H_REQ = 3, H_REP = 4, H_BIG = 6;
static Msg mkmsg(op_t op, const bytes &b) { Msg m; m.set_opcode(op); m.set_payload(bytes(b)); m.set_checksum(); return m; }

template<class Net, class F> static void server_handlers(Net &n, Loop *l, Bench &b, Healthy &h, F conn_filter) {
    (void)conn_filter;
    n.reg_handler([&b, l](MsgItem &&m, const typename Net::conn_t &) { if (!l->on()) vf::violation("hostile:thread", cfgs); b.arrived(m.uid, m.seq, m.d.size()); });
    n.set_handler(2, [&b](const Msg &m, const MNet::conn_t &) {
        bytes p(m.get_payload()); if (p.size() < 8) { vf::violation("hostile:invented-message", cfgs); return; }
        uint32_t u, s; memcpy(&u, &p[0], 4); memcpy(&s, &p[4], 4);
        if (p != tag(u, s, p.size() - 8)) vf::violation("hostile:altered-message", cfgs);
        b.arrived(u, s, p.size());
    });
    n.set_handler(H_REQ, [&h, &n](const Msg &m, const MNet::conn_t &c) {
        uint64_t i = h.at_server;
        if (bytes(m.get_payload()) != h.st.content(i)) vf::violation("hostile:healthy-connection-affected", vf::fmt("request %lu differs [%s]", (unsigned long)i, cfgs.c_str()));
        h.at_server = i + 1;
        n.MNet::_send_msg(h.st.msg(H_REP, i), c);
        vf::progress();
    });
    n.set_handler(H_BIG, [&n](const Msg &m, const MNet::conn_t &c) {
        bytes p(m.get_payload()); uint32_t k = 0; memcpy(&k, p.data(), std::min<size_t>(4, p.size())); n.MNet::_send_msg(mkmsg(H_BIG, bytes(k, 7)), c);
    });
    n.reg_error_handler([&b](const std::exception_ptr e, bool fatal, int32_t) {
        int c = VF_TSAN ? -1 : err_code(e);
        if (fatal) vf::violation("hostile:fatal-error", vf::fmt("%s [%s]", c >= 0 ? salticidae_strerror(c) : "?", cfgs.c_str()));
        if (c == SALTI_ERROR_CONN_OVERSIZED_MSG) b.oversized++; else b.otherr++;
    });
}
static void pump(Healthy &h, std::function<bool(uint64_t)> send) {
    h.th = std::thread([&h, send] {
        while (!h.quit) {
            if (h.sent - h.back < 30) { uint64_t i = h.sent; h.sent = i + 1; if (!send(i)) vf::violation("hostile:healthy-send-refused", cfgs); }
            else vf::usleep_(100);
            vf::usleep_(150);
        }
    });
}
static void on_rep(Healthy &h, const Msg &m) {
    uint64_t i = h.back;
    if (bytes(m.get_payload()) != h.st.content(i)) vf::violation("hostile:healthy-connection-affected", vf::fmt("reply %lu differs [%s]", (unsigned long)i, cfgs.c_str()));
    h.back = i + 1; vf::progress();
}
static void finish_healthy(Healthy &h) {
    h.quit = true; h.th.join();
    while (h.back < h.sent && !vf::violated()) vf::msleep(1);
    vf::stat("healthy_messages", h.back * 2);
}

// sends in random pieces
static bool dribble(Raw &c, const bytes &w, Rng &r, bool frag) {
    size_t o = 0;
    while (o < w.size()) {
        size_t q = frag ? std::min<size_t>(w.size() - o, 1 + r.below(r.chance(1, 2) ? 5 : 300)) : w.size() - o;
        if (!c.send_all(w.data() + o, q)) return false;
        o += q;
        if (frag && r.chance(1, 30)) vf::usleep_(r.below(200));
    }
    return true;
}

static void alloc_check(size_t maxmsg, size_t chunk) {
#if VF_ASAN
    size_t lim = 16u << 20; lim += 4 * maxmsg + 4 * chunk;
    size_t m = max_alloc.load();
    vf::stat_max("largest_allocation", m);
    if (m > lim) vf::violation("hostile:huge-allocation", vf::fmt("an allocation of %zu bytes was made for input limited to %zu bytes per message [%s]", m, maxmsg, cfgs.c_str()));
#else
    (void)maxmsg; (void)chunk;
#endif
}

static void hostile_case(uint64_t seed, bool tls) {
    Rng r(seed);
    size_t maxmsg = r.pick(vector<size_t>{64, 1000, 20000}), chunk = r.pick(vector<size_t>{1, 16, 512, 4096});
    MNet::Config sc, cc;
    sc.max_msg_size(maxmsg).recv_chunk_size(chunk).max_recv_buff_size(r.pick(vector<size_t>{1, 4, 4096})).nworker(r.range(1, 3));
    cc.max_msg_size(maxmsg);
    if (tls) { set_tls(sc, 0); set_tls(cc, 1); }
    int natt = r.range(2, 6), nrep = r.range(2, 8);
    vf_fault_cfg f; memset(&f, 0, sizeof f); if (tls) f.sndbuf = r.pick(vector<int>{2048, 4096, 16384}); vf_set_faults(&f);
    cfgs = vf::fmt("hostile %s seed=%llu maxmsg=%zu chunk=%zu attackers=%d rounds=%d", tls ? "tls" : "tcp", (unsigned long long)seed, maxmsg, chunk, natt, nrep);
    std::unique_ptr<Loop> l1(new Loop()), l2(new Loop());
    std::unique_ptr<MNet> S, C; Bench b; Healthy h;
    h.st.id = seed; h.st.maxlen = std::min<size_t>(maxmsg, 500);
    int port = vf::free_port();
    std::atomic<bool> down_ok{false};
    vf::watchdog(25, [&] { return cfgs + vf::fmt(" healthy %lu/%lu/%lu", (unsigned long)h.back.load(), (unsigned long)h.at_server.load(), (unsigned long)h.sent.load()); }, "hostile:stall");
    l1->run([&] {
        S.reset(new MNet(l1->ec, sc));
        server_handlers(*S, l1.get(), b, h, 0);
        S->reg_conn_handler([&b](const ConnPool::conn_t &, bool up) { (up ? b.ups : b.downs)++; return true; });
        S->start(); S->listen(na(port));
    });
    l2->run([&] {
        C.reset(new MNet(l2->ec, cc));
        C->set_handler(H_REP, [&h](const Msg &m, const MNet::conn_t &) { on_rep(h, m); });
        C->reg_conn_handler([&](const ConnPool::conn_t &, bool up) { if (!up && !down_ok) vf::violation("hostile:healthy-connection-closed", cfgs); return true; });
        C->start();
    });
    auto hc = C->connect_sync(na(port));
    pump(h, [&](uint64_t i) { return C->_send_msg(h.st.msg(H_REQ, i), hc); });
    while (h.back < 3 && !vf::violated()) vf::msleep(1);
    long heap0 = live_heap();
    std::atomic<long> want_over{0}, may_over{0};
    vector<std::thread> ths; vf::Mutex keepmu; vector<Raw> kept;
    for (int a = 0; a < natt; a++) ths.emplace_back([&, a, seed] {
        Rng q(vf::mix(seed, a + 1));
        for (int k = 0; k < nrep && !vf::violated(); k++) {
            uint32_t uid; Exp *e = b.reg(uid); uint32_t seq = 0;
            bytes w; int n = q.below(25); bool closes = false, over = false, typed_err = false, trunc = false;
            for (int i = 0; i < n; i++) switch (q.below(6)) {
                case 0: append(w, badsum(2, tag(uid, 9999, q.below(20)), q)); break;       // dropped
                case 1: { op_t op = q.pick(vector<int>{0, 5, 99, 200, 255}); append(w, wire(op, tag(uid, 8888, q.below(20)))); vf::stat("unknown_opcodes"); break; }
                case 2: { size_t l = q.below(std::min<size_t>(maxmsg - 12, 60)); { vf::Lock g(b.mu); e->lens.push_back(l); } append(w, wire(1, item(uid, seq++, l, l))); break; }
                case 3: { size_t l = q.chance(1, 8) ? maxmsg - 8 : q.below(std::min<size_t>(maxmsg - 7, 50)); { vf::Lock g(b.mu); e->lens.push_back(l + 8); } append(w, wire(2, tag(uid, seq++, l), q.next())); break; }
                case 4: append(w, badsum(q.chance(1, 2) ? 1 : 2, bytes(), q)); break;
                default: append(w, badsum(q.chance(1, 2) ? 1 : 2, q.chance(1, 2) ? item(uid, 7777, 3, 3) : tag(uid, 7777, q.below(20)), q));
            }
            switch (q.below(8)) {
                case 0: case 1: { // oversized
                    long d = q.pick(vector<long>{(long)maxmsg + 1, (long)maxmsg + 2, 1 << 20, 0x7fffffffL, 0x80000000L, 0xffffffffL, 0xfffffff3L});
                    append(w, wire(2, bytes(), q.next(), false, d)); over = true; closes = true; break; }
                case 2: { // not parsable
                    switch (q.below(4)) {
                        case 0: append(w, wire(1, bytes(q.below(12), 1))); break;
                        case 1: append(w, wire(1, item(uid, 6666, 20, 19))); break;
                        case 2: append(w, wire(1, item(uid, 6666, 200000 + q.below(100000), 5))); break;
                        default: append(w, wire(1, item(uid, 6666, 3, 4)));
                    }
                    typed_err = true; vf::stat("unparsable"); break; }
                case 3: { bytes g(q.below(500)); for (auto &x: g) x = q.next();
                    if (g.size() >= 13) { g[8] |= 0x80; over = closes = true; may_over++; } // then the header declares an impossible length
                    append(w, g); vf::stat("garbage"); trunc = true; break; }
                case 4: { auto m = wire(2, tag(uid, 5555, 40)); w.insert(w.end(), m.begin(), m.begin() + q.below(m.size())); trunc = true; break; }
                default:;
            }
            Raw c0; TlsC tc; Raw &c = tls ? tc.c : c0;
            if (!c.connect(port)) { vf::violation("hostile:cannot-connect", cfgs); return; }
            bool proper = tls && q.chance(1, 2);  // a client with a proper certificate that says improper things
            if (tls && !proper) {
                // plain text, garbage or a broken handshake
                bytes g(q.below(300)); for (auto &x: g) x = q.next();
                if (q.chance(1, 3)) { g = bytes{0x16, 3, 1, 0, 200, 1, 0, 0, 196, 3, 3}; for (int i = 0; i < 40; i++) g.push_back(q.next()); }
                dribble(c, q.chance(1, 2) ? w : g, q, q.chance(1, 2));
                if (q.chance(1, 2)) c.reset();
                vf::stat("hostile_clients"); continue;
            }
            bool sent_ok = true; int kus = 0;
            if (proper) {
                if (!tc.on_fd(2, false, q.chance(1, 3) ? TLS1_2_VERSION : 0)) { vf::violation("hostile:cannot-connect", tc.why + " [" + cfgs + "]"); return; }
                bool frag = q.chance(1, 2); size_t o = 0;
                while (o < w.size() && sent_ok) {
                    size_t n = frag ? std::min<size_t>(w.size() - o, 1 + q.below(q.chance(1, 2) ? 5 : 300)) : w.size() - o;
                    if (q.chance(1, 20)) for (int m = q.chance(1, 10) ? 40 : 1; m-- > 0;) { if (SSL_version(tc.s) == TLS1_3_VERSION) { SSL_key_update(tc.s, q.chance(1, 2) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); NoPipe np; SSL_do_handshake(tc.s); kus++; vf::stat("key_updates"); } }
                    sent_ok = tc.send(bytes(w.begin() + o, w.begin() + o + n)); o += n;
                }
                vf::stat("proper_tls_clients");
            }
            else sent_ok = dribble(c, w, q, q.chance(1, 2));
            if (!sent_ok && !over && !typed_err && !trunc) { vf::violation("hostile:connection-closed", vf::fmt("client %u was sending only well-framed messages [%s]", uid, cfgs.c_str())); return; }
            if (over) { want_over++; vf::stat("oversized"); if (!c.closed_within(10)) { vf::violation("hostile:oversized-not-closed", vf::fmt("client %u [%s]", uid, cfgs.c_str())); return; } }
            // the valid messages before the end of the script have to arrive
            if (!vf::wait_until([&] { return e->next >= seq || vf::violated(); }, 10)) { vf::violation("hostile:valid-message-lost", vf::fmt("client %u: %u of %u valid messages arrived (proper=%d sent_ok=%d over=%d unparsable=%d trunc=%d ver=%s state=%s shut=%d kus=%d pend=%d closed=%d) [%s]", uid, e->next.load(), seq, proper, sent_ok, over, typed_err, trunc, tc.s ? SSL_get_version(tc.s) : "", tc.s ? SSL_state_string_long(tc.s) : "", tc.s ? SSL_get_shutdown(tc.s) : 0, kus, SSL_want(tc.s), (int)tc.closed(0.3), cfgs.c_str())); return; }
            vf::stat("hostile_clients");
            if (proper) { // and then the TLS layer itself is violated
                if (closes || typed_err) {}
                else if (q.chance(2, 3)) {
                    bytes g{0x17, 3, 3, 0, 0}; g[4] = q.range(17, 200); for (int i = g[4]; i-- > 0;) g.push_back(q.next());
                    if (q.chance(1, 4)) { g[0] = q.pick(vector<int>{0, 0x14, 0x18, 0x50, 0xff}); }
                    else if (q.chance(1, 4)) { g[3] = 0xff; }
                    c.send_all(g);
                    if (!tc.closed(10)) { vf::violation("hostile:broken-tls-not-closed", vf::fmt("client %u [%s]", uid, cfgs.c_str())); return; }
                    vf::stat("broken_records");
                } else if (q.chance(1, 2)) { NoPipe np; SSL_shutdown(tc.s); if (!tc.closed(10)) { vf::violation("hostile:tls-shutdown-not-closed", vf::fmt("client %u [%s]", uid, cfgs.c_str())); return; } }
                if (q.chance(1, 2)) c.reset();
            }
            else if (!closes && q.chance(1, 3)) { vf::Lock g(keepmu); kept.push_back(std::move(c)); }
            else if (q.chance(1, 2)) c.reset();
            // nothing more may arrive
            if (e->next > seq) vf::violation("hostile:surplus-message", cfgs);
        }
    });
    // over TLS also somebody who is sent more than fits and takes it slowly: errors of others must not end that either
    std::atomic<bool> hquit{false};
    std::thread hog; if (tls) hog = std::thread([&, seed] {
        Rng q(vf::mix(seed, 999)); TlsC t;
        if (!t.open(port, 3)) { vf::violation("hostile:cannot-connect", t.why + " [" + cfgs + "]"); return; }
        while (!hquit && !vf::violated()) {
            uint32_t n = q.range(100000, 1000000); bytes rq(4); memcpy(&rq[0], &n, 4); size_t left = n + 13; char x[16384];
            if (!t.send(wire(H_BIG, rq))) { vf::violation("hostile:slow-reader-closed", cfgs); return; }
            NoPipe np; vf::msleep(q.below(15));
            while (left && !vf::violated()) {
                ERR_clear_error(); int k = SSL_read(t.s, x, std::min(left, sizeof x));
                if (k <= 0) { if (SSL_get_error(t.s, k) == SSL_ERROR_WANT_READ) continue; vf::violation("hostile:slow-reader-closed", vf::fmt("%zu bytes missing [%s]", left, cfgs.c_str())); return; }
                left -= k; if (q.chance(1, 10)) vf::usleep_(q.below(2000));
            }
            vf::stat("slow_replies");
        }
    });
    for (auto &t: ths) t.join();
    hquit = true; if (tls) hog.join();
    if (!vf::violated() && !VF_TSAN) {
        vf::wait_until([&] { return b.oversized >= want_over; }, 5);
        // what follows an oversized header may or may not be looked at
        VF_CHECK(b.oversized >= want_over && (b.oversized == want_over || may_over), "hostile:oversized-report", "%ld oversized messages, %ld reported [%s]", want_over.load(), b.oversized.load(), cfgs.c_str());
    }
    vf::stat("valid_messages_of_hostile_clients", b.got);
    finish_healthy(h);
    alloc_check(maxmsg, chunk);
#if VF_ASAN
    if (!vf::violated()) {
        // connections that are gone must not keep memory; those that are open may hold one message each
        { vf::Lock g(keepmu); kept.clear(); }
        long bound = (1 << 20) + natt * nrep * 20000L;
        vf::wait_until([&] { return (long)live_heap() - heap0 < bound; }, 4);
        long grown = (long)live_heap() - heap0;
        vf::stat_max("heap_growth", grown);
        VF_CHECK(grown < bound, "hostile:memory-growth", "%ld bytes more in use after %d hostile connections [%s]", grown, natt * nrep, cfgs.c_str());
    }
#else
    (void)heap0;
#endif
    down_ok = true; hc = nullptr; kept.clear();
    l2->run([&] { C->stop(); C.reset(); }); l1->run([&] { S->stop(); S.reset(); });
    vf::sig(vf::mix(vf::hash(cfgs), b.got)); vf::eval(); vf::sample(cfgs);
}

// malformed input that is found while the incoming queue is full
static void flood_case(uint64_t seed) {
    Rng r(seed);
    MNet::Config sc; size_t maxmsg = 100;
    sc.max_msg_size(maxmsg).max_msg_queue_size(1).recv_chunk_size(r.pick(vector<size_t>{512, 4096})).max_recv_buff_size(r.pick(vector<size_t>{2, 64, 4096})).nworker(r.range(1, 2));
    int kind = r.below(4), n = r.range(8400, 11000);
    cfgs = vf::fmt("flood seed=%llu messages=%d ending=%d", (unsigned long long)seed, n, kind);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    Loop l; std::unique_ptr<MNet> S; Bench b; Healthy h; int port = vf::free_port();
    vf::watchdog(25, [&] { return cfgs + vf::fmt(" got %ld", b.got.load()); }, "hostile:stall");
    l.run([&] { S.reset(new MNet(l.ec, sc)); server_handlers(*S, &l, b, h, 0); S->start(); S->listen(na(port)); });
    uint32_t uid; auto *e = b.reg(uid);
    bytes w; uint32_t seq = 0;
    for (int i = 0; i < n; i++) { append(w, wire(2, tag(uid, seq++, 0))); if (i % 50 == 0) append(w, badsum(2, tag(uid, 9999, 0), r)); }
    uint32_t before = seq;
    if (kind == 0) append(w, wire(2, bytes(), 0, false, r.pick(vector<long>{101, 1 << 30, 0xffffffffL})));
    if (kind == 1) for (int i = 0; i < 10; i++) { append(w, badsum(2, tag(uid, 9999, 3), r)); append(w, wire(2, tag(uid, seq++, 0))); }
    if (kind == 2) { append(w, wire(77, bytes(5, 5))); append(w, wire(2, tag(uid, seq++, 0))); }
    std::atomic<bool> blocked{false}, release{false};
    l.post([&] { blocked = true; while (!release) vf::usleep_(500); });
    while (!blocked) vf::usleep_(100);
    Raw c; if (!c.connect(port)) { vf::violation("hostile:cannot-connect", cfgs); return; }
    // the connection is reported on the blocked loop, so data flows only after its release: let it run slowly
    std::thread t([&] { c.send_all(w); });
    vf::msleep(20); release = true;
    // block the loop again as soon as messages arrive
    vf::wait_until([&] { return b.got > 0; }, 10);
    blocked = false; release = false;
    l.post([&] { blocked = true; double t0 = vf::now(); while (!release && vf::now() - t0 < 0.4) vf::usleep_(500); });
    vf::msleep(150); release = true;
    t.join();
    if (!vf::wait_until([&] { return e->next >= seq || vf::violated(); }, 20)) vf::violation("hostile:valid-message-lost", vf::fmt("%u of %u (%u before the end) [%s]", e->next.load(), seq, before, cfgs.c_str()));
    if (kind == 0 && !vf::violated()) {
        if (!c.closed_within(10)) vf::violation("hostile:oversized-not-closed", cfgs);
        if (!VF_TSAN) vf::wait_until([&] { return b.oversized >= 1; }, 5);
        if (!VF_TSAN) VF_CHECK(b.oversized == 1, "hostile:oversized-report", "%ld reports [%s]", b.oversized.load(), cfgs.c_str());
    }
    vf::stat("flood_messages", b.got); vf::stat("flood_cases");
    alloc_check(maxmsg, 4096);
    l.run([&] { S->stop(); S.reset(); });
    vf::sig(vf::hash(cfgs)); vf::eval();
}

// ---- peer networks
static bytes addr_ser(int port) { NetAddr a = na(port); bytes b(6); memcpy(&b[0], &a.ip, 4); memcpy(&b[4], &a.port, 2); return b; }
static bytes pp(op_t op, bool hs, int port, uint32_t nonce) { bytes b(1, hs); if (hs) { append(b, addr_ser(port)); for (int i = 0; i < 4; i++) b.push_back(nonce >> (8 * i)); } return wire(op, b); }
static const op_t PING = 0xf0, PONG = 0xf1;
static void random_pp(bytes &w, Rng &q, const vector<int> &ports) {
    int n = q.range(1, 12);
    for (int i = 0; i < n; i++) {
        uint32_t nonce = q.pick(vector<uint32_t>{0, 1, 2, 0xfffe, 0xffff, 0x10000, 0xffffffff, (uint32_t)q.below(65536)});
        op_t op = q.chance(1, 2) ? PING : PONG;
        switch (q.below(8)) {
            case 0: case 1: case 2: append(w, pp(op, true, q.pick(ports), nonce)); break;
            case 3: case 4: append(w, pp(op, false, 0, 0)); break;
            case 5: { bytes b(q.below(11)); for (auto &x: b) x = q.chance(1, 2); append(w, wire(op, b)); break; }      // truncated
            case 6: { bytes b(11 + q.below(30)); for (auto &x: b) x = q.next(); append(w, wire(op, b)); break; }
            default: { bytes z(11); z[0] = 1; append(w, wire(op, z)); break; }                                             // null address
        }
    }
}
static void peer_case(uint64_t seed) {
    Rng r(seed);
    PNet::Config pc;
    pc.max_msg_size(1000); pc.nworker(r.range(1, 3));
    pc.ping_period(0.1).conn_timeout(3).id_mode(PNet::ADDR_BASED);
    int pa = vf::free_port(), pb = vf::free_port(), pd = vf::free_port(), px = vf::free_port(), py = vf::free_port();
    int natt = r.range(1, 5), nrep = r.range(2, 10);
    bool dial = r.chance(2, 3);
    cfgs = vf::fmt("peerhostile seed=%llu attackers=%d rounds=%d dial=%d", (unsigned long long)seed, natt, nrep, dial);
    vf_fault_cfg f; memset(&f, 0, sizeof f); if (r.chance(1, 3)) f.delay = 100; vf_set_faults(&f);
    std::unique_ptr<Loop> l1(new Loop()), l2(new Loop());
    std::unique_ptr<PNet> A, B; Bench b; Healthy h; h.st.id = seed; h.st.maxlen = 300;
    std::atomic<int> upA{0}, upB{0}, unk{0}; std::atomic<bool> down_ok{false};
    vf::watchdog(25, [&] { return cfgs + vf::fmt(" healthy %lu/%lu/%lu up %d %d", (unsigned long)h.back.load(), (unsigned long)h.at_server.load(), (unsigned long)h.sent.load(), upA.load(), upB.load()); }, "hostile:stall");
    PeerId ia{na(pa)}, ib{na(pb)}, id{na(pd)}, iy{na(py)};
    l1->run([&] {
        A.reset(new PNet(l1->ec, pc));
        server_handlers(*A, l1.get(), b, h, 0);
        A->reg_peer_handler([&](const PNet::conn_t &c, bool up) {
            if (c->get_addr() == na(pb)) { if (up) upA++; else if (!down_ok && upA) vf::violation("hostile:healthy-channel-closed", "A side [" + cfgs + "]"); }
            vf::progress();
        });
        A->reg_unknown_peer_handler([&](const NetAddr &, const salticidae::X509 *) { unk++; });
        A->start(); A->listen(na(pa));
    });
    l2->run([&] {
        B.reset(new PNet(l2->ec, pc));
        B->set_handler(H_REP, [&h](const Msg &m, const MNet::conn_t &) { on_rep(h, m); });
        B->reg_peer_handler([&](const PNet::conn_t &, bool up) { if (up) upB++; else if (!down_ok) vf::violation("hostile:healthy-channel-closed", "B side [" + cfgs + "]"); });
        B->start(); B->listen(na(pb));
    });
    // A dials B, so B's address is A's remote address
    B->add_peer(ia); A->add_peer(ib); A->set_peer_addr(ib, na(pb));
    A->add_peer(id); A->add_peer(iy);
    A->set_peer_addr(id, na(pd));
    A->conn_peer(ib, -1, 0.5);
    while ((!upA || !upB) && !vf::violated()) vf::msleep(1);
    pump(h, [&](uint64_t i) { return B->_send_msg(h.st.msg(H_REQ, i), ia); });
    while (h.back < 3 && !vf::violated()) vf::msleep(1);
    long heap0 = live_heap();
    std::atomic<bool> quit{false};
    Raw ld; ld.listen(pd);
    // a hostile server that A keeps dialling
    std::thread dt([&, seed] {
        Rng q(vf::mix(seed, 99)); vector<Raw> held;
        while (!quit) {
            Raw c = ld.accept(0.02);
            if (c.fd < 0) continue;
            bytes w;
            if (q.chance(1, 3)) append(w, pp(PONG, false, 0, 0));
            if (q.chance(1, 2)) append(w, pp(PONG, true, pd, q.pick(vector<uint32_t>{0, 1, 0xffff, 0x10000, 0xffffffff})));
            random_pp(w, q, {pd, pa, px, py});
            if (q.chance(1, 6)) append(w, wire(2, bytes(), 0, false, 5000));
            dribble(c, w, q, q.chance(1, 2));
            vf::stat("hostile_servers");
            if (q.chance(1, 3)) held.push_back(std::move(c)); else { vf::usleep_(q.below(5000)); if (q.chance(1, 2)) c.reset(); }
            if (held.size() > 5) held.erase(held.begin());
        }
    });
    if (dial) A->conn_peer(id, -1, 0.02);
    vector<std::thread> ths;
    for (int a = 0; a < natt; a++) ths.emplace_back([&, a, seed] {
        Rng q(vf::mix(seed, a + 1));
        for (int k = 0; k < nrep && !vf::violated(); k++) {
            uint32_t uid; Exp *e = b.reg(uid); uint32_t seq = 0; bytes w;
            // identities: unknown (px), registered but absent (py), the victim's own address (pa); never the healthy peer
            if (q.chance(1, 2)) append(w, pp(PING, true, q.pick(vector<int>{px, py, pa, pd}), q.below(65537)));
            random_pp(w, q, {px, py, pa, pd});
            (void)e; (void)seq;
            Raw c;
            if (!c.connect(pa)) { vf::violation("hostile:cannot-connect", cfgs); return; }
            bool ok = dribble(c, w, q, q.chance(1, 2)); (void)ok;
            vf::stat("hostile_clients");
            if (q.chance(1, 2)) vf::usleep_(q.below(3000));
            if (q.chance(1, 3)) c.reset();
            else if (q.chance(1, 2)) { char x[1000]; c.recv_some(x, sizeof x, 0.02); }
        }
    });
    for (auto &t: ths) t.join();
    if (dial) { vf::msleep(100); A->conn_peer(id, 0); }
    quit = true; dt.join(); ld.close();
    finish_healthy(h);
    // the node still knows what it knew
    if (!vf::violated()) {
        VF_CHECK(A->has_peer(ib) && A->has_peer(id) && A->has_peer(iy) && !A->has_peer(PeerId(na(px))), "hostile:peer-table", "%s", cfgs.c_str());
        VF_CHECK(upA == 1 && upB == 1, "hostile:healthy-channel-closed", "connected %d/%d times [%s]", upA.load(), upB.load(), cfgs.c_str());
    }
    alloc_check(1000, 4096);
#if VF_ASAN
    vf::wait_until([&] { return (long)live_heap() - heap0 < (2 << 20); }, 4);
    long grown = (long)live_heap() - heap0; vf::stat_max("heap_growth", grown);
    if (!vf::violated()) VF_CHECK(grown < (2 << 20) + natt * nrep * 20000L, "hostile:memory-growth", "%ld bytes [%s]", grown, cfgs.c_str());
#else
    (void)heap0;
#endif
    vf::stat("unknown_peers_reported", unk);
    down_ok = true;
    l2->run([&] { B->stop(); B.reset(); }); l1->run([&] { A->stop(); A.reset(); });
    vf::sig(vf::mix(vf::hash(cfgs), unk)); vf::eval(); vf::sample(cfgs);
}

// ---------------------------------------------------------------- C08
static std::atomic<int> verify_calls{0}; static std::atomic<int> verify_answer{1};
static int verify_cb(int, X509_STORE_CTX *) { verify_calls++; return verify_answer; }
static void auth_case(uint64_t seed) {
    Rng r(seed);
    bool verify = r.chance(1, 2); int slow_cb = r.chance(1, 2) ? r.range(1, 20) : 0;
    MNet::Config sc; sc.nworker(r.range(1, 3)); sc.max_msg_size(1000); set_tls(sc, 0);
    verify_answer = 1; verify_calls = 0;
    bool strict = !verify && r.chance(1, 4);     // certificates have to be trusted, and self-signed ones are not
    if (strict) sc.tls_skip_ca_check(false);
    else if (verify) { sc.tls_skip_ca_check(false); sc.tls_verify_callback(verify_cb); }
    else if (r.chance(1, 3)) { sc.tls_skip_ca_check(true); sc.tls_verify_callback(verify_cb); } // the check is skipped, certificates are still required
    cfgs = vf::fmt("auth seed=%llu verify=%d strict=%d slowcb=%d", (unsigned long long)seed, verify, strict, slow_cb);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    Loop l; std::unique_ptr<MNet> S; int port = vf::free_port();
    struct Rec { int up = 0, down = 0, msgs = 0; bytes cert; bool accepted = false, cb_done = false; };
    vf::Mutex mu; std::map<int, Rec> rec;      // by the remote's port
    std::set<bytes> refuse_certs;
    std::atomic<int> decide{1};                 // next decision: accept all, or by certificate
    vf::watchdog(25, [] { return cfgs; }, "auth:stall");
    bytes refused_cert;
    l.run([&] {
        S.reset(new MNet(l.ec, sc));
        S->set_handler(2, [&](const Msg &m, const MNet::conn_t &c) {
            vf::Lock g(mu); auto &e = rec[ntohs(c->get_addr().port)];
            if (!e.cb_done) vf::violation("auth:message-before-decision", cfgs);
            if (!e.accepted) vf::violation("auth:message-from-refused", "a message of a refused connection was delivered [" + cfgs + "]");
            auto *pc = c->get_peer_cert();
            bytes p(m.get_payload());
            if (!pc || p.empty() || pc->get_der() != idents()[p[0]].cert_der) vf::violation("auth:wrong-certificate", cfgs);
            e.msgs++; vf::progress();
        });
        S->reg_conn_handler([&](const ConnPool::conn_t &c, bool up) {
            bool ret = true; bytes der;
            if (up) { auto *pc = c->get_peer_cert(); if (!pc) vf::violation("auth:no-certificate", cfgs); else der = pc->get_der(); }
            { vf::Lock g(mu); auto &e = rec[ntohs(c->get_addr().port)]; if (up) { e.up++; e.cert = der; } else e.down++; }
            if (up) {
                ret = der != refused_cert;
                if (slow_cb) vf::msleep(slow_cb);
                vf::Lock g(mu); auto &e = rec[ntohs(c->get_addr().port)]; e.accepted = ret; e.cb_done = true;
            }
            vf::progress();
            return ret;
        });
        S->start(); S->listen(na(port));
    });
    auto get = [&](int p) { vf::Lock g(mu); return rec[p]; };
    auto forget = [&](int p) { vf::Lock g(mu); rec.erase(p); };
    int nclient = r.range(6, 14);
    for (int k = 0; k < nclient && !vf::violated(); k++) {
        int kind = r.below(9), id = r.range(0, 3), maxver = r.chance(1, 2) ? TLS1_2_VERSION : 0;
        if (strict && kind < 3) kind = 3;
        if ((kind == 3 || kind == 4) && !verify && !strict) kind = 0;
        refused_cert = bytes();
        string what = vf::fmt("client kind %d ident %d maxver %x [%s]", kind, id, maxver, cfgs.c_str());
        if (kind == 0 || kind == 1 || kind == 2) { // proper client; kind 2: refused by the application
            if (kind == 2) l.run([&] { refused_cert = idents()[id].cert_der; }); else l.run([&] { refused_cert = bytes(); });
            int vc0 = verify_calls;
            TlsC c;
            if (!c.c.connect(port)) { vf::violation("auth:cannot-connect", what); break; }
            int p = c.c.local_port(); forget(p);
            if (!c.on_fd(id, false, maxver)) { vf::violation("auth:good-client-rejected", c.why + ": " + what); break; }
            bool sent = true;
            for (int i = 0; i < 3 && sent; i++) sent = c.send(wire(2, bytes(10, (uint8_t)id)));
            if (kind != 2) {
                if (!vf::wait_until([&] { return get(p).msgs == 3 || vf::violated(); }, 10)) vf::violation("auth:message-lost", what);
                auto e = get(p);
                VF_CHECK(e.up == 1 && e.cert == idents()[id].cert_der, "auth:wrong-certificate", "reported certificate is not the one used: %s", what.c_str());
                if (verify) VF_CHECK(verify_calls > vc0, "auth:verify-callback-not-used", "%s", what.c_str());
                vf::stat("accepted_clients");
            } else {
                if (!c.closed(10)) vf::violation("auth:refused-not-closed", what);
                vf::wait_until([&] { return get(p).down == 1; }, 5);
                auto e = get(p);
                VF_CHECK(e.msgs == 0, "auth:message-from-refused", "%s", what.c_str());
                VF_CHECK(e.up == 1 && e.down == 1, "auth:refused-callbacks", "up %d down %d: %s", e.up, e.down, what.c_str());
                vf::stat("refused_clients");
            }
        } else if (kind == 3 || kind == 4) { // the verification callback says no
            verify_answer = 0;
            TlsC c; if (!c.c.connect(port)) { vf::violation("auth:cannot-connect", what); break; }
            int p = c.c.local_port(); forget(p);
            bool ok = c.on_fd(id, false, maxver);
            if (ok) for (int i = 0; i < 3; i++) if (!c.send(wire(2, bytes(10, (uint8_t)id)))) break;
            if (ok && !c.closed(10)) vf::violation("auth:unverified-not-closed", what);
            vf::wait_until([&] { return get(p).down == 1; }, 5);
            auto e = get(p);
            VF_CHECK(e.up == 0 && e.msgs == 0, "auth:unverified-accepted", "up %d messages %d: %s", e.up, e.msgs, what.c_str());
            verify_answer = 1; vf::stat(strict ? "untrusted_clients" : "unverified_clients");
        } else if (kind == 5) { // no certificate
            TlsC c; if (!c.c.connect(port)) { vf::violation("auth:cannot-connect", what); break; }
            int p = c.c.local_port(); forget(p);
            bool ok = c.on_fd(-1, false, maxver);
            if (ok) for (int i = 0; i < 3; i++) if (!c.send(wire(2, bytes(10, (uint8_t)id)))) break;
            if (ok && !c.closed(10)) vf::violation("auth:anonymous-not-closed", what);
            vf::wait_until([&] { return get(p).down == 1; }, 5);
            auto e = get(p);
            VF_CHECK(e.up == 0 && e.msgs == 0, "auth:anonymous-accepted", "a client without a certificate: up %d messages %d: %s", e.up, e.msgs, what.c_str());
            vf::stat("anonymous_clients");
        } else if (kind == 6) { // plain text
            Raw c; if (!c.connect(port)) { vf::violation("auth:cannot-connect", what); break; }
            int p = c.local_port(); forget(p);
            for (int i = 0; i < 4; i++) c.send_all(wire(2, bytes(r.below(900), (uint8_t)id)));
            if (!c.closed_within(10)) vf::violation("auth:plaintext-not-closed", what);
            vf::wait_until([&] { return get(p).down == 1; }, 5);
            auto e = get(p);
            VF_CHECK(e.up == 0 && e.msgs == 0, "auth:plaintext-accepted", "%s", what.c_str());
            vf::stat("plaintext_clients");
        } else if (kind == 7) { // broken off in the middle of the handshake
            Raw c; if (!c.connect(port)) { vf::violation("auth:cannot-connect", what); break; }
            int p = c.local_port(); forget(p);
            bytes g{0x16, 3, 1, 0, 100, 1, 0, 0, 96, 3, 3}; g.resize(r.range(1, 60));
            c.send_all(g); vf::usleep_(r.below(2000));
            if (r.chance(1, 2)) c.reset(); else c.close();
            if (!vf::wait_until([&] { return get(p).down == 1; }, 10)) vf::violation("auth:broken-handshake-not-ended", what);
            VF_CHECK(get(p).up == 0, "auth:broken-handshake-accepted", "%s", what.c_str());
            vf::stat("broken_handshakes");
        } else { // the network dials a raw TLS server: the certificate shown is the server's
            Raw ls; int sp = vf::free_port(); ls.listen(sp);
            int sid = r.range(0, 3); bool plain = r.chance(1, 4);
            TlsC t; std::atomic<bool> done{false};
            std::thread st([&] { t.c = ls.accept(10); if (plain) { t.c.send_all(wire(2, bytes(10, 1))); vf::msleep(20); t.c.close(); } else if (t.on_fd(sid, true)) t.send(wire(2, bytes(10, (uint8_t)sid))); done = true; });
            forget(sp);
            auto conn = S->connect_sync(na(sp));
            while (!done) vf::msleep(1);
            st.join();
            if (strict && !plain) {
                if (!vf::wait_until([&] { return get(sp).down == 1; }, 10)) vf::violation("auth:unverified-not-closed", "dialled server: " + what);
                VF_CHECK(get(sp).up == 0 && get(sp).msgs == 0, "auth:unverified-accepted", "dialled server: %s", what.c_str());
                vf::stat("untrusted_servers");
            } else if (plain) {
                if (!vf::wait_until([&] { return get(sp).down == 1; }, 10)) vf::violation("auth:plaintext-not-closed", what);
                VF_CHECK(get(sp).up == 0 && get(sp).msgs == 0, "auth:plaintext-accepted", "plain-text server: %s", what.c_str());
            } else {
                if (!vf::wait_until([&] { return get(sp).msgs == 1 || vf::violated(); }, 10)) vf::violation("auth:message-lost", "dialled server: " + what);
                VF_CHECK(get(sp).cert == idents()[sid].cert_der, "auth:wrong-certificate", "dialled server: %s", what.c_str());
            }
            vf::stat("dialled_servers");
        }
    }
    l.run([&] { S->stop(); S.reset(); });
    vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}
// two application callbacks racing: clients that send at once while the decision is pending
static void burst_case(uint64_t seed) {
    Rng r(seed);
    MNet::Config sc; sc.nworker(r.range(1, 4)); sc.max_msg_size(1000); set_tls(sc, 0);
    cfgs = vf::fmt("authburst seed=%llu", (unsigned long long)seed);
    Loop l; std::unique_ptr<MNet> S; int port = vf::free_port();
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    vf::Mutex mu; std::map<int, std::array<int, 4>> rec; // port -> up, decided, accepted, msgs
    vf::watchdog(25, [] { return cfgs; }, "auth:stall");
    l.run([&] {
        S.reset(new MNet(l.ec, sc));
        S->set_handler(2, [&](const Msg &m, const MNet::conn_t &c) {
            vf::Lock g(mu); auto &e = rec[ntohs(c->get_addr().port)]; bytes p(m.get_payload());
            if (!e[1]) vf::violation("auth:message-before-decision", cfgs);
            else if (!e[2]) vf::violation("auth:message-from-refused", cfgs);
            auto *pc = c->get_peer_cert();
            if (!pc || pc->get_der() != idents()[p[0]].cert_der) vf::violation("auth:wrong-certificate", "connections mixed up [" + cfgs + "]");
            e[3]++; vf::progress();
        });
        S->reg_conn_handler([&](const ConnPool::conn_t &c, bool up) {
            if (!up) return true;
            auto *pc = c->get_peer_cert(); int port = ntohs(c->get_addr().port);
            bool acc = pc && pc->get_der() != idents()[3].cert_der;
            { vf::Lock g(mu); rec[port][0]++; }
            if (port % 3 == 0) vf::msleep(2);
            vf::Lock g(mu); rec[port][1] = 1; rec[port][2] = acc; vf::progress();
            return acc;
        });
        S->start(); S->listen(na(port));
    });
    vector<std::thread> ths;
    for (int t = 0; t < 6; t++) ths.emplace_back([&, t, seed] {
        Rng q(vf::mix(seed, t));
        for (int k = 0; k < 5 && !vf::violated(); k++) {
            int id = q.range(0, 3); TlsC c;
            if (!c.c.connect(port)) { vf::violation("auth:cannot-connect", cfgs); return; }
            int p = c.c.local_port();
            { vf::Lock g(mu); rec.erase(p); }
            if (!c.on_fd(id, false, q.chance(1, 2) ? TLS1_2_VERSION : 0)) { vf::violation("auth:good-client-rejected", c.why + " [" + cfgs + "]"); return; }
            int n = q.range(1, 8); bool ok = true;
            for (int i = 0; i < n && ok; i++) ok = c.send(wire(2, bytes(5, (uint8_t)id)));
            if (id == 3) { if (!c.closed(10)) vf::violation("auth:refused-not-closed", cfgs); vf::Lock g(mu); if (rec[p][3]) vf::violation("auth:message-from-refused", cfgs); vf::stat("refused_clients"); }
            else { if (!vf::wait_until([&] { vf::Lock g(mu); return rec[p][3] == n || vf::violated(); }, 15)) vf::violation("auth:message-lost", vf::fmt("%d of %d [%s]", rec[p][3], n, cfgs.c_str())); vf::stat("accepted_clients"); }
        }
    });
    for (auto &t: ths) t.join();
    l.run([&] { S->stop(); S.reset(); });
    vf::sig(vf::hash(cfgs)); vf::eval();
}
// construction with unusable material
static void construct_case(uint64_t seed) {
    Rng r(seed); Loop l; cfgs = vf::fmt("construct seed=%llu", (unsigned long long)seed);
    vf::watchdog(25, [] { return cfgs; }, "auth:stall");
    string dir = vf::scratch();
    auto pem = [&](const string &name, const bytes &der, bool key) {
        string p = dir + "/" + name; FILE *f = fopen(p.c_str(), "w");
        if (key) { auto *k = key_of(der); PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr); EVP_PKEY_free(k); }
        else { auto *x = x509_of(der); PEM_write_X509(f, x); X509_free(x); }
        fclose(f); return p;
    };
    string c0 = pem("c0.pem", idents()[0].cert_der, false), c1 = pem("c1.pem", idents()[1].cert_der, false);
    string k0 = pem("k0.pem", idents()[0].key_der, true), k1 = pem("k1.pem", idents()[1].key_der, true);
    static bytes ec_der = [] { auto *k = EVP_EC_gen("P-256"); unsigned char *o = nullptr; int n = i2d_PrivateKey(k, &o); bytes b(o, o + n); OPENSSL_free(o); EVP_PKEY_free(k); return b; }();
    string ke = pem("ke.pem", ec_der, true);
    string bad = dir + "/bad.pem"; { FILE *f = fopen(bad.c_str(), "w"); fprintf(f, "-----BEGIN CERTIFICATE-----\nxxxx\n"); fclose(f); }
    string missing = dir + "/missing.pem";
    for (int k = 0; k < 12; k++) {
        MNet::Config c; c.enable_tls(true); bool good = false; int kind = r.below(12); int want = -1;
        switch (kind) {
            case 0: c.tls_cert_file(c0).tls_key_file(k0); good = true; break;
            case 1: c.tls_cert_file(c0).tls_key_file(k1); want = SALTI_ERROR_TLS_KEY_NOT_MATCH; break;
            case 2: c.tls_cert_file(bad).tls_key_file(k0); break;
            case 3: c.tls_cert_file(c0).tls_key_file(bad); break;
            case 4: c.tls_cert_file(missing).tls_key_file(k0); break;
            case 5: c.tls_cert_file(c0).tls_key_file(missing); break;
            case 6: set_tls(c, 1); good = true; break;
            case 7: { set_tls(c, 1); c.tls_key(new PKey(PKey::create_privkey_from_der(idents()[2].key_der))); want = SALTI_ERROR_TLS_KEY_NOT_MATCH; break; }
            case 8: c.tls_cert_file(c0).tls_key_file(ke); break;           // a key of another type
            case 9: set_tls(c, 1); c.tls_key(new PKey(PKey::create_privkey_from_der(ec_der))); break;
            case 10: c.tls_cert_file(c0); c.tls_key(new PKey(PKey::create_privkey_from_der(r.chance(1, 2) ? ec_der : idents()[1].key_der))); break;
            default: c.tls_cert_file(k0).tls_key_file(c0);
        }
        (void)want;
        int fds = vf_fd_open_count(), code = -2; bool made = false;
        l.run([&] {
            try { MNet n(l.ec, c); made = true; n.start(); n.stop(); }
            catch (const SalticidaeError &e) { code = e.get_code(); }
            catch (...) { code = -3; }
        });
        VF_CHECK(made == good, good ? "auth:good-pair-refused" : "auth:bad-pair-accepted", "kind %d [%s]", kind, cfgs.c_str());
        if (!good) VF_CHECK(code >= 0, "auth:construct-wrong-exception", "kind %d code %d [%s]", kind, code, cfgs.c_str());
        VF_CHECK(vf_fd_open_count() == fds, "auth:construct-descriptor-leak", "kind %d [%s]", kind, cfgs.c_str());
        vf::stat(good ? "good_pairs" : "bad_pairs");
    }
    for (auto &p: {c0, c1, k0, k1, ke, bad}) unlink(p.c_str());
    vf::sig(seed); vf::eval();
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
#if VF_ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    auto &m = vf::args.mode;
    if (m != "hostile" && m != "flood" && m != "peerhostile") idents();
    max_alloc = 0;
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        uint64_t seed = vf::args.seed * 1000 + k;
        if (m == "hostile") hostile_case(seed, false);
        else if (m == "tlshostile") hostile_case(seed, true);
        else if (m == "flood") flood_case(seed);
        else if (m == "peerhostile") peer_case(seed);
        else if (m == "auth") { if (k % 3 == 2) burst_case(seed); else auth_case(seed); }
        else if (m == "construct") construct_case(seed);
        if (const char *v = vf_fd_violation()) vf::violation("hostile:fd", string(v) + " [" + cfgs + "]");
    }
    vf::finish();
}
