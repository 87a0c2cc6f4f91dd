// Peer networks.
// C12 (pair): two nodes, collisions, cuts, restarts; afterwards both must use one and the same single channel.
// C13 (traffic, multicast): per-sender ledgers across breaks; exact delivery in the phases that have to be lossless.
// C14 (heartbeat): silent, slow and idle remotes against the configured times.
// C15 (manage, attempts, unknown, remove): management model with exact error codes, admission, attempt counts.
// C20 (race): everything at once from many threads (for the race detector).
#include "netcommon.h"
#include <algorithm>

typedef PeerNetwork<uint8_t> PNet;
static string cfgs;
static std::atomic<long> live_conns{0};
static std::atomic<uint64_t> uid_ctr{1};
static std::atomic<int> redir[65536];
static int redirect(int port) { int p = redir[port]; return p ? p : port; }

class TP: public PNet {
    public:
    struct TConn: public PNet::Conn {
        uint64_t uid;
        TConn(): uid(uid_ctr.fetch_add(1)) { live_conns++; }
        ~TConn() { live_conns--; }
    };
    using PNet::PNet;
    ~TP() { this->stop(); }
    protected:
    ConnPool::Conn *create_conn() override { return new TConn(); }
};
typedef PNet::conn_t conn_t;
static uint64_t uid_of(const ConnPool::conn_t &c) { auto *t = dynamic_cast<TP::TConn *>(c.get()); return t ? t->uid : 0; }

static const op_t OP_PROBE = 10, OP_DATA = 20, OP_BLANK = 19;

struct Node {
    int idx = 0, port = 0, inc = 0;
    bool tls = false;
    PNet::Config cfg;
    std::unique_ptr<Loop> loop;
    std::unique_ptr<TP> net;
    PeerId pid;
    std::unique_ptr<Proxy> px;
    vf::Mutex lifemu;                           // held by everyone who uses net, exclusively by a restart
    // ledger of peer callbacks (for nodes with a single peer)
    std::atomic<int> up{0}; std::atomic<long> ups{0}, downs{0}, events{0}, unknowns{0};
    std::map<uint64_t, std::pair<int, int>> per_conn; vf::Mutex mu;
    bool single = true;
    std::function<void(const Msg &, const conn_t &)> on_data[8];
    // probes
    struct P { uint64_t n = 0, uid = 0; }; std::map<int, P> probe;
    std::map<int32_t, vector<int>> errs; std::atomic<long> nerr{0};
    std::function<void(const NetAddr &, const bytes &)> on_unknown;
    std::function<void(const conn_t &, bool)> on_peer;
    void make() {
        loop->run([this] {
            net.reset(new TP(loop->ec, cfg));
            inc++;
            up = 0; { vf::Lock g(mu); per_conn.clear(); errs.clear(); }
            net->reg_peer_handler([this](const conn_t &c, bool u) {
                if (!loop->on()) vf::violation("peer:callback-thread", cfgs);
                auto id = uid_of(c);
                {
                    vf::Lock g(mu);
                    auto &e = per_conn[id];
                    if (u) { if (e.first++ || e.second) vf::violation("peer:connection-reported-twice", vf::fmt("node %d: connected %d disconnected %d [%s]", idx, e.first, e.second, cfgs.c_str())); }
                    else if (e.second++) vf::violation("peer:disconnection-reported-twice", vf::fmt("node %d [%s]", idx, cfgs.c_str()));
                }
                if (single) {
                    if (u && up) vf::violation("peer:connected-without-disconnected", vf::fmt("node %d [%s]", idx, cfgs.c_str()));
                    up = u;
                }
                if (u) ups++; else downs++;
                if (on_peer) on_peer(c, u);
                events++;
            });
            net->reg_unknown_peer_handler([this](const NetAddr &a, const salticidae::X509 *x) {
                unknowns++;
                if (on_unknown) on_unknown(a, x ? x->get_der() : bytes());
            });
            net->reg_error_handler([this](const std::exception_ptr e, bool fatal, int32_t id) {
                if (fatal) vf::violation("peer:fatal-error", vf::fmt("node %d: %s [%s]", idx, VF_TSAN ? "" : salticidae_strerror(err_code(e)), cfgs.c_str()));
                if (id >= 0) { vf::Lock g(mu); errs[id].push_back(VF_TSAN ? 0 : err_code(e)); }
                nerr++;
            });
            net->set_handler(OP_PROBE, [this](const Msg &m, const MNet::conn_t &c) {
                bytes p(m.get_payload()); uint64_t n; memcpy(&n, &p[0], 8);
                vf::Lock g(mu); auto &q = probe[p[8]]; q.n = n; q.uid = uid_of(c);
            });
            for (int k = 0; k < 8; k++) net->set_handler(OP_DATA + k, [this, k](const Msg &m, const MNet::conn_t &c) {
                if (on_data[k]) on_data[k](m, static_pointer_cast<PNet::Conn>(c)); });
            net->start(); net->listen(na(port));
        });
    }
    void unmake() { loop->run([this] { net->stop(); net.reset(); }); }
    vector<int> errors_of(int32_t id) { vf::Lock g(mu); auto it = errs.find(id); return it == errs.end() ? vector<int>() : it->second; }
};
static Msg mkmsg(op_t op, const bytes &b) { Msg m; m.set_opcode(op); m.set_payload(bytes(b)); m.set_checksum(); return m; }

struct World {
    vector<std::unique_ptr<Node>> nodes;
    World(int n, int tls, PNet::IdentityMode im, Rng &r, double ping, double timeout, bool proxied = true, bool loops_shared = false) {
        (void)loops_shared;
        for (auto &x: redir) x = 0;
        vf_set_redirect(redirect);
        for (int i = 0; i < n; i++) {
            nodes.emplace_back(new Node()); auto &d = *nodes.back();
            d.idx = i; d.port = vf::free_port(); d.tls = tls;
            d.cfg.nworker(r.range(1, 3)); d.cfg.max_msg_size(1 << 20);
            if (r.chance(1, 3)) d.cfg.recv_chunk_size(64);
            if (r.chance(1, 3)) d.cfg.burst_size(r.range(1, 5));
            if (tls) set_tls(d.cfg, i);
            d.cfg.ping_period(ping).conn_timeout(timeout).id_mode(im);
            d.pid = (tls && im == PNet::CERT_BASED) ? PeerId(salticidae::X509::create_from_der(idents()[i].cert_der)) : PeerId(na(d.port));
            d.loop.reset(new Loop());
            if (proxied) { int pp = vf::free_port(); d.px.reset(new Proxy(pp, d.port)); redir[d.port] = pp; }
            d.single = n == 2;
        }
        for (auto &d: nodes) d->make();
    }
    Node &operator[](int i) { return *nodes[i]; }
    long links() { long k = 0; for (auto &d: nodes) k += d->px->links; return k; }
    void end() {
        for (auto &d: nodes) d->unmake();
        vf_set_redirect(nullptr);
        for (auto &d: nodes) d->px.reset();
        nodes.clear();
    }
};
static std::atomic<uint64_t> probe_ctr{1};
// one probe in each direction; true if both arrive over the connections both nodes name for each other
static bool probe_once(Node &a, Node &b, uint64_t out[2], double wait = 0.5) {
    uint64_t n = probe_ctr++;
    bytes p(9); memcpy(&p[0], &n, 8);
    try {
        p[8] = a.idx; a.net->_send_msg(mkmsg(OP_PROBE, p), b.pid);
        p[8] = b.idx; b.net->_send_msg(mkmsg(OP_PROBE, p), a.pid);
    } catch (...) { return false; }
    bool ok = vf::wait_until([&] {
        bool x, y; { vf::Lock g(a.mu); x = a.probe[b.idx].n == n; } { vf::Lock g(b.mu); y = b.probe[a.idx].n == n; } return x && y; }, wait);
    if (!ok) return false;
    auto ca = a.net->get_peer_conn(b.pid), cb = b.net->get_peer_conn(a.pid);
    uint64_t ua, ub; { vf::Lock g(a.mu); ua = a.probe[b.idx].uid; } { vf::Lock g(b.mu); ub = b.probe[a.idx].uid; }
    out[0] = uid_of(ca); out[1] = uid_of(cb);
    return ca && cb && !ca->is_terminated() && !cb->is_terminated() && out[0] == ua && out[1] == ub && ua && ub;
}
// waits for convergence: stable, mutual, single.  The watchdog reports if it never comes.
static bool converge(World &w, Node &a, Node &b, bool single_link) {
    for (;;) {
        if (vf::violated()) return false;
        uint64_t x[2], y[2];
        if (!probe_once(a, b, x)) { vf::msleep(20); continue; }
        long ea = a.events, eb = b.events;
        if (a.single && (!a.up || !b.up)) { vf::msleep(5); continue; }
        vf::msleep(150);
        if (!probe_once(a, b, y) || x[0] != y[0] || x[1] != y[1] || a.events != ea || b.events != eb) continue;
        if (single_link) {
            // spare connections are dropped within the connection timeout
            double t = vf::now();
            while (w.links() != 1 && vf::now() - t < 6) vf::msleep(10);
            if (a.events != ea || b.events != eb) continue;
            if (w.links() != 1) continue;     // the watchdog decides
        }
        vf::progress();
        vf::stat("convergences");
        return true;
    }
}
static double tscale() { return VF_TSAN ? 2.5 : VF_ASAN ? 1.5 : 1; }

// ---------------------------------------------------------------- C12
static void pair_case(uint64_t seed) {
    Rng r(seed);
    int kind = r.below(3); bool tls = kind != 0;
    auto im = kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED;
    double ping = 0.2, timeout = 2.5;
    int rounds = r.range(2, 4);
    cfgs = vf::fmt("pair seed=%llu kind=%s rounds=%d", (unsigned long long)seed, kind == 0 ? "plain" : kind == 1 ? "tls-addr" : "tls-cert", rounds);
    vf_fault_cfg f; memset(&f, 0, sizeof f); if (r.chance(1, 3)) f.delay = r.pick(vector<int>{50, 400}); vf_set_faults(&f);
    int fd0 = vf_fd_open_count(); long live0 = live_conns;
    World w(2, tls, im, r, ping, timeout);
    auto &A = w[0], &B = w[1];
    vf::watchdog(40, [&] { return cfgs + vf::fmt(" up %d/%d ups %ld/%ld downs %ld/%ld links %ld", A.up.load(), B.up.load(), A.ups.load(), B.ups.load(), A.downs.load(), B.downs.load(), w.links()); }, "peer:no-convergence");
    bool addr_known[2] = {true, r.chance(2, 3)}; // node 1 may not know how to reach node 0
    auto reg = [&](Node &d) { auto &o = w[1 - d.idx]; d.net->add_peer(o.pid); if (addr_known[d.idx]) d.net->set_peer_addr(o.pid, na(o.port)); d.net->has_peer(o.pid); };
    bool keep[2] = {false, false}; vf::Mutex keepmu;
    reg(A); reg(B);
    uint64_t hist = 0;
    for (int k = 0; k < rounds && !vf::violated(); k++) {
        // disturbances from two threads
        vector<std::thread> ths;
        int nth = r.range(1, 2), nev = r.range(1, 7); bool first = k == 0;
        for (int t = 0; t < nth; t++) ths.emplace_back([&, t, k, seed, nev, first] {
            Rng q(vf::mix(seed, 100 * k + t));
            for (int e = 0; e < nev && !vf::violated(); e++) {
                int i = q.below(2); Node &d = w[i], &o = w[1 - i];
                int what = q.below(first ? 4 : 14);
                switch (what) {
                    case 0: case 1: case 2: { vf::Lock g(d.lifemu); if (!addr_known[i]) break; vf::Lock g2(keepmu); keep[i] = true; d.net->conn_peer(o.pid, -1, q.pick(vector<double>{0.3, 0.6})); vf::stat("connect_requests"); break; }
                    case 3: { vf::Lock g(d.lifemu); if (!addr_known[i]) break; vf::Lock g2(keepmu); keep[i] = false; d.net->conn_peer(o.pid, q.range(1, 3), q.pick(vector<double>{0.02, 0.3})); vf::stat("connect_requests"); break; }
                    case 4: case 5: d.px->cut(); vf::stat("cuts"); break;
                    case 6: d.px->cut_after = q.below(600); vf::stat("cuts"); break;
                    case 7: d.px->delay_ms = q.pick(vector<int>{0, 1, 20}); break;
                    case 8: { d.px->refuse = true; d.px->cut(); vf::msleep(q.below(300)); d.px->refuse = false; vf::stat("cuts"); break; }
                    case 9: { d.px->blackhole = true; vf::msleep(q.below(200)); if (q.chance(1, 2)) vf::msleep(300); d.px->blackhole = false; d.px->cut(); vf::stat("blackholes"); break; }
                    case 10: { // restart; the old incarnation may leave without a word
                        bool silent = q.chance(1, 2);
                        vf::Lock g(d.lifemu);
                        if (silent) { d.px->blackhole = true; o.px->blackhole = true; }
                        d.unmake(); { vf::Lock g2(keepmu); keep[i] = false; }
                        if (silent) { vf::msleep(q.below(30)); }
                        d.make(); reg(d);
                        if (silent) { d.px->blackhole = false; o.px->blackhole = false; d.px->cut(); o.px->cut(); }
                        vf::stat("restarts"); break; }
                    case 11: { vf::Lock g(d.lifemu); auto c = d.net->get_peer_conn(o.pid); if (c && uid_of(c)) d.net->terminate(c); vf::stat("terminations"); break; }
                    case 12: { vf::Lock g(d.lifemu); for (int z = q.below(50); z-- > 0;) d.net->_send_msg(mkmsg(OP_DATA, bytes(q.below(3000), 1)), o.pid); break; }
                    default: { vf::Lock g(d.lifemu); if (!addr_known[i]) break; vf::Lock g2(keepmu); keep[i] = false; d.net->conn_peer(o.pid, 0); vf::stat("given_up"); break; }
                }
                if (q.chance(2, 3)) vf::usleep_(q.below(q.chance(1, 4) ? 60000 : 2000));
            }
        });
        for (auto &t: ths) t.join();
        for (auto &d: w.nodes) { d->px->blackhole = false; d->px->refuse = false; d->px->cut_after = -1; d->px->delay_ms = 0; }
        if (!keep[0] && !keep[1]) {
            int who = addr_known[1] ? r.below(3) : 0;
            if (who != 1) { A.net->conn_peer(B.pid, -1, 0.3 * tscale()); keep[0] = true; }
            if (who != 0) { B.net->conn_peer(A.pid, -1, 0.3 * tscale()); keep[1] = true; }
        }
        if (!converge(w, A, B, true)) break;
        hist = vf::mix(hist, A.ups * 31 + B.ups);
    }
    vf::stat("connected_reports", A.ups + B.ups); vf::stat("disconnected_reports", A.downs + B.downs);
    w.end();
    if (!vf::violated()) {
        VF_CHECK(vf_fd_open_count() == fd0, "peer:descriptor-leak", "%d descriptors before, %d after [%s] %s", fd0, vf_fd_open_count(), cfgs.c_str(), vf_fd_dump()->c_str());
        VF_CHECK(live_conns == live0, "peer:connection-leak", "%ld connection objects left [%s]", live_conns - live0, cfgs.c_str());
    }
    vf::sig(vf::mix(vf::hash(cfgs), hist)); vf::eval(); vf::sample(cfgs);
}

// ---------------------------------------------------------------- C13
struct Flow { // one sender thread on one node towards the other
    uint64_t id = 0; int op = 0; size_t maxlen = 2000;
    std::atomic<uint64_t> sent{0}, got{0};
    vf::Mutex mu; vector<char> seen; std::map<uint64_t, uint64_t> last; // per connection: last index + 1
    uint64_t last_any = 0; bool gaps = false;                            // across connections (single sender)
    size_t len(uint64_t i) const { Rng r(vf::mix(id, i)); return 8 + (r.chance(1, 8) ? r.below(maxlen) : r.below(std::min<size_t>(maxlen, 300))); }
    bytes content(uint64_t i) const { bytes b(len(i)); Rng r(vf::mix(id ^ 77, i)); for (size_t k = 8; k < b.size(); k++) b[k] = k % 8 ? (uint8_t)(i + k) : (uint8_t)r.next(); memcpy(&b[0], &i, 8); return b; }
    void arrived(const Msg &m, const conn_t &c) {
        bytes p(m.get_payload()); uint64_t i = ~0ull;
        if (p.size() >= 8) memcpy(&i, &p[0], 8);
        vf::Lock g(mu);
        if (p.size() < 8 || i > (1u << 26) || p != content(i)) { vf::violation("traffic:corrupted-message", vf::fmt("length %zu index %llu [%s]", p.size(), (unsigned long long)i, cfgs.c_str())); return; }
        if (i >= seen.size()) seen.resize(i + 1000);
        if (seen[i]) { vf::violation("traffic:duplicate-message", vf::fmt("message %llu [%s]", (unsigned long long)i, cfgs.c_str())); return; }
        seen[i] = 1;
        auto &l = last[uid_of(c)];
        if (i < l) vf::violation("traffic:order", vf::fmt("message %llu after %llu on one channel [%s]", (unsigned long long)i, (unsigned long long)l - 1, cfgs.c_str()));
        l = i + 1; got++;
        vf::progress();
    }
    uint64_t missing(uint64_t a, uint64_t b) { vf::Lock g(mu); uint64_t n = 0; for (uint64_t i = a; i < b; i++) if (i >= seen.size() || !seen[i]) n++; return n; }
};
// a channel nobody disturbs and whose remote side is alive does not break
struct Calm {
    double t = vf::now();
    Calm() { vf::hiccup(true); }
    void broke(const char *key) {
        double d = vf::now() - t;
        if (VF_TSAN || d > 2.5 || vf::hiccup() > 0.3) { vf::stat("interruptions_not_judged"); return; }
        vf::violation(key, vf::fmt("after %.2fs, nobody disturbed it (longest scheduling delay %.3fs) [%s]", d, vf::hiccup(), cfgs.c_str()));
    }
};
static void traffic_case(uint64_t seed) {
    Rng r(seed);
    int kind = r.below(3); bool tls = kind != 0;
    auto im = kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED;
    bool both = r.chance(1, 2);
    cfgs = vf::fmt("traffic seed=%llu kind=%d bothdial=%d", (unsigned long long)seed, kind, both);
    vf_fault_cfg f; memset(&f, 0, sizeof f);
    if (r.chance(1, 2)) { f.sndbuf = 4096; f.rcvbuf = 4096; }
    if (r.chance(1, 3)) { f.short_send = 200; f.max_short = 50; }
    if (r.chance(1, 4)) f.eagain_send = 100;
    vf_set_faults(&f); vf_fault_seed(seed);
    World w(2, tls, im, r, 0.3, 4);
    auto &A = w[0], &B = w[1];
    vf::watchdog(40, [&] { return cfgs + vf::fmt(" up %d/%d ups %ld/%ld downs %ld/%ld links %ld", A.up.load(), B.up.load(), A.ups.load(), B.ups.load(), A.downs.load(), B.downs.load(), w.links()); }, "traffic:stall");
    int nf = r.range(1, 3);
    vector<std::unique_ptr<Flow>> fl; // flow k of node i: index i*nf+k
    for (int i = 0; i < 2; i++) for (int k = 0; k < nf; k++) {
        fl.emplace_back(new Flow()); auto *p = fl.back().get(); p->id = vf::mix(seed, i * 10 + k); p->op = OP_DATA + k; p->maxlen = r.pick(vector<size_t>{100, 5000, 60000});
        w[1 - i].on_data[k] = [p](const Msg &m, const conn_t &c) { p->arrived(m, c); };
    }
    auto send1 = [&](int i, int k) { auto &p = *fl[i * nf + k]; uint64_t n = p.sent; p.sent = n + 1;
        bool ok; try { if (vf::mix(n, p.id) % 5 == 0) w[i].net->_send_msg(mkmsg(OP_BLANK, bytes()), w[1 - i].pid); // an empty message among them
            ok = w[i].net->_send_msg(mkmsg(p.op, p.content(n)), w[1 - i].pid); } catch (...) { ok = false; }
        if (!ok) vf::violation("traffic:send-to-known-peer-refused", cfgs); };
    A.net->add_peer(B.pid); A.net->set_peer_addr(B.pid, na(B.port)); B.net->add_peer(A.pid); if (both) B.net->set_peer_addr(A.pid, na(A.port));
    A.net->has_peer(B.pid); B.net->has_peer(A.pid);
    // 1. accepted before there ever was a channel
    int early = r.below(60);
    for (int i = 0; i < 2; i++) for (int k = 0; k < nf; k++) for (int e = 0; e < early; e++) send1(i, k);
    auto senders = [&](int n, uint64_t salt) { // threads that keep sending while the channel comes up
        vector<std::thread> v;
        for (int i = 0; i < 2; i++) for (int k = 0; k < nf; k++) v.emplace_back([&, i, k, n, salt] {
            Rng q(vf::mix(seed, salt * 100 + i * 10 + k));
            for (int e = 0; e < n; e++) { send1(i, k); if (q.chance(1, 4)) vf::usleep_(q.below(200)); } });
        return v;
    };
    {
        auto v = senders(r.chance(2, 3) ? 300 : 0, 7);
        A.net->conn_peer(B.pid, 1, 8);
        for (auto &t: v) t.join();
    }
    bool dialling = false; // somebody keeps dialling: channels may be replaced
    Calm calm0;
    auto all_there = [&](vector<uint64_t> &from, const char *what) {
        // exactly the messages accepted since 'from' have to arrive if the channel came up exactly once
        while (!vf::violated()) {
            uint64_t miss = 0; for (size_t j = 0; j < fl.size(); j++) miss += fl[j]->missing(from[j], fl[j]->sent);
            if (!miss) { vf::stat(what); return true; }
            if (A.downs || B.downs) { calm0.broke("traffic:first-channel-broke"); vf::stat("offline_phases_interrupted"); dialling = true; A.net->conn_peer(B.pid, -1, 0.3); return true; } // the attempt itself failed
            vf::msleep(2);
        }
        return false;
    };
    vector<uint64_t> from(fl.size(), 0);
    vf::watchdog_key("traffic:accepted-message-lost");
    bool begun = all_there(from, "offline_phases_delivered");
    // 2. a channel that stays up loses nothing
    auto stable = [&] {
        long e0 = A.downs + B.downs; Calm calm;
        for (size_t j = 0; j < fl.size(); j++) from[j] = fl[j]->sent;
        {
            vector<std::thread> ths;
            for (int i = 0; i < 2; i++) for (int k = 0; k < nf; k++) ths.emplace_back([&, i, k] { for (int e = 0; e < 150; e++) send1(i, k); });
            for (auto &t: ths) t.join();
        }
        vf::watchdog_key("traffic:accepted-message-lost");
        while (!vf::violated()) {
            uint64_t miss = 0; for (size_t j = 0; j < fl.size(); j++) miss += fl[j]->missing(from[j], fl[j]->sent);
            if (!miss) { vf::stat("stable_phases_delivered"); break; }
            if (A.downs + B.downs != e0) { if (!dialling) calm.broke("traffic:stable-channel-broke"); vf::stat("stable_phases_interrupted"); break; }
            vf::msleep(2);
        }
        return !vf::violated();
    };
    for (int round = 0; begun && round < (int)r.range(1, 3) && !vf::violated(); round++) {
        if (!stable()) break;
        // 3. traffic while the channel breaks again and again
        if (vf::violated()) break;
        vf::watchdog_key("traffic:stall");
        dialling = true; A.net->conn_peer(B.pid, -1, 0.3); if (both && r.chance(1, 2)) B.net->conn_peer(A.pid, -1, 0.3);
        std::atomic<bool> quit{false};
        {
            vector<std::thread> ths;
            for (int i = 0; i < 2; i++) for (int k = 0; k < nf; k++) ths.emplace_back([&, i, k, seed, round] {
                Rng q(vf::mix(seed, round * 100 + i * 10 + k)); size_t out = 0;
                while (!quit && out < 4000000) { send1(i, k); out += fl[i * nf + k]->len(fl[i * nf + k]->sent - 1); if (q.chance(1, 5)) vf::usleep_(q.below(800)); } });
            int ncut = r.range(1, 6);
            for (int c = 0; c < ncut && !vf::violated(); c++) {
                auto &px = *w[r.below(2)].px;
                vf::msleep(r.below(150));
                switch (r.below(4)) {
                    case 0: px.cut(); break;
                    case 1: px.cut_after = r.below(20000); break;
                    case 2: px.max_chunk = r.pick(vector<int>{1, 100}); vf::msleep(20); px.cut(); px.max_chunk = 65536; break;
                    default: px.refuse = true; px.cut(); vf::msleep(100); px.refuse = false;
                }
                vf::stat("cuts");
            }
            quit = true; for (auto &t: ths) t.join();
        }
        for (auto &d: w.nodes) { d->px->cut_after = -1; d->px->refuse = false; d->px->max_chunk = 65536; }
        vf::watchdog_key("traffic:no-convergence");
        if (!converge(w, A, B, false)) break;
        // 4. a known outage: nothing may be lost that is accepted while both sides are down
      for (int outage = r.range(1, 3); outage-- && !vf::violated();) {
        if (both) B.net->conn_peer(A.pid, 0);
        A.net->conn_peer(B.pid, 0);
        vf::watchdog_key("traffic:give-up-does-not-disconnect");
        for (double t = vf::now();;) { // both sides down, no connection left, and nothing moves any more
            if (vf::violated()) break;
            if (A.up || B.up || w.links()) { t = vf::now(); vf::msleep(5); continue; }
            if (vf::now() - t > 0.1) break;
            vf::msleep(5);
        }
        vf::progress(); dialling = false; Calm calm;
        {
            A.loop->flush(); B.loop->flush(); A.net->has_peer(B.pid); B.net->has_peer(A.pid);
            long da = A.downs, db = B.downs; if (vf::violated()) break;
            for (size_t j = 0; j < fl.size(); j++) from[j] = fl[j]->sent;
            int n = r.range(1, 200);
            for (int e = 0; e < n; e++) for (int i = 0; i < 2; i++) for (int k = 0; k < nf; k++) send1(i, k);
            {
                auto v = senders(r.chance(2, 3) ? 300 : 0, 8 + round);
                A.net->conn_peer(B.pid, 1, 20);
                for (auto &t: v) t.join();
            }
            vf::watchdog_key("traffic:accepted-message-lost");
            while (!vf::violated()) {
                uint64_t miss = 0; for (size_t j = 0; j < fl.size(); j++) miss += fl[j]->missing(from[j], fl[j]->sent);
                if (!miss) { vf::stat("offline_phases_delivered"); break; }
                if (A.downs != da || B.downs != db) {
                    calm.broke("traffic:restored-channel-broke");
                    vf::stat("offline_phases_interrupted"); dialling = true;
                    A.net->conn_peer(B.pid, -1, 0.3); break; }
                vf::msleep(2);
            }
        }
        if (outage && !stable()) break;
      }
    }
    {
        uint64_t g = 0, lost = 0; for (auto &p: fl) { g += p->got; lost += p->missing(0, p->sent); if (p->got > p->sent) vf::violation("traffic:invented-message", cfgs); }
        vf::stat("messages_delivered", g); vf::stat("messages_lost_in_breaks", lost);
        vf::sig(vf::mix(vf::hash(cfgs), g));
    }
    w.end();
    vf::eval(); vf::sample(cfgs);
}
// output that had not been written when the connection broke goes over the next one, in order and without gaps
static void backlog_case(uint64_t seed) {
    Rng r(seed);
    int kind = r.below(3); bool tls = kind != 0; auto im = kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED;
    int breaks = r.range(1, 2);
    cfgs = vf::fmt("backlog seed=%llu kind=%d breaks=%d", (unsigned long long)seed, kind, breaks);
    vf_fault_cfg f; memset(&f, 0, sizeof f); f.sndbuf = 8192; f.rcvbuf = 8192;
    if (r.chance(1, 3)) { f.short_send = 300; f.max_short = 700; }
    vf_set_faults(&f); vf_fault_seed(seed);
    World w(2, tls, im, r, 0.4, 6); auto &A = w[0], &B = w[1];
    vf::watchdog(40, [&] { return cfgs + vf::fmt(" up %d/%d ups %ld/%ld downs %ld/%ld links %ld", A.up.load(), B.up.load(), A.ups.load(), B.ups.load(), A.downs.load(), B.downs.load(), w.links()); }, "traffic:stall");
    Flow fl; fl.id = seed; fl.op = OP_DATA; fl.maxlen = r.pick(vector<size_t>{3000, 20000});
    bool dialer_sends = r.chance(1, 2); auto &S = dialer_sends ? A : B, &R = dialer_sends ? B : A;
    R.on_data[0] = [&](const Msg &m, const conn_t &c) { fl.arrived(m, c); };
    A.net->add_peer(B.pid); A.net->set_peer_addr(B.pid, na(B.port)); B.net->add_peer(A.pid);
    A.net->has_peer(B.pid); B.net->has_peer(A.pid);
    A.net->conn_peer(B.pid, 1, 20);
    converge(w, A, B, false);
    for (int k = 0; k < breaks && !vf::violated(); k++) {
        // the link stops moving, the backlog grows
        for (auto &d: w.nodes) d->px->delay_ms = 100000;
        vf::msleep(5);
        uint64_t first = fl.sent; size_t total = 0;
        while (total < 3000000 || fl.sent - first < 50) { uint64_t n = fl.sent; fl.sent = n + 1; total += fl.len(n) + 13; if (r.chance(1, 6)) S.net->_send_msg(mkmsg(OP_BLANK, bytes()), R.pid); if (!S.net->_send_msg(mkmsg(OP_DATA, fl.content(n)), R.pid)) vf::violation("traffic:send-to-known-peer-refused", cfgs); if (r.chance(1, 10)) vf::usleep_(50); }
        vf::msleep(r.below(100));
        for (auto &d: w.nodes) d->px->cut();
        for (auto &d: w.nodes) d->px->delay_ms = 0;
        vf::watchdog_key("traffic:break-not-noticed");
        while ((A.up || B.up) && !vf::violated()) vf::msleep(1);
        vf::progress();
        A.loop->flush(); B.loop->flush();
        long da = A.downs, db = B.downs; Calm calm;
        A.net->conn_peer(B.pid, 1, 20);
        vf::watchdog_key("traffic:backlog-lost");
        while (fl.missing(fl.sent - 1, fl.sent) && !vf::violated()) {
            if (A.downs != da || B.downs != db) break;
            vf::msleep(1);
        }
        if (A.downs != da || B.downs != db) { calm.broke("traffic:restored-channel-broke"); vf::stat("backlog_interrupted"); break; }
        // what is missing is the part that had been handed to the broken connection: one contiguous stretch of limited size
        uint64_t a = first; { vf::Lock g(fl.mu); while (a < fl.sent && fl.seen[a]) a++; }
        uint64_t b = a, lost = 0; { vf::Lock g(fl.mu); while (b < fl.sent && !fl.seen[b]) { lost += fl.len(b) + 13; b++; } }
        uint64_t later = fl.missing(b, fl.sent);
        VF_CHECK(later == 0, "traffic:backlog-gap", "%llu messages missing behind the break [%s]", (unsigned long long)later, cfgs.c_str());
        VF_CHECK(lost < 1500000, "traffic:backlog-lost", "%llu of %zu bytes missing although the link could take only a small part [%s]", (unsigned long long)lost, total, cfgs.c_str());
        vf::stat("backlogs_handed_over"); vf::stat("messages_delivered", fl.got);
    }
    vf::sig(vf::mix(vf::hash(cfgs), fl.got)); w.end(); vf::eval(); vf::sample(cfgs);
}
static void multicast_case(uint64_t seed) {
    Rng r(seed); int n = r.range(3, 4), kind = r.below(3); bool tls = kind != 0; auto im = kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED;
    bool bounded = r.chance(1, 2), late = n == 4 && r.chance(2, 3), ghost = r.chance(2, 3); // a peer that connects afterwards; one that never does
    cfgs = vf::fmt("multicast seed=%llu nodes=%d kind=%d bounded=%d late=%d ghost=%d", (unsigned long long)seed, n, kind, bounded, late, ghost);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    World w(n, tls, im, r, 0.4, 6); auto &H = w[0]; H.single = false;
    if (bounded) { H.unmake(); H.cfg.max_send_buff_size(r.range(1, 50)); H.make(); }
    vf::watchdog(40, [&] { return cfgs; }, "traffic:multicast-lost");
    vector<std::unique_ptr<Flow>> fl; vector<PeerId> all; PeerId gid{na(2)};
    bool dial[4] = {};
    for (int i = 1; i < n; i++) {
        fl.emplace_back(new Flow()); auto *p = fl.back().get(); p->id = seed; p->maxlen = 3000;
        w[i].on_data[0] = [p](const Msg &m, const conn_t &c) { p->arrived(m, c); };
        H.net->add_peer(w[i].pid); w[i].net->add_peer(H.pid); w[i].single = true; all.push_back(w[i].pid);
        dial[i] = r.chance(1, 2);
    }
    auto join = [&](int i) {
        if (dial[i]) { H.net->set_peer_addr(w[i].pid, na(w[i].port)); H.net->conn_peer(w[i].pid, -1, 1); }
        else { w[i].net->set_peer_addr(H.pid, na(H.port)); w[i].net->conn_peer(H.pid, -1, 1); }
    };
    int now = late ? n - 1 : n;
    for (int i = 1; i < now; i++) join(i);
    for (int i = 1; i < now; i++) converge(w, H, w[i], false);
    bool full = false;
    if (ghost) {
        H.net->add_peer(gid); H.net->has_peer(gid);
        if (bounded && r.chance(3, 4)) { // fill its buffer
            for (int k = 0; k < 40000 && !full; k++) full = !H.net->_send_msg(mkmsg(OP_BLANK, bytes()), gid);
            VF_CHECK(full, "traffic:send-buffer-not-bounded", "%s", cfgs.c_str());
            vf::stat("full_peers");
        }
    }
    std::atomic<long> lost{0}; // channels that broke: their messages may be gone
    long downs0[4] = {}; for (int i = 1; i < n; i++) downs0[i] = w[i].downs;
    long ev = H.events; uint64_t idx = 0; vector<vector<char>> in(n - 1);
    std::map<int32_t, int> expect; // id -> code
    int m = r.range(5, 60);
    for (int k = 0; k < m && !vf::violated(); k++) {
        vector<PeerId> to; vector<int> who;
        for (int i = 0; i < n - 1; i++) if (r.chance(2, 3)) { to.push_back(all[i]); who.push_back(i); }
        bool g = ghost && r.chance(1, 2); if (g) to.push_back(gid);
        for (int x = (int)to.size() - 1; x > 0; x--) { int y = r.below(x + 1); std::swap(to[x], to[y]); }
        Flow z; z.id = seed; z.maxlen = 3000; auto c = z.content(idx);
        bool unknown = r.chance(1, 12);
        if (unknown) { to.clear(); who.clear(); to.push_back(PeerId(na(1))); }
        int32_t id;
        if (r.chance(1, 3) && to.size() == 1) { id = H.net->_send_msg_deferred(mkmsg(OP_DATA, c), to[0]); }
        else id = H.net->_multicast_msg(mkmsg(OP_DATA, c), to);
        if (unknown) expect[id] = SALTI_ERROR_PEER_NOT_EXIST;
        else if (g && full) { expect[id] = SALTI_ERROR_CONN_NOT_READY; vf::stat("multicasts_with_a_full_peer"); }
        else expect[id] = -1;
        for (int i = 0; i < n - 1; i++) in[i].push_back(std::count(who.begin(), who.end(), i) > 0);
        idx++;
        if (r.chance(1, 5)) vf::usleep_(r.below(500));
        if (r.chance(1, 10)) {
            int code = -1; try { H.net->_send_msg(mkmsg(OP_DATA, c), PeerId(na(1))); } catch (const SalticidaeError &e) { code = e.get_code(); }
            VF_CHECK(code == SALTI_ERROR_PEER_NOT_EXIST, "traffic:send-to-unknown-peer", "code %d [%s]", code, cfgs.c_str());
            vf::stat("sends_to_unknown");
        }
    }
    if (late) { H.net->has_peer(all[n - 2]); join(n - 1); vf::stat("late_peers"); }
    auto intact = [&](int i) { return w[i + 1].downs == downs0[i + 1] && (late || H.events == ev); };
    for (int i = 0; i < n - 1; i++) for (uint64_t k = 0; k < idx; k++) if (in[i][k]) while (fl[i]->missing(k, k + 1) && !vf::violated() && intact(i)) vf::msleep(1);
    if (!vf::violated()) {
        vf::msleep(30);
        for (int i = 0; i < n - 1; i++) {
            bool ok = intact(i);
            for (uint64_t k = 0; k < idx; k++) {
                bool there = !fl[i]->missing(k, k + 1);
                if (there || ok) VF_CHECK(there == (bool)in[i][k], "traffic:multicast-target", "message %llu, node %d: %s [%s]", (unsigned long long)k, i + 1, there ? "not addressed to it but delivered" : "missing", cfgs.c_str());
            }
            if (!ok) vf::stat("multicast_channels_broken");
        }
        vf::stat("multicasts", idx);
    }
    H.net->has_peer(all[0]); H.loop->flush();
    if (!VF_TSAN) for (auto &e: expect) {
        auto got = H.errors_of(e.first);
        if (e.second < 0) VF_CHECK(got.empty(), "traffic:error-on-success", "id %d code %d [%s]", e.first, got.empty() ? 0 : got[0], cfgs.c_str());
        else VF_CHECK(got.size() == 1 && got[0] == e.second, "traffic:failed-send-error", "id %d: %zu reports, code %d instead of %d [%s]", e.first, got.size(), got.empty() ? -1 : got[0], e.second, cfgs.c_str());
    }
    vf::sig(vf::mix(vf::hash(cfgs), idx)); w.end(); vf::eval(); vf::sample(cfgs);
}

// ---------------------------------------------------------------- C14
static bytes addr_ser(int port) { NetAddr a = na(port); bytes b(6); memcpy(&b[0], &a.ip, 4); memcpy(&b[4], &a.port, 2); return b; }
static bytes pp(op_t op, bool hs, int port = 0, uint32_t nonce = 0) { bytes b(1, hs); if (hs) { auto a = addr_ser(port); b.insert(b.end(), a.begin(), a.end()); for (int i = 0; i < 4; i++) b.push_back(nonce >> (8 * i)); } return wire(op, b); }
static const op_t PING = 0xf0, PONG = 0xf1;
// a scripted peer on a raw connection
struct Scripted {
    Raw c; Parser ps; std::atomic<bool> answer{true}, quit{false}, closed{false}, chatter{false}; std::atomic<int> delay_ms{0};
    std::atomic<long> pings{0}, hs_pongs{0}; std::atomic<double> t_closed{0}; std::thread th; std::atomic<uint32_t> nonce_seen{0};
    void start() {
        th = std::thread([this] {
            vector<double> due; double nextchat = 0;
            while (!quit) {
                char b[4096]; ssize_t n = c.recv_some(b, sizeof b, 0.005);
                if (n == 0 || n == -1) { closed = true; t_closed = vf::now(); return; }
                if (n > 0) { ps.feed(b, n); Parser::M m; while (ps.next(m)) {
                    if (m.op == PING && m.pl.size() && !m.pl[0]) { pings++; if (answer) due.push_back(vf::now() + delay_ms / 1e3); }
                    if (m.op == PONG && m.pl.size() >= 11 && m.pl[0]) hs_pongs++;
                } }
                while (!due.empty() && due[0] <= vf::now()) { due.erase(due.begin()); c.send_all(pp(PONG, false)); }
                if (chatter && vf::now() > nextchat) { nextchat = vf::now() + 0.02; c.send_all(pp(PING, false)); c.send_all(wire(OP_DATA, bytes(10, 1))); }
            }
        });
    }
    void end() { quit = true; if (th.joinable()) th.join(); c.close(); }
};
static void heartbeat_case(uint64_t seed) {
    Rng r(seed); int kind = (int)(seed % 5);
    double ping = r.pick(vector<double>{0.05, 0.1, 0.3}), timeout = r.pick(vector<double>{0.8, 1.2, 1.6}) * (VF_TSAN ? 1.5 : 1);
    bool tls = r.chance(1, 2) && kind < 2;
    double slack = 0.6; string inc;
    cfgs = vf::fmt("heartbeat seed=%llu kind=%d tls=%d ping=%.2f timeout=%.2f", (unsigned long long)seed, kind, tls, ping, timeout);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    vf::watchdog(40, [] { return cfgs; }, "heartbeat:stall");
    auto calm = [&] { return vf::hiccup() < 0.2; };
    auto late = [&](const char *key, double took, double lim) { // judged only if the machine kept up
        if (took <= lim) { vf::stat_max("latest_detection_ms", (long)(took * 1000)); return; }
        if (!calm()) { vf::stat("inconclusive_timing"); return; }
        vf::violation(key, vf::fmt("%.2fs instead of at most %.2fs (longest scheduling delay %.3fs) [%s]", took, lim, vf::hiccup(), cfgs.c_str()));
    };
    if (kind < 2) {
        World w(2, tls, tls && r.chance(1, 2) ? PNet::CERT_BASED : PNet::ADDR_BASED, r, ping, timeout); auto &A = w[0], &B = w[1];
        std::atomic<double> down[2]; down[0] = down[1] = 0;
        for (int i = 0; i < 2; i++) w[i].on_peer = [&down, i](const conn_t &, bool u) { if (!u) down[i] = vf::now(); };
        A.net->add_peer(B.pid); A.net->set_peer_addr(B.pid, na(B.port)); B.net->add_peer(A.pid);
        A.net->has_peer(B.pid); B.net->has_peer(A.pid);
        A.net->conn_peer(B.pid, -1, 1); converge(w, A, B, true);
        if (kind == 0) {
            int d = r.pick(vector<int>{0, 10, (int)((timeout - 0.45) * 500)});
            cfgs += vf::fmt(" delay=%dms", d);
            for (auto &n: w.nodes) n->px->delay_ms = d;
            long ea = A.events, eb = B.events; vf::hiccup(true); double t0 = vf::now(), dur = timeout * 2.5 + r.unit();
            bool msgs = r.chance(1, 3);
            while (vf::now() - t0 < dur && A.events == ea && B.events == eb) { if (msgs && r.chance(1, 5)) A.net->_send_msg(mkmsg(OP_DATA, bytes(20, 1)), B.pid); vf::msleep(20); }
            if (A.events != ea || B.events != eb) {
                if (!calm()) vf::stat("inconclusive_timing");
                else vf::violation("heartbeat:healthy-channel-dropped", vf::fmt("after %.2fs (longest scheduling delay %.3fs) [%s]", vf::now() - t0, vf::hiccup(), cfgs.c_str()));
            } else vf::stat("healthy_channels_kept");
        } else {
            vf::msleep(r.below((int)(ping * 2000))); vf::hiccup(true);
            for (auto &n: w.nodes) n->px->blackhole = true;
            double t0 = vf::now(), lim = timeout + 1.5 * ping + slack;
            vf::wait_until([&] { return down[0] > t0 && down[1] > t0; }, lim + 3);
            for (int i = 0; i < 2; i++) late("heartbeat:silent-peer-not-dropped", down[i] > t0 ? down[i] - t0 : lim + 3, lim);
            vf::stat("silent_peers_dropped");
        }
        w.end();
    } else {
        World w(1, false, PNet::ADDR_BASED, r, ping, timeout, false); auto &A = w[0]; A.single = true;
        std::atomic<double> down{0}; A.on_peer = [&](const conn_t &, bool u) { if (!u) down = vf::now(); };
        int py = vf::free_port(); PeerId id{na(py)};
        if (kind == 2) { // scripted peer: answers (late), then falls silent while it keeps talking
            A.net->add_peer(id); A.net->has_peer(id);
            bool dialled = r.chance(1, 2); Scripted s; Raw ls;
            if (dialled) {
                ls.listen(py); A.net->set_peer_addr(id, na(py)); A.net->conn_peer(id, 1, 30);
                s.c = ls.accept(10); s.start(); vf::msleep(20); s.c.send_all(pp(PONG, true, py, 0x20000));
            } else { s.c.connect(A.port); s.start(); s.c.send_all(pp(PING, true, py, 5)); }
            if (!vf::wait_until([&] { return A.up.load(); }, 10)) vf::violation("heartbeat:scripted-peer-not-connected", cfgs);
            vf::hiccup(true); double t0 = vf::now(); s.delay_ms = r.pick(vector<int>{0, 50, (int)((timeout - 0.45) * 1000)});
            double dur = timeout * 2; s.chatter = r.chance(1, 2);
            while (vf::now() - t0 < dur && A.up && !s.closed) vf::msleep(5);
            if (!A.up || s.closed) { if (calm()) vf::violation("heartbeat:healthy-channel-dropped", vf::fmt("a peer that answers after %dms was dropped after %.2fs [%s]", s.delay_ms.load(), vf::now() - t0, cfgs.c_str())); else vf::stat("inconclusive_timing"); }
            else {
                vf::stat("healthy_channels_kept");
                s.answer = false; s.chatter = r.chance(1, 2); vf::hiccup(true); double t1 = vf::now() + s.delay_ms / 1e3, lim = timeout + 1.5 * ping + slack;
                vf::wait_until([&] { return s.closed && !A.up; }, lim + 4);
                late("heartbeat:silent-peer-not-dropped", s.closed && !A.up ? std::max<double>(s.t_closed, down) - t1 : lim + 4, lim);
                vf::stat("silent_peers_dropped");
            }
            vf::stat("heartbeats_seen", s.pings); s.end();
        } else if (kind == 3) { // clients that never complete the handshake
            vector<std::unique_ptr<Scripted>> v; vf::hiccup(true); double t0 = vf::now(); int n = r.range(1, 6);
            for (int i = 0; i < n; i++) { v.emplace_back(new Scripted()); auto &s = *v.back(); if (!s.c.connect(A.port)) { vf::violation("heartbeat:cannot-connect", cfgs); break; } s.chatter = r.chance(1, 2); s.start(); if (r.chance(1, 3)) s.c.send_all(pp(PING, true, py, 0)); }
            double lim = timeout + slack;
            vf::wait_until([&] { for (auto &s: v) if (!s->closed) return false; return true; }, lim + 4);
            for (auto &s: v) late("heartbeat:unfinished-handshake-not-dropped", s->closed ? s->t_closed - t0 : lim + 4, lim);
            VF_CHECK(A.ups == 0, "heartbeat:connected-without-handshake", "%s", cfgs.c_str());
            if (!vf::violated()) vf::wait_until([&] { return A.net->get_npending() == 0; }, 5);
            VF_CHECK(A.net->get_npending() == 0, "heartbeat:pending-connection-left", "%zu [%s]", A.net->get_npending(), cfgs.c_str());
            for (auto &s: v) s->end();
            vf::stat("unfinished_handshakes_dropped", n);
        } else { // dialled servers that never answer
            Raw ls; ls.listen(py); A.net->add_peer(id); A.net->set_peer_addr(id, na(py)); vf::hiccup(true); A.net->conn_peer(id, 1, 30);
            Scripted s; s.c = ls.accept(10); double t0 = vf::now(), lim = timeout + slack; s.chatter = r.chance(1, 2); s.start();
            vf::wait_until([&] { return s.closed.load(); }, lim + 4);
            late("heartbeat:unfinished-handshake-not-dropped", s.closed ? s.t_closed - t0 : lim + 4, lim);
            VF_CHECK(A.ups == 0, "heartbeat:connected-without-handshake", "%s", cfgs.c_str());
            s.end(); vf::stat("unfinished_handshakes_dropped");
        }
        w.end();
    }
    vf::progress(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}

// ---------------------------------------------------------------- C15
static void manage_case(uint64_t seed) {
    Rng r(seed); int nth = r.range(1, 4), nop = r.range(20, 150);
    cfgs = vf::fmt("manage seed=%llu threads=%d ops=%d", (unsigned long long)seed, nth, nop);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    vf::watchdog(30, [] { return cfgs; }, "manage:stall");
    World w(1, false, PNet::ADDR_BASED, r, 0.3, 2, false); auto &A = w[0]; A.single = false;
    vf::Mutex emu; std::map<int32_t, int> expect; vector<std::thread> ths; std::atomic<uint64_t> hist{0};
    for (int t = 0; t < nth; t++) ths.emplace_back([&, t, seed] {
        Rng q(vf::mix(seed, t)); struct E { bool in = false, addr = false; }; std::map<int, E> m; uint64_t h = 0;
        for (int k = 0; k < nop && !vf::violated(); k++) {
            int x = q.below(4); auto &e = m[x];
            NetAddr ad = na(2 + t * 10 + x); PeerId id{ad};
            int32_t rid = -1; int code = -1;
            switch (q.below(9)) {
                case 0: case 1: rid = A.net->add_peer(id); if (e.in) code = SALTI_ERROR_PEER_ALREADY_EXISTS; else { e.in = true; e.addr = false; } break;
                case 2: rid = A.net->del_peer(id); if (!e.in) code = SALTI_ERROR_PEER_NOT_EXIST; else e = E(); break;
                case 3: { bool null = q.chance(1, 4); rid = A.net->set_peer_addr(id, null ? NetAddr() : ad); if (!e.in) code = SALTI_ERROR_PEER_NOT_EXIST; else e.addr = !null; break; }
                case 4: case 5: rid = A.net->conn_peer(id, q.range(-1, 3), 0.3); if (!e.in) code = SALTI_ERROR_PEER_NOT_EXIST; else if (!e.addr) code = SALTI_ERROR_PEER_NOT_READY; break;
                case 6: rid = A.net->_send_msg_deferred(mkmsg(OP_DATA, bytes(5, 1)), id); if (!e.in) code = SALTI_ERROR_PEER_NOT_EXIST; break;
                case 7: { bool got = A.net->has_peer(id); VF_CHECK(got == e.in, "manage:has-peer", "%d instead of %d [%s]", got, e.in, cfgs.c_str()); break; }
                default: { int got = -1; bool ok = false;
                    A.net->has_peer(id); // earlier requests of this thread are done
                    if (q.chance(1, 2)) { try { auto c = A.net->get_peer_conn(id); ok = (bool)c; } catch (const SalticidaeError &x) { got = VF_TSAN ? SALTI_ERROR_PEER_NOT_EXIST : x.get_code(); } }
                    else { try { ok = A.net->_send_msg(mkmsg(OP_DATA, bytes(5, 1)), id); } catch (const SalticidaeError &x) { got = x.get_code(); } }
                    if (e.in) VF_CHECK(ok && got == -1, "manage:known-peer-refused", "code %d [%s]", got, cfgs.c_str());
                    else VF_CHECK(got == SALTI_ERROR_PEER_NOT_EXIST, "manage:unknown-peer-accepted", "code %d [%s]", got, cfgs.c_str());
                    vf::stat("queries"); }
            }
            if (rid >= 0) { vf::Lock g(emu); if (expect.count(rid)) vf::violation("manage:identifier-reused", cfgs); expect[rid] = code; vf::stat(code >= 0 ? "failing_requests" : "successful_requests"); h = vf::mix(h, code + 100 * x); }
            if (q.chance(1, 20)) vf::usleep_(q.below(2000));
            vf::progress();
        }
        hist ^= h;
    });
    for (auto &t: ths) t.join();
    A.net->has_peer(PeerId(na(1))); A.loop->flush();
    for (auto &e: expect) {
        auto got = A.errors_of(e.first);
        if (e.second < 0) VF_CHECK(got.empty(), "manage:error-on-success", "request %d reported %d [%s]", e.first, got.empty() ? 0 : got[0], cfgs.c_str());
        else {
            VF_CHECK(got.size() == 1, "manage:error-reports", "request %d: %zu reports instead of one with code %d [%s]", e.first, got.size(), e.second, cfgs.c_str());
            if (got.size() == 1 && !VF_TSAN) VF_CHECK(got[0] == e.second, "manage:wrong-code", "request %d: code %d instead of %d [%s]", e.first, got[0], e.second, cfgs.c_str());
        }
    }
    { vf::Lock g(A.mu); for (auto &x: A.errs) VF_CHECK(expect.count(x.first), "manage:invented-identifier", "%d [%s]", x.first, cfgs.c_str()); }
    w.end(); vf::sig(vf::mix(vf::hash(cfgs), hist)); vf::eval(); vf::sample(cfgs);
}
static void attempts_case(uint64_t seed) {
    Rng r(seed); int beh = r.below(4); // 0 nobody listens, 1 closes at once, 2 garbage, 3 silent
    cfgs = vf::fmt("attempts seed=%llu remote=%d", (unsigned long long)seed, beh);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    vf::watchdog(30, [] { return cfgs; }, "manage:stall");
    World w(1, r.chance(1, 4) ? 0 : 0, PNet::ADDR_BASED, r, 0.3, 5, false); auto &A = w[0];
    int py = vf::free_port(); PeerId id{na(py)}; Raw ls; std::atomic<bool> quit{false}; std::thread st;
    if (beh) { ls.listen(py); st = std::thread([&] { vector<Raw> held; while (!quit) { Raw c = ls.accept(0.02); if (c.fd < 0) continue; if (beh == 2) c.send_all(wire(2, bytes(), 0, false, 0xfffffff)); if (beh == 3) held.push_back(std::move(c)); } }); }
    A.net->add_peer(id); A.net->set_peer_addr(id, na(py)); A.net->has_peer(id);
    auto calls = [] { return vf_syscall_count("connect"); };
    double rd = 0.03; long ups = 0;
    for (int k = 0; k < 4 && !vf::violated(); k++) {
        long c0 = calls();
        switch (r.below(5)) {
            case 0: case 1: { int n = r.range(1, 5); A.net->conn_peer(id, n, rd);
                vf::watchdog_key("manage:too-few-attempts");
                while (calls() - c0 < n) vf::msleep(2);
                vf::progress(); vf::msleep(200);
                VF_CHECK(calls() - c0 == n, "manage:number-of-attempts", "%ld attempts instead of %d [%s]", calls() - c0, n, cfgs.c_str());
                vf::stat("attempts", n); break; }
            case 2: { A.net->conn_peer(id, -1, rd); vf::watchdog_key("manage:stops-retrying"); int n = r.range(3, 12);
                while (calls() - c0 < n) vf::msleep(2);
                vf::progress(); vf::stat("attempts", n);
                A.net->conn_peer(id, 0, rd); A.net->has_peer(id); vf::msleep(5);
                long c1 = calls(); vf::msleep(200);
                VF_CHECK(calls() == c1, "manage:does-not-give-up", "%ld attempts after giving up [%s]", calls() - c1, cfgs.c_str()); vf::stat("given_up");
                A.net->conn_peer(id, 0, rd); A.net->has_peer(id); vf::msleep(50); // giving up once more is no attempt either
                VF_CHECK(calls() == c1, "manage:does-not-give-up", "%ld attempts without a try left [%s]", calls() - c1, cfgs.c_str());
                break; }
            case 3: { // whoever gave up does not dial either after a channel made by the remote side is gone
                A.net->conn_peer(id, 0, rd); A.net->has_peer(id); vf::msleep(30);
                long c1 = calls(); Scripted sc; vf::watchdog_key("manage:inbound-not-admitted");
                if (!sc.c.connect(A.port)) { vf::violation("manage:connect-failed", cfgs); break; }
                sc.start(); sc.c.send_all(pp(PING, true, py, 1 + r.below(1000))); ups++;
                while (A.ups < ups && !vf::violated()) vf::msleep(1);
                if (r.chance(1, 2)) vf::msleep(r.below(50));
                sc.end(); vf::watchdog_key("manage:break-not-noticed");
                while (A.up && !vf::violated()) vf::msleep(1);
                vf::progress(); vf::msleep(120);
                VF_CHECK(calls() == c1, "manage:does-not-give-up", "%ld attempts after a channel of the remote side was lost [%s]", calls() - c1, cfgs.c_str());
                vf::stat("inbound_after_giving_up"); break; }
            default: { int n = r.range(2, 5); A.net->conn_peer(id, n, rd); vf::usleep_(r.below(80000)); A.net->del_peer(id); A.net->has_peer(id); vf::msleep(5);
                long c1 = calls(); VF_CHECK(c1 - c0 <= n, "manage:number-of-attempts", "%ld attempts instead of at most %d [%s]", c1 - c0, n, cfgs.c_str());
                vf::msleep(150);
                VF_CHECK(calls() == c1, "manage:dials-deleted-peer", "%ld attempts [%s]", calls() - c1, cfgs.c_str());
                A.net->add_peer(id); A.net->set_peer_addr(id, na(py)); vf::stat("deleted_while_dialling"); }
        }
    }
    VF_CHECK(A.ups == ups, "manage:connected-to-nobody", "%s", cfgs.c_str());
    w.end(); quit = true; if (st.joinable()) st.join();
    vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}
static void admit_case(uint64_t seed) {
    Rng r(seed); int kind = r.below(3); bool tls = kind != 0; auto im = kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED;
    cfgs = vf::fmt("admit seed=%llu kind=%d", (unsigned long long)seed, kind);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    World w(2, tls, im, r, 0.2, 2.5); auto &A = w[0], &B = w[1];
    vf::watchdog(40, [&] { return cfgs + vf::fmt(" up %d/%d ups %ld/%ld unknown %ld", A.up.load(), B.up.load(), A.ups.load(), B.ups.load(), A.unknowns.load()); }, "manage:stall");
    std::atomic<int> bad_unknown{0};
    A.on_unknown = [&](const NetAddr &a, const bytes &cert) {
        if (a != na(B.port) || cert != (tls ? idents()[1].cert_der : bytes())) { bad_unknown++; vf::violation("manage:unknown-peer-report", "address or certificate is not what the remote presented [" + cfgs + "]"); }
    };
    A.single = false; // deletion is not reported, so the reports need not alternate
    B.net->add_peer(A.pid); B.net->set_peer_addr(A.pid, na(A.port)); B.net->has_peer(A.pid);
    B.net->conn_peer(A.pid, -1, 0.1 * tscale());
    vf::watchdog_key("manage:unknown-peer-not-reported");
    while (A.unknowns < 2 && !vf::violated()) vf::msleep(1);
    vf::progress();
    VF_CHECK(A.ups == 0 && B.ups == 0, "manage:unregistered-peer-admitted", "ups %ld/%ld [%s]", A.ups.load(), B.ups.load(), cfgs.c_str());
    int rounds = r.range(1, 4);
    for (int k = 0; k < rounds && !vf::violated(); k++) {
        bool churn = r.chance(1, 2);
        if (churn) { int n = r.range(1, 12); for (int i = 0; i < n; i++) { A.net->add_peer(B.pid); if (r.chance(2, 3)) vf::usleep_(r.below(r.chance(1, 4) ? 150000 : 3000)); A.net->del_peer(B.pid); if (r.chance(1, 3)) vf::usleep_(r.below(3000)); } vf::stat("churns", n); }
        else {
            A.net->add_peer(B.pid);
            vf::watchdog_key("manage:registered-peer-not-admitted");
            B.net->conn_peer(A.pid, -1, 0.3 * tscale());
            // B redials; A admits it
            while (!vf::violated()) { uint64_t x[2]; if (probe_once(A, B, x)) break; vf::msleep(5); }
            vf::progress(); vf::stat("admitted");
            A.net->del_peer(B.pid);
        }
        VF_CHECK(!A.net->has_peer(B.pid), "manage:has-peer", "%s", cfgs.c_str());
        A.loop->flush();
        long u = A.ups, un = A.unknowns;
        B.net->conn_peer(A.pid, -1, 0.1 * tscale()); // keeps knocking
        vf::watchdog_key("manage:deleted-channel-survives");
        // the channel is closed: B notices and its attempts are reported as unknown
        while ((A.unknowns < un + 2) && !vf::violated()) vf::msleep(1);
        vf::progress();
        A.loop->flush();
        VF_CHECK(A.ups == u, "manage:deleted-peer-came-back", "%ld 'connected' reports after the deletion [%s]", A.ups - u, cfgs.c_str());
        int code = -1; try { A.net->_send_msg(mkmsg(OP_DATA, bytes(1, 1)), B.pid); } catch (const SalticidaeError &e) { code = e.get_code(); }
        VF_CHECK(code == SALTI_ERROR_PEER_NOT_EXIST, "manage:unknown-peer-accepted", "code %d [%s]", code, cfgs.c_str());
        vf::stat("deleted");
    }
    B.net->conn_peer(A.pid, 0);
    vf::watchdog_key("manage:connections-left"); 
    while (w.links() && !vf::violated()) vf::msleep(5);
    vf::progress(); vf::stat("unknown_reports", A.unknowns);
    w.end(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}
// an impostor: another certificate, the registered peer's address
static void impostor_case(uint64_t seed) {
    Rng r(seed);
    cfgs = vf::fmt("impostor seed=%llu", (unsigned long long)seed);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    World w(3, true, PNet::CERT_BASED, r, 0.2, 2.5); auto &A = w[0], &B = w[1], &C = w[2];
    vf::watchdog(40, [&] { return cfgs + vf::fmt(" ups %ld/%ld/%ld unknown %ld", A.ups.load(), B.ups.load(), C.ups.load(), A.unknowns.load()); }, "manage:stall");
    std::atomic<long> seen{0};
    A.on_unknown = [&](const NetAddr &a, const bytes &cert) { if (a != na(C.port) || cert != idents()[2].cert_der) vf::violation("manage:unknown-peer-report", cfgs); seen++; };
    A.net->add_peer(B.pid); B.net->add_peer(A.pid); B.net->set_peer_addr(A.pid, na(A.port)); B.net->has_peer(A.pid); A.net->has_peer(B.pid);
    B.net->conn_peer(A.pid, -1, 0.5); converge(w, A, B, false);
    long ea = A.events, eb = B.events;
    // C dials A again and again; and C is dialled under B's name
    C.net->add_peer(A.pid); C.net->set_peer_addr(A.pid, na(A.port)); C.net->conn_peer(A.pid, -1, 0.1 * tscale());
    while (seen < 3 && !vf::violated()) vf::msleep(1);
    vf::progress();
    uint64_t x[2];
    for (int i = 0; i < 5 && !vf::violated(); i++) VF_CHECK(probe_once(A, B, x, 5), "manage:impostor-disturbs-channel", "%s", cfgs.c_str());
    VF_CHECK(A.events == ea && B.events == eb && C.ups == 0, "manage:impostor-disturbs-channel", "events %ld %ld, impostor connected %ld times [%s]", A.events - ea, B.events - eb, C.ups.load(), cfgs.c_str());
    C.net->conn_peer(A.pid, 0);
    // A looks for somebody it does not know yet at C's address: C is not who is meant, and is left alone
    C.net->conn_peer(A.pid, 0);
    {
        PeerId x3 = PeerId(salticidae::X509::create_from_der(idents()[3].cert_der)); long t0 = C.px->total_links;
        vf::watchdog_key("manage:impostor-held");
        A.net->add_peer(x3); A.net->set_peer_addr(x3, na(C.port)); A.net->has_peer(x3); A.net->conn_peer(x3, 1, 100);
        while (C.px->total_links == t0 && !vf::violated()) vf::msleep(1);
        vf::hiccup(true);
        bool gone = vf::wait_until([&] { return C.px->links == 0; }, 1.2);
        double h = vf::hiccup();
        if (!gone && h < 0.3) vf::violation("manage:impostor-held", vf::fmt("the connection to somebody else is still there after 1.2 s [%s]", cfgs.c_str()));
        VF_CHECK(A.ups == 1 && C.ups == 0, "manage:wrong-certificate-admitted", "%ld channels here, %ld there [%s]", A.ups.load(), C.ups.load(), cfgs.c_str());
        vf::stat("strangers_dialled"); vf::progress();
    }
    // A looks for C's certificate at B's address: must not match
    A.net->add_peer(C.pid); A.net->set_peer_addr(C.pid, na(B.port)); A.net->conn_peer(C.pid, 2, 0.2); vf::msleep(400);
    VF_CHECK(A.ups == 1, "manage:wrong-certificate-admitted", "%ld channels [%s]", A.ups.load(), cfgs.c_str());
    vf::stat("impostor_attempts", seen); vf::progress();
    w.end(); vf::sig(seed); vf::eval(); vf::sample(cfgs);
}


// a peer that lost its state dials once: it replaces the stale channel; and handshakes on connections that are already gone do no harm
static void takeover_case(uint64_t seed) {
    Rng r(seed); int kind = r.below(3); bool tls = kind != 0; auto im = kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED;
    bool knows = r.chance(2, 3), dialler_stays = knows && r.chance(1, 2); int rounds = r.range(1, 3);
    cfgs = vf::fmt("takeover seed=%llu kind=%d knows=%d dialler_stays=%d", (unsigned long long)seed, kind, knows, dialler_stays);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    World w(2, tls, im, r, 2, 60); auto &A = w[0], &B = w[1];
    vf::watchdog(25, [&] { return cfgs + vf::fmt(" up %d/%d ups %ld/%ld downs %ld/%ld links %ld", A.up.load(), B.up.load(), A.ups.load(), B.ups.load(), A.downs.load(), B.downs.load(), w.links()); }, "peer:no-convergence");
    A.net->add_peer(B.pid); if (knows) A.net->set_peer_addr(B.pid, na(B.port));
    auto reg = [&] { B.net->add_peer(A.pid); B.net->set_peer_addr(A.pid, na(A.port)); B.net->has_peer(A.pid); A.net->has_peer(B.pid); };
    reg();
    // one attempt only: nobody retries for a long time.  (With probability 2^-16 the random numbers of both sides
    // coincide and an attempt fails, so a single failure is tolerated.)
    static int failed = 0;
    auto once = [&](Node &x, Node &y) {
        x.net->conn_peer(y.pid, 1, 1000);
        if (vf::wait_until([&] { return x.up && y.up; }, 8)) return;
        if (++failed > 1) vf::violation("peer:attempt-fails", cfgs);
        x.net->conn_peer(y.pid, 1, 1000);
    };
    if (dialler_stays) once(A, B); else once(B, A);
    converge(w, A, B, false);
    for (int k = 0; k < rounds && !vf::violated(); k++) {
        // the old incarnation leaves without a word: A believes in the old channel
        for (auto &d: w.nodes) d->px->freeze();
        B.unmake(); B.make(); reg();
        if (r.chance(1, 2)) vf::usleep_(r.below(20000));
        vf::watchdog_key("peer:takeover-refused"); int f0 = failed;
        once(B, A);
        if (!converge(w, A, B, false)) break;
        if (failed != f0) break;
        VF_CHECK(A.downs == k + 1 && A.ups == k + 2, "peer:takeover-reports", "ups %ld downs %ld after %d takeovers [%s]", A.ups.load(), A.downs.load(), k + 1, cfgs.c_str());
        vf::stat("takeovers");
    }
    w.end(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}
static void stale_case(uint64_t seed) {
    Rng r(seed); bool dialled = r.chance(1, 2); int n = r.range(1, 4);
    cfgs = vf::fmt("stale seed=%llu dialled=%d", (unsigned long long)seed, dialled);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    World w(1, false, PNet::ADDR_BASED, r, 2, 60, false); auto &A = w[0]; A.single = true;
    vf::watchdog(25, [&] { return cfgs + vf::fmt(" up %d ups %ld downs %ld", A.up.load(), A.ups.load(), A.downs.load()); }, "peer:stale-handshake");
    int py = vf::free_port(); PeerId id{na(py)}; Raw ls;
    A.net->add_peer(id); A.net->has_peer(id);
    if (dialled) { ls.listen(py); A.net->set_peer_addr(id, na(py)); }
    // the remote completes its part of the handshake and is gone before the node looks at it
    auto busy = [&](std::function<void()> fn) { // while the user loop is occupied
        std::atomic<int> st{0}; A.loop->post([&] { st = 1; while (st == 1) vf::usleep_(200); st = 3; });
        while (!st) vf::usleep_(100);
        fn(); vf::msleep(r.range(1, 30)); st = 2; while (st != 3) vf::usleep_(100);
    };
    for (int k = 0; k < n && !vf::violated(); k++) {
        Raw c;
        if (dialled) {
            A.net->conn_peer(id, 1, 1000); c = ls.accept(10); if (c.fd < 0) { vf::violation("peer:no-attempt", cfgs); break; }
            busy([&] { c.send_all(pp(PONG, true, py, 0x20000)); vf::usleep_(r.below(3000)); if (r.chance(1, 2)) c.reset(); else c.close(); });
        } else {
            if (!c.connect(A.port)) { vf::violation("peer:cannot-connect", cfgs); break; }
            vf::msleep(5);
            busy([&] { c.send_all(pp(PING, true, py, 5)); vf::usleep_(r.below(3000)); if (r.chance(1, 2)) c.reset(); else c.close(); });
        }
        A.net->has_peer(id); A.loop->flush(); A.net->has_peer(id); A.loop->flush();
        // whatever was reported, it does not stay
        while (A.up && !vf::violated()) vf::msleep(1);
        vf::progress(); vf::stat("stale_handshakes");
    }
    // and a proper peer is still welcome
    Scripted s;
    if (dialled) { A.net->conn_peer(id, 1, 1000); s.c = ls.accept(10); if (s.c.fd < 0) vf::violation("peer:no-attempt", cfgs); else { s.start(); vf::msleep(5); s.c.send_all(pp(PONG, true, py, 0x20000)); } }
    else { s.c.connect(A.port); s.start(); s.c.send_all(pp(PING, true, py, 5)); }
    while (!A.up && !vf::violated()) vf::msleep(1);
    vf::progress(); vf::stat("welcomed_afterwards");
    s.end(); while (A.up && !vf::violated()) vf::msleep(1);
    w.end(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}
// histories that end in the middle of a handshake: the side that keeps trying gets its channel all the same
static void interrupted_case(uint64_t seed) {
    Rng r(seed); bool unset = r.chance(1, 4);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    if (unset) { // the address of a peer is withdrawn while it is being dialled; then the other side dials
        int kind = r.below(3); bool tls = kind != 0;
        cfgs = vf::fmt("unaddressed seed=%llu kind=%d", (unsigned long long)seed, kind);
        World w(2, tls, kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED, r, 0.5, 5); auto &A = w[0], &B = w[1];
        vf::watchdog(40, [&] { return cfgs + vf::fmt(" up %d/%d ups %ld/%ld downs %ld/%ld", A.up.load(), B.up.load(), A.ups.load(), B.ups.load(), A.downs.load(), B.downs.load()); }, "peer:no-convergence");
        A.net->add_peer(B.pid); A.net->set_peer_addr(B.pid, na(vf::free_port())); A.net->has_peer(B.pid);
        B.net->add_peer(A.pid); B.net->set_peer_addr(A.pid, na(A.port)); B.net->has_peer(A.pid);
        A.net->conn_peer(B.pid, -1, r.pick(vector<double>{0.01, 1000})); vf::msleep(r.range(1, 40));
        A.net->set_peer_addr(B.pid, NetAddr()); A.net->has_peer(B.pid);
        B.net->conn_peer(A.pid, -1, 0.15 * tscale());
        converge(w, A, B, false); vf::stat("unaddressed");
        w.end(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
        return;
    }
    int n = r.range(1, 3); bool busy = r.chance(1, 2);
    cfgs = vf::fmt("interrupted seed=%llu n=%d busy=%d", (unsigned long long)seed, n, busy);
    World w(2, false, PNet::ADDR_BASED, r, 0.5, 5); auto &A = w[0], &B = w[1];
    vf::watchdog(40, [&] { return cfgs + vf::fmt(" up %d/%d ups %ld/%ld downs %ld/%ld", A.up.load(), B.up.load(), A.ups.load(), B.ups.load(), A.downs.load(), B.downs.load()); }, "peer:no-convergence");
    // only A dials; the other side waits
    A.net->add_peer(B.pid); A.net->set_peer_addr(B.pid, na(B.port)); A.net->has_peer(B.pid);
    B.net->add_peer(A.pid); B.net->has_peer(A.pid);
    A.net->conn_peer(B.pid, -1, 0.15 * tscale());
    converge(w, A, B, false);
    for (int k = 0; k < n && !vf::violated(); k++) {
        // a connection that announces itself as a new incarnation of B and is gone at once
        Raw c; if (!c.connect(A.port)) { vf::violation("peer:cannot-connect", cfgs); break; }
        vf::msleep(r.range(1, 5));
        auto go = [&] { c.send_all(pp(PING, true, B.port, 5)); vf::usleep_(r.below(2000)); if (r.chance(1, 2)) c.reset(); else c.close(); };
        if (busy) {
            std::atomic<int> st{0}; A.loop->post([&] { st = 1; while (st == 1) vf::usleep_(200); st = 3; });
            while (!st) vf::usleep_(100);
            go(); vf::msleep(r.range(1, 30)); st = 2; while (st != 3) vf::usleep_(100);
        } else go();
        vf::stat("interrupted_takeovers");
        if (r.chance(2, 3)) converge(w, A, B, false);
    }
    converge(w, A, B, false);
    w.end(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}
// C12: channels that were set up by a plain connection, addresses that change while they are dialled,
// and remotes that connect from the address they listen on
static void odd_case(uint64_t seed) {
    Rng r(seed); int what = seed % 3, kind = r.below(3); bool tls = kind != 0;
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    cfgs = vf::fmt("odd seed=%llu what=%d kind=%d", (unsigned long long)seed, what, kind);
    auto im = kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED;
    if (what == 2) {
        World w(1, false, PNet::ADDR_BASED, r, 0.5, 5, false); auto &A = w[0]; A.single = false; int py = vf::free_port(); PeerId id{na(py)};
        vf::watchdog(40, [] { return cfgs; }, "peer:no-convergence");
        Raw c; if (!c.connect(A.port, 0, 0, py)) { vf::violation("peer:cannot-connect", cfgs); return; }
        if (r.chance(1, 2)) { vf::msleep(r.range(1, 10)); }
        A.net->add_peer(id); A.net->set_peer_addr(id, na(py)); A.net->has_peer(id); A.net->conn_peer(id, -1, 0.05);
        vf::msleep(r.range(1, 150)); if (r.chance(1, 2)) { bytes j; c.send_all(pp(PING, true, vf::free_port(), 5)); vf::msleep(5); }
        c.reset();
        Raw ls; bool ok = vf::wait_until([&] { ls.close(); return ls.listen(py); }, 5); if (!ok) { vf::stat("odd_no_port"); w.end(); return; }
        Raw d = ls.accept(12); VF_CHECK(d.fd >= 0, "peer:no-convergence", "not dialled any more [%s]", cfgs.c_str());
        vf::stat("dialled_from_own_port"); w.end(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
        return;
    }
    World w(2, tls, im, r, 0.5, 5); auto &A = w[0], &B = w[1];
    vf::watchdog(40, [&] { return cfgs + vf::fmt(" up %d/%d ups %ld/%ld downs %ld/%ld", A.up.load(), B.up.load(), A.ups.load(), B.ups.load(), A.downs.load(), B.downs.load()); }, "peer:no-convergence");
    A.net->add_peer(B.pid); A.net->set_peer_addr(B.pid, na(B.port)); A.net->has_peer(B.pid);
    B.net->add_peer(A.pid); if (what && r.chance(1, 2)) B.net->set_peer_addr(A.pid, na(A.port)); B.net->has_peer(A.pid);
    if (what == 0) { // the attempt fails, the next one is far away: plain connections, one after the other
        int n = r.range(1, 4);
        B.px->refuse = true; A.net->conn_peer(B.pid, -1, 1000); vf::msleep(20); B.px->refuse = false;
        for (int k = 0; k < n && !vf::violated(); k++) {
            A.net->connect(na(B.port));
            converge(w, A, B, false); vf::stat("manual_channels");
            long da = A.downs, db = B.downs; if (vf::violated()) break;
            for (auto &d: w.nodes) d->px->cut();
            VF_CHECK(vf::wait_until([&] { return A.downs > da && B.downs > db; }, 12), "peer:loss-not-noticed", "the loss of the channel was not reported to %s [%s]", A.downs > da ? "the listener" : "the dialler", cfgs.c_str());
            vf::wait_until([&] { return w.links() == 0; }, 5);
        }
    }
    // the address changes while attempts are made, and in the end is the right one
    for (auto &d: w.nodes) d->px->delay_ms = what ? r.below(40) : 0;
    A.net->conn_peer(B.pid, -1, 0.15 * tscale());
    if (what == 1) {
        int n = r.range(1, 6), other = vf::free_port();
        for (int k = 0; k < n; k++) { vf::msleep(r.below(80)); A.net->set_peer_addr(B.pid, r.chance(1, 3) ? NetAddr() : na(other)); vf::msleep(r.below(30)); A.net->set_peer_addr(B.pid, na(B.port)); vf::stat("address_changes"); }
        A.net->has_peer(B.pid); A.net->conn_peer(B.pid, -1, 0.15 * tscale());
    }
    for (auto &d: w.nodes) d->px->delay_ms = 0;
    converge(w, A, B, false);
    w.end(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}
// C15: whoever is not (or no longer) registered is disconnected, and not only when some timeout strikes
static void expel_case(uint64_t seed) {
    Rng r(seed); int what = (int)(seed % 5);
    cfgs = vf::fmt("expel seed=%llu what=%d", (unsigned long long)seed, what);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    vf::watchdog(40, [] { return cfgs; }, "manage:stall");
    const double lim = 12; // milliseconds when all is well; the timeouts are far longer
    if (what == 0) { // an established channel is closed with the deletion
        int kind = r.below(3); bool tls = kind != 0;
        World w(2, tls, kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED, r, 2, 100); auto &A = w[0], &B = w[1]; bool adial = r.chance(1, 2);
        A.net->add_peer(B.pid); B.net->add_peer(A.pid);
        (adial ? A : B).net->set_peer_addr((adial ? B : A).pid, na((adial ? B : A).port)); A.net->has_peer(B.pid); B.net->has_peer(A.pid);
        (adial ? A : B).net->conn_peer((adial ? B : A).pid, 2, 5);
        converge(w, A, B, false);
        long d = B.downs; A.net->del_peer(B.pid);
        VF_CHECK(vf::wait_until([&] { return B.downs > d && !w.links(); }, lim), "manage:deleted-channel-survives", "the remote still has it after %.0fs [%s]", lim, cfgs.c_str());
        vf::stat("channels_closed_by_deletion"); w.end();
    } else {
        World w(1, false, PNet::ADDR_BASED, r, 2, 100, false); auto &A = w[0]; A.single = false;
        int py = vf::free_port(); PeerId id{na(py)}; Raw ls, c; std::atomic<long> un{0};
        A.on_unknown = [&](const NetAddr &a, const bytes &) { if (a != na(py)) vf::violation("manage:unknown-peer-report", cfgs); un++; };
        auto closed = [&](const char *key) { VF_CHECK(c.closed_within(lim), key, "still open after %.0fs [%s]", lim, cfgs.c_str()); };
        if (what == 1) { // an attempt under way
            ls.listen(py); A.net->add_peer(id); A.net->set_peer_addr(id, na(py)); A.net->conn_peer(id, r.pick(vector<int>{1, 3, -1}), 1000);
            c = ls.accept(10); if (c.fd < 0) vf::violation("manage:too-few-attempts", cfgs);
            vf::usleep_(r.below(20000)); A.net->del_peer(id); closed("manage:attempt-survives-deletion");
            vf::stat("attempts_closed_by_deletion");
        } else if (what == 2) { // an unknown remote
            int n = r.range(1, 3); for (int k = 0; k < n && !vf::violated(); k++) {
                c.close(); c = Raw(); c.connect(A.port); c.send_all(pp(PING, true, py, r.pick(vector<int>{0, 1, 0xffff})));
                closed("manage:unknown-remote-kept"); }
            VF_CHECK(vf::wait_until([&] { return un == n; }, 10) && un == n, "manage:unknown-peer-not-reported", "%ld reports of %d [%s]", un.load(), n, cfgs.c_str());
            VF_CHECK(A.ups == 0, "manage:unregistered-peer-admitted", "%s", cfgs.c_str());
            vf::stat("unknown_remotes_closed");
        } else if (what == 3) { // a manually dialled remote that claims to be a peer
            ls.listen(py); A.net->connect(na(py)); c = ls.accept(10); vf::msleep(5);
            c.send_all(pp(PONG, true, py, r.pick(vector<int>{1, 0x20000}))); closed("manage:unknown-remote-kept");
            VF_CHECK(A.ups == 0, "manage:unregistered-peer-admitted", "%s", cfgs.c_str());
            vf::stat("unknown_remotes_closed");
        } else { // established, deleted, added again: the old channel is gone, a new one works
            A.net->add_peer(id); A.net->has_peer(id);
            Scripted s; s.c.connect(A.port); s.start(); s.c.send_all(pp(PING, true, py, 5));
            VF_CHECK(vf::wait_until([&] { return A.ups == 1; }, lim), "manage:registered-peer-not-admitted", "%s", cfgs.c_str());
            A.net->del_peer(id); if (r.chance(1, 2)) A.net->has_peer(id); A.net->add_peer(id);
            VF_CHECK(vf::wait_until([&] { return s.closed.load(); }, lim), "manage:deleted-channel-survives", "%s", cfgs.c_str());
            s.end(); A.loop->flush();
            VF_CHECK(A.ups == 1, "manage:deleted-peer-came-back", "%s", cfgs.c_str());
            Scripted t; t.c.connect(A.port); t.start(); t.c.send_all(pp(PING, true, py, 5));
            VF_CHECK(vf::wait_until([&] { return A.ups == 2; }, lim), "manage:registered-peer-not-admitted", "%s", cfgs.c_str());
            t.end(); vf::stat("channels_closed_by_deletion");
        }
        w.end();
    }
    vf::progress(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}

// ---------------------------------------------------------------- C20
static void race_case(uint64_t seed) {
    Rng r(seed); int kind = r.below(3); bool tls = kind != 0; auto im = kind == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED; int n = 3, nth = r.range(2, 4), nop = r.range(30, 120);
    cfgs = vf::fmt("race seed=%llu kind=%d threads=%d ops=%d", (unsigned long long)seed, kind, nth, nop);
    vf_fault_cfg f; memset(&f, 0, sizeof f); if (r.chance(1, 2)) f.delay = 100; vf_set_faults(&f);
    World w(n, tls, im, r, 0.1, 2.5);
    vf::watchdog(40, [] { return cfgs; }, "race:deadlock");
    for (int i = 0; i < n; i++) { w[i].single = false; w[i].on_peer = [](const conn_t &c, bool) { (void)std::string(*c); c->get_addr(); c->is_terminated(); };
        for (int j = 0; j < n; j++) if (i != j) { w[i].net->add_peer(w[j].pid); w[i].net->set_peer_addr(w[j].pid, na(w[j].port)); if (i < j) w[i].net->conn_peer(w[j].pid, -1, 0.3); } }
    vector<std::thread> ths;
    for (int t = 0; t < nth; t++) ths.emplace_back([&, t, seed] {
        Rng q(vf::mix(seed, t)); vector<conn_t> cs;
        for (int k = 0; k < nop && !vf::violated(); k++) {
            int i = q.below(n), j = (i + 1 + q.below(n - 1)) % n; auto &d = w[i], &o = w[j];
            try { switch (q.below(18)) {
                case 0: d.net->conn_peer(o.pid, q.range(-1, 2), 0.2); break;
                case 1: case 2: case 3: d.net->_send_msg(mkmsg(OP_DATA, bytes(q.below(2000), 1)), o.pid); break;
                case 4: d.net->_send_msg_deferred(mkmsg(OP_DATA, bytes(q.below(2000), 1)), o.pid); break;
                case 5: { vector<PeerId> v; for (int z = 0; z < n; z++) if (z != i) v.push_back(w[z].pid); d.net->_multicast_msg(mkmsg(OP_DATA, bytes(q.below(100), 1)), v); break; }
                case 6: case 7: { auto c = d.net->get_peer_conn(o.pid); if (c) cs.push_back(c); break; }
                case 8: if (!cs.empty()) { auto c = q.pick(cs); if (uid_of(c)) { c->get_peer_addr(); c->get_peer_id(); c->get_addr(); c->get_mode(); c->is_terminated(); } } break;
                case 9: if (!cs.empty() && q.chance(1, 3)) { auto c = q.pick(cs); if (uid_of(c)) c->get_net()->terminate(c); } break;
                case 10: { // nothing but one query for a while: other operations would order its accesses
                    int what = q.below(4); conn_t c; if (what == 3) { c = d.net->get_peer_conn(o.pid); if (!c) break; }
                    for (int z = 0; z < 50; z++) {
                        if (what == 0) { if (d.net->has_peer(o.pid)) vf::stat("polls_found"); } else if (what == 1) { if (d.net->get_npending() > 100000) vf::violation("race:npending", cfgs); }
                        else if (what == 2) { try { d.net->get_peer_conn(o.pid); } catch (const SalticidaeError &) {} }
                        else { c->is_terminated(); c->get_addr(); c->get_mode(); c->get_peer_addr(); c->get_peer_id(); }
                        vf::usleep_(100);
                    }
                    vf::stat("polls"); break; }
                case 11: if (q.chance(1, 3)) { d.net->del_peer(o.pid); d.net->add_peer(o.pid); d.net->set_peer_addr(o.pid, na(o.port)); } break;
                case 12: d.px->cut(); break;
                case 13: { auto c = d.net->connect(na(o.port)); (void)c; break; }
                case 14: { auto c = d.net->connect_sync(na(o.port)); cs.push_back(static_pointer_cast<PNet::Conn>(c)); break; }
                case 15: if (!cs.empty()) { auto c = q.pick(cs); if (uid_of(c)) c->get_net()->MNet::_send_msg(mkmsg(OP_DATA, bytes(10, 1)), c); } break;
                case 16: d.net->set_peer_addr(o.pid, na(o.port)); break;
                default: { NetAddr a("127.0.0.1:" + std::to_string(o.port)); (void)std::string(a); SALTICIDAE_LOG_INFO("thread %d operation %d", t, k); }
            } } catch (const SalticidaeError &) {} 
            if (cs.size() > 8) cs.erase(cs.begin());
            if (q.chance(1, 3)) vf::usleep_(q.below(2000));
            vf::progress(); vf::stat("operations");
        }
    });
    for (auto &t: ths) t.join();
    long ev = 0; for (auto &d: w.nodes) ev += d->events;
    vf::stat("peer_events", ev);
    w.end(); vf::sig(vf::mix(vf::hash(cfgs), ev)); vf::eval(); vf::sample(cfgs);
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    auto &m = vf::args.mode;
    idents();
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        uint64_t seed = vf::args.seed * 1000 + k;
        if (m == "pair") pair_case(seed);
        else if (m == "traffic") traffic_case(seed);
        else if (m == "backlog") backlog_case(seed);
        else if (m == "multicast") multicast_case(seed);
        else if (m == "heartbeat") heartbeat_case(seed);
        else if (m == "manage") manage_case(seed);
        else if (m == "attempts") attempts_case(seed);
        else if (m == "admit") admit_case(seed);
        else if (m == "impostor") impostor_case(seed);
        else if (m == "race") race_case(seed);
        else if (m == "takeover") takeover_case(seed);
        else if (m == "stale") stale_case(seed);
        else if (m == "odd") odd_case(seed);
        else if (m == "interrupted") interrupted_case(seed);
        else if (m == "expel") expel_case(seed);
        if (const char *v = vf_fd_violation()) vf::violation("peer:fd", string(v) + " [" + cfgs + "]");
    }
    vf::finish();
}
