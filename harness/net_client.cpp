// C22: a client network and clients with known addresses (raw sockets bound to known ports, or TLS networks told their address).
// Every message carries the address and the generation of the client it was sent to.
#include "netcommon.h"

typedef ClientNetwork<uint8_t> CNet;
static string cfgs;
static const op_t OP_DATA = 1, OP_UP = 2;
static const int S = 3; // sender threads

// an address: loopback host (0: the usual one) and port
static uint32_t ip_of(int64_t a) { return a >> 16 ? (uint32_t)(0x7f000000 | (a >> 16)) : INADDR_LOOPBACK; }
static NetAddr nac(int64_t a) { auto s = sa_of(a & 0xffff); s.sin_addr.s_addr = htonl(ip_of(a)); return NetAddr(&s); }
static int64_t code_of(const NetAddr &a) { uint32_t ip = ntohl(a.ip); return (ip == INADDR_LOOPBACK ? 0 : (int64_t)(ip & 0xffffff) << 16) | ntohs(a.port); }

struct __attribute__((packed)) Tag { uint64_t port; uint32_t gen; uint32_t sender; uint64_t seq; };

struct Slot {   // one client address
    int64_t port = 0; uint32_t gen = 0;
    std::atomic<long> ups{0}, downs{0};
    pthread_rwlock_t rw = PTHREAD_RWLOCK_INITIALIZER;   // senders shared, open/close exclusive
    std::atomic<int> live{0};                             // the current generation is connected and told so
    uint64_t acc[S + 1] = {0};                            // accepted for this generation (by sender i only; S: main)
    std::atomic<uint64_t> got[S + 1]; std::atomic<long> def{0};
    Raw sock; std::thread reader; std::atomic<bool> rquit{false};
    MNet::conn_t sc; vf::Mutex mu;                      // the server's newest connection
    Slot() { for (auto &g: got) g = 0; }
    void rd() { pthread_rwlock_rdlock(&rw); } void wr() { pthread_rwlock_wrlock(&rw); } void un() { pthread_rwlock_unlock(&rw); }
};

static void check_tag(const uint8_t *p, size_t n, Slot &s) {
    Tag t; if (n < sizeof t) { vf::violation("client:corrupted", cfgs); return; }
    memcpy(&t, p, sizeof t);
    if ((int64_t)t.port != s.port) { vf::violation("client:delivered-to-somebody-else", vf::fmt("for %llx at %llx [%s]", (unsigned long long)t.port, (unsigned long long)s.port, cfgs.c_str())); return; }
    if (t.sender == 99) { s.def++; vf::stat("deferred_delivered"); return; }        // deferred: goes to whoever owns the address by then
    if (t.gen != s.gen) { vf::violation("client:delivered-to-another-connection", vf::fmt("generation %u at %u of %lld [%s]", t.gen, s.gen, (long long)s.port, cfgs.c_str())); return; }
    uint64_t g = s.got[t.sender];
    if (t.seq != g) vf::violation("client:order", vf::fmt("sender %u: got %llu, expected %llu [%s]", t.sender, (unsigned long long)t.seq, (unsigned long long)g, cfgs.c_str()));
    for (size_t i = sizeof t; i < n; i++) if (p[i] != (uint8_t)(t.seq + i)) { vf::violation("client:corrupted", cfgs); break; }
    s.got[t.sender] = g + 1; vf::progress();
}
static Msg mk(const Slot &s, int sender, uint64_t seq, size_t extra) {
    Tag t{(uint64_t)s.port, s.gen, (uint32_t)sender, seq}; bytes b(sizeof t + extra); memcpy(&b[0], &t, sizeof t);
    for (size_t i = sizeof t; i < b.size(); i++) b[i] = (uint8_t)(seq + i);
    Msg m; m.set_opcode(OP_DATA); m.set_payload(std::move(b)); m.set_checksum(); return m;
}

struct Server {
    Loop loop; std::unique_ptr<CNet> net; int port;
    std::map<int64_t, Slot *> slots; vf::Mutex mu;
    std::map<int32_t, vector<int>> errs; vf::Mutex emu;
    std::atomic<long> ups{0}, downs{0}, msgs{0};
    Server(Rng &r, bool tls, size_t sendbuf = 0) {
        port = vf::free_port();
        loop.run([&] {
            CNet::Config c; c.nworker(r.range(1, 4)); c.max_msg_size(1 << 18); c.burst_size(r.pick(vector<size_t>{1, 1000})); c.max_listen_backlog(128);
            if (tls) set_tls(c, 0);
            if (sendbuf) c.max_send_buff_size(sendbuf);
            net.reset(new CNet(loop.ec, c));
            net->reg_conn_handler([this](const ConnPool::conn_t &c, bool up) {
                int64_t p = code_of(c->get_addr());
                Slot *s = nullptr; { vf::Lock g(mu); auto it = slots.find(p); if (it != slots.end()) s = it->second; }
                (up ? ups : downs)++;
                if (s) { if (up) { { vf::Lock g(s->mu); s->sc = salticidae::static_pointer_cast<MNet::Conn>(c); } s->ups++; } else s->downs++; }
                vf::progress();
                return true;
            });
            net->reg_error_handler([this](const std::exception_ptr e, bool fatal, int32_t id) {
                if (fatal) vf::violation("client:fatal-error", cfgs);
                if (id >= 0) { vf::Lock g(emu); errs[id].push_back(VF_TSAN ? 0 : err_code(e)); }
            });
            net->set_handler(OP_UP, [this](const Msg &, const MNet::conn_t &) { msgs++; });
            net->start(); net->listen(na(port));
        });
    }
    void end() { { vf::Lock g(mu); for (auto &x: slots) { vf::Lock h(x.second->mu); x.second->sc = nullptr; } } loop.run([&] { net->stop(); net.reset(); }); }
    vector<int> err(int32_t id) { vf::Lock g(emu); auto it = errs.find(id); return it == errs.end() ? vector<int>() : it->second; }
};

// 1: accepted, 0: refused, -1: client does not exist
static int try_send(CNet &n, const Msg &m, int64_t port) {
    try { return n._send_msg(m, nac(port)) ? 1 : 0; }
    catch (const SalticidaeError &e) { if (e.get_code() != SALTI_ERROR_CLIENT_NOT_EXIST) vf::violation("client:wrong-error", vf::fmt("code %d [%s]", e.get_code(), cfgs.c_str())); return -1; }
}
struct MT { static const op_t opcode = OP_DATA; DataStream serialized; MT(const bytes &b) { serialized.put_data(b); } };
const op_t MT::opcode;
static int try_send_typed(CNet &n, const Msg &m, int64_t port) {
    try { return n.send_msg(MT(bytes(m.get_payload())), nac(port)) ? 1 : 0; }
    catch (const SalticidaeError &e) { if (e.get_code() != SALTI_ERROR_CLIENT_NOT_EXIST) vf::violation("client:wrong-error", cfgs); return -1; }
}

static void open_client(Server &sv, Slot &s, Rng &r) { // exclusive lock held
    s.gen++; for (int i = 0; i <= S; i++) { s.acc[i] = 0; s.got[i] = 0; }
    long u = s.ups;
    bool ok = false;
    for (int i = 0; i < 200 && !ok; i++) { ok = s.sock.connect(sv.port, 0, 0, s.port & 0xffff, ip_of(s.port)); if (!ok) vf::msleep(5); }
    if (!ok) { vf::stat("address_not_available"); return; }
    s.rquit = false;
    s.reader = std::thread([&s] {
        Parser p; Parser::M m; char b[16384];
        while (!s.rquit) {
            ssize_t k = s.sock.recv_some(b, sizeof b, 0.02);
            if (k == 0 || k == -1) break;
            if (k < 0) continue;
            p.feed(b, k);
            while (p.next(m)) check_tag(m.pl.data(), m.pl.size(), s);
        }
    });
    if (!vf::wait_until([&] { return s.ups > u; }, 15)) { vf::violation("client:not-connected", cfgs); return; }
    if (r.chance(1, 2)) s.sock.send_all(wire(OP_UP, bytes()));
    s.live = 1; vf::stat("clients");
}
static void judge(Slot &s, double t, bool closing) { // exclusive lock held: nobody sends; everything accepted must arrive
    auto all = [&] { for (int i = 0; i <= S; i++) if (s.got[i] < s.acc[i]) return false; return true; };
    vf::wait_until(all, t);
    for (int i = 0; i <= S; i++) VF_CHECK(s.got[i] == s.acc[i], "client:lost", "%llu of %llu messages of sender %d arrived at the owner of port %lld, generation %u (closing %d) [%s]",
        (unsigned long long)s.got[i], (unsigned long long)s.acc[i], i, (long long)s.port, s.gen, closing, cfgs.c_str());
    long n = 0; for (int i = 0; i <= S; i++) n += s.acc[i];
    vf::stat("messages_delivered", n);
}
static void close_client(Server &sv, Slot &s, int how) { // exclusive lock held
    if (!s.live) { s.rquit = true; if (s.reader.joinable()) s.reader.join(); s.sock.close(); return; }
    s.live = 0;
    if (how == 1) { MNet::conn_t c; { vf::Lock g(s.mu); c = s.sc; } sv.net->terminate(c); s.reader.join(); s.sock.close(); vf::stat("closed_by_server"); }
    else { s.rquit = true; s.reader.join(); if (how == 2) s.sock.close(); else s.sock.reset(); vf::stat(how == 2 ? "closed_by_client" : "reset_by_client"); }
}

static void own_case(uint64_t seed) {
    Rng r(seed); int N = r.range(1, 6); bool reuse = r.chance(3, 4), homes = r.chance(1, 2);
    vf_fault_cfg f; memset(&f, 0, sizeof f); if (r.chance(1, 2)) f.delay = r.pick(vector<int>{50, 400}); if (r.chance(1, 4)) { f.short_send = 200; f.eagain_send = 100; f.max_short = 32; } vf_fault_seed(seed);
    cfgs = vf::fmt("client seed=%llu clients=%d reuse=%d homes=%d delay=%d", (unsigned long long)seed, N, reuse, homes, f.delay);
    vf::watchdog(25, [] { return cfgs; }, "client:stall"); vf_set_faults(&f);
    Server sv(r, false); vector<std::unique_ptr<Slot>> v;
    // addresses: unrelated ones, or neighbours (same port on different hosts, or anything else that differs in few bits)
    std::set<int64_t> used;
    auto fresh = [&]() -> int64_t {
        for (;;) {
            int64_t a = vf::free_port();
            if (homes && !used.empty() && r.chance(3, 4)) {
                auto it = used.begin(); std::advance(it, r.below(used.size())); a = *it; if (!(a >> 16)) a |= 1 << 16;
                switch (r.below(4)) {
                    case 0: a = (a & 0xffff) | (int64_t)r.range(2, 250) << 16; break;                              // the same port elsewhere
                    case 1: { int64_t x = r.range(1, 255); a ^= x << 32 | x; break; }                                 // second octet and low byte of the port
                    case 2: a ^= (int64_t)1 << (16 + r.below(24)); break;
                    default: a ^= (int64_t)1 << r.below(8); break;
                }
                if ((a >> 16) == 1) a &= 0xffff;
                uint32_t o = (a >> 16) & 0xffffff; if (o == 0xffffff || (a >> 16 && !o)) continue;
            }
            if (used.insert(a).second) return a;
        }
    };
    for (int i = 0; i < N; i++) { v.emplace_back(new Slot()); v[i]->port = fresh(); vf::Lock g(sv.mu); sv.slots[v[i]->port] = v[i].get(); }
    if (homes) vf::stat("neighbouring_addresses", N);
    for (auto &s: v) { s->wr(); open_client(sv, *s, r); s->un(); }
    std::atomic<bool> quit{false}; vector<std::thread> th; size_t mx = r.pick(vector<size_t>{0, 50, 5000});
    int64_t never = fresh(); for (auto &x: v) if (never == x->port) never = 1;
    for (int k = 0; k < S; k++) th.emplace_back([&, k] {
        Rng q(seed * 7 + k);
        while (!quit && !vf::violated()) {
            if (q.chance(1, 30)) { Slot none; if (try_send(*sv.net, mk(none, k, 0, 0), never) != -1) vf::violation("client:unknown-address-accepted", cfgs); vf::stat("sends_to_nobody"); }
            auto &s = *v[q.below(N)];
            s.rd();
            if (s.live) {
                Msg m = mk(s, k, s.acc[k], q.below(mx + 1));
                int x = q.chance(1, 4) ? try_send_typed(*sv.net, m, s.port) : try_send(*sv.net, m, s.port);
                if (x == 1) s.acc[k]++;
                else if (x < 0) vf::violation("client:connected-client-not-found", vf::fmt("port %lld generation %u [%s]", (long long)s.port, s.gen, cfgs.c_str()));
                if (q.chance(1, 20)) sv.net->_send_msg_deferred(mk(s, 99, 0, 0), nac(s.port));
            }
            s.un();
            vf::usleep_(q.below(200));
        }
    });
    int rounds = r.range(3, 12); uint64_t h = 0;
    for (int i = 0; i < rounds && !vf::violated(); i++) {
        auto &s = *v[r.below(N)];
        if (r.chance(1, 3)) vf::msleep(r.below(15));
        s.wr();
        bool judged = s.live && r.chance(1, 2); if (judged) judge(s, 15, true);
        int how = reuse ? (r.chance(1, 3) ? 1 : 0) : r.below(3); bool was = s.live;
        close_client(sv, s, how); h = vf::mix(h, how * 10 + was);
        bool wait = !reuse || r.chance(1, 4);
        if (was && wait) { // the address must become unreachable
            if (!vf::wait_until([&] { return s.downs >= s.ups; }, 15)) vf::violation("client:disconnection-not-reported", cfgs);
            Msg m = mk(s, 99, 0, 0);
            if (!vf::wait_until([&] { return try_send(*sv.net, m, s.port) == -1; }, 10)) vf::violation("client:still-reachable", vf::fmt("port %lld [%s]", (long long)s.port, cfgs.c_str()));
            for (int k = 0; k < 20; k++) if (try_send(*sv.net, m, s.port) != -1) vf::violation("client:reachable-again", cfgs);
            int32_t id = sv.net->_send_msg_deferred(mk(s, 99, 0, 0), nac(s.port));
            vf::wait_until([&] { return !sv.err(id).empty(); }, 10); vf::usleep_(500);
            auto e = sv.err(id);
            VF_CHECK(e.size() == 1 && (VF_TSAN || e[0] == SALTI_ERROR_CLIENT_NOT_EXIST), "client:deferred-error", "%zu reports [%s]", e.size(), cfgs.c_str());
            vf::stat("gone_clients");
        }
        if (was && how == 2) { // a new port: the old one waits in TIME_WAIT
            vf::Lock g(sv.mu); sv.slots.erase(s.port); s.port = fresh(); s.ups = s.downs = 0; s.gen = 0; sv.slots[s.port] = &s;
        }
        if (was && !wait) { vf::stat("addresses_reused_at_once"); }
        if (!vf::violated()) {
            open_client(sv, s, r);
            // the late end of the old connection must not harm the new one
            if (s.live && was && !wait && how != 2) {
                for (int k = 0; k < 30; k++) {
                    int x = try_send(*sv.net, mk(s, S, s.acc[S], 10), s.port);
                    if (x == 1) s.acc[S]++; else if (x < 0) { vf::violation("client:new-client-cut-off", vf::fmt("port %lld generation %u, %ld up, %ld down [%s]", (long long)s.port, s.gen, s.ups.load(), s.downs.load(), cfgs.c_str())); break; }
                    vf::usleep_(r.below(500));
                }
                judge(s, 15, false);
                h = vf::mix(h, s.downs);
            }
        }
        s.un();
        vf::progress();
    }
    vf::msleep(10); quit = true; for (auto &t: th) t.join();
    for (auto &s: v) { s->wr(); if (s->live && !vf::violated()) judge(*s, 15, false); close_client(sv, *s, 0); s->un(); }
    sv.end();
    vf::sig(vf::mix(vf::hash(cfgs), h)); vf::eval(); vf::sample(cfgs);
}

// a client that takes nothing, and a bounded buffer: what does not fit is refused or reported, the rest arrives
static void full_case(uint64_t seed) {
    Rng r(seed); vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f); vf_fault_seed(seed);
    size_t cap = r.pick(vector<size_t>{1, 2, 100, 4096}); int nth = r.range(1, S);
    cfgs = vf::fmt("client-full seed=%llu capacity=%zu senders=%d", (unsigned long long)seed, cap, nth);
    vf::watchdog(25, [] { return cfgs; }, "client:stall");
    Server sv(r, false, cap); Slot s, o; s.port = vf::free_port(); o.port = vf::free_port();
    { vf::Lock g(sv.mu); sv.slots[s.port] = &s; sv.slots[o.port] = &o; }
    open_client(sv, s, r); open_client(sv, o, r);
    int rounds = r.range(1, 3); long defs = 0, errs = 0;
    for (int k = 0; k < rounds && !vf::violated() && s.live; k++) {
        f.eagain_send = 1000; vf_set_faults(&f);
        std::atomic<long> refused{0}; vector<vector<int32_t>> ids(nth); vector<std::thread> th;
        for (int i = 0; i < nth; i++) th.emplace_back([&, i, seed] {
            Rng q(vf::mix(seed, 31 * k + i)); int after = 0;
            for (int n = 0; n < 60000 && after < 30 && !vf::violated(); n++) {
                if (q.chance(1, 40) || (after && q.chance(1, 3))) { ids[i].push_back(sv.net->_send_msg_deferred(mk(s, 99, 0, 0), nac(s.port))); if (after) after++; }
                else {
                    int x = try_send(*sv.net, mk(s, i, s.acc[i], q.below(20)), s.port);
                    if (x == 1) s.acc[i]++; else if (x == 0) { refused++; after++; } else vf::violation("client:connected-client-not-found", cfgs);
                }
                if (n % 64 == 0) vf::progress();
            }
        });
        for (auto &t: th) t.join();
        VF_CHECK(refused > 0, "client:unbounded", "%s", cfgs.c_str());
        // the other client is not affected; wait until the deferred ones have had their turn
        for (int i = 0; i < 3; i++) { int x = try_send(*sv.net, mk(o, 0, o.acc[0], 5), o.port); if (x == 1) o.acc[0]++; else vf::violation("client:other-client-refused", cfgs); }
        if (r.chance(1, 2)) vf::msleep(r.below(20));
        f.eagain_send = 0; vf_set_faults(&f);
        for (auto &v: ids) defs += v.size();
        auto count = [&] { long e = 0; vf::Lock g(sv.emu); for (auto &x: sv.errs) e += x.second.size(); return e; };
        vf::wait_until([&] { return s.def + count() >= defs; }, 15);
        errs = count();
        VF_CHECK(s.def + errs == defs, "client:deferred-lost", "%ld deferred messages, %ld delivered, %ld reported [%s]", defs, s.def.load(), errs, cfgs.c_str());
        for (auto &v: ids) for (auto id: v) { auto e = sv.err(id); VF_CHECK(e.size() <= 1 && (e.empty() || VF_TSAN || e[0] == SALTI_ERROR_CONN_NOT_READY), "client:deferred-error", "%zu reports, the first %d [%s]", e.size(), e[0], cfgs.c_str()); }
        judge(s, 15, false); judge(o, 15, false);
        vf::stat("refused_sends", refused); vf::progress();
    }
    vf::stat("refused_deferred", errs);
    s.wr(); close_client(sv, s, 0); s.un(); o.wr(); close_client(sv, o, 0); o.un();
    sv.end(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}
// clients that are networks of their own (plain or TLS): the server tells each its address; messages and addresses must stay together
static void net_case(uint64_t seed) {
    Rng r(seed); int N = r.range(2, 6); bool tls = r.chance(2, 3);
    vf_fault_cfg f; memset(&f, 0, sizeof f); vf_set_faults(&f);
    cfgs = vf::fmt("client-net seed=%llu clients=%d tls=%d", (unsigned long long)seed, N, tls);
    vf::watchdog(25, [] { return cfgs; }, "client:stall");
    Server sv(r, tls); std::map<int, Slot *> by; vector<std::unique_ptr<Slot>> all;
    struct CL { std::atomic<uint64_t> port{0}; std::atomic<uint64_t> n{0}; MNet::conn_t c; std::atomic<int> up{0}; };
    vector<std::unique_ptr<CL>> cl; Loop cloop; std::unique_ptr<MNet> cn; vf::Mutex m; std::map<void *, CL *> own; vector<int64_t> addrs;
    sv.loop.run([&] { sv.net->reg_conn_handler([&](const ConnPool::conn_t &c, bool up) { if (up) { vf::Lock g(m); addrs.push_back(code_of(c->get_addr())); } return true; }); });
    cloop.run([&] {
        MNet::Config c; c.nworker(r.range(1, 3)); c.max_msg_size(1 << 18); if (tls) set_tls(c, 1);
        cn.reset(new MNet(cloop.ec, c));
        cn->set_handler(OP_DATA, [&](const Msg &q, const MNet::conn_t &c) {
            bytes p(q.get_payload()); Tag t; if (p.size() < sizeof t) { vf::violation("client:corrupted", cfgs); return; } memcpy(&t, &p[0], sizeof t);
            if (t.sender >= 98) return;
            CL *x; { vf::Lock g(m); x = own[c.get()]; } if (!x) return;
            uint64_t tp = t.port, z = 0; if (!x->port.compare_exchange_strong(z, tp) && z != tp) vf::violation("client:delivered-to-somebody-else", vf::fmt("for %llx and %llx at one client [%s]", (unsigned long long)z, (unsigned long long)tp, cfgs.c_str()));
            if (t.seq != x->n) vf::violation("client:order", cfgs);
            x->n++; vf::progress();
        });
        cn->start();
    });
    for (int i = 0; i < N; i++) { cl.emplace_back(new CL()); auto c = cn->connect_sync(na(sv.port)); cl[i]->c = c; vf::Lock g(m); own[c.get()] = cl[i].get(); }
    if (!vf::wait_until([&] { vf::Lock g(m); return (int)addrs.size() == N; }, 20)) vf::violation("client:not-connected", cfgs);
    else {
        vector<int64_t> a; { vf::Lock g(m); a = addrs; }
        int cnt = r.range(1, 200); Slot tmp; vector<uint64_t> acc(N, 0);
        vector<std::thread> th;
        for (int i = 0; i < N; i++) th.emplace_back([&, i] { Slot q; q.port = a[i]; for (int k = 0; k < cnt; k++) { int x = try_send(*sv.net, mk(q, 0, acc[i], 20), a[i]); if (x == 1) acc[i]++; else if (x < 0) { vf::violation("client:connected-client-not-found", cfgs); break; } } });
        for (auto &t: th) t.join();
        auto total = [&] { uint64_t s = 0; for (auto &x: cl) s += x->n; return s; }; uint64_t want = 0; for (auto x: acc) want += x;
        vf::wait_until([&] { return total() >= want; }, 20);
        VF_CHECK(total() == want, "client:lost", "%llu of %llu [%s]", (unsigned long long)total(), (unsigned long long)want, cfgs.c_str());
        std::set<uint64_t> seen; for (auto &x: cl) if (x->n && !seen.insert(x->port).second) vf::violation("client:two-owners", cfgs);
        vf::stat("messages_delivered", want); vf::stat("network_clients", N);
        // one leaves
        int gone = r.below(N); cn->terminate(cl[gone]->c); uint64_t gp = cl[gone]->port; Slot q; q.port = gp;
        if (gp) { if (!vf::wait_until([&] { return try_send(*sv.net, mk(q, 99, 0, 0), gp) == -1; }, 15)) vf::violation("client:still-reachable", cfgs); vf::stat("gone_clients"); }
        for (int i = 0; i < N; i++) if (i != gone && cl[i]->port && try_send(*sv.net, mk(q, 98, 0, 0), cl[i]->port) < 0) vf::violation("client:connected-client-not-found", "after another client left " + cfgs);
    }
    sv.end(); for (auto &x: cl) x->c = nullptr;
    cloop.run([&] { cn->stop(); cn.reset(); });
    vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    idents();
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        uint64_t seed = vf::args.seed * 1000 + k;
        if (vf::args.mode == "net") net_case(seed); else if (vf::args.mode == "full") full_case(seed); else own_case(seed);
        if (const char *v = vf_fd_violation()) vf::violation("client:fd", string(v) + " [" + cfgs + "]");
    }
    vf::finish();
}
