// C07 (life, tlslife): every connection's callbacks, descriptors and objects against a per-connection ledger,
// while connections are made, refused, timed out, reset, terminated from both sides and used.
#include "netcommon.h"

static string cfgs;
static std::atomic<long> live_conns{0};
static std::atomic<uint64_t> uid_ctr{0};
struct Ledger {
    // per connection object; written on the user loop only, read by anyone
    struct Ent { std::atomic<int> ups{0}, downs{0}, msgs{0}; std::atomic<bool> freed{false}; };
    static const int MAXC = 200000;
    Ent *e = new Ent[MAXC];
} led;
class TNet: public MNet {
    public:
    struct TConn: public MNet::Conn {
        uint64_t uid;
        TConn(): uid(uid_ctr.fetch_add(1, std::memory_order_relaxed)) { live_conns.fetch_add(1, std::memory_order_relaxed); if (uid >= (uint64_t)Ledger::MAXC) _exit(4); }
        ~TConn() { led.e[uid].freed.store(true, std::memory_order_relaxed); live_conns.fetch_sub(1, std::memory_order_relaxed); }
    };
    using MNet::MNet;
    ~TNet() { this->stop(); }
    std::atomic<long> created{0};
    vf::Mutex umu; vector<uint64_t> uids;
    protected:
    ConnPool::Conn *create_conn() override {
        auto *c = new TConn();
        vf::Lock g(umu); uids.push_back(c->uid);
        return c;
    }
};
typedef MNet::conn_t conn_t;
static uint64_t uid_of(const ConnPool::conn_t &c) { return static_cast<TNet::TConn *>(c.get())->uid; }

struct Side {
    Loop *loop = nullptr;
    std::unique_ptr<TNet> net;
    const char *name = "";
    int port = 0;
    std::atomic<int> depth{0};
    std::atomic<long> ups{0}, downs{0}, only_down{0}, msgs{0}, errs{0};
    vf::Mutex mu; vector<conn_t> hs; vector<int32_t> ids;
    std::map<uint64_t, conn_t> up;          // connections between their two reports
    std::atomic<int> slow{0};
    std::atomic<int> refuse{0};
    conn_t pick(Rng &r) { vf::Lock g(mu); if (hs.empty()) return nullptr; return hs[r.below(hs.size())]; }
    void keep(const conn_t &c, Rng &r) { vf::Lock g(mu); if (hs.size() < 40) hs.push_back(c); else hs[r.below(hs.size())] = c; }
};
static void setup(Side &sd, Loop *l, const MNet::Config &cfg, const char *name) {
    sd.loop = l; sd.name = name;
    l->run([&] {
        sd.net.reset(new TNet(l->ec, cfg));
        sd.net->set_handler(1, [&sd](const Msg &m, const conn_t &c) {
            if (!sd.loop->on()) vf::violation("life:message-wrong-thread", cfgs);
            auto &e = led.e[uid_of(c)];
            if (!e.ups) vf::violation("life:message-before-connected", vf::fmt("%s side, uid %lu [%s]", sd.name, (unsigned long)uid_of(c), cfgs.c_str()));
            e.msgs++; sd.msgs++; vf::progress();
        });
        sd.net->reg_conn_handler([&sd](const ConnPool::conn_t &c, bool up) {
            if (!sd.loop->on()) vf::violation("life:callback-wrong-thread", cfgs);
            if (sd.depth.fetch_add(1) != 0) vf::violation("life:concurrent-callbacks", cfgs);
            auto &e = led.e[uid_of(c)];
            if (up) {
                if (e.downs) vf::violation("life:connected-after-disconnected", vf::fmt("%s side [%s]", sd.name, cfgs.c_str()));
                if (e.ups.fetch_add(1)) vf::violation("life:connected-twice", vf::fmt("%s side [%s]", sd.name, cfgs.c_str()));
                sd.ups++;
                Rng r(uid_of(c));
                sd.keep(static_pointer_cast<MNet::Conn>(c), r);
                { vf::Lock g(sd.mu); sd.up[uid_of(c)] = static_pointer_cast<MNet::Conn>(c); }
            } else {
                if (e.downs.fetch_add(1)) vf::violation("life:disconnected-twice", vf::fmt("%s side [%s]", sd.name, cfgs.c_str()));
                if (!c->is_terminated()) vf::violation("life:disconnected-but-not-terminated", cfgs);
                sd.downs++;
                { vf::Lock g(sd.mu); sd.up.erase(uid_of(c)); }
                if (!e.ups) sd.only_down++;
            }
            int us = sd.slow; if (us) vf::usleep_(us);
            sd.depth.fetch_sub(1);
            vf::progress();
            return true;
        });
        sd.net->reg_error_handler([&sd](const std::exception_ptr, bool fatal, int32_t id) {
            sd.errs++; if (id >= 0) { vf::Lock g(sd.mu); sd.ids.push_back(id); }
            if (fatal) vf::violation("life:fatal-error", string(sd.name) + " side [" + cfgs + "]");
        });
        sd.net->start();
    });
}
static Msg mk(const bytes &b) { Msg m; m.set_opcode(1); m.set_payload(bytes(b)); m.set_checksum(); return m; }

static void life_case(uint64_t seed, bool tls) {
    Rng r(seed);
    int same = r.chance(1, 4), nth = r.range(1, 4), nact = r.range(10, 60);
    int prelim_fds = vf_fd_open_count();
    long live0 = live_conns;
    MNet::Config cf[2];
    for (int k = 0; k < 2; k++) {
        cf[k].nworker(r.range(1, 3)).recv_chunk_size(r.pick(vector<size_t>{16, 4096})).conn_server_timeout(r.chance(1, 2) ? 0.05 : 0.3).max_listen_backlog(r.pick(vector<int>{1, 10, 64}));
        if (tls) set_tls(cf[k], k);
    }
    vf_fault_cfg f; memset(&f, 0, sizeof f);
    if (r.chance(1, 2)) f.delay = r.pick(vector<int>{20, 300});
    if (r.chance(1, 4)) f.eagain_recv = 200;
    if (r.chance(1, 4)) { f.short_recv = 300; f.max_short = 5; }
    vf_set_faults(&f); vf_fault_seed(seed);
    cfgs = vf::fmt("life %s seed=%llu threads=%d actions=%d sameloop=%d delay=%d eagain=%d", tls ? "tls" : "tcp", (unsigned long long)seed, nth, nact, same, f.delay, f.eagain_recv);
    std::unique_ptr<Loop> l1(new Loop()), l2(same ? nullptr : new Loop());
    Side A, B; Side *sd[2] = {&A, &B};
    setup(A, l1.get(), cf[0], "A"); setup(B, same ? l1.get() : l2.get(), cf[1], "B");
    if (r.chance(1, 4)) A.slow = 200;
    auto undone = [&] { long n = 0; for (Side *s: sd) { vf::Lock g(s->net->umu); for (auto u: s->net->uids) if (!led.e[u].downs) n++; } return n; };
    vf::watchdog(25, [&] { return cfgs + vf::fmt(" connections without 'disconnected': %ld; A ups %ld downs %ld B ups %ld downs %ld", undone(), A.ups.load(), A.downs.load(), B.ups.load(), B.downs.load()); }, "life:never-disconnected");
    for (Side *s: sd) { s->port = vf::free_port(); s->loop->run([s] { s->net->listen(na(s->port)); }); }
    int fds1 = vf_fd_open_count();
    // a port nobody listens to; a listener that never accepts and whose backlog is full; one that accepts and misbehaves
    int refused = vf::free_port(), full = vf::free_port(), bad = vf::free_port();
    Raw lf, f1, f2, f3; lf.listen(full, 0);
    // fill the backlog
    vector<Raw> fill;
    for (int i = 0; i < 3; i++) {
        int fd = vfr_socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); auto a = sa_of(full);
        vfr_connect(fd, (struct sockaddr *)&a, sizeof a); fill.emplace_back(fd);
    }
    Raw lb; lb.listen(bad);
    std::atomic<bool> quit{false};
    std::thread bt([&, seed] {
        Rng br(vf::mix(seed, 4711)); vector<Raw> held;
        while (!quit) {
            Raw c = lb.accept(0.02);
            if (c.fd < 0) continue;
            switch (br.below(5)) {
                case 0: c.close(); break;
                case 1: c.reset(); break;
                case 2: c.send_all("\x16\x03\x01 garbage garbage", 20); c.close(); break;
                case 3: { auto w = wire(1, bytes(100, 3)); c.send_all(w.data(), br.below(w.size())); held.push_back(std::move(c)); break; }
                default: held.push_back(std::move(c));
            }
        }
        held.clear();
    });
    vector<std::thread> ths;
    std::atomic<long> acts{0}; std::atomic<uint64_t> hist{seed};
    for (int t = 0; t < nth; t++) ths.emplace_back([&, t, seed] {
        Rng q(vf::mix(seed, t + 1));
        vector<Raw> raws; vector<conn_t> mine;
        for (int k = 0; k < nact; k++) {
            Side &s = *sd[q.below(2)], &o = &s == &A ? B : A;
            int act = q.below(15);
            acts++;
            switch (act) {
                case 0: s.net->connect(na(o.port)); break;
                case 1: case 2: case 3: {
                    int port = q.chance(2, 3) ? o.port : q.pick(vector<int>{refused, full, bad, bad});
                    if (q.chance(1, 12)) { vf_fail_call("connect", 1, q.pick(vector<int>{ECONNREFUSED, ENETUNREACH, EADDRNOTAVAIL})); vf::stat("injected_connect_errors"); }
                    auto c = s.net->connect_sync(na(port));
                    if (q.chance(1, 2)) for (int i = 0; i < 3; i++) s.net->_send_msg(mk(bytes(q.below(200), 1)), c);
                    if (q.chance(1, 3)) { if (q.chance(1, 2)) vf::usleep_(q.below(2000)); s.net->terminate(c); if (q.chance(1, 2)) s.net->terminate(c); }
                    else s.keep(c, q);
                    break;
                }
                case 4: s.net->connect(na(q.pick(vector<int>{refused, full, bad}))); break;
                case 5: case 6: {
                    Raw c;
                    if (!c.connect(s.port)) break;
                    auto w = wire(1, bytes(q.below(300), 9));
                    switch (q.below(6)) {
                        case 0: c.close(); break;
                        case 1: c.reset(); break;
                        case 2: c.send_all(w); c.close(); break;
                        case 3: c.send_all(w.data(), q.below(w.size())); c.reset(); break;
                        case 4: c.send_all(w); vf::usleep_(q.below(1000)); c.reset(); break;
                        default: c.send_all(w); raws.push_back(std::move(c));
                    }
                    break;
                }
                case 7: case 8: { auto c = s.pick(q); if (c) { s.net->terminate(c); if (q.chance(1, 3)) s.net->terminate(c); } break; }
                case 9: case 10: case 11: { auto c = s.pick(q); if (c) for (int i = q.below(5); i >= 0; i--) s.net->_send_msg(mk(bytes(q.below(500), 2)), c); break; }
                case 13: { int e = q.below(3); vf_fail_call(e == 2 ? "send" : "recv", q.range(1, 4), e == 0 ? ECONNRESET : e == 1 ? ETIMEDOUT : EPIPE); vf::stat("injected_io_errors"); break; }
                case 12: { // terminate from both sides at once
                    auto c = s.pick(q), d = o.pick(q); if (c) s.net->terminate(c); if (d) o.net->terminate(d); break; }
                default: if (!raws.empty()) { size_t i = q.below(raws.size()); if (q.chance(1, 2)) raws[i].reset(); raws.erase(raws.begin() + i); }
            }
            if (q.chance(1, 3)) vf::usleep_(q.below(3000));
            vf::progress();
        }
        hist = vf::mix(hist.load(), q.next());
        // what is still open is closed by the remote
        raws.clear();
    });
    for (auto &t: ths) t.join();
    for (auto *n: {"connect", "recv", "send"}) vf_fail_call(n, 0, 0);
    memset(&f, 0, sizeof f); vf_set_faults(&f);
    A.slow = B.slow = 0;
    // attempts for which there is no descriptor are reported with their identifier, or thrown
    bool nofd = r.chance(1, 2); if (nofd) for (Side *s: sd) s->net->connect_sync(na(refused)); // all attempts made so far are under way then
    if (nofd) for (int i = r.range(1, 4); i-- && !vf::violated();) {
        Side &s = *sd[r.below(2)], &o = &s == &A ? B : A; { vf::Lock g(s.mu); s.ids.clear(); }
        vf_fail_call("socket", 1, EMFILE);
        if (r.chance(1, 2)) {
            int32_t id = s.net->connect(na(o.port));
            if (!vf::wait_until([&] { vf::Lock g(s.mu); return !s.ids.empty(); }, 10)) vf::violation("life:failed-attempt-unreported", cfgs);
            s.loop->flush(); vf::Lock g(s.mu);
            if (!vf::violated() && (s.ids.size() != 1 || s.ids[0] != id)) vf::violation("life:failed-attempt-id", vf::fmt("%zu reports, the first for %d, the call returned %d [%s]", s.ids.size(), s.ids[0], id, cfgs.c_str()));
        } else {
            int code = 0; try { s.net->connect_sync(na(o.port)); } catch (const SalticidaeError &e) { code = 1; if (!VF_TSAN) code = e.get_code(); }
            if (code != (VF_TSAN ? 1 : SALTI_ERROR_CONNECT)) vf::violation("life:failed-attempt-not-thrown", vf::fmt("code %d [%s]", code, cfgs.c_str()));
        }
        vf_fail_call("socket", 0, 0); vf::stat("attempts_without_descriptor");
    }
    vf::msleep(r.below(30));
    // open connections between the two: one side terminates, the other one has to learn of it
    Side &closer = *sd[r.below(2)], &other = &closer == &A ? B : A;
    quit = true; bt.join(); lb.close();
    // (raw remotes have closed theirs; attempts that are under way succeed or time out)
    (void)other;
    while (undone() && !vf::violated()) {
        vector<conn_t> hs; { vf::Lock g(closer.mu); for (auto &kv: closer.up) hs.push_back(kv.second); }
        for (auto &c: hs) closer.net->terminate(c);
        hs.clear();
        vf::msleep(10);
    }
    long conns = 0;
    for (Side *s: sd) { vf::Lock g(s->net->umu); conns += s->net->uids.size(); }
    for (Side *s: sd) { vf::Lock g(s->mu); s->hs.clear(); }
    A.loop->flush(); B.loop->flush();
    if (!vf::violated()) {
        bool ok = vf::wait_until([&] { return live_conns == live0; }, 8);
        if (!ok) vf::violation("life:object-not-freed", vf::fmt("%ld of %ld connection objects remain after 'disconnected' and without handles [%s]", live_conns - live0, conns, cfgs.c_str()));
        ok = vf::wait_until([&] { return vf_fd_open_count() == fds1; }, 5);
        if (!ok) { auto *d = vf_fd_dump(); vf::violation("life:descriptor-count", vf::fmt("%d descriptors open, expected %d after all connections ended (%s) [%s]", vf_fd_open_count(), fds1, d->c_str(), cfgs.c_str())); delete d; }
    }
    for (Side *s: sd) { vf::stat("connected", s->ups); vf::stat("disconnected", s->downs); vf::stat("never_connected", s->only_down); vf::stat("messages", s->msgs); vf::stat("errors_reported", s->errs); }
    vf::stat("connections", conns); vf::stat("actions", acts);
    for (Side *s: sd) {
        vf::Lock g(s->net->umu);
        for (auto u: s->net->uids) if (led.e[u].downs != 1 || led.e[u].ups > 1) vf::violation("life:count", vf::fmt("uid %lu ups=%d downs=%d [%s]", (unsigned long)u, led.e[u].ups.load(), led.e[u].downs.load(), cfgs.c_str()));
    }
    for (Side *s: sd) s->loop->run([s] { s->net->stop(); s->net.reset(); });
    l1.reset(); l2.reset();
    if (!vf::violated() && vf_fd_open_count() != prelim_fds) vf::violation("life:descriptor-leak", vf::fmt("%d descriptors open after destruction, %d before [%s]", vf_fd_open_count(), prelim_fds, cfgs.c_str()));
    vf::sig(hist); vf::eval(); vf::sample(cfgs);
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    bool tls = vf::args.mode == "tlslife";
    if (tls) idents();
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        life_case(vf::args.seed * 1000 + k, tls);
        if (const char *v = vf_fd_violation()) vf::violation("life:fd", string(v) + " [" + cfgs + "]");
    }
    vf::finish();
}
