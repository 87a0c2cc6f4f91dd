// C18: networks of every kind are stopped and destroyed in random states; afterwards their threads, descriptors, memory, callbacks
// and port have to be gone, and a network sharing the loop has to go on working.
#include "netcommon.h"

typedef PeerNetwork<uint8_t> PNet;
typedef ClientNetwork<uint8_t> CNet;
static string cfgs;
static const op_t OP_DATA = 1, OP_STOP = 2, OP_ECHO = 3;

struct State { // outlives the network
    std::atomic<int> stopped{0}, destroyed{0};
    std::atomic<long> msgs{0}, conns{0}, downs{0}, errors{0}, peers{0}, fatals{0}; std::atomic<bool> may_fail{false};
    vf::Mutex mu; vector<MNet::conn_t> cs;
    vector<MNet::conn_t> get() { vf::Lock g(mu); return cs; }
    void drop() { vector<MNet::conn_t> t; { vf::Lock g(mu); t.swap(cs); } }
    void callback(const char *what) { if (destroyed) vf::violation("stop:callback-after-destruction", string(what) + " [" + cfgs + "]"); }
};
static Msg mkmsg(op_t op, size_t n, int fill = 0x55) { Msg m; m.set_opcode(op); m.set_payload(bytes(n, fill)); m.set_checksum(); return m; }

struct Net {
    int kind, port = 0; bool tls;
    std::unique_ptr<MNet> net; PNet *pn = nullptr; CNet *cn = nullptr;
    std::shared_ptr<State> st{new State()};
    std::function<void()> on_stop;
    bool echo = false; int busy_us = 0;
    // on the loop thread
    void make(const EventContext &ec, int k, bool t, int ident, Rng &r) {
        kind = k; tls = t; port = vf::free_port();
        PNet::Config c;
        c.nworker(r.range(1, 4)); c.max_msg_size(1 << 18); c.max_msg_queue_size(r.pick(vector<size_t>{1, 100, 65536})); c.burst_size(r.pick(vector<size_t>{1, 50, 1000}));
        c.recv_chunk_size(r.pick(vector<size_t>{64, 4096})); c.max_recv_buff_size(r.pick(vector<size_t>{4096, 65536}));
        if (r.chance(1, 3)) c.max_send_buff_size(r.range(1, 4));
        c.conn_server_timeout(r.pick(vector<double>{0.02, 2}));
        if (t) set_tls(c, ident);
        if (k == 2) {
            c.ping_period(r.pick(vector<double>{0.01, 1})); c.conn_timeout(r.pick(vector<double>{0.05, 2}));
            c.id_mode(t && r.chance(1, 2) ? PNet::CERT_BASED : PNet::ADDR_BASED);
            net.reset(pn = new PNet(ec, c));
        } else if (k == 1) net.reset(cn = new CNet(ec, (MNet::Config)c));
        else net.reset(new MNet(ec, (MNet::Config)c));
        auto s = st; MNet *n = net.get();
        net->reg_conn_handler([s](const ConnPool::conn_t &c, bool up) {
            s->callback("connection");
            if (up) { s->conns++; vf::Lock g(s->mu); if (s->cs.size() < 64) s->cs.push_back(salticidae::static_pointer_cast<MNet::Conn>(c)); }
            else { s->downs++; vf::Lock g(s->mu); for (size_t i = 0; i < s->cs.size(); i++) if (s->cs[i].get() == c.get()) { s->cs.erase(s->cs.begin() + i); break; } }
            return true;
        });
        net->reg_error_handler([s](const std::exception_ptr e, bool fatal, int32_t) {
            s->callback("error"); s->errors++;
            if (fatal) s->fatals++;
            if (fatal && !s->may_fail) vf::violation("stop:fatal-error", vf::fmt("%s [%s]", VF_TSAN ? "" : salticidae_strerror(err_code(e)), cfgs.c_str()));
        });
        if (pn) {
            pn->reg_peer_handler([s](const PNet::conn_t &, bool) { s->callback("peer"); s->peers++; });
            pn->reg_unknown_peer_handler([s](const NetAddr &, const salticidae::X509 *) { s->callback("unknown peer"); });
        }
        auto h = [s, this, n](const Msg &m, const MNet::conn_t &c) {
            s->callback("message");
            if (s->stopped) vf::violation("stop:message-after-stop", cfgs);
            s->msgs++;
            if (echo) { Msg q; q.set_opcode(OP_ECHO); q.set_payload(bytes(m.get_payload())); q.set_checksum(); n->_send_msg(q, c); }
            if (busy_us) vf::usleep_(busy_us);
        };
        net->set_handler(OP_DATA, h);
        net->set_handler(OP_ECHO, [s](const Msg &, const MNet::conn_t &) { s->callback("message"); if (s->stopped) vf::violation("stop:message-after-stop", cfgs); s->msgs++; });
        net->set_handler(OP_STOP, [this, s](const Msg &, const MNet::conn_t &) { s->callback("message"); if (on_stop) on_stop(); });
    }
    void listen() { if (pn) pn->listen(na(port)); else net->listen(na(port)); }
    void stop() { net->stop(); st->stopped = 1; }
    void destroy() { st->drop(); net.reset(); pn = nullptr; cn = nullptr; st->stopped = 1; st->destroyed = 1; }
};

// the bystander: an echo network on the same loop, and a raw client of it
struct Bystander {
    Loop &l; Net n; Raw c; uint64_t k = 0;
    Bystander(Loop &l, Rng &r): l(l) { l.run([&] { n.make(l.ec, 0, false, 0, r); n.echo = true; n.net->start(); n.listen(); }); if (!c.connect(n.port)) vf::violation("stop:bystander-connect", cfgs); }
    void check() {
        bytes p(8); k++; memcpy(&p[0], &k, 8);
        bytes w = wire(OP_ECHO, p); char b[64];
        c.send_all(wire(OP_DATA, p));
        if (!c.recv_exact(b, w.size(), 10) || memcmp(b + 13, &k, 8)) vf::violation("stop:other-network-harmed", vf::fmt("echo %llu did not come back [%s]", (unsigned long long)k, cfgs.c_str()));
        vf::stat("bystander_echoes");
    }
    void end() { c.close(); l.run([&] { n.stop(); n.destroy(); }); }
};


static void stop_case(uint64_t seed, const string &mode) {
    Rng r(seed);
    int kind = mode == "peer" ? 2 : mode == "client" ? 1 : mode == "msg" ? 0 : (int)r.below(3); bool tls = mode == "tls" || r.chance(1, 5);
    enum { DESTROY, STOP_DESTROY, IN_HANDLER, REPEATED, LOOP_ENDED, NHOW }; int how = r.below(NHOW);
    bool started = !r.chance(1, 12), listening = started && !r.chance(1, 8);
    bool with_mate = started && r.chance(1, 2), traffic_in = listening && r.chance(2, 3), traffic_out = started && r.chance(2, 3), stalled = listening && r.chance(1, 3),
         connecting = started && r.chance(1, 3), refused = started && r.chance(1, 3), silent = listening && r.chance(1, 3), retry = started && kind == 2 && r.chance(2, 3),
         resets = listening && r.chance(1, 3), slowloop = traffic_in && r.chance(1, 3), relisten = listening && r.chance(1, 4), listening_at_end = true;
    int delay_us = r.pick(vector<int>{0, 300, 3000, 20000, 80000}); delay_us = delay_us / 2 + (int)r.below(delay_us + 1);
    if (how == IN_HANDLER && !listening) how = STOP_DESTROY;
    if (how == IN_HANDLER && tls) how = STOP_DESTROY;
    // the whole network fails (no socket can be made when it is time to dial again): it can be stopped all the same
    Rng rf(vf::mix(seed, 77)); bool fatal = started && kind == 2 && rf.chance(1, 4);
    if (fatal) { with_mate = false; if (how == REPEATED || how == IN_HANDLER) how = STOP_DESTROY; }
    cfgs = vf::fmt("stop seed=%llu kind=%d tls=%d how=%d started=%d listening=%d mate=%d in=%d out=%d stalled=%d connecting=%d refused=%d silent=%d retry=%d resets=%d slowloop=%d fatal=%d delay=%dus",
        (unsigned long long)seed, kind, tls, how, started, listening, with_mate, traffic_in, traffic_out, stalled, connecting, refused, silent, retry, resets, slowloop, fatal, delay_us);
    vf::watchdog(25, [] { return cfgs; }, "stop:hang");
    vf_fault_cfg f; memset(&f, 0, sizeof f); if (r.chance(1, 3)) f.sndbuf = f.rcvbuf = 4096; if (r.chance(1, 4)) f.delay = 100; vf_set_faults(&f); vf_fault_seed(seed);
    std::unique_ptr<Loop> loop(new Loop()), own, mloop;
    Bystander by(*loop, r); by.check();
    if (with_mate) mloop.reset(new Loop());
    long fds0 = 1 << 20, th0 = 1 << 20, lib0 = vf_fd_open_count(); // joined threads stay visible for a moment
    for (int i = 0; i < 4; i++) { vf::msleep(1); fds0 = std::min(fds0, vf::count_fds()); th0 = std::min(th0, vf::count_threads()); }
    if (how == LOOP_ENDED) own.reset(new Loop());
    Loop &sl = own ? *own : *loop;
    Net sub, mate;
    sl.run([&] { sub.make(sl.ec, kind, tls, 0, r); if (slowloop) sub.busy_us = r.range(50, 2000); sub.echo = r.chance(1, 3); if (started) sub.net->start(); if (listening) sub.listen(); });
    auto st = sub.st;
    if (listening && relisten) { // other ports first, some of them taken: the last one counts
        Raw taken; int tp = vf::free_port(), p0 = sub.port; taken.listen(tp);
        int n = r.range(1, 3), last = p0;
        for (int i = 0; i < n; i++) {
            bool fail = r.chance(1, 3); int p = fail ? tp : vf::free_port(); bool ok = true;
            sl.run([&] { int keep = sub.port; sub.port = p; try { sub.listen(); } catch (const SalticidaeError &) { ok = false; } sub.port = keep; });
            VF_CHECK(ok == !fail, "stop:listen-again", "%s [%s]", ok ? "a taken port was accepted" : "a free port was refused", cfgs.c_str());
            Raw x; VF_CHECK(x.listen(last), "stop:previous-port-in-use", "errno %d [%s]", errno, cfgs.c_str());
            if (!fail) last = p; else last = vf::free_port();
            vf::stat(fail ? "failed_listens" : "listened_again");
        }
        if (r.chance(1, 4)) listening_at_end = false;
        else sl.run([&] { sub.listen(); });
        taken.close();
    }
    if (!listening_at_end) listening = traffic_in = stalled = silent = resets = false;
    vector<std::thread> ths; std::atomic<bool> quit{false}, quit_raw{false};
    if (with_mate) {
        mloop->run([&] { mate.make(mloop->ec, kind == 2 ? 2 : 0, tls, 1, r); mate.net->start(); mate.listen(); });
        int nc = r.range(1, 3);
        if (kind == 2) {
            // both know each other (by address and by certificate: one of them is the right one)
            for (int i = 0; i < 2; i++) {
                Net &a = i ? sub : mate, &b = i ? mate : sub;
                PeerId ids[2] = {PeerId(na(b.port)), tls ? PeerId(salticidae::X509::create_from_der(idents()[i ? 1 : 0].cert_der)) : PeerId(na(1))};
                for (int j = 0; j < (tls ? 2 : 1); j++) { a.pn->add_peer(ids[j]); a.pn->set_peer_addr(ids[j], na(b.port)); if (r.chance(2, 3)) a.pn->conn_peer(ids[j], -1, r.pick(vector<double>{0.003, 0.5})); }
            }
        } else for (int i = 0; i < nc; i++) { if (listening) mate.net->connect(na(sub.port)); if (r.chance(1, 2)) sub.net->connect(na(mate.port)); }
    }
    vector<std::unique_ptr<Raw>> raws; vf::Mutex rmu;
    auto newraw = [&](int rcv = 0) -> Raw * { std::unique_ptr<Raw> x(new Raw()); if (!x->connect(sub.port, rcv)) return nullptr; raws.push_back(std::move(x)); return raws.back().get(); };
    if (listening) {
        if (traffic_in) for (int i = r.range(1, 3); i--;) if (Raw *x = newraw()) {
            bytes w; for (int k = 0; k < 40; k++) { auto m = wire(OP_DATA, bytes(r.below(300), k)); w.insert(w.end(), m.begin(), m.end()); }
            ths.emplace_back([&quit_raw, x, w] { // blasts, and reads what comes back
                char b[4096]; size_t off = 0;
                while (!quit_raw) {
                    ssize_t k = vfr_send(x->fd, w.data() + off, w.size() - off, MSG_NOSIGNAL | MSG_DONTWAIT);
                    if (k < 0 && errno != EAGAIN) break;
                    if (k > 0) off = (off + k) % w.size();
                    while (vfr_recv(x->fd, b, sizeof b, MSG_DONTWAIT) > 0) {}
                    vf::usleep_(100);
                }
            });
        }
        if (stalled) for (int i = r.range(1, 2); i--;) newraw(2048);
        if (silent) for (int i = r.range(1, 4); i--;) newraw();
        if (resets) for (int i = r.range(1, 4); i--;) if (Raw *x = newraw()) { x->send_all(wire(OP_DATA, bytes(10, 1))); if (r.chance(1, 2)) x->reset(); else x->close(); }
    }
    Raw full; vector<std::unique_ptr<Raw>> fill;
    if (connecting) {
        int fp = vf::free_port(); full.listen(fp, 0);
        for (int i = 0; i < 2; i++) { fill.emplace_back(new Raw(vfr_socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0))); auto a = sa_of(fp); vfr_connect(fill.back()->fd, (struct sockaddr *)&a, sizeof a); }
        for (int i = r.range(1, 4); i--;) sub.net->connect(na(fp));
    }
    if (refused) { int p = vf::free_port(); for (int i = r.range(1, 10); i--;) sub.net->connect(na(p)); }
    if (retry) for (int i = r.range(1, 5); i--;) {
        int p = vf::free_port(); PeerId id{na(p)};
        sub.pn->add_peer(id); sub.pn->set_peer_addr(id, na(p)); sub.pn->conn_peer(id, r.chance(1, 2) ? -1 : 3, r.pick(vector<double>{0.0005, 0.01, 5}));
    }
    MNet *np = sub.net.get(); size_t big = r.pick(vector<size_t>{0, 100, 20000, 200000});
    if (traffic_out) for (int i = r.range(1, 2); i--;) ths.emplace_back([&quit, st, np, big, i] {
        // bounded, or the dispatcher would be swamped for minutes
        for (long left = 20000000; !quit && left > 0;) { for (auto &c: st->get()) { left -= big + 1000; if (i) np->_send_msg(mkmsg(OP_DATA, big), c); else np->_send_msg_deferred(mkmsg(OP_DATA, big / 4), c); } vf::usleep_(300); }
    });
    if (with_mate && traffic_in) { MNet *mp = mate.net.get(); auto ms = mate.st; ths.emplace_back([&quit, mp, ms, big] {
        while (!quit) { for (auto &c: ms->get()) mp->_send_msg(mkmsg(OP_DATA, big), c); vf::usleep_(300); } }); }
    vf::usleep_(delay_us);
    if (fatal) {
        st->may_fail = true; int p = vf::free_port(); PeerId id{na(p)};
        sub.pn->add_peer(id); sub.pn->set_peer_addr(id, na(p)); sub.pn->conn_peer(id, -1, 0.001);
        vf::watchdog_key("stop:fatal-error-not-reported");
        for (int i = 0; !st->fatals && !vf::violated(); i++) { if (i % 8 == 7) sub.pn->conn_peer(id, -1, 0.001); vf_fail_call("socket", 1, EMFILE); for (int k = 0; k < 20 && !st->fatals; k++) vf::msleep(1); }
        vf_fail_call("socket", 0, 0);
        vf::progress(); vf::watchdog_key("stop:hang"); vf::stat("failed_networks");
        vf::usleep_(rf.pick(vector<int>{0, 500, 10000}));
    }
    // ---- stop
    std::atomic<int> done{0};
    auto join_senders = [&] { quit = true; quit_raw = true; for (auto &t: ths) t.join(); ths.clear(); };
    if (how == DESTROY) { join_senders(); sl.run([&] { sub.destroy(); }); }
    else if (how == STOP_DESTROY) {
        if (r.chance(1, 2)) { sl.run([&] { sub.stop(); }); join_senders(); sl.run([&] { sub.destroy(); }); }
        else { join_senders(); sl.run([&] { sub.stop(); sub.destroy(); }); }
    } else if (how == IN_HANDLER) {
        sub.on_stop = [&] { if (!done) { sub.stop(); done = 1; } };
        for (int i = 0; i < 8 && !done; i++) { // the message may be lost behind a full queue
            Raw t; t.connect(sub.port); t.send_all(wire(OP_STOP, bytes()));
            vf::wait_until([&] { return done.load() != 0; }, 0.25);
        }
        sl.run([&] { if (!done) { done = 1; sub.stop(); } else vf::stat("stopped_by_message"); });
        join_senders(); sl.run([&] { sub.destroy(); });
    } else if (how == REPEATED) {
        sl.run([&] { sub.stop(); sub.stop(); });
        for (int i = 0; i < 3; i++) { sub.net->connect(na(by.n.port)); vf::usleep_(3000); sl.run([&] { sub.stop(); sub.net->start(); sub.stop(); }); }
        join_senders(); sl.run([&] { sub.destroy(); });
    } else { // the loop has ended, as at the end of main()
        join_senders(); sl.end();
        if (r.chance(1, 2)) sub.stop();
        if (!r.chance(1, 4)) { sub.destroy(); own.reset(); }
        else { own.reset(); sub.destroy(); }
    }
    vf::stat("networks_destroyed"); vf::stat("messages_before_stop", st->msgs); vf::stat("connections_before_stop", st->conns);
    // ---- the remote ends see the end of their connections
    for (auto &x: raws) if (x->fd >= 0) VF_CHECK(x->closed_within(10), "stop:connection-left-open", "a remote end is still connected [%s]", cfgs.c_str());
    vf::stat("remote_ends_closed", raws.size());
    if (listening) {
        Raw again; VF_CHECK(again.listen(sub.port), "stop:port-in-use", "errno %d [%s]", errno, cfgs.c_str());
        vf::stat("ports_reused");
    }
    by.check();
    if (with_mate) {
        if (kind != 2) { vf::wait_until([&] { return mate.st->downs >= mate.st->conns; }, 10);
            VF_CHECK(mate.st->downs >= mate.st->conns, "stop:remote-network-not-told", "%ld of %ld connections ended [%s]", mate.st->downs.load(), mate.st->conns.load(), cfgs.c_str()); }
        mloop->run([&] { mate.stop(); mate.destroy(); });
        mloop->flush();
    }
    raws.clear(); fill.clear(); full.close();
    if (how != LOOP_ENDED) sl.flush();
    vf::usleep_(r.pick(vector<int>{100, 3000, 15000})); loop->flush();
    // ---- nothing is left
    vf::wait_until([&] { return vf::count_threads() <= th0 && vf::count_fds() <= fds0; }, 5);
    VF_CHECK(vf::count_threads() <= th0, "stop:threads-left", "%ld instead of %ld [%s]", vf::count_threads(), th0, cfgs.c_str());
    VF_CHECK(vf_fd_open_count() == lib0, "stop:descriptors-left", "%d instead of %ld: %s [%s]", vf_fd_open_count(), lib0, vf_fd_dump()->c_str(), cfgs.c_str());
    VF_CHECK(vf::count_fds() <= fds0, "stop:descriptors-left", "%ld instead of %ld of the process [%s]", vf::count_fds(), fds0, cfgs.c_str());
    by.check(); by.end(); loop.reset(); mloop.reset();
    vf::progress(); vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}

// the same situation again and again: memory must not grow
static void leak_case(uint64_t seed) {
    const int R = 6; long g[R]; string t;
    for (int i = 0; i < R && !vf::violated(); i++) {
        long h0 = (long)live_heap();
        stop_case(seed, "any");
        cfgs.clear(); cfgs.shrink_to_fit();
        g[i] = (long)live_heap() - h0; t += vf::fmt(" %ld", g[i]);
    }
    long least = g[1]; for (int i = 2; i < R; i++) least = std::min(least, g[i]);
    vf::stat_max("least_growth_bytes", least);
    if (least > 1024) vf::violation("stop:memory-left", vf::fmt("live heap grew in every repetition:%s [seed %llu]", t.c_str(), (unsigned long long)seed));
    vf::stat("repeated_for_leaks");
    if (getenv("VF_DEBUG")) fprintf(stderr, "growth%s\n", t.c_str());
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    idents();
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        uint64_t seed = vf::args.seed * 1000 + k;
        if (vf::args.mode == "leak") leak_case(seed); else stop_case(seed, vf::args.mode);
        if (const char *v = vf_fd_violation()) vf::violation("stop:fd", string(v) + " [" + cfgs + "]");
    }
    vf::finish();
}
