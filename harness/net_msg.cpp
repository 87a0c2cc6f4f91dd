// C03/C04 (deliver, tls, close, tlsclose), C05 (bounded, queue, tlsqueue), C24 (stats): message delivery over real sockets.
// Oracle: every stream is a pure function of (id, index); each receiver ledger checks number, order and content.
#include "netcommon.h"

static string cfgs;
static std::atomic<long> live_conns{0};
class TNet: public MNet {
    public:
    struct TConn: public MNet::Conn {
        TConn() { live_conns++; }
        ~TConn() { live_conns--; }
    };
    using MNet::MNet;
    ~TNet() { this->stop(); }
    protected:
    ConnPool::Conn *create_conn() override { return new TConn(); }
};
typedef MNet::conn_t conn_t;
static const op_t HELLO = 0x40, NOHANDLER = 0x41;
static const int MAXS = 6;   // senders per direction: opcodes 1..MAXS, 1..3 through the typed interface

struct Side;
struct Chan {   // one direction of one connection
    vector<std::unique_ptr<Recv>> recv;              // per opcode
    vector<std::atomic<uint64_t>> sent;              // accepted messages per opcode
    vector<std::atomic<uint64_t>> sent_bytes;
    Chan(): recv(MAXS + 1), sent(MAXS + 1), sent_bytes(MAXS + 1) { for (int i = 0; i <= MAXS; i++) { recv[i].reset(new Recv()); sent[i] = 0; sent_bytes[i] = 0; } }
    bool complete() { for (int i = 0; i <= MAXS; i++) if (recv[i]->next != sent[i]) return false; return true; }
    string text() { string s; for (int i = 1; i <= MAXS; i++) if (sent[i] || recv[i]->next) s += vf::fmt("op%d %lu/%lu ", i, (unsigned long)recv[i]->next.load(), (unsigned long)sent[i].load()); return s; }
};
struct Side {
    Loop *loop = nullptr;
    std::unique_ptr<TNet> net;
    const char *name = "";
    std::map<MNet::Conn *, int> idx;                 // only used on the loop
    vector<std::unique_ptr<Chan>> in;                // per connection index
    std::map<int, conn_t> conns;                     // index -> handle (server: filled at hello)
    vf::Mutex mu;
    std::atomic<int> hellos{0}, ups{0}, downs{0}, errors{0};
    std::atomic<bool> expect_down{false};
    std::atomic<int> slow_us{0};
    std::atomic<int> lasterr{-1};
    vf::Mutex emu; std::map<int32_t, int> errids;
};

static void on_stream(Side &sd, op_t op, const bytes &got, const conn_t &conn) {
    if (!sd.loop->on()) vf::violation("deliver:wrong-thread", cfgs);
    auto it = sd.idx.find(conn.get());
    if (it == sd.idx.end()) { vf::violation("deliver:unknown-connection", vf::fmt("opcode %d before the hello of its connection [%s]", op, cfgs.c_str())); return; }
    auto &rv = *sd.in[it->second]->recv[op];
    uint64_t i = rv.next;
    // (the acquire also orders the stream's description before its use here, for TSan)
    if (i >= sd.in[it->second]->sent[op].load()) { vf::violation("deliver:surplus-message", vf::fmt("message %lu of sender %d was never sent [%s]", (unsigned long)i, op, cfgs.c_str())); return; }
    bytes want = rv.s.content(i);
    if (got != want) {
        string what = vf::fmt("message %lu of sender %d: %zu bytes, expected %zu", (unsigned long)i, op, got.size(), want.size());
        for (uint64_t j = i > 200 ? i - 200 : 0; j < i + 200; j++) if (j != i && got.size() && rv.s.content(j) == got) { what += vf::fmt(" (it is message %lu: %s)", (unsigned long)j, j < i ? "duplicate or reordered" : "message lost or reordered"); break; }
        vf::violation("deliver:wrong-message", what + " [" + cfgs + "]");
    }
    rv.bytes_ += got.size();
    rv.next = i + 1;
    vf::progress();
    int us = sd.slow_us;
    if (us) vf::usleep_(us);
}
template<op_t OP> static void reg_typed(Side &sd) {
    sd.net->reg_handler([&sd](MsgTyped<OP> &&m, const conn_t &c) { on_stream(sd, OP, m.data, c); });
}
static void setup(Side &sd, Loop *l, const MNet::Config &cfg, const char *name, int nconn) {
    sd.loop = l; sd.name = name;
    for (int i = 0; i < nconn; i++) sd.in.emplace_back(new Chan());
    l->run([&] {
        sd.net.reset(new TNet(l->ec, cfg));
        // handlers that are replaced before the start
        for (op_t op: {1, 2, 5}) sd.net->set_handler(op, [](const Msg &, const conn_t &) { vf::violation("deliver:replaced-handler", "a message was handed to a handler that had been replaced [" + cfgs + "]"); });
        reg_typed<1>(sd); reg_typed<2>(sd); reg_typed<3>(sd);
        for (op_t op = 4; op <= MAXS; op++)
            sd.net->set_handler(op, [&sd, op](const Msg &m, const conn_t &c) { on_stream(sd, op, bytes(m.get_payload()), c); });
        sd.net->set_handler(HELLO, [&sd](const Msg &m, const conn_t &c) {
            bytes b(m.get_payload());
            int i = b.size() == 1 ? b[0] : -1;
            if (i < 0 || i >= (int)sd.in.size() || sd.idx.count(c.get())) { vf::violation("deliver:hello-corrupt", cfgs); return; }
            sd.idx[c.get()] = i;
            { vf::Lock g(sd.mu); sd.conns[i] = c; }
            sd.hellos++;
        });
        sd.net->reg_conn_handler([&sd](const ConnPool::conn_t &, bool up) {
            if (up) sd.ups++;
            else { sd.downs++; if (!sd.expect_down) vf::violation("deliver:live-connection-closed", string(sd.name) + " side [" + cfgs + "]"); }
            vf::progress();
            return true;
        });
        sd.net->reg_error_handler([&sd](const std::exception_ptr e, bool fatal, int32_t id) {
            sd.errors++;
            int c = VF_TSAN ? -2 : err_code(e);
            sd.lasterr = c;
            { vf::Lock g(sd.emu); sd.errids[id]++; }
            if (fatal) vf::violation("deliver:fatal-error", vf::fmt("%s side: %s [%s]", sd.name, c >= 0 ? salticidae_strerror(c) : "?", cfgs.c_str()));
        });
        sd.net->start();
    });
}
static bool send_typed(TNet &n, op_t op, const Stream &s, uint64_t i, const conn_t &c) {
    switch (op) {
        case 1: return n.send_msg(MsgTyped<1>(s.content(i)), c);
        case 2: return n.send_msg(MsgTyped<2>(s.content(i)), c);
        case 3: return n.send_msg(MsgTyped<3>(s.content(i)), c);
        default: return n._send_msg(s.msg(op, i), c);
    }
}
static int32_t send_deferred(TNet &n, op_t op, const Stream &s, uint64_t i, const conn_t &c) {
    switch (op) {
        case 1: return n.send_msg_deferred(MsgTyped<1>(s.content(i)), c);
        case 2: return n.send_msg_deferred(MsgTyped<2>(s.content(i)), c);
        case 3: return n.send_msg_deferred(MsgTyped<3>(s.content(i)), c);
        default: return n._send_msg_deferred(s.msg(op, i), c);
    }
}
static void random_faults(Rng &r, vf_fault_cfg &f, bool tls) {
    memset(&f, 0, sizeof f);
    if (r.chance(2, 3)) { f.short_send = r.pick(vector<int>{0, 100, 600, 1000}); f.short_recv = r.pick(vector<int>{0, 100, 600, 1000}); }
    if (r.chance(1, 2)) { f.eagain_send = r.pick(vector<int>{0, 50, 300, 800}); f.eagain_recv = r.pick(vector<int>{0, 50, 300, 800}); }
    if (r.chance(1, 3)) f.delay = r.pick(vector<int>{20, 200});
    f.max_short = r.pick(vector<int>{1, 7, 40, 500, 5000});
    if (r.chance(tls ? 3 : 1, 4)) f.sndbuf = r.pick(vector<int>{4608, 8192, 20000});
    if (r.chance(tls ? 2 : 1, 4)) f.rcvbuf = r.pick(vector<int>{2304, 4608, 20000});
}

static void deliver_case(uint64_t seed, bool tls, bool stats) {
    Rng r(seed);
    int nconn = r.range(1, 4), ns = r.range(1, MAXS);
    MNet::Config scfg, ccfg;
    size_t chunk[2], mbuf[2], maxmsg = r.pick(vector<size_t>{16, 300, 1024, 20000, 70000, 400000});
    Rng fr(seed * 11 + 5); int fat = tls && fr.chance(1, 4) ? fr.range(1, 3) : 0; // whose certificate is large
    for (int k = 0; k < 2; k++) {
        auto &c = k ? ccfg : scfg;
        chunk[k] = r.pick(vector<size_t>{1, 7, 13, 64, 512, 4096, 4096, 65536});
        mbuf[k] = r.pick(vector<size_t>{1, 2, 3, 16, 4096, 4096});
        c.recv_chunk_size(chunk[k]).max_recv_buff_size(mbuf[k]).nworker(r.range(1, 4));
        c.max_msg_size(maxmsg).burst_size(r.pick(vector<size_t>{1, 2, 10, 1000}));
        c.msg_magic(r.chance(1, 2) ? 0 : (uint32_t)r.next());
        if (tls) set_tls(c, (fat >> k & 1) * 100 + k);
    }
    vf_fault_cfg f; random_faults(r, f, tls);
    if (fat) { f.sndbuf = fr.pick(vector<int>{4608, 8192}); f.rcvbuf = fr.pick(vector<int>{2304, 4608}); vf::stat("large_certificates"); }
    size_t mc = std::min(chunk[0], chunk[1]);
    size_t budget = mc < 64 ? 40000 : (f.short_send || f.short_recv) && f.max_short < 50 ? 60000 : 700000;
    if (f.eagain_send > 100 || f.eagain_recv > 100 || f.delay) budget /= 3;
    if (VF_TSAN || VF_ASAN) budget /= 2;
    if (vf::args.thorough()) budget *= 2;
    bool costly = mc < 64 || ((f.short_send || f.short_recv) && f.max_short < 50);
    size_t big = costly ? std::min<size_t>(maxmsg, 8000) : maxmsg;
    int same = r.chance(1, 5);
    cfgs = vf::fmt("%s seed=%llu conns=%d senders=%d chunk=%zu/%zu recvbuf=%zu/%zu maxmsg=%zu faults short=%d/%d eagain=%d/%d delay=%d len=%d sndbuf=%d rcvbuf=%d fat=%d sameloop=%d",
        tls ? "tls" : "tcp", (unsigned long long)seed, nconn, ns, chunk[0], chunk[1], mbuf[0], mbuf[1], maxmsg, f.short_send, f.short_recv, f.eagain_send, f.eagain_recv, f.delay, f.max_short, f.sndbuf, f.rcvbuf, fat, same);
    vf_set_faults(&f);
    vf_fault_seed(seed);
    std::unique_ptr<Loop> l1(new Loop()), l2(same ? nullptr : new Loop());
    Side S, C;
    int port = vf::free_port();
    setup(S, l1.get(), scfg, "server", nconn);
    setup(C, same ? l1.get() : l2.get(), ccfg, "client", nconn);
    std::atomic<bool> done{false};
    vf::watchdog(25, [&] { string s = cfgs; for (int i = 0; i < nconn; i++) s += vf::fmt("; conn %d to-server %s to-client %s", i, S.in[i]->text().c_str(), C.in[i]->text().c_str()); return s + vf::fmt(" hellos=%d ups=%d/%d", S.hellos.load(), S.ups.load(), C.ups.load()); }, "deliver:stall");
    S.loop->run([&] { S.net->listen(na(port)); });
    bool waitup = r.chance(1, 2);
    vector<conn_t> cc;
    for (int i = 0; i < nconn; i++) {
        auto c = C.net->connect_sync(na(port));
        C.loop->run([&] { C.idx[c.get()] = i; });
        C.conns[i] = c; cc.push_back(c);
    }
    if (waitup) while (C.ups < nconn) vf::msleep(1);
    for (int i = 0; i < nconn; i++) {
        Msg h; h.set_opcode(HELLO); h.set_payload(bytes(1, (uint8_t)i)); h.set_checksum();
        VF_CHECK(C.net->_send_msg(h, cc[i]), "deliver:unbounded-send-refused", "%s", cfgs.c_str());
    }
    int rounds = stats ? 2 : 1;
    std::map<std::pair<int,int>, std::pair<uint64_t,uint64_t>> odd; // messages nobody handles: sent, but not handed over
    uint64_t hist = 0;
    for (int round = 0; round < rounds; round++) {
        // per (direction, connection, sender): how many, which way
        vector<std::thread> ths;
        size_t nstream = 2 * nconn * ns, per = std::max<size_t>(200, budget / nstream / rounds);
        std::atomic<long> deferred_out{0};
        for (int dir = 0; dir < 2; dir++) for (int i = 0; i < nconn; i++) {
            Side &to = dir == 0 ? S : C, &from = dir == 0 ? C : S;
            for (int s = 1; s <= ns; s++) {
                Chan &ch = *to.in[i];
                if (round == 0) {
                    auto &st = ch.recv[s]->s;
                    st.id = vf::mix(seed, dir * 1000 + i * 100 + s);
                    st.maxlen = big; st.chunk = chunk[dir == 0 ? 0 : 1]; st.shape = r.pick(vector<int>{0, 0, 1, 2, 3, 4});
                }
                bool def = r.chance(1, 4);
                int pace = r.chance(1, 4) ? r.range(1, 300) : 0;
                ths.emplace_back([&, i, s, def, pace, per] {
                    conn_t c;
                    for (;;) { { vf::Lock g(from.mu); auto it = from.conns.find(i); if (it != from.conns.end()) c = it->second; } if (c) break; vf::usleep_(200); }
                    auto &st = ch.recv[s]->s;
                    size_t tot = 0; int n = 0;
                    while (n < 3000 && (n < 3 || tot < per)) {
                        uint64_t k = ch.sent[s];
                        size_t len = st.len(k);
                        if (n > 0 && tot + len > per * 3) { break; }
                        ch.sent_bytes[s] += len;
                        ch.sent[s] = k + 1;    // before the send, so the ledger can never be behind
                        if (def) { send_deferred(*from.net, s, st, k, c); }
                        else VF_CHECK(send_typed(*from.net, s, st, k, c), "deliver:unbounded-send-refused", "%s", cfgs.c_str());
                        tot += len + 13; n++;
                        if (pace && n % 8 == 0) vf::usleep_(pace);
                        vf::progress();
                    }
                });
            }
        }
        if (r.chance(1, 4)) S.slow_us = 50;
        if (stats) {
            odd.clear();
            for (int i = 0; i < nconn; i++) for (int dir = 0; dir < 2; dir++) if (r.chance(1, 2)) {
                Side &from = dir == 0 ? C : S; conn_t c;
                for (;;) { { vf::Lock g(from.mu); auto it = from.conns.find(i); if (it != from.conns.end()) c = it->second; } if (c) break; vf::usleep_(200); }
                for (int k = r.range(1, 10); k--;) { size_t len = r.below(std::min<size_t>(maxmsg, 200)); Msg h; h.set_opcode((op_t)r.pick(vector<int>{0x70, 0xfe, 0xff})); h.set_payload(bytes(len, 7)); h.set_checksum();
                    VF_CHECK(from.net->_send_msg(h, c), "deliver:unbounded-send-refused", "%s", cfgs.c_str()); auto &o = odd[{i, dir}]; o.first++; o.second += len; vf::stat("unhandled_messages"); }
            }
        }
        for (auto &t: ths) t.join();
        S.slow_us = 0;
        while (!vf::violated()) {
            bool ok = S.hellos == nconn;
            for (int i = 0; i < nconn; i++) ok = ok && S.in[i]->complete() && C.in[i]->complete();
            if (ok) break;
            vf::msleep(1);
        }
        if (vf::violated()) break;
        long msgs = 0, byt = 0;
        for (int i = 0; i < nconn; i++) for (int s = 1; s <= MAXS; s++) { msgs += S.in[i]->sent[s] + C.in[i]->sent[s]; byt += S.in[i]->sent_bytes[s] + C.in[i]->sent_bytes[s]; hist = vf::mix(hist, S.in[i]->sent[s] * 31 + C.in[i]->sent[s]); }
        if (round == rounds - 1) { vf::stat("messages_delivered", msgs); vf::stat("bytes_delivered", byt); }
        if (stats) {
            // both ends' counters against the ledgers (round 1: since the counters were cleared)
            for (int i = 0; i < nconn; i++) for (int dir = 0; dir < 2; dir++) {
                Side &to = dir == 0 ? S : C, &from = dir == 0 ? C : S;
                Chan &ch = *to.in[i];
                static std::map<std::pair<int,int>, std::pair<uint64_t,uint64_t>> base;
                if (round == 0) base[{i, dir}] = {0, 0};
                uint64_t n = 0, b = 0;
                for (int s = 1; s <= MAXS; s++) { n += ch.sent[s]; b += ch.sent_bytes[s]; }
                uint64_t dn = n - base[{i, dir}].first, db = b - base[{i, dir}].second;
                if (dir == 0 && round == 0) { dn += 1; db += 1; } // the hello
                base[{i, dir}] = {n, b};
                auto cs = static_pointer_cast<MNet::Conn>(from.conns[i]), cr = static_pointer_cast<MNet::Conn>(to.conns[i]);
                auto &o = odd[{i, dir}]; uint64_t sn = dn + o.first, sb = db + o.second;
                if (o.first) { // the unhandled messages are behind: a handled one comes after them
                    vf::msleep(20); }
                vf::wait_until([&] { return cs->get_nsent() == sn && cs->get_nsentb() == sb && cr->get_nrecv() == dn && cr->get_nrecvb() == db; }, 3);
                VF_CHECK(cs->get_nsent() == sn, "stats:nsent", "nsent=%zu, %lu messages were sent (round %d) [%s]", cs->get_nsent(), (unsigned long)sn, round, cfgs.c_str());
                VF_CHECK(cs->get_nsentb() == sb, "stats:nsentb", "nsentb=%zu, %lu bytes were sent (round %d) [%s]", cs->get_nsentb(), (unsigned long)sb, round, cfgs.c_str());
                VF_CHECK(cr->get_nrecv() == dn, "stats:nrecv", "nrecv=%zu, %lu messages were handed over (round %d) [%s]", cr->get_nrecv(), (unsigned long)dn, round, cfgs.c_str());
                VF_CHECK(cr->get_nrecvb() == db, "stats:nrecvb", "nrecvb=%zu, %lu bytes were handed over (round %d) [%s]", cr->get_nrecvb(), (unsigned long)db, round, cfgs.c_str());
                vf::stat("counters_compared", 4); vf::stat("counted_messages", dn);
            }
            if (round == 0) {
                bool only_some = r.chance(1, 2);
                for (int i = 0; i < nconn; i++) {
                    if (only_some && i % 2) { // not cleared: expectations carry on
                        continue;
                    }
                    S.conns[i]->clear_msgstat(); C.conns[i]->clear_msgstat();
                    for (auto &x: {S.conns[i], C.conns[i]})
                        VF_CHECK(!x->get_nsent() && !x->get_nrecv() && !x->get_nsentb() && !x->get_nrecvb(), "stats:clear", "counters not zero after clearing [%s]", cfgs.c_str());
                    vf::stat("counters_cleared");
                }
                if (only_some) { // make the bookkeeping uniform: clear the others a bit later
                    vf::msleep(2);
                    for (int i = 1; i < nconn; i += 2) { 
                        VF_CHECK(S.conns[i]->get_nrecv() > 0 && C.conns[i]->get_nsent() > 0, "stats:clear-affects-others", "%s", cfgs.c_str());
                        S.conns[i]->clear_msgstat(); C.conns[i]->clear_msgstat(); }
                }
            }
        }
    }
    // nothing more may arrive
    vf::msleep(5);
    if (!vf::violated()) for (int i = 0; i < nconn; i++) if (!S.in[i]->complete() || !C.in[i]->complete()) vf::violation("deliver:surplus-message", S.in[i]->text() + C.in[i]->text() + cfgs);
    VF_CHECK(S.errors == 0 && C.errors == 0, "deliver:unexpected-error", "server %d client %d error reports, last %d [%s]", S.errors.load(), C.errors.load(), std::max(S.lasterr.load(), C.lasterr.load()), cfgs.c_str());
    vf::stat("connections", nconn);
    S.expect_down = C.expect_down = true;
    cc.clear();
    memset(&f, 0, sizeof f); vf_set_faults(&f);
    for (Side *s: {&C, &S}) s->loop->run([s] { s->net->stop(); s->conns.clear(); s->idx.clear(); s->net.reset(); });
    l1.reset(); l2.reset();
    vf::sig(vf::mix(hist, vf::hash(cfgs)));
    vf::eval();
    vf::sample(cfgs);
}

// a remote that sends everything and closes: all of it has to be handed over
static void close_case(uint64_t seed, bool tls) {
    Rng r(seed);
    MNet::Config cfg;
    size_t chunk = r.pick(vector<size_t>{1, 4, 13, 26, 64, 100, 512, 4096});
    size_t mbuf = r.pick(vector<size_t>{1, 2, 3, 16, 4096, 4096});
    cfg.recv_chunk_size(chunk).max_recv_buff_size(mbuf).nworker(r.range(1, 3));
    cfg.max_msg_size(5000).burst_size(r.pick(vector<size_t>{1, 5, 1000}));
    if (tls) set_tls(cfg, 0);
    vf_fault_cfg f; memset(&f, 0, sizeof f);
    if (r.chance(1, 2)) f.delay = 300;
    if (r.chance(1, 3)) { f.short_recv = 300; f.max_short = 20; }
    vf_set_faults(&f);
    int nconn = r.range(1, 3), n = r.range(1, 60), fill = r.chance(2, 3), frag = r.chance(1, 3);
    cfgs = vf::fmt("close %s seed=%llu conns=%d msgs=%d chunk=%zu recvbuf=%zu fill=%d frag=%d delay=%d short=%d", tls ? "tls" : "tcp", (unsigned long long)seed, nconn, n, chunk, mbuf, fill, frag, f.delay, f.short_recv);
    std::unique_ptr<Loop> l1(new Loop());
    Side S; S.expect_down = true;
    int port = vf::free_port();
    setup(S, l1.get(), cfg, "server", nconn);
    vf::watchdog(25, [&] { string s = cfgs; for (int i = 0; i < nconn; i++) s += "; " + S.in[i]->text(); return s + vf::fmt(" ups=%d downs=%d", S.ups.load(), S.downs.load()); }, "deliver:lost-before-close");
    S.loop->run([&] { S.net->listen(na(port)); });
    vector<std::thread> ths;
    for (int i = 0; i < nconn; i++) ths.emplace_back([&, i, seed] {
        Rng pr(vf::mix(seed, i));
        auto &ch = *S.in[i]; auto &st = ch.recv[1]->s;
        st.id = vf::mix(seed, 77 + i); st.maxlen = 5000; st.chunk = chunk; st.shape = pr.pick(vector<int>{0, 1, 4});
        bytes w = wire(HELLO, bytes(1, (uint8_t)i));
        for (int k = 0; k < n; k++) {
            auto m = wire(1, st.content(k)); w.insert(w.end(), m.begin(), m.end());
            ch.sent_bytes[1] += st.len(k); ch.sent[1]++;
        }
        if (fill) { // end on a multiple of the chunk size: one more message of a handler-less opcode
            size_t rest = (w.size() + 13) % chunk;
            auto m = wire(NOHANDLER, bytes(rest ? chunk - rest : 0, 7)); w.insert(w.end(), m.begin(), m.end());
        }
        Raw c;
        if (!c.connect(port)) { vf::violation("deliver:connect-failed", cfgs); return; }
        if (tls) {
            SSL_CTX *cx = SSL_CTX_new(TLS_client_method());
            const uint8_t *p = idents()[1].cert_der.data();
            ::X509 *x = d2i_X509(nullptr, &p, idents()[1].cert_der.size());
            p = idents()[1].key_der.data();
            EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, idents()[1].key_der.size());
            SSL_CTX_use_certificate(cx, x); SSL_CTX_use_PrivateKey(cx, k);
            SSL *ssl = SSL_new(cx); SSL_set_fd(ssl, c.fd);
            if (SSL_connect(ssl) != 1) vf::violation("deliver:handshake-failed", cfgs);
            else {
                size_t o = 0;
                while (o < w.size()) {
                    size_t q = frag ? std::min<size_t>(w.size() - o, 1 + pr.below(200)) : w.size() - o;
                    int wr = SSL_write(ssl, w.data() + o, q);
                    if (wr <= 0) { vf::violation("deliver:live-connection-closed", "while the client was sending [" + cfgs + "]"); break; }
                    o += wr;
                }
                SSL_shutdown(ssl);
                shutdown(c.fd, SHUT_WR);
                c.closed_within(20);
            }
            SSL_free(ssl); SSL_CTX_free(cx); X509_free(x); EVP_PKEY_free(k);
        } else {
            size_t o = 0;
            while (o < w.size()) {
                size_t q = frag ? std::min<size_t>(w.size() - o, 1 + pr.below(200)) : w.size() - o;
                if (!c.send_all(w.data() + o, q)) { vf::violation("deliver:live-connection-closed", "while the client was sending [" + cfgs + "]"); break; }
                o += q;
                if (frag && pr.chance(1, 8)) vf::usleep_(pr.below(400));
            }
            if (pr.chance(1, 2)) { shutdown(c.fd, SHUT_WR); c.closed_within(20); }
        }
    });
    for (auto &t: ths) t.join();
    while (S.downs < nconn && !vf::violated()) vf::msleep(1);
    S.loop->flush();
    vf::wait_until([&] { for (int i = 0; i < nconn; i++) if (!S.in[i]->complete()) return false; return true; }, 1.5);
    long msgs = 0;
    for (int i = 0; i < nconn; i++) {
        msgs += S.in[i]->recv[1]->next;
        if (!S.in[i]->complete()) vf::violation("deliver:lost-before-close", S.in[i]->text() + "[" + cfgs + "]");
    }
    vf::stat("messages_before_close", msgs);
    vf::stat("closed_by_remote", nconn);
    memset(&f, 0, sizeof f); vf_set_faults(&f);
    S.loop->run([&] { S.net->stop(); S.conns.clear(); S.net.reset(); });
    l1.reset();
    vf::sig(vf::mix(vf::hash(cfgs), msgs)); vf::eval(); vf::sample(cfgs);
}

// bounded send buffer against a receiver that stops reading
static void bounded_case(uint64_t seed) {
    Rng r(seed);
    size_t cap = r.pick(vector<size_t>{1, 100, 4096, 5000});
    int ns = r.range(1, 4);
    bool def = r.chance(1, 3);
    size_t maxlen = 800;
    MNet::Config cfg;
    cfg.max_send_buff_size(cap).nworker(r.range(1, 2));
    cfg.max_msg_size(100000);
    vf_fault_cfg f; memset(&f, 0, sizeof f);
    f.sndbuf = 16384; f.rcvbuf = 16384;
    if (r.chance(1, 3)) { f.short_send = 300; f.max_short = 300; }
    if (r.chance(1, 3)) f.eagain_send = 100;
    vf_set_faults(&f);
    cfgs = vf::fmt("bounded seed=%llu cap=%zu senders=%d deferred=%d short=%d eagain=%d", (unsigned long long)seed, cap, ns, def, f.short_send, f.eagain_send);
    std::unique_ptr<Loop> l1(new Loop());
    Side S; int port = vf::free_port();
    setup(S, l1.get(), cfg, "server", 1);
    vf::watchdog(25, [&] { return cfgs; }, "bounded:stall");
    S.loop->run([&] { S.net->listen(na(port)); });
    Raw c;
    if (!c.connect(port, 16384)) { vf::violation("deliver:connect-failed", cfgs); return; }
    c.send_all(wire(HELLO, bytes(1, 0)));
    while (S.hellos < 1) vf::msleep(1);
    conn_t conn; { vf::Lock g(S.mu); conn = S.conns[0]; }
    // what a stalled receiver may cost: the buffer (granularity: one block of 4096 at each end), the
    // kernel's buffers and what the senders are just doing
    size_t bound = cap + 2 * 4096 + ns + 2;
    size_t kernel_bytes = 4 * 1024 * 1024;
    vector<Stream> st(ns + 1);
    vector<vector<uint64_t>> acc(ns + 1);
    std::atomic<long> accepted{0}, refused{0}, acc_bytes{0};
    std::atomic<bool> overrun{false};
    vector<std::thread> ths;
    vf::Mutex idmu; std::map<int32_t, std::pair<int, uint64_t>> ids; vector<std::pair<int, uint64_t>> defs;
    if (def) ns = 1;
    for (int s = 1; s <= ns; s++) {
        st[s].id = vf::mix(seed, s); st[s].maxlen = maxlen; st[s].shape = r.pick(vector<int>{2, 2, 0});
        ths.emplace_back([&, s] {
            int fails = 0;
            for (uint64_t k = 0; fails < 30 && !overrun; k++) {
                if (send_typed(*S.net, s, st[s], k, conn)) {
                    acc[s].push_back(k); accepted++; acc_bytes += st[s].len(k) + 13; fails = 0;
                    // data of at most 'bound' messages may be held, everything else is in the kernel
                    if ((size_t)accepted.load() > bound && (acc_bytes - (long)bound * (long)(maxlen + 13)) > (long)kernel_bytes) overrun = true;
                    vf::progress();
                } else { refused++; fails++; vf::usleep_(1000); }
            }
        });
    }
    for (auto &t: ths) t.join();
    if (overrun) { vf::violation("bounded:not-bounded", vf::fmt("%ld messages (%ld bytes) accepted for a stalled receiver [%s]", accepted.load(), acc_bytes.load(), cfgs.c_str())); }
    size_t acc1 = accepted;
    if (!overrun && (size_t)accepted < cap) vf::violation("bounded:refused-too-early", vf::fmt("only %ld accepted [%s]", accepted.load(), cfgs.c_str()));
    std::map<int32_t, uint64_t> want_err;
    uint64_t defbase = 0;
    if (def && !overrun) {
        // the buffer is full: deferred sends have to be reported with their identifiers
        st[0].id = vf::mix(seed, 999); st[0].maxlen = maxlen;
        defbase = 0;
        for (int k = 0; k < 40; k++) { int32_t id = S.net->_send_msg_deferred(st[0].msg(5, k), conn); want_err[id] = k; }
        vf::wait_until([&] { return S.errors >= 40; }, 4);
        S.loop->flush();
    }
    // now the receiver reads
    Parser p; vector<size_t> pos(MAXS + 1, 0); size_t got = 0, got5 = 0; uint64_t last5 = 0; bool first5 = true;
    std::map<uint64_t, int> def_ok;
    char *b = (char *)malloc(1 << 16);
    auto drain = [&](double quiet) {
        for (;;) {
            ssize_t k = c.recv_some(b, 1 << 16, quiet);
            if (k == -2) break;
            if (k <= 0) { vf::violation("bounded:connection-closed", cfgs); break; }
            p.feed(b, k);
            Parser::M m;
            while (p.next(m)) {
                vf::progress();
                if (m.op == 5) {
                    uint64_t i; bool hit = false;
                    for (i = 0; i < 40; i++) if (!def_ok.count(i) && st[0].content(i) == m.pl) { hit = true; break; }
                    if (!hit || (!first5 && i < last5)) { vf::violation("bounded:wrong-message", vf::fmt("deferred message unexpected [%s]", cfgs.c_str())); return; }
                    first5 = false; last5 = i; def_ok[i] = 1; got5++;
                    continue;
                }
                if (m.op < 1 || m.op > ns || pos[m.op] >= acc[m.op].size()) { vf::violation("bounded:wrong-message", vf::fmt("message %zu of sender %d was never accepted [%s]", pos[m.op], m.op, cfgs.c_str())); return; }
                uint64_t k = acc[m.op][pos[m.op]++];
                if (m.pl != st[m.op].content(k)) { vf::violation("bounded:wrong-message", vf::fmt("message %lu of sender %d (%zu accepted before): %zu bytes, expected %zu [%s]", (unsigned long)k, m.op, pos[m.op], m.pl.size(), st[m.op].len(k), cfgs.c_str())); return; }
                got++;
            }
        }
    };
    auto all = [&] { return got == acc1; };
    double t0 = vf::now();
    while (!all() && !vf::violated()) { drain(0.2); if (vf::now() - t0 > 60) break; }
    if (!vf::violated()) {
        if (!all()) vf::violation("bounded:lost", vf::fmt("%zu of %zu accepted messages arrived [%s]", got, acc1, cfgs.c_str()));
        drain(0.1);
        if (p.left()) vf::violation("bounded:partial", cfgs);
        if (def) {
            vf::Lock g(S.emu);
            for (auto &kv: want_err) {
                int e = S.errids.count(kv.first) ? S.errids[kv.first] : 0;
                bool delivered = def_ok.count(kv.second);
                VF_CHECK(e <= 1, "bounded:error-reported-twice", "id %d [%s]", kv.first, cfgs.c_str());
                VF_CHECK((e == 1) != delivered, "bounded:deferred-error", "deferred message %lu (id %d): %d error reports, delivered=%d [%s]", (unsigned long)kv.second, kv.first, e, delivered, cfgs.c_str());
                if (e) vf::stat("deferred_failures_reported");
            }
            VF_CHECK(S.errids.size() <= want_err.size(), "bounded:foreign-error-id", "%s", cfgs.c_str());
            if (!VF_TSAN && S.errors) VF_CHECK(S.lasterr == SALTI_ERROR_CONN_NOT_READY, "bounded:error-code", "%d [%s]", S.lasterr.load(), cfgs.c_str());
        } else VF_CHECK(S.errors == 0, "bounded:unexpected-error", "%s", cfgs.c_str());
        // counters must have counted exactly what was accepted
        size_t expn = acc1 + got5;
        VF_CHECK(conn->get_nsent() == expn, "stats:nsent-bounded", "nsent=%zu but %zu messages were accepted (%ld refused) [%s]", conn->get_nsent(), expn, refused.load(), cfgs.c_str());
        // and the connection still works
        for (int k = 0; k < 50 && !vf::violated(); k++) { uint64_t i = 1000000 + k; if (send_typed(*S.net, 1, st[1], i, conn)) acc[1].push_back(i), acc1++; }
        t0 = vf::now();
        while (!all() && !vf::violated() && vf::now() - t0 < 20) drain(0.05);
        if (!vf::violated() && !all()) vf::violation("bounded:dead-after-stall", vf::fmt("%zu of %zu [%s]", got, acc1, cfgs.c_str()));
    }
    free(b);
    vf::stat("accepted", accepted); vf::stat("refused", refused); vf::stat("delivered_to_stalled_receiver", got);
    S.expect_down = true;
    memset(&f, 0, sizeof f); vf_set_faults(&f);
    conn = nullptr;
    S.loop->run([&] { S.net->stop(); S.conns.clear(); S.net.reset(); });
    vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}

// a receiver whose loop does not keep up: small message queue and receive buffer
static void queue_case(uint64_t seed, bool tls) {
    Rng r(seed);
    MNet::Config scfg, ccfg;
    size_t qcap = r.pick(vector<size_t>{1, 10, 5000});
    size_t chunk = r.pick(vector<size_t>{64, 512, 4096}), mbuf = r.pick(vector<size_t>{1, 2, 8, 4096});
    size_t scap = r.pick(vector<size_t>{0, 1, 5000});
    size_t maxlen = r.pick(vector<size_t>{8, 60, 300});
    int ns = r.range(1, 3);
    scfg.recv_chunk_size(chunk).max_recv_buff_size(mbuf).nworker(r.range(1, 3));
    scfg.max_msg_size(1000).max_msg_queue_size(qcap).burst_size(r.pick(vector<size_t>{1, 50, 1000}));
    ccfg.max_send_buff_size(scap); ccfg.max_msg_size(1000);
    if (tls) { set_tls(scfg, 0); set_tls(ccfg, 1); }
    vf_fault_cfg f; memset(&f, 0, sizeof f);
    f.sndbuf = 16384; f.rcvbuf = 16384;
    if (r.chance(1, 4)) { f.short_recv = 200; f.max_short = 200; }
    vf_set_faults(&f);
    int nconn = r.range(1, 2);
    int mode = scap ? r.range(0, 1) : 1;   // 0: block the loop until the sender is refused, 1: slow receiver
    cfgs = vf::fmt("queue %s seed=%llu conns=%d senders=%d qcap=%zu chunk=%zu recvbuf=%zu sendcap=%zu len=%zu mode=%d short=%d", tls ? "tls" : "tcp", (unsigned long long)seed, nconn, ns, qcap, chunk, mbuf, scap, maxlen, mode, f.short_recv);
    std::unique_ptr<Loop> l1(new Loop()), l2(new Loop());
    Side S, C; int port = vf::free_port();
    setup(S, l1.get(), scfg, "server", nconn);
    setup(C, l2.get(), ccfg, "client", nconn);
    vf::watchdog(30, [&] { string s = cfgs; for (int i = 0; i < nconn; i++) s += "; " + S.in[i]->text(); return s; }, "queue:stall");
    S.loop->run([&] { S.net->listen(na(port)); });
    vector<conn_t> cc;
    for (int i = 0; i < nconn; i++) {
        cc.push_back(C.net->connect_sync(na(port)));
        Msg h; h.set_opcode(HELLO); h.set_payload(bytes(1, (uint8_t)i)); h.set_checksum();
        C.net->_send_msg(h, cc[i]);
    }
    while (S.hellos < nconn) vf::msleep(1);
    std::atomic<bool> blocked{false}, release{false};
    if (mode == 0 || r.chance(2, 3)) {
        S.loop->post([&] { blocked = true; while (!release) vf::usleep_(500); });
        while (!blocked) vf::usleep_(200);
    }
    bool was_blocked = blocked;
    size_t N = VF_ASAN || VF_TSAN ? 11000 : 16000;  // per sender; more than two blocks of the queue
    // mode 0 bound per connection set: sender buffers + kernel + receive buffers + message queue
    size_t bound = nconn * (scap + 2 * 4096 + (size_t)(6 * 1024 * 1024 + mbuf * chunk) / 13) + qcap + 2 * 4096 + 100;
    std::atomic<long> accepted{0}, refused{0}; std::atomic<bool> overrun{false};
    std::atomic<int> stuck{0};
    vector<std::thread> ths;
    for (int i = 0; i < nconn; i++) for (int s = 1; s <= ns; s++) {
        auto &ch = *S.in[i]; auto &st = ch.recv[s]->s;
        st.id = vf::mix(seed, i * 10 + s); st.maxlen = maxlen; st.shape = r.pick(vector<int>{0, 1, 2});
        ths.emplace_back([&, i, s] {
            int fails = 0;
            for (size_t k = 0; k < N || (mode == 0 && k < bound + 10);) {
                uint64_t q = ch.sent[s];
                ch.sent[s] = q + 1;
                // a refused message is not part of the stream: the number is used again
                if (send_typed(*C.net, s, st, q, cc[i])) { accepted++; k++; fails = 0; vf::progress(); }
                else {
                    ch.sent[s] = q; refused++; fails++; vf::usleep_(1000);
                    if (mode == 0 && fails > 60) break;  // pushed back: this is what has to happen
                    if (mode == 1 && was_blocked && fails > 100 && !release) release = true;
                }
                if ((size_t)accepted.load() > bound && mode == 0) { overrun = true; break; }
            }
            stuck++;
        });
    }
    if (mode == 1 && was_blocked) { double t0 = vf::now(); while (!release && vf::now() - t0 < 1.0 && stuck < (int)ths.size()) vf::msleep(1); vf::msleep(20); release = true; }
    for (auto &t: ths) t.join();
    if (overrun) vf::violation("queue:not-bounded", vf::fmt("%ld messages accepted while the receiver is blocked [%s]", accepted.load(), cfgs.c_str()));
    if (mode == 0) { vf::stat("pushed_back"); vf::msleep(10); }
    release = true;
    auto complete = [&] { for (int i = 0; i < nconn; i++) if (!S.in[i]->complete()) return false; return true; };
    while (!complete() && !vf::violated()) vf::msleep(1);
    // still alive?
    for (int i = 0; i < nconn && !vf::violated(); i++) for (int k = 0; k < 20; k++) {
        auto &ch = *S.in[i]; uint64_t q = ch.sent[1]; ch.sent[1] = q + 1;
        if (!send_typed(*C.net, 1, ch.recv[1]->s, q, cc[i])) ch.sent[1] = q;
    }
    while (!complete() && !vf::violated()) vf::msleep(1);
    VF_CHECK(S.errors == 0 && C.errors == 0, "queue:unexpected-error", "%s", cfgs.c_str());
    vf::stat("queued_messages", accepted); vf::stat("refused", refused);
    S.expect_down = C.expect_down = true;
    memset(&f, 0, sizeof f); vf_set_faults(&f);
    cc.clear();
    for (Side *s: {&C, &S}) s->loop->run([s] { s->net->stop(); s->conns.clear(); s->idx.clear(); s->net.reset(); });
    vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}

// a receiver that has stopped reading because its queue is full: at the very message at which it stops, with and without
// more data in the socket; the other direction goes on meanwhile, and everything goes on afterwards
static long pause_at[8];   // messages taken until reading stopped, by receive-buffer limit
static void pause_case(uint64_t seed) {
    Rng r(seed);
    int mbuf = r.range(1, 3);
    size_t chunk = r.pick(vector<size_t>{4096, 65536, 300000});
    MNet::Config cfg;
    cfg.recv_chunk_size(chunk).max_recv_buff_size(mbuf).nworker(r.range(1, 2));
    cfg.max_msg_size(100000).max_msg_queue_size(1).burst_size(r.pick(vector<size_t>{1, 50, 1000}));
    vf_fault_cfg f; memset(&f, 0, sizeof f);
    if (r.chance(1, 2)) f.sndbuf = 8192;
    vf_set_faults(&f);
    bool calibrate = pause_at[mbuf] == 0;
    int order = r.range(0, 3);      // output of the paused side begins: 0 before the pause (and is stuck), 1 after it, 2 not at all, 3 before it and stuck until after the release
    int d = r.chance(1, 2) ? 0 : (int)r.range(-2, 4);
    cfgs = vf::fmt("pause seed=%llu recvbuf=%d chunk=%zu order=%d sndbuf=%d target=%ld%+d", (unsigned long long)seed, mbuf, chunk, order, f.sndbuf, pause_at[mbuf], d);
    std::unique_ptr<Loop> l1(new Loop());
    Side S; int port = vf::free_port();
    setup(S, l1.get(), cfg, "server", 1);
    const char *phase = "setup";
    vf::watchdog(25, [&] { return cfgs + "; " + phase + "; " + S.in[0]->text(); }, "pause:stall");
    S.loop->run([&] { S.net->listen(na(port)); });
    long base = vf_recv_bytes(), fed = 0;
    Raw c;
    if (!c.connect(port, r.chance(1, 2) ? 8192 : 0)) { vf::violation("deliver:connect-failed", cfgs); return; }
    auto feed = [&](const bytes &b) { if (!c.send_all(b)) vf::violation("pause:connection-closed", cfgs + "; " + phase); fed += b.size(); };
    feed(wire(HELLO, bytes(1, 0)));
    while (S.hellos < 1) vf::msleep(1);
    conn_t conn; { vf::Lock g(S.mu); conn = S.conns[0]; }
    auto &ch = *S.in[0]; auto &st = ch.recv[1]->s;
    st.id = vf::mix(seed, 1); st.maxlen = 8; st.shape = 1;
    Stream out; out.id = vf::mix(seed, 2); out.maxlen = 300; out.shape = 0;
    auto next = [&] { uint64_t q = ch.sent[1]; ch.sent[1] = q + 1; return wire(1, st.content(q)); };
    auto taken = [&](double s) { double t0 = vf::now(); while (vf_recv_bytes() - base < fed) { if (vf::now() - t0 > s) return false; vf::usleep_(20); } return true; };
    auto arrived = [&](const char *what) { phase = what; double t0 = vf::now(); vf::hiccup(true); uint64_t last = ch.recv[1]->next;
        while (!ch.complete() && !vf::violated()) {
            if (ch.recv[1]->next != last) { last = ch.recv[1]->next; t0 = vf::now(); }
            if (vf::now() - t0 > 20 + 4 * vf::hiccup()) vf::violation("pause:not-read-again", vf::fmt("%s: %s [%s]", what, ch.text().c_str(), cfgs.c_str()));
            vf::usleep_(200);
        } };
    // the paused side's output, read and compared by this end
    uint64_t osent = 0, ogot = 0; Parser p; vector<char> b(1 << 16);
    auto put = [&](int n) { for (int k = 0; k < n; k++) { if (!S.net->_send_msg(out.msg(7, osent), conn)) vf::violation("pause:refused", cfgs); osent++; } };
    auto take = [&](const char *what, const char *key) {
        phase = what; double t0 = vf::now(); vf::hiccup(true);
        while (ogot < osent && !vf::violated()) {
            ssize_t k = c.recv_some(b.data(), b.size(), 0.2);
            if (k == -2) { if (vf::now() - t0 > 20 + 4 * vf::hiccup()) vf::violation(key, vf::fmt("%lu of %lu messages arrived: %s [%s]", (unsigned long)ogot, (unsigned long)osent, what, cfgs.c_str())); continue; }
            if (k <= 0) { vf::violation("pause:connection-closed", cfgs + "; " + phase); return; }
            t0 = vf::now();
            p.feed(b.data(), k);
            Parser::M m;
            while (p.next(m)) {
                if (m.op != 7 || ogot >= osent || m.pl != out.content(ogot)) { vf::violation("pause:wrong-message", vf::fmt("message %lu [%s]", (unsigned long)ogot, cfgs.c_str())); return; }
                ogot++; vf::progress();
            }
        }
    };
    for (int cycle = 0, nc = r.range(1, 3); cycle < nc && !vf::violated(); cycle++) {
        std::atomic<bool> blocked{false}, release{false};
        S.loop->post([&] { blocked = true; while (!release) vf::usleep_(300); });
        while (!blocked) vf::usleep_(100);
        if (order == 3) { f.eagain_send = 1000; vf_set_faults(&f); }   // as if the remote did not read
        if (order == 0 || (order == 3 && r.chance(2, 3))) { phase = "output before the pause"; put(order == 3 ? r.range(1, 300) : f.sndbuf ? 400 : 12000); }
        phase = "filling";
        bool paused = false;
        if (cycle == 0 && calibrate) {
            bytes blk; for (int k = 0; k < 8000; k++) { bytes w = next(); blk.insert(blk.end(), w.begin(), w.end()); }
            feed(blk); taken(20);
            // one by one until it is not read any more
            while (ch.sent[1] < 60000) {
                feed(next());
                if (!taken(0.05) && !taken(0.3)) { paused = true; pause_at[mbuf] = ch.sent[1] - 1; break; }
            }
        } else {
            long n = cycle == 0 ? std::max(1l, pause_at[mbuf] + d) : r.range(4000, 17000);
            long bulk = std::max(0l, n - 40);
            bytes blk; for (long k = 0; k < bulk; k++) { bytes w = next(); blk.insert(blk.end(), w.begin(), w.end()); }
            if (blk.size()) feed(blk);
            if (cycle == 0) taken(5);
            for (long k = bulk; k < n; k++) { feed(next()); taken(0.002); }
            paused = !taken(0.02);
            if (cycle == 0 && d == 0 && !paused) vf::stat("paused_with_empty_socket");
        }
        if (paused) vf::stat("paused_with_data_left");
        if (order == 1) vf::stat("output_while_paused");
        if (order == 3) { put(r.range(1, 50)); vf::stat("output_stuck_over_the_release"); }
        for (int k = 0; k < 3 && order < 2; k++) {
            if (order == 1 || k) put(r.range(1, 200));
            take("output of the side whose receiving is paused", "pause:sending-held-up");
        }
        release = true;
        arrived("after the release");
        if (order == 3) { f.eagain_send = 0; vf_set_faults(&f); take("output stuck over the pause", "pause:sending-held-up"); }
        if (r.chance(3, 4)) { put(r.range(1, 50)); take("output after the release", "pause:sending-held-up"); vf::msleep(r.range(0, 3)); }
        for (int k = r.range(1, 5); k > 0 && !vf::violated(); k--) { feed(next()); if (r.chance(1, 2)) { put(1); vf::usleep_(r.below(300)); } }
        arrived("new messages after the release");
        take("output at the end", "pause:sending-held-up");
    }
    vf::stat("pause_cases"); vf::stat("queued_messages", ch.sent[1]);
    VF_CHECK(S.errors == 0, "pause:unexpected-error", "%s", cfgs.c_str());
    S.expect_down = true;
    memset(&f, 0, sizeof f); vf_set_faults(&f);
    conn = nullptr; c.close();
    S.loop->run([&] { S.net->stop(); S.conns.clear(); S.net.reset(); });
    vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}

// a flooding remote while the application does not take messages: what is read from the socket stays within the limits of the
// queue and of the receive buffer, also while the connection is used for sending
static void hoard_case(uint64_t seed) {
    Rng r(seed);
    int mbuf = r.range(1, 4); size_t chunk = r.pick(vector<size_t>{2048, 8192});
    MNet::Config cfg;
    cfg.recv_chunk_size(chunk).max_recv_buff_size(mbuf).nworker(r.range(1, 2));
    cfg.max_msg_size(100000).max_msg_queue_size(1).burst_size(r.pick(vector<size_t>{1, 50, 1000}));
    vf_fault_cfg f; memset(&f, 0, sizeof f);
    if (r.chance(1, 3)) f.sndbuf = 8192;
    vf_set_faults(&f);
    int nput = r.chance(1, 4) ? 0 : r.range(300, 600);
    cfgs = vf::fmt("hoard seed=%llu recvbuf=%d chunk=%zu sndbuf=%d sends=%d", (unsigned long long)seed, mbuf, chunk, f.sndbuf, nput);
    std::unique_ptr<Loop> l1(new Loop());
    Side S; int port = vf::free_port();
    setup(S, l1.get(), cfg, "server", 1);
    const char *phase = "setup";
    vf::watchdog(25, [&] { return cfgs + "; " + phase + "; " + S.in[0]->text(); }, "hoard:stall");
    S.loop->run([&] { S.net->listen(na(port)); });
    Raw c;
    if (!c.connect(port)) { vf::violation("deliver:connect-failed", cfgs); return; }
    c.send_all(wire(HELLO, bytes(1, 0)));
    while (S.hellos < 1) vf::msleep(1);
    conn_t conn; { vf::Lock g(S.mu); conn = S.conns[0]; }
    auto &ch = *S.in[0]; auto &st = ch.recv[1]->s;
    st.id = vf::mix(seed, 1); st.maxlen = 64; st.shape = 0;
    Stream out; out.id = vf::mix(seed, 2); out.maxlen = 300; out.shape = 0;
    std::atomic<bool> blocked{false}, release{false};
    S.loop->post([&] { blocked = true; while (!release) vf::usleep_(300); });
    while (!blocked) vf::usleep_(100);
    long base = vf_recv_bytes();
    // the first 8193 messages may wait in the queue, some more in the receive buffer
    bytes w; long in_queue = 0; uint64_t q = 0;
    while (w.size() < (1 << 20) + 4000000) { bytes m = wire(1, st.content(q)); w.insert(w.end(), m.begin(), m.end()); q++; if (q == 8194) in_queue = w.size(); }
    ch.sent[1] = q;
    long bound = in_queue + (mbuf + 1) * (long)chunk + 200;
    std::atomic<bool> fed{false};
    std::thread feeder([&] { if (!c.send_all(w)) vf::violation("pause:connection-closed", cfgs); fed = true; });
    phase = "flooding";
    // until reading stops
    long seen = -1; for (int still = 0; still < 20; still++) { long x = vf_recv_bytes() - base; if (x != seen) still = 0; seen = x; vf::msleep(2); vf::progress(); if (x > bound) break; }
    uint64_t osent = 0, ogot = 0; Parser p; vector<char> b(1 << 16);
    for (; osent < (uint64_t)nput && !vf::violated();) {
        if (!S.net->_send_msg(out.msg(7, osent), conn)) vf::violation("pause:refused", cfgs);
        osent++;
        double t0 = vf::now(); vf::hiccup(true);
        while (ogot < osent && !vf::violated()) {
            ssize_t k = c.recv_some(b.data(), b.size(), 0.2);
            if (k == -2) { if (vf::now() - t0 > 20 + 4 * vf::hiccup()) vf::violation("pause:sending-held-up", cfgs); continue; }
            if (k <= 0) { vf::violation("pause:connection-closed", cfgs + "; " + phase); break; }
            p.feed(b.data(), k);
            Parser::M m;
            while (p.next(m)) { if (m.op != 7 || ogot >= osent || m.pl != out.content(ogot)) { vf::violation("pause:wrong-message", cfgs); break; } ogot++; vf::progress(); }
        }
    }
    long held = vf_recv_bytes() - base;
    if (held > bound) vf::violation("hoard:unbounded", vf::fmt("%ld bytes were read for an application that takes nothing; the queue holds at most %ld and the receive buffer %ld [%s]", held, in_queue, bound - in_queue, cfgs.c_str()));
    vf::stat_max("held_bytes", held); if (!fed) vf::stat("flood_pushed_back");
    phase = "after the release";
    release = true;
    feeder.join();
    uint64_t last = 0; double t0 = vf::now(); vf::hiccup(true);
    while (!ch.complete() && !vf::violated()) {
        if (ch.recv[1]->next != last) { last = ch.recv[1]->next; t0 = vf::now(); }
        if (vf::now() - t0 > 20 + 4 * vf::hiccup()) vf::violation("pause:not-read-again", vf::fmt("%s [%s]", ch.text().c_str(), cfgs.c_str()));
        vf::usleep_(200);
    }
    vf::stat("hoard_cases"); vf::stat("queued_messages", q);
    VF_CHECK(S.errors == 0, "pause:unexpected-error", "%s", cfgs.c_str());
    S.expect_down = true;
    memset(&f, 0, sizeof f); vf_set_faults(&f);
    conn = nullptr; c.close();
    S.loop->run([&] { S.net->stop(); S.conns.clear(); S.net.reset(); });
    vf::sig(vf::hash(cfgs)); vf::eval(); vf::sample(cfgs);
}

// somebody who never stops sending still gets everything that is sent to it
static void duplex_case(uint64_t seed, bool tls) {
    Rng r(seed);
    MNet::Config cfg;
    size_t chunk = r.pick(vector<size_t>{512, 4096, 65536}), rbuf = r.pick(vector<size_t>{1, 16, 4096});
    rbuf = std::min(rbuf, (4096 * 4096) / chunk); // as much is read at a time
    cfg.recv_chunk_size(chunk).max_recv_buff_size(rbuf).nworker(r.range(1, 2)); cfg.max_msg_size(100000);
    if (tls) set_tls(cfg, 0);
    vf_fault_cfg f; memset(&f, 0, sizeof f); f.sndbuf = r.pick(vector<int>{2048, 4096, 8192, 30000}); vf_set_faults(&f);
    size_t in_len = r.pick(vector<size_t>{100, 1000, 5000}); uint64_t nout = r.range(200, 1000) / (VF_TSAN ? 4 : VF_ASAN ? 2 : 1); bool paced = r.chance(1, 3);
    cfgs = vf::fmt("duplex%s seed=%llu chunk=%zu recvbuf=%zu sndbuf=%d incoming=%zu replies=%llu paced=%d", tls ? " tls" : "", (unsigned long long)seed, chunk, rbuf, f.sndbuf, in_len, (unsigned long long)nout, paced);
    Stream out; out.id = vf::mix(seed, 2); out.maxlen = r.pick(vector<size_t>{300, 3000}); out.shape = 0;
    const bytes in_pl(in_len, 7);
    Loop l; std::unique_ptr<MNet> S; int port = vf::free_port();
    std::atomic<uint64_t> handled{0}, osent{0}, ogot{0}, isent{0}; std::atomic<bool> over{false};
    vf::watchdog(30, [&] { return cfgs + vf::fmt(" handled %lu replies %lu/%lu", (unsigned long)handled.load(), (unsigned long)ogot.load(), (unsigned long)osent.load()); }, "duplex:stall");
    l.run([&] {
        S.reset(new MNet(l.ec, cfg));
        S->set_handler(1, [&](const Msg &m, const conn_t &c) {
            if (bytes(m.get_payload()) != in_pl) vf::violation("duplex:altered-message", cfgs);
            uint64_t h = handled++;
            for (int k = paced ? (h % 4 == 0 ? 3 : 0) : (h == 0 ? (int)nout : 0); k > 0 && osent < nout; k--) {
                uint64_t i = osent++; if (!S->_send_msg(out.msg(7, i), c)) vf::violation("duplex:refused", cfgs); }
        });
        S->reg_conn_handler([&](const ConnPool::conn_t &, bool up) { if (!up && !over) vf::violation("duplex:connection-closed", "at the server [" + cfgs + "]"); return true; });
        S->start(); S->listen(na(port));
    });
    TlsC t; if (!t.c.connect(port) || (tls && !t.on_fd(1, false))) { vf::violation("duplex:connect-failed", t.why + " [" + cfgs + "]"); return; }
    fcntl(t.c.fd, F_SETFL, fcntl(t.c.fd, F_GETFL) | O_NONBLOCK);
    bytes w; int per = 100; for (int i = 0; i < per; i++) { auto x = wire(1, in_pl); w.insert(w.end(), x.begin(), x.end()); }
    if (tls) SSL_set_mode(t.s, SSL_MODE_ENABLE_PARTIAL_WRITE);
    size_t off = 0; Parser p; vector<char> b(1 << 16); bool flood = true; double t0 = vf::now(), since = t0; vf::hiccup(true); NoPipe np;
    while (!vf::violated()) {
        bool moved = false;
        if (flood || off) { // never stops before everything has arrived, and then at the end of a message batch
            ssize_t k;
            if (tls) { ERR_clear_error(); k = SSL_write(t.s, &w[off], w.size() - off); if (k <= 0) { int e = SSL_get_error(t.s, k); k = e == SSL_ERROR_WANT_WRITE || e == SSL_ERROR_WANT_READ ? 0 : -1; } }
            else { k = vfr_send(t.c.fd, &w[off], w.size() - off, MSG_NOSIGNAL); if (k < 0 && errno == EAGAIN) k = 0; }
            if (k < 0) { vf::violation("duplex:connection-closed", vf::fmt("sending: %s [%s]", tls ? ERR_error_string(ERR_peek_error(), nullptr) : strerror(errno), cfgs.c_str())); break; }
            if (k > 0) { moved = true; off += k; if (off == w.size()) { off = 0; isent += per; } }
        }
        for (int turn = 0; turn < 4; turn++) {
            ssize_t k;
            if (tls) { ERR_clear_error(); k = SSL_read(t.s, b.data(), b.size()); if (k <= 0) { int e = SSL_get_error(t.s, k); k = e == SSL_ERROR_WANT_WRITE || e == SSL_ERROR_WANT_READ ? -2 : -1; } }
            else { k = ::recv(t.c.fd, b.data(), b.size(), MSG_DONTWAIT); if (k < 0 && errno == EAGAIN) k = -2; }
            if (k == -2) break;
            if (k <= 0) { vf::violation("duplex:connection-closed", vf::fmt("receiving: %s [%s]", tls ? ERR_error_string(ERR_peek_error(), nullptr) : strerror(errno), cfgs.c_str())); break; }
            p.feed(b.data(), k); moved = true; since = vf::now(); vf::hiccup(true);
            Parser::M m;
            while (p.next(m)) { if (m.op != 7 || ogot >= osent || m.pl != out.content(ogot)) { vf::violation("duplex:wrong-message", vf::fmt("reply %lu [%s]", (unsigned long)ogot.load(), cfgs.c_str())); break; } ogot++; }
        }
        vf::progress();
        if (flood && ogot == nout) { flood = false; t0 = vf::now(); }
        if (flood && vf::now() - since > 6 + 4 * vf::hiccup()) vf::violation("duplex:output-held-up", vf::fmt("%lu of %lu replies arrived, nothing for %.1fs while %lu messages were sent [%s]", (unsigned long)ogot.load(), (unsigned long)osent.load(), vf::now() - since, (unsigned long)isent.load(), cfgs.c_str()));
        if (!flood && !off && handled == isent) break;
        if (!flood && !off && vf::now() - t0 > 20) { vf::violation("duplex:message-lost", vf::fmt("%lu of %lu handled [%s]", (unsigned long)handled.load(), (unsigned long)isent.load(), cfgs.c_str())); break; }
        if (!moved) { struct pollfd pf = {t.c.fd, (short)(POLLIN | (flood || off ? POLLOUT : 0)), 0}; ::poll(&pf, 1, 5); }
    }
    over = true;
    VF_CHECK(handled == isent || vf::violated(), "duplex:message-count", "%s", cfgs.c_str());
    vf::stat("duplex_replies", ogot); vf::stat("duplex_messages", handled);
    l.run([&] { S->stop(); S.reset(); });
    vf::sig(vf::mix(vf::hash(cfgs), isent)); vf::eval(); vf::sample(cfgs);
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    vf_io_progress(1);
    auto &m = vf::args.mode;
    if (m.find("tls") != string::npos) idents();
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        uint64_t seed = vf::args.seed * 1000 + k;
        if (m == "deliver") deliver_case(seed, false, false);
        else if (m == "tls") deliver_case(seed, true, false);
        else if (m == "stats") deliver_case(seed, false, true);
        else if (m == "tlsstats") deliver_case(seed, true, true);
        else if (m == "close") close_case(seed, false);
        else if (m == "tlsclose") close_case(seed, true);
        else if (m == "bounded") bounded_case(seed);
        else if (m == "queue") queue_case(seed, false);
        else if (m == "pause") pause_case(seed);
        else if (m == "duplex") duplex_case(seed, false);
        else if (m == "tlsduplex") duplex_case(seed, true);
        else if (m == "hoard") hoard_case(seed);
        else if (m == "tlsqueue") queue_case(seed, true);
        if (const char *v = vf_fd_violation()) vf::violation("deliver:fd", string(v) + " [" + cfgs + "]");
    }
    vf::finish();
}
