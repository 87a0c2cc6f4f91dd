// C01: concurrent queues. Monitors: per-run exactly-once accounting, per-producer order, rewind position,
// element integrity, wake-up (no-progress watchdog) for the event-driven variants.
#ifndef VF_BLOCK
#define VF_BLOCK 4096 // elements per block of the queues; the sb* variants build them with 8
#endif
#include "vf.h"
#include "salticidae/event.h"
#include "salticidae/queue.h"
#include <thread>
#include <memory>
#include <mutex>
#include <condition_variable>
using namespace salticidae;
using vf::Rng;

struct Elem {
    uint32_t prod, seq;
    uint64_t chk;
    std::vector<uint32_t> body;    // heap content: aliasing/double moves become visible to ASan
    Elem(): prod(~0u), seq(~0u), chk(0) {}
    Elem(uint32_t p, uint32_t s, bool heavy): prod(p), seq(s), chk(sum(p, s)) {
        if (heavy) body = {p, s, p ^ s};
    }
    static uint64_t sum(uint64_t p, uint64_t s) { return (p * 0x9E3779B97F4A7C15ull) ^ (s * 0xff51afd7ed558ccdull) ^ 0x5bd1e995; }
    bool ok() const { return chk == sum(prod, seq) && (body.empty() || (body.size() == 3 && body[0] == prod && body[1] == seq && body[2] == (prod ^ seq))); }
};

static std::string cfgs;
static std::atomic<uint64_t> g_enq{0}, g_deq{0};

struct Ledger {
    // seen[p][i]: how many times element i of producer p came out
    std::vector<std::vector<uint8_t>> seen;
    std::vector<std::vector<uint8_t>> accepted;
    std::vector<long> last;
    vf::Mutex m;
    Ledger(size_t np, size_t n): seen(np, std::vector<uint8_t>(n, 0)), accepted(np, std::vector<uint8_t>(n, 0)), last(np, -1) {}
    // returns false when the element makes no sense
    bool out(const Elem &e, bool fifo) {
        if (!e.ok() || e.prod >= seen.size() || e.seq >= seen[e.prod].size()) {
            vf::violation("queue:corrupt", vf::fmt("dequeued a value nobody enqueued: producer=%u seq=%u [%s]", e.prod, e.seq, cfgs.c_str()));
            return false;
        }
        if (++seen[e.prod][e.seq] > 1) {
            vf::violation("queue:duplicate", vf::fmt("element %u/%u dequeued twice [%s]", e.prod, e.seq, cfgs.c_str()));
            return false;
        }
        if (fifo) {
            if ((long)e.seq <= last[e.prod])
                vf::violation("queue:order", vf::fmt("producer %u: element %u came out after %ld [%s]", e.prod, e.seq, last[e.prod], cfgs.c_str()));
            last[e.prod] = e.seq;
        }
        return true;
    }
    void final_check() {
        for (size_t p = 0; p < seen.size(); p++)
            for (size_t i = 0; i < seen[p].size(); i++) {
                if (accepted[p][i] && !seen[p][i]) {
                    vf::violation("queue:lost", vf::fmt("element %zu/%zu was enqueued but never dequeued [%s]", p, i, cfgs.c_str()));
                    return;
                }
                if (!accepted[p][i] && seen[p][i]) {
                    vf::violation("queue:rejected-but-delivered", vf::fmt("element %zu/%zu was rejected but dequeued [%s]", p, i, cfgs.c_str()));
                    return;
                }
            }
    }
};

static void rewind_(MPSCQueue<Elem> &q, Elem &e) { q.rewind(e); }
static void rewind_(MPMCQueue<Elem> &, Elem &) {}

static void jitter(Rng &r, int lvl) {
    if (!lvl) return;
    auto k = r.below(200);
    if (k < (uint64_t)lvl) std::this_thread::yield();
    else if (lvl > 2 && k == 199 && r.below(8) == 0) vf::usleep_(r.below(120));
}

template<typename Q, bool FIFO> static void direct_case(uint64_t seed, bool multi_consumer, bool rewinds) {
    Rng r(seed);
    int np = r.range(1, 6), nc = multi_consumer ? r.range(1, 4) : 1;
    size_t n;
    switch (r.below(5)) {
        case 0: n = r.range(1, 40); break;
        case 1: n = std::max<int64_t>(1, VF_BLOCK / np + r.range(-2, 2)); break;         // exactly around one block
        case 2: n = std::max<int64_t>(1, 2 * VF_BLOCK / np + r.range(-3, 3)); break;
        case 3: n = r.range(1000, 6000); break;
        default: n = r.range(3000, 14000); break;
    }
    if (n < 1) n = 1;
    bool bounded = r.chance(1, 2), heavy = r.chance(1, 3), slow_consumer = r.chance(1, 4);
    size_t cap = r.pick(std::vector<size_t>{1, VF_BLOCK, VF_BLOCK + VF_BLOCK / 4, 2 * VF_BLOCK, 3 * VF_BLOCK});
    int lvl = r.below(4);
    int drop = r.below(3) == 0;
    cfgs = vf::fmt("%s np=%d nc=%d n=%zu bounded=%d cap=%zu heavy=%d rew=%d drop=%d seed=%llu", multi_consumer ? "mpmc" : "mpsc", np, nc, n, bounded, cap, heavy, rewinds, drop, (unsigned long long)seed);
    std::unique_ptr<Q> q(new Q());
    if (bounded) q->set_capacity(cap);
    Ledger L(np, n);
    std::atomic<int> live{np};
    std::atomic<uint64_t> total{0}, got{0}, rejected{0}, rew{0};
    std::vector<std::thread> ths;
    for (int p = 0; p < np; p++)
        ths.emplace_back([&, p]() {
            Rng pr(seed * 31 + p + 1);
            for (size_t i = 0; i < n; i++) {
                Elem e(p, i, heavy);
                for (;;) {
                    bool ok = bounded ? (pr.chance(1, 2) ? q->try_enqueue(e) : q->enqueue(e, false)) : q->enqueue(e);
                    if (ok) { L.accepted[p][i] = 1; total++; break; }
                    rejected++;
                    if (!bounded) { vf::violation("queue:unbounded-rejected", cfgs); return; }
                    if (drop) break;
                    std::this_thread::yield();
                    vf::progress();
                }
                jitter(pr, lvl);
            }
            live--;
        });
    vf::Mutex lm;
    for (int c = 0; c < nc; c++)
        ths.emplace_back([&, c]() {
            Rng cr(seed * 77 + c + 1000);
            Elem e;
            Elem back;
            bool expect_back = false;
            std::vector<Elem> mine;
            for (;;) {
                bool fin = live.load() == 0;
                if (q->try_dequeue(e)) {
                    if (FIFO && rewinds) {
                        if (expect_back) {
                            if (e.prod != back.prod || e.seq != back.seq)
                                vf::violation("queue:rewind-not-front", vf::fmt("put back %u/%u, got %u/%u [%s]", back.prod, back.seq, e.prod, e.seq, cfgs.c_str()));
                            expect_back = false;
                        }
                        if (cr.chance(1, 6)) {
                            back = e;
                            int depth = 1;
                            // sometimes put several back: pop k, rewind in reverse order
                            if (cr.chance(1, 4)) {
                                std::vector<Elem> st; st.push_back(e);
                                int k = cr.range(1, 5);
                                Elem x;
                                while (k-- && q->try_dequeue(x)) st.push_back(x);
                                for (auto it = st.rbegin(); it != st.rend(); ++it) rewind_(*q, *it);
                                back = st[0];
                                depth = st.size();
                            } else rewind_(*q, e);
                            rew += depth;
                            expect_back = true;
                            continue;
                        }
                    }
                    { vf::Lock g(L.m); L.out(e, FIFO); }
                    if ((++got & 1023) == 0) vf::progress();
                } else {
                    if (fin) {
                        // all producers are done: the queue must drain completely.  With several
                        // consumers an empty report may be transient, so only the total decides.
                        if (got.load() >= total.load()) break;
                        if (nc == 1) break;
                    }
                    std::this_thread::yield();
                }
                if (slow_consumer) jitter(cr, 40);
                if (vf::violated()) break;
            }
        });
    for (auto &t: ths) t.join();
    if (!vf::violated()) L.final_check();
    vf::stat("enqueued", total); vf::stat("dequeued", got); vf::stat("rejected", rejected); vf::stat("rewound", rew);
    if (np > 1 || n > 1) vf::sig(vf::mix(vf::hash(cfgs), 1));
    vf::sample(cfgs + vf::fmt(" -> enq=%llu deq=%llu rej=%llu rew=%llu", (unsigned long long)total, (unsigned long long)got, (unsigned long long)rejected, (unsigned long long)rew));
    vf::eval();
}

// destruction with elements still inside must free them and must not crash
static void destroy_case(uint64_t seed) {
    Rng r(seed);
    MPMCQueue<std::shared_ptr<int>> *q = new MPMCQueue<std::shared_ptr<int>>();
    std::vector<std::weak_ptr<int>> w;
    int n = r.range(0, 9000), k = r.range(0, n);
    for (int i = 0; i < n; i++) { auto p = std::make_shared<int>(i); w.push_back(p); q->enqueue(p); }
    std::shared_ptr<int> o;
    for (int i = 0; i < k; i++) {
        if (!q->try_dequeue(o)) { vf::violation("queue:lost", vf::fmt("sequential: %d of %d missing", i, n)); break; }
        if (*o != i) { vf::violation("queue:order", vf::fmt("sequential: got %d expected %d", *o, i)); break; }
    }
    o.reset();
    delete q;
    for (int i = k; i < n; i++) if (!w[i].expired()) { vf::violation("queue:leak-on-destroy", vf::fmt("element %d/%d survives the queue", i, n)); break; }
    vf::eval(); vf::sig(vf::mix(seed, 7));
}

// capacity: a bounded queue accepts at least its capacity and never grows beyond it by more than two blocks
static void capacity_case(uint64_t seed) {
    Rng r(seed);
    size_t cap = r.pick(std::vector<size_t>{1, 100, VF_BLOCK, VF_BLOCK + 1 + VF_BLOCK / 4, 2 * VF_BLOCK, 3 * VF_BLOCK, 20000});
    cfgs = vf::fmt("capacity cap=%zu seed=%llu", cap, (unsigned long long)seed);
    MPSCQueue<uint64_t> q;
    q.set_capacity(cap);
    uint64_t in = 0, out = 0;
    for (int round = 0; round < 6; round++) {
        while (q.enqueue(in, false)) {
            in++;
            if (in - out > cap + 2 * VF_BLOCK) { vf::violation("queue:capacity-exceeded", vf::fmt("holds %llu elements [%s]", (unsigned long long)(in - out), cfgs.c_str())); return; }
        }
        if (round == 0 && in - out < cap) { vf::violation("queue:capacity-unused", vf::fmt("refused at %llu elements [%s]", (unsigned long long)(in - out), cfgs.c_str())); return; }
        vf::stat("rejected");
        // an element that does not fit may still be forced in; after draining everything fits again
        if (r.chance(1, 3)) { for (int i = 0; i < 3; i++) if (!q.enqueue(in++, true)) { vf::violation("queue:unbounded-rejected", cfgs); return; } cap += VF_BLOCK; }
        uint64_t k = r.chance(1, 2) ? in - out : r.below(in - out + 1), e;
        while (k--) {
            if (!q.try_dequeue(e)) { vf::violation("queue:lost", cfgs); return; }
            if (e != out++) { vf::violation("queue:order", cfgs); return; }
        }
    }
    uint64_t e;
    while (q.try_dequeue(e)) if (e != out++) { vf::violation("queue:order", cfgs); return; }
    if (in != out) vf::violation("queue:lost", vf::fmt("%llu in, %llu out [%s]", (unsigned long long)in, (unsigned long long)out, cfgs.c_str()));
    vf::eval(); vf::sig(vf::hash(cfgs));
}

// event-driven: the consumer only runs when woken
template<bool MP> struct EvQ;
template<> struct EvQ<false> { using type = MPSCQueueEventDriven<Elem>; };
template<> struct EvQ<true> { using type = MPMCQueueEventDriven<Elem>; };

template<bool MP> static void event_case(uint64_t seed) {
    Rng r(seed);
    int np = r.range(1, 5), nc = MP ? r.range(1, 3) : 1;
    int rounds = r.range(3, 25);
    size_t per = r.pick(std::vector<size_t>{1, 2, 3, 7, 40, 300, 1500});
    size_t n = rounds * per;
    int burst = r.pick(std::vector<int>{1, 2, 7, 64, 1000000});
    bool bounded = r.chance(1, 3);
    bool rewinds = !MP && r.chance(1, 3);
    cfgs = vf::fmt("event-%s np=%d nc=%d rounds=%d per=%zu burst=%d bounded=%d rew=%d seed=%llu", MP ? "mpmc" : "mpsc", np, nc, rounds, per, burst, bounded, rewinds, (unsigned long long)seed);
    typename EvQ<MP>::type *q = new typename EvQ<MP>::type();
    if (bounded) q->set_capacity(VF_BLOCK);
    Ledger L(np, n);
    std::atomic<uint64_t> total{0}, got{0}, wakes{0}, rejected{0};
    std::vector<EventContext> ecs(nc);
    std::vector<std::thread> loops;
    std::vector<std::unique_ptr<ThreadCall>> stops;
    std::atomic<int> in_handler{0};
    for (int c = 0; c < nc; c++) {
        auto rng = std::make_shared<Rng>(seed * 5 + c);
        q->reg_handler(ecs[c], [&, rng](typename EvQ<MP>::type &qq) {
            wakes++;
            Elem e;
            int cnt = 0;
            if (!MP && in_handler.fetch_add(1)) vf::violation("queue:handler-concurrent", cfgs);
            bool more = false;
            while (qq.try_dequeue(e)) {
                vf::Lock g(L.m);
                L.out(e, !MP); got++;
                if (++cnt >= burst) { more = true; break; }
            }
            if (!MP) in_handler--;
            if (rng->chance(1, 8)) vf::usleep_(rng->below(150));
            return more;
        });
        stops.emplace_back(new ThreadCall(ecs[c]));
    }
    for (int c = 0; c < nc; c++) loops.emplace_back([&, c]() { ecs[c].dispatch(); });
    std::vector<std::thread> ths;
    std::atomic<int> phase{0}, arrived{0};
    for (int p = 0; p < np; p++)
        ths.emplace_back([&, p]() {
            Rng pr(seed * 131 + p);
            size_t i = 0;
            for (int rd = 0; rd < rounds; rd++) {
                for (size_t k = 0; k < per; k++, i++) {
                    Elem e(p, i, false);
                    while (!q->enqueue(e, !bounded)) { rejected++; std::this_thread::yield(); }
                    L.accepted[p][i] = 1; total++;
                    if (pr.chance(1, 30)) std::this_thread::yield();
                }
                // quiescence barrier: everything enqueued so far must come out without another push
                arrived++;
                while (phase.load() <= rd) vf::usleep_(20);
            }
        });
    for (int rd = 0; rd < rounds; rd++) {
        while (arrived.load() < np * (rd + 1)) vf::usleep_(20);
        while (got.load() < total.load() && !vf::violated()) vf::usleep_(20);  // watchdog: lost wake-up
        vf::progress();
        phase++;
    }
    for (auto &t: ths) t.join();
    // an empty queue lets its loops sleep
    if (r.chance(1, 3) && !vf::violated()) {
        vf::msleep(3);
        uint64_t w0 = wakes; vf::msleep(6); uint64_t w1 = wakes; vf::msleep(6); uint64_t w2 = wakes;
        if (w1 - w0 > 30 && w2 - w1 > 30) vf::violation("queue:idle-wakeups", vf::fmt("%llu wake-ups in 12 ms although the queue is empty [%s]", (unsigned long long)(w2 - w0), cfgs.c_str()));
        vf::stat("idle_checks");
    }
    for (auto &s: stops) { auto *tc = s.get(); tc->async_call([tc](ThreadCall::Handle &) { tc->get_ec().stop(); }); }
    for (auto &t: loops) t.join();
    L.final_check();
    stops.clear();
    delete q;
    vf::stat("enqueued", total); vf::stat("dequeued", got); vf::stat("wakeups", wakes); vf::stat("rejected", rejected); vf::stat("quiescent_points", rounds);
    vf::sig(vf::mix(vf::hash(cfgs), 2));
    vf::sample(cfgs + vf::fmt(" -> wakeups=%llu", (unsigned long long)wakes));
    vf::eval();
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    vf::watchdog(25, []() { return "queue: " + cfgs; }, "queue:stall");
    for (long i = 0; i < vf::args.n && !vf::violated(); i++) {
        uint64_t s = vf::args.seed * 100003 + i;
        Rng r(s);
#ifdef VF_PERTURB
        vf_perturb_config(r.pick(std::vector<int>{0, 4, 20, 60, 150}), r.pick(std::vector<int>{50, 400, 2000}), r.pick(std::vector<int>{0, 30, 100}));
#endif
        const std::string &m = vf::args.mode;
        if (m == "mpsc") direct_case<MPSCQueue<Elem>, true>(s, false, r.chance(1, 2));
        else if (m == "mpmc") direct_case<MPMCQueue<Elem>, false>(s, true, false);
        else if (m == "evsc") event_case<false>(s);
        else if (m == "evmc") event_case<true>(s);
        else if (m == "capacity") capacity_case(s);
        else if (m == "destroy") destroy_case(s);
        else { fprintf(stderr, "mode?\n"); return 3; }
    }
    vf::finish();
}
