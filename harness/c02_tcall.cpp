// C02: cross-thread calls. Monitors: runs-on-loop-thread, exactly-once, per-caller order, each synchronous
// caller gets its own result/exception, results freed exactly once, stop() semantics.
#include "vf.h"
#include "salticidae/event.h"
#include <thread>
#include <memory>
using namespace salticidae;
using vf::Rng;

static std::string cfgs;
#if !VF_TSAN && !VF_ASAN
// waits on condition variables wake up without a reason now and then, as POSIX allows
#include <dlfcn.h>
#include <pthread.h>
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    typedef int (*fn)(pthread_cond_t *, pthread_mutex_t *);
    static fn real = (fn)dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    static std::atomic<unsigned> n{0};
    if (!real || n++ % 3 == 0) { pthread_mutex_unlock(m); usleep(n % 7 * 8); pthread_mutex_lock(m); vf::stat("spurious_wakeups"); return 0; }
    return real(c, m);
}
#endif
static std::atomic<long> live{0};
struct Val {
    uint64_t id, chk;
    Val(uint64_t i): id(i), chk(~i) { live++; }
    Val(const Val &o): id(o.id), chk(o.chk) { live++; }
    Val(Val &&o): id(o.id), chk(o.chk) { live++; }
    ~Val() { if (chk != ~id) vf::violation("tcall:result-corrupt", cfgs); chk = 0; id = 0; live--; }
};
struct MyErr: std::runtime_error { uint64_t id; MyErr(uint64_t i): std::runtime_error("e"), id(i) {} };
struct DoubleErr { uint64_t id; };

struct Loop {
    EventContext ec;
    std::unique_ptr<ThreadCall> tc;
    std::thread th;
    std::atomic<std::thread::id> tid;
    std::atomic<bool> up{false};
    explicit Loop(size_t burst): tc(new ThreadCall(ec, burst)) {}
    void start() { th = std::thread([this]() { tid = std::this_thread::get_id(); up = true; ec.dispatch(); }); while (!up) vf::usleep_(10); }
    void end() { EventContext e = ec; tc->async_call([e](ThreadCall::Handle &) { e.stop(); }); th.join(); }
};

static void calls_case(uint64_t seed) {
    Rng r(seed);
    int nl = r.range(1, 3), nt = r.range(1, 6), n = r.pick(std::vector<int>{5, 60, 400, 1500});
    size_t burst = r.pick(std::vector<size_t>{1, 2, 3, 16, 128});
    int syncpct = r.pick(std::vector<int>{0, 20, 60, 100});
    bool nested = nl > 1 && r.chance(1, 2);
    cfgs = vf::fmt("calls loops=%d threads=%d n=%d burst=%zu sync%%=%d nested=%d seed=%llu", nl, nt, n, burst, syncpct, nested, (unsigned long long)seed);
    long live0 = live;
    std::vector<std::unique_ptr<Loop>> loops;
    for (int i = 0; i < nl; i++) loops.emplace_back(new Loop(burst));
    for (auto &l: loops) l->start();
    // ran[loop][thread] = next expected sequence number on that loop from that thread
    std::vector<std::vector<std::atomic<long>>> ran(nl);
    for (auto &v: ran) { v = std::vector<std::atomic<long>>(nt); for (auto &x: v) x = 0; }
    std::atomic<long> executed{0}, syncs{0}, excs{0}, asyncs{0}, nest{0};
    std::vector<std::thread> ths;
    std::vector<std::vector<long>> made(nt, std::vector<long>(nl, 0));
    for (int t = 0; t < nt; t++)
        ths.emplace_back([&, t]() {
            Rng pr(seed * 977 + t);
            auto &mk = made[t];
            for (int i = 0; i < n; i++) {
                int li = pr.below(nl);
                Loop *l = loops[li].get();
                long seq = mk[li]++;
                auto mark = [&, l, li, t, seq]() {
                    if (std::this_thread::get_id() != l->tid.load()) vf::violation("tcall:wrong-thread", cfgs);
                    long e = ran[li][t].fetch_add(1);
                    if (e != seq) vf::violation("tcall:order", vf::fmt("caller %d loop %d: call %ld ran as number %ld [%s]", t, li, seq, e, cfgs.c_str()));
                    executed++;
                };
                uint64_t id = ((uint64_t)t << 40) ^ ((uint64_t)i << 8) ^ li ^ (seed << 50);
                if (pr.chance(syncpct, 100)) {
                    int kind = pr.below(5);
                    syncs++;
                    try {
                        auto res = l->tc->call([&, kind, id, mark](ThreadCall::Handle &h) {
                            mark();
                            if (kind == 0) throw MyErr(id);
                            if (kind == 1) { h.set_result(Val(id ^ 1)); h.set_result(Val(id)); return; }
                            if (kind == 2) { h.set_result(Val(id ^ 1)); throw MyErr(id); }
                            if (kind == 3) { Val v(id); h.set_result(v); return; }
                        });
                        try {
                            ThreadCall::Result r2(std::move(res));
                            ThreadCall::Result r3; r3 = std::move(r2);
                            if (pr.chance(1, 2)) { ThreadCall::Result r4; r4.swap(r3); r3 = std::move(r4); }
                            void *p = r3.get();
                            if (kind == 0 || kind == 2) vf::violation("tcall:exception-lost", cfgs);
                            else if (kind == 4) { if (p) vf::violation("tcall:foreign-result", "a call without result returned one; " + cfgs); }
                            else if (!p || static_cast<Val *>(p)->id != id || static_cast<Val *>(p)->chk != ~id)
                                vf::violation("tcall:foreign-result", vf::fmt("call %llx got %llx [%s]", (unsigned long long)id, p ? (unsigned long long)static_cast<Val *>(p)->id : 0, cfgs.c_str()));
                            if (r2.data || res.data) vf::violation("tcall:result-two-owners", cfgs);
                        } catch (MyErr &e) {
                            excs++;
                            if (kind != 0 && kind != 2) vf::violation("tcall:foreign-exception", cfgs);
                            if (!VF_TSAN && e.id != id) vf::violation("tcall:foreign-exception", cfgs);
                        }
                    } catch (std::exception &e) { vf::violation("tcall:call-threw", std::string(e.what()) + " " + cfgs); }
                    if (ran[li][t].load() != seq + 1) vf::violation("tcall:sync-returned-early", cfgs);
                } else {
                    asyncs++;
                    int kind = pr.below(4);
                    auto keep = std::make_shared<Val>(id);
                    Loop *other = nested && pr.chance(1, 4) ? loops[(li + 1) % nl].get() : nullptr;
                    std::atomic<long> *ex = &executed;
                    if (other) nest++;
                    l->tc->async_call([&, keep, kind, mark, id, other, ex](ThreadCall::Handle &h) {
                        mark();
                        if (keep->id != id) vf::violation("tcall:capture-corrupt", cfgs);
                        if (other) other->tc->async_call([ex, other](ThreadCall::Handle &) {
                            if (std::this_thread::get_id() != other->tid.load()) vf::violation("tcall:wrong-thread", cfgs);
                            (*ex)++;
                        });
                        if (kind == 0) throw MyErr(id);           // must not kill the loop
                        if (kind == 1) h.set_result(Val(id));     // result nobody waits for: freed
                    });
                }
                if (pr.chance(1, 40)) vf::usleep_(pr.below(200));
                if (vf::violated()) break;
            }
        });
    for (auto &t: ths) t.join();
    long want = syncs + asyncs + nest;
    while (executed.load() < want && !vf::violated()) vf::usleep_(50);   // watchdog: lost call
    for (auto &l: loops) l->end();
    vf::msleep(0);
    if (executed.load() != want) vf::violation("tcall:not-exactly-once", vf::fmt("made %ld ran %ld [%s]", want, executed.load(), cfgs.c_str()));
    for (auto &l: loops) l->tc.reset();
    if (live.load() != live0) vf::violation("tcall:leak", vf::fmt("%ld result/captured objects left [%s]", live.load() - live0, cfgs.c_str()));
    vf::stat("calls_executed", executed); vf::stat("sync_calls", syncs); vf::stat("exceptions_returned", excs);
    vf::sig(vf::hash(cfgs)); vf::sample(cfgs); vf::eval();
}

// stop() while callers keep calling; the loop keeps running
static void stop_case(uint64_t seed) {
    Rng r(seed);
    int nt = r.range(1, 5);
    cfgs = vf::fmt("stop threads=%d seed=%llu", nt, (unsigned long long)seed);
    long live0 = live;
    Loop l(r.pick(std::vector<size_t>{1, 4, 128}));
    ThreadCall endtc(l.ec);
    l.start();
    std::atomic<bool> stopped{false}, quit{false};
    std::atomic<long> refused{0}, ok{0}, after{0};
    std::vector<std::thread> ths;
    for (int t = 0; t < nt; t++)
        ths.emplace_back([&, t]() {
            Rng pr(seed * 3 + t);
            uint64_t i = 0;
            while (!quit) {
                uint64_t id = ((uint64_t)t << 32) | ++i;
                bool pre = stopped.load();
                if (pr.chance(1, 3)) {
                    auto keep = std::make_shared<Val>(id);
                    l.tc->async_call([&, keep](ThreadCall::Handle &) {
                        if (stopped.load()) vf::violation("tcall:ran-after-stop", cfgs);
                    });
                    continue;
                }
                auto res = l.tc->call([&, id](ThreadCall::Handle &h) {
                    if (stopped.load()) vf::violation("tcall:ran-after-stop", cfgs);
                    h.set_result(Val(id));
                });
                try {
                    auto v = static_cast<Val *>(res.get());
                    if (!v || v->id != id) vf::violation("tcall:foreign-result", cfgs);
                    if (pre) vf::violation("tcall:success-after-stop", cfgs);
                    ok++;
                } catch (SalticidaeError &e) {
                    refused++;
                    if (!VF_TSAN && e.get_code() != SALTI_ERROR_NOT_AVAIL) vf::violation("tcall:wrong-error", vf::fmt("code %d [%s]", e.get_code(), cfgs.c_str()));
                    if (pre) after++;
                } catch (...) { vf::violation("tcall:wrong-error", cfgs); }
                vf::progress();
            }
        });
    vf::usleep_(r.below(3000));
    l.tc->async_call([&](ThreadCall::Handle &) { l.tc->stop(); stopped = true; });
    vf::wait_until([&]() { return after.load() > 3 * nt; }, 20);
    quit = true;
    for (auto &t: ths) t.join();
    if (!l.tc->is_stopped()) vf::violation("tcall:not-stopped", cfgs);
    // the loop itself is ended through another thread-call on the same context
    EventContext ec = l.ec;
    l.tc->async_call([](ThreadCall::Handle &) { vf::violation("tcall:ran-after-stop", cfgs); });
    vf::stat("refused_after_stop", refused); vf::stat("calls_executed", ok);
    vf::eval(); vf::sig(vf::hash(cfgs)); vf::sample(cfgs + vf::fmt(" ok=%ld refused=%ld", ok.load(), refused.load()));
    (void)live0;
    endtc.async_call([ec](ThreadCall::Handle &) { ec.stop(); });   // the stopped object no longer runs functions
    l.th.join();
    l.tc.reset();
    if (live.load() != live0) vf::violation("tcall:leak", vf::fmt("%ld objects left after stop [%s]", live.load() - live0, cfgs.c_str()));
}

// destruction with pending calls: captured objects freed, functions never run
static void destroy_case(uint64_t seed) {
    Rng r(seed);
    cfgs = vf::fmt("destroy seed=%llu", (unsigned long long)seed);
    long live0 = live;
    int n = r.range(0, 9000), ran = 0;
    {
        EventContext ec;
        auto *tc = new ThreadCall(ec, r.pick(std::vector<size_t>{1, 7, 128}));
        for (int i = 0; i < n; i++) {
            auto keep = std::make_shared<Val>(i);
            tc->async_call([keep, &ran](ThreadCall::Handle &) { ran++; });
        }
        int rounds = r.below(3);
        int before = 0;
        for (int i = 0; i < rounds; i++) { uv_run(ec.get(), UV_RUN_NOWAIT); before = ran; }
        delete tc;
        uv_run(ec.get(), UV_RUN_NOWAIT);
        if (ran != before) vf::violation("tcall:ran-after-destroy", cfgs);
    }
    if (live.load() != live0) vf::violation("tcall:leak", vf::fmt("%ld captured objects left after destruction [%s]", live.load() - live0, cfgs.c_str()));
    vf::stat("destroyed_with_pending"); vf::eval(); vf::sig(vf::mix(seed, 11));
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    vf::watchdog(25, []() { return "tcall: " + cfgs; }, "tcall:stall");
    for (long i = 0; i < vf::args.n && !vf::violated(); i++) {
        uint64_t s = vf::args.seed * 100003 + i;
        Rng r(s);
#ifdef VF_PERTURB
        vf_perturb_config(r.pick(std::vector<int>{0, 4, 20, 60, 150}), r.pick(std::vector<int>{50, 400, 2000}), r.pick(std::vector<int>{0, 30, 100}));
#endif
        const std::string &m = vf::args.mode;
        if (m == "calls") calls_case(s);
        else if (m == "stop") stop_case(s);
        else if (m == "destroy") destroy_case(s);
        else return 3;
    }
    vf::finish();
}
