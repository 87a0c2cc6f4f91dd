// C16: reference-counted handles. Monitors: life-cycle ledger of every tracked object, handle-count model,
// live-heap accounting (control blocks), concurrent copy/drop/upgrade under ASan, TSan and perturbed atomics.
#include "vf.h"
#include <atomic>
#include <stdexcept>
#include "salticidae/ref.h"
#include <thread>
#include <memory>
#include <algorithm>
#include <map>
using namespace salticidae;
using vf::Rng;
#if VF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long heap() { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
static long heap() { return 0; }
#endif
static std::string cfgs;
static std::atomic<long> g_live{0}, g_born{0}, g_died{0};
static const uint64_t ALIVE = 0xA11FEA11FEull, DEAD = 0xDEADDEADull;
struct Base {
    std::atomic<uint64_t> st; int id; std::atomic<int> *dead;
    Base(int i, std::atomic<int> *d = nullptr): st(ALIVE), id(i), dead(d) { g_live++; g_born++; }
    virtual ~Base() {
        if (st.exchange(DEAD) != ALIVE) vf::violation("ref:destroyed-twice", vf::fmt("object %d ", id) + cfgs);
        g_live--; g_died++; if (dead) (*dead)++;
    }
    bool ok() const { return st.load() == ALIVE; }
};
struct Derived: Base { std::vector<int> body; Derived(int i, std::atomic<int> *d = nullptr): Base(i, d), body(5, i) {} };

// ---- single threaded, for both the plain and the atomic variant ----
template<typename CTL> static void seq_case(uint64_t seed) {
    using R = RcObjBase<Base, CTL>; using RD = RcObjBase<Derived, CTL>; using W = WeakObjBase<Base, CTL>;
    Rng r(seed);
    cfgs = vf::fmt("seq %s seed=%llu", sizeof(CTL) == sizeof(_RCCtl) && std::is_same<CTL, _RCCtl>::value ? "plain" : "atomic", (unsigned long long)seed);
    long live0 = g_live;
    {
        const int N = 8;
        std::vector<R> h(N); std::vector<int> hid(N, -1);         // strong handles and the object each holds
        std::vector<RD> d(N); std::vector<int> did(N, -1);
        std::vector<W> w(N); std::vector<int> wid(N, -1);
        std::map<int, Base *> objs; int next = 0;
        auto strong = [&](int id) { long c = 0; for (int x: hid) c += x == id; for (int x: did) c += x == id; return c; };
        for (int k = 0; k < 300 && !vf::violated(); k++) {
            int i = r.below(N), j = r.below(N);
            switch (r.below(15)) {
                case 0: { auto *p = new Base(next); objs[next] = p; h[i] = R(p); hid[i] = next++; break; }
                case 1: { auto *p = new Derived(next); objs[next] = p; d[i] = RD(p); did[i] = next++; break; }
                case 2: h[i] = h[j]; hid[i] = hid[j]; break;
                case 3: if (i != j) { h[i] = std::move(h[j]); hid[i] = hid[j]; h[j] = R(); hid[j] = -1; } else { auto &a = h[i]; h[i] = std::move(a); } break;
                case 4: h[i] = R(); hid[i] = -1; break;
                case 5: d[i] = RD(); did[i] = -1; break;
                case 6: h[i] = R(d[j]); hid[i] = did[j]; break;                             // converting copy
                case 7: { R t(std::move(d[j])); h[i] = std::move(t); hid[i] = did[j]; d[j] = RD(); did[j] = -1; break; }
                case 8: if (did[j] >= 0) { R t = d[j]; d[i] = static_pointer_cast<Derived>(t); did[i] = did[j]; } break;
                case 9: if (did[j] >= 0) { R t = d[j]; d[i] = static_pointer_cast<Derived>(std::move(t)); did[i] = did[j]; } break;
                case 10: w[i] = W(h[j]); wid[i] = hid[j]; break;
                case 11: { W t(w[j]); W u(std::move(t)); if (i != j) w[i] = u; wid[i] = wid[j]; break; }
                case 12: { bool alive = wid[j] >= 0 && strong(wid[j]) > 0; R t(w[j]);        // upgrade
                    if ((t.get() != nullptr) != alive) { vf::violation("ref:weak-upgrade", vf::fmt("object %d alive=%d, upgrade %s ", wid[j], alive, t ? "succeeded" : "failed") + cfgs); break; }
                    if (alive) { if (t.get() != objs[wid[j]]) vf::violation("ref:weak-wrong-object", cfgs); h[i] = t; hid[i] = wid[j]; } break; }
                case 13: h[i].swap(h[j]); std::swap(hid[i], hid[j]); w[i].swap(w[j]); std::swap(wid[i], wid[j]); break;
                case 14: { BoxObj<Base> b(new Base(next)); objs[next] = b.get(); R t(std::move(b)); if (b) vf::violation("ref:box-still-owner", cfgs); h[i] = t; hid[i] = next++; break; }
            }
            long want = 0;
            std::set<int> ids(hid.begin(), hid.end()); ids.insert(did.begin(), did.end()); ids.erase(-1);
            want = ids.size();
            if (g_live - live0 != want) { vf::violation("ref:lifetime", vf::fmt("%ld objects alive, %ld owned ", g_live - live0, want) + cfgs); break; }
            for (int x = 0; x < N; x++) {
                if (hid[x] >= 0 && (!h[x] || h[x].get() != objs[hid[x]] || !h[x]->ok() || (long)h[x].get_cnt() != strong(hid[x]))) { vf::violation("ref:handle", vf::fmt("slot %d object %d count %zu expected %ld ", x, hid[x], h[x].get_cnt(), strong(hid[x])) + cfgs); break; }
                if (hid[x] < 0 && h[x].get_cnt() != 0) { vf::violation("ref:empty-handle-count", cfgs); break; }
                if (did[x] >= 0 && (!d[x]->ok() || d[x]->body.size() != 5)) { vf::violation("ref:handle", cfgs); break; }
            }
            vf::stat("handle_operations");
        }
    }
    if (g_live != live0) vf::violation("ref:leak", vf::fmt("%ld objects left ", g_live - live0) + cfgs);
    vf::sig(vf::mix(seed, 3)); vf::eval();
}

static void box_case(uint64_t seed) {
    Rng r(seed);
    cfgs = vf::fmt("box seed=%llu", (unsigned long long)seed);
    long live0 = g_live;
    {
        std::vector<BoxObj<Base>> b; for (int i = 0; i < 6; i++) b.emplace_back();
        std::vector<BoxObj<Derived>> d; for (int i = 0; i < 6; i++) d.emplace_back();
        std::vector<bool> bo(6), dn(6), bd(6);    // owned?, derived content?
        for (int k = 0; k < 80 && !vf::violated(); k++) {
            int i = r.below(6), j = r.below(6);
            switch (r.below(7)) {
                case 0: b[i] = BoxObj<Base>(new Base(k)); bo[i] = true; bd[i] = false; break;
                case 1: d[i] = BoxObj<Derived>(new Derived(k)); dn[i] = true; break;
                case 2: if (i != j) { b[i] = std::move(b[j]); bo[i] = bo[j]; bd[i] = bd[j]; bo[j] = false; if (b[j]) vf::violation("ref:box-two-owners", cfgs); } break;
                case 3: { b[i] = BoxObj<Base>(std::move(d[j])); bo[i] = dn[j]; bd[i] = true; dn[j] = false; if (d[j]) vf::violation("ref:box-two-owners", cfgs); break; }
                case 4: if (bo[j] && bd[j]) { d[i] = static_pointer_cast<Derived>(std::move(b[j])); dn[i] = true; bo[j] = false; if (b[j]) { vf::violation("ref:box-two-owners", "after static_pointer_cast " + cfgs); b[j].unwrap(); } } break;
                case 5: { Base *p = b[i].unwrap(); if ((p != nullptr) != bo[i]) vf::violation("ref:box-unwrap", cfgs); bo[i] = false; delete p; break; }
                case 6: b[i].swap(b[j]); { bool t = bo[i]; bo[i] = bo[j]; bo[j] = t; t = bd[i]; bd[i] = bd[j]; bd[j] = t; } break;
            }
            long want = std::count(bo.begin(), bo.end(), true) + std::count(dn.begin(), dn.end(), true);
            if (g_live - live0 != want) vf::violation("ref:lifetime", vf::fmt("box: %ld alive, %ld owned ", g_live - live0, want) + cfgs);
            vf::stat("handle_operations");
        }
        // arrays
        struct T { std::atomic<long> *c; T(): c(&g_live) { g_live++; } ~T() { g_live--; } };
        int n = r.range(1, 20);
        long l1 = g_live;
        { BoxObj<T[]> a(new T[n]); if (g_live - l1 != n) vf::violation("ref:array", cfgs); a[n - 1].c = nullptr; BoxObj<T[]> c; c = std::move(a); if (a || c[n - 1].c) vf::violation("ref:array", cfgs); }
        { RcObj<T[]> a(new T[n]); RcObj<T[]> c = a; a[n - 1].c = nullptr; if (c[n - 1].c || c.get_cnt() != 2) vf::violation("ref:array", cfgs); WeakObj<T[]> w(c); a = RcObj<T[]>(); RcObj<T[]> e(w); if (!e) vf::violation("ref:array", cfgs); }
        if (g_live != l1) vf::violation("ref:array-lifetime", vf::fmt("%ld array elements left ", g_live - l1) + cfgs);
    }
    if (g_live != live0) vf::violation("ref:leak", vf::fmt("%ld objects left ", g_live - live0) + cfgs);
    vf::sig(vf::mix(seed, 4)); vf::eval();
}

// ---- concurrent: atomic variant ----
struct Barrier { std::atomic<int> n{0}; int total; explicit Barrier(int t): total(t) {} void wait(int phase) { n++; while (n.load() < total * phase) std::this_thread::yield(); } };

static void conc_case(uint64_t seed) {
    Rng r(seed);
    int nt = r.range(2, 5), rounds = r.range(20, 120);
    int flavour = r.below(3);    // 0: many strong drop at once; 1: weak upgrade vs last drop; 2: mixture with casts
    cfgs = vf::fmt("conc threads=%d rounds=%d flavour=%d seed=%llu", nt, rounds, flavour, (unsigned long long)seed);
    long live0 = g_live;
    std::atomic<long> upg{0}, upgfail{0};
    // handles prepared per thread and round: rounds x threads
    std::vector<std::vector<ArcObj<Derived>>> strong(rounds);
    std::vector<std::vector<AweakObj<Derived>>> weak(rounds);
    std::vector<std::atomic<int>> dead(rounds);
    for (int k = 0; k < rounds; k++) {
        dead[k] = 0;
        ArcObj<Derived> o(new Derived(k, &dead[k]));
        for (int t = 0; t < nt; t++) { strong[k].push_back(flavour == 1 && t ? ArcObj<Derived>() : o); weak[k].push_back(AweakObj<Derived>(o)); }
    }
    Barrier bar(nt);
    std::vector<std::thread> ths;
    for (int t = 0; t < nt; t++)
        ths.emplace_back([&, t]() {
            Rng pr(seed * 13 + t);
            for (int k = 0; k < rounds; k++) {
                bar.wait(k + 1);
                auto &s = strong[k][t]; auto &w = weak[k][t];
                if (flavour == 1) {
                    if (t == 0) { if (pr.chance(1, 2)) for (int i = pr.below(200); i > 0; i--) std::atomic_thread_fence(std::memory_order_relaxed); s = ArcObj<Derived>(); w = AweakObj<Derived>(); }
                    else {
                        for (int i = 0; i < 3; i++) {
                            ArcObj<Derived> u(w);
                            if (u) { upg++; if (!u->ok()) vf::violation("ref:upgraded-dead-object", cfgs); if (pr.chance(1, 3)) { ArcObj<Base> b(u); ArcObj<Base> c(b); if (!c->ok()) vf::violation("ref:upgraded-dead-object", cfgs); } if (u->id != k) vf::violation("ref:weak-wrong-object", cfgs); }
                            else upgfail++;
                            if (pr.chance(1, 4)) { AweakObj<Derived> w2(w); w = std::move(w2); }
                        }
                        w = AweakObj<Derived>();
                    }
                } else {
                    if (flavour == 2) {
                        ArcObj<Base> b(s); auto c = static_pointer_cast<Derived>(b); ArcObj<Base> e(std::move(c));
                        if (!e->ok()) vf::violation("ref:dead-while-held", cfgs);
                        AweakObj<Derived> w2(s); s = ArcObj<Derived>(); ArcObj<Derived> u(w2); if (!u) vf::violation("ref:weak-upgrade-failed-while-held", cfgs);
                    } else if (!s->ok()) vf::violation("ref:dead-while-held", cfgs);
                    if (pr.chance(1, 2)) { w = AweakObj<Derived>(); s = ArcObj<Derived>(); } else { s = ArcObj<Derived>(); w = AweakObj<Derived>(); }
                }
            }
        });
    for (auto &t: ths) t.join();
    for (int k = 0; k < rounds; k++) if (dead[k] != 1) { vf::violation("ref:not-destroyed-once", vf::fmt("object of round %d destroyed %d times ", k, dead[k].load()) + cfgs); break; }
    if (g_live != live0) vf::violation("ref:leak", vf::fmt("%ld objects left ", g_live - live0) + cfgs);
    vf::stat("concurrent_objects", rounds); vf::stat("weak_upgrades", upg); vf::stat("weak_upgrade_refused", upgfail);
    vf::sig(vf::hash(cfgs)); vf::sample(cfgs + vf::fmt(" upgrades=%ld refused=%ld", upg.load(), upgfail.load())); vf::eval();
}

int main(int argc, char **argv) {
    vf::init(argc, argv);
    vf::watchdog(40, []() { return "ref: " + cfgs; }, "ref:stall");
    const std::string &m = vf::args.mode;
    auto one = [&](uint64_t s) {
        Rng r(s);
#ifdef VF_PERTURB
        vf_perturb_config(r.pick(std::vector<int>{0, 20, 100, 250}), r.pick(std::vector<int>{50, 400}), 0);
#endif
        if (m == "seq") { if (r.chance(1, 2)) seq_case<_RCCtl>(s); else seq_case<_ARCCtl>(s); box_case(s); }
        else if (m == "conc") conc_case(s);
        else _exit(3);
    };
    one(vf::args.seed * 7919 + 1000000);    // warm-up, so that lazily created state does not count as growth
    vf::sig(1); vf::stat("x", 0);
    long h0 = heap();
    long i;
    for (i = 0; i < vf::args.n && !vf::violated(); i++) {
        one(vf::args.seed * 100003 + i);
    }
    // control blocks are heap objects of at least 16 bytes: any systematic leak shows as growth of the live heap.
    // (bookkeeping of this harness: one signature per case, bounded)
    long grown = heap() - h0, allow = 4096 + i * 64 + 65536;
    if (!vf::violated() && m == "conc" && grown > allow) vf::violation("ref:control-block-leak", vf::fmt("live heap grew by %ld bytes in %ld cases", grown, i));
    if (!vf::violated() && m == "seq" && grown > allow) vf::violation("ref:control-block-leak", vf::fmt("live heap grew by %ld bytes in %ld cases", grown, i));
    vf::stat_max("live_heap_growth_bytes", grown);
    vf::finish();
}
