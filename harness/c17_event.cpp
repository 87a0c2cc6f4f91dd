// C17: timer, descriptor, combined, signal and check events. Every callback is checked online against a model of what is
// armed (arming time on the loop's own clock, mask, descriptor state from poll()); operations (arm, cancel, clear, destroy,
// move, move-assign, swap, replace callback) are made between iterations and from inside callbacks.
#include "vf.h"
#include "salticidae/event.h"
#include <memory>
#include <thread>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/syscall.h>
using namespace salticidae;
using vf::Rng;
struct Case;
static void on_fire(Case *c, int lid, int events);

struct Res { // a descriptor pair
    int a, b; Res() { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) { perror("socketpair"); _exit(3); } a = sv[0]; b = sv[1]; int n = 4096; setsockopt(a, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); }
    ~Res() { vfr_close(a); vfr_close(b); }
    short ready() { struct pollfd p = {a, POLLIN | POLLOUT, 0}; poll(&p, 1, 0); return p.revents; }
};
enum { TIMER, FD, TIMED, SIG, CHECK };
static const char *KN[] = {"timer", "fd", "timed-fd", "signal", "check"};
static const int SIGS[3] = {SIGUSR1, SIGUSR2, SIGWINCH};
struct L { // one logical event: what its current callback is entitled to
    int kind; bool armed = false, dead = false; uint64_t at = 0, delay = 0; int mask = 0, sig = 0; bool once = false;
    std::shared_ptr<Res> res; long fires = 0, arms = 0; bool touched = false; int run_fires = 0; long raised = 0;
};
struct Slot { int lid = -1; int kind = -1; std::unique_ptr<TimerEvent> t; std::unique_ptr<FdEvent> f; std::unique_ptr<TimedFdEvent> tf; std::unique_ptr<SigEvent> s; std::unique_ptr<CheckEvent> c;
    void drop() { t.reset(); f.reset(); tf.reset(); s.reset(); c.reset(); lid = -1; kind = -1; } };
struct Case {
    uint64_t seed; Rng r; EventContext ec; std::vector<L> ls; std::vector<Slot> sl; std::thread::id tid; bool in_run = false; int depth = 0; int nested = 0; bool ending = false;
    std::string trace;
    std::vector<std::shared_ptr<Res>> keep;
    Case(uint64_t s): seed(s), r(s), tid(std::this_thread::get_id()) { ls.reserve(4000); }
    uint64_t now() { return uv_now(ec.get()); }
    std::string ctx(int lid) { return vf::fmt(" (%s event %d, case %llu)", KN[ls[lid].kind], lid, (unsigned long long)seed) + trace.substr(trace.size() > 600 ? trace.size() - 600 : 0); }
    int newlid(int kind, std::shared_ptr<Res> res) { L l; l.kind = kind; l.res = res; ls.push_back(l); if (res) keep.push_back(res); return ls.size() - 1; }
    // two shapes of callback: small (stored inside the function object) and large (stored on the heap)
    FdEvent::callback_t fcb(int lid) {
        if (r.chance(1, 2)) { Case *c = this; return [c, lid](int fd, int ev) { Case *cc = c; int i = lid; if (cc->ls[i].res && fd != cc->ls[i].res->a) vf::violation("event:wrong-descriptor", cc->ctx(i)); on_fire(cc, i, ev); }; }
        Case *c = this; std::vector<int> big(64, lid); return [c, lid, big](int, int ev) { Case *cc = c; int i = big[63]; on_fire(cc, i, ev); };
    }
    TimerEvent::callback_t tcb(int lid) {
        if (r.chance(1, 2)) { Case *c = this; return [c, lid](TimerEvent &) { Case *cc = c; int i = lid; on_fire(cc, i, 0); }; }
        Case *c = this; std::vector<int> big(64, lid); return [c, big](TimerEvent &e) { Case *cc = c; int i = big[0]; (void)e.get_ec(); on_fire(cc, i, 0); };
    }
    SigEvent::callback_t scb(int lid) { Case *c = this; std::vector<int> big(64, lid); return [c, big](int sn) { Case *cc = c; int i = big[0]; on_fire(cc, i, sn); }; }
    CheckEvent::callback_t ccb(int lid) { Case *c = this; std::vector<int> big(r.chance(1, 2) ? 64 : 1, lid); return [c, big]() { Case *cc = c; int i = big[0]; on_fire(cc, i, 0); }; }

    void kill(int lid) { if (lid >= 0) { ls[lid].armed = false; ls[lid].dead = true; ls[lid].touched = true; } }
    void create(Slot &s, int kind) {
        kill(s.lid); s.drop(); s.kind = kind;
        auto res = kind == FD || kind == TIMED ? std::make_shared<Res>() : nullptr;
        s.lid = newlid(kind, res); ls[s.lid].once = r.chance(1, 2); // libuv never forgets the one-shot mode of a handle, so it is fixed per event
        switch (kind) {
            case TIMER: s.t.reset(new TimerEvent(ec, tcb(s.lid))); break;
            case FD: s.f.reset(new FdEvent(ec, res->a, fcb(s.lid))); break;
            case TIMED: s.tf.reset(new TimedFdEvent(ec, res->a, fcb(s.lid))); break;
            case SIG: s.s.reset(new SigEvent(ec, scb(s.lid))); break;
            case CHECK: s.c.reset(new CheckEvent(ec, ccb(s.lid))); break;
        }
    }
    void arm(Slot &s) {
        L &l = ls[s.lid]; l.touched = true;
        if (l.kind == SIG && l.once && in_run) return; // libuv stops a one-shot handle after its callback
        if (l.kind == SIG && l.raised) return; // a signal caught before re-arming would be reported by libuv afterwards
        if (l.kind == SIG && l.armed) s.s->del(); // re-arming an armed signal event in another mode is left undefined by libuv
        l.arms++; l.at = now(); l.armed = true; vf::stat("armings");
        static const std::vector<double> ds = {0, 0.0004, 0.001, 0.002, 0.005, 0.0105, 0.02};
        double d = r.pick(ds); l.delay = (uint64_t)(d * 1000);
        int m = (int)r.range(1, 3); l.mask = (m & 1 ? FdEvent::READ : 0) | (m & 2 ? FdEvent::WRITE : 0);
        l.sig = SIGS[r.below(3)];
        switch (l.kind) {
            case TIMER: s.t->add(d); break;
            case FD: s.f->add(l.mask); break;
            case TIMED: s.tf->add(l.mask, d); break;
            case SIG: if (l.once) s.s->add_once(l.sig); else s.s->add(l.sig); break;
            case CHECK: s.c->add(); break;
        }
    }
    void disarm(Slot &s) {
        L &l = ls[s.lid]; l.armed = false; l.touched = true; vf::stat("cancellations");
        switch (l.kind) { case TIMER: s.t->del(); break; case FD: s.f->del(); break; case TIMED: s.tf->del(); break; case SIG: s.s->del(); break; case CHECK: s.c->del(); break; }
    }
    void clear(Slot &s) {
        kill(s.lid); vf::stat("cancellations"); int k = s.kind; s.lid = -1;
        switch (k) { case TIMER: s.t->clear(); break; case FD: s.f->clear(); break; case TIMED: s.tf->clear(); break; case SIG: s.s->clear(); break; case CHECK: s.c->clear(); break; }
        bool b = false;
        switch (k) { case TIMER: b = *s.t; break; case FD: b = *s.f; break; case TIMED: b = (bool)*s.tf; break; case SIG: b = *s.s; break; case CHECK: b = *s.c; break; }
        VF_CHECK(!b, "event:cleared-still-valid", "%s", KN[k]);
    }
    template<typename E> void moves(std::unique_ptr<E> &a, std::unique_ptr<E> &b, Slot &sa, Slot &sb, int how) {
        if (sa.lid >= 0) ls[sa.lid].touched = true; if (sb.lid >= 0) ls[sb.lid].touched = true;
        if (how == 0) { // move construct a new object in place of sb
            kill(sb.lid); std::unique_ptr<E> n(new E(std::move(*a))); b = std::move(n); sb.lid = sa.lid; sa.lid = -1;
        } else if (how == 1) { kill(sb.lid); *b = std::move(*a); sb.lid = sa.lid; sa.lid = -1; }
        else { a->swap(*b); std::swap(sa.lid, sb.lid); }
        vf::stat("moves");
    }
    void op() {
        Slot &s = sl[r.below(sl.size())]; int o = r.below(12);
        trace += vf::fmt(" %s[s%d l%d o%d]", in_run ? "cb:" : "", (int)(&s - &sl[0]), s.lid, o);
        if (s.kind < 0) { create(s, r.below(5)); if (r.chance(2, 3)) arm(s); return; }
        if (s.lid < 0) { s.drop(); return; } // cleared or moved-from: destroy it
        switch (o) {
            case 0: case 1: case 2: case 3: arm(s); break;
            case 4: disarm(s); break;
            case 5: clear(s); break;
            case 6: kill(s.lid); vf::stat("destructions"); { int k = s.kind; (void)k; } s.drop(); break;
            case 7: create(s, r.below(5)); arm(s); break;
            case 8: case 9: case 10: { // moves between slots of the same kind
                Slot *d = nullptr; for (size_t k = 0, st = r.below(sl.size()); k < sl.size(); k++) { auto &x = sl[(st + k) % sl.size()]; if (&x != &s && x.kind == s.kind) { d = &x; break; } }
                if (!d) { create(sl[(&s - &sl[0] + 1) % sl.size()], s.kind); break; }
                if (o == 10 && d->lid < 0) break;
                switch (s.kind) { case TIMER: moves(s.t, d->t, s, *d, o - 8); break; case FD: moves(s.f, d->f, s, *d, o - 8); break; case TIMED: moves(s.tf, d->tf, s, *d, o - 8); break; case SIG: moves(s.s, d->s, s, *d, o - 8); break; case CHECK: moves(s.c, d->c, s, *d, o - 8); break; }
                break; }
            case 11: { // replace the callback: the arming stays, the old callback must not run any more
                int old = s.lid, n = newlid(ls[old].kind, ls[old].res); L &a = ls[old], &b = ls[n];
                b.armed = a.armed; b.at = a.at; b.delay = a.delay; b.mask = a.mask; b.sig = a.sig; b.once = a.once; b.touched = true; b.raised = a.raised; s.lid = n; kill(old);
                switch (s.kind) { case TIMER: s.t->set_callback(tcb(n)); break; case FD: s.f->set_callback(fcb(n)); break; case TIMED: s.tf->set_callback(fcb(n)); break; case SIG: s.s->set_callback(scb(n)); break; case CHECK: s.c->set_callback(ccb(n)); break; }
                break; }
        }
    }
    void fired(int lid, int ev) {
        L &l = ls[lid]; l.fires++; l.run_fires++; vf::stat(std::string("fired_") + KN[l.kind]); vf::progress();
        trace += vf::fmt(" F%d", lid);
        if (std::this_thread::get_id() != tid) vf::violation("event:wrong-thread", ctx(lid));
        if (!in_run) vf::violation("event:fired-outside-loop", ctx(lid));
        if (l.dead) { vf::violation("event:fired-after-cleared", ctx(lid)); return; }
        if (!l.armed) { vf::violation("event:fired-while-not-armed", ctx(lid)); return; }
        uint64_t el = now() - l.at;
        switch (l.kind) {
            case TIMER: if (el < l.delay) vf::violation("event:timer-early", vf::fmt("after %llu of %llu ms", (unsigned long long)el, (unsigned long long)l.delay) + ctx(lid)); l.armed = false; break;
            case TIMED: if (ev & TimedFdEvent::TIMEOUT) {
                    if (ev != TimedFdEvent::TIMEOUT) vf::violation("event:timeout-with-other-conditions", ctx(lid));
                    if (el < l.delay) vf::violation("event:timeout-early", vf::fmt("after %llu of %llu ms without activity", (unsigned long long)el, (unsigned long long)l.delay) + ctx(lid));
                    l.armed = false; vf::stat("timeouts"); break;
                }
                l.at = now(); // fall through: readiness restarts the timeout
            case FD: {
                short p = l.res->ready(); int have = ((p & (POLLIN | POLLHUP | POLLERR)) ? FdEvent::READ : 0) | ((p & (POLLOUT | POLLHUP | POLLERR)) ? FdEvent::WRITE : 0);
                if (ev == 0 || (ev & ~l.mask)) vf::violation("event:condition-not-armed", vf::fmt("events %x, armed for %x", ev, l.mask) + ctx(lid));
                else if (ev & ~have) vf::violation("event:condition-does-not-hold", vf::fmt("events %x, descriptor has %x", ev, have) + ctx(lid));
                break; }
            case SIG: if (ev != l.sig) vf::violation("event:wrong-signal", vf::fmt("%d instead of %d", ev, l.sig) + ctx(lid));
                if (l.raised <= 0) vf::violation("event:signal-not-raised", ctx(lid)); l.raised--; if (l.once) { l.armed = false; l.raised = 0; } break;
            case CHECK: break;
        }
        if (!ending && r.chance(1, 3) && nested < 200) { int n = r.range(1, 3); vf::stat("operations_in_callbacks", n); while (n--) { nested++; op(); } }
    }
    void run() {
        int ns = r.range(3, 10); sl.resize(ns);
        int longest_kind = r.chance(1, 4) ? (int)r.below(5) : -1; // sometimes only one kind, so moves between objects are frequent
        if (longest_kind >= 0) for (auto &s: sl) { create(s, longest_kind); }
        // persistent receivers, so that a signal always has a handler
        std::vector<std::unique_ptr<SigEvent>> guard; std::vector<long> got(3), want(3);
        for (int i = 0; i < 3; i++) { guard.emplace_back(new SigEvent(ec, [&got, i](int) { got[i]++; })); guard[i]->add(SIGS[i]); }
        for (int step = 0; step < 40 && !vf::violated(); step++) {
            int n = r.below(5); while (n--) op();
            for (auto &s: sl) if (s.lid >= 0 && ls[s.lid].res && r.chance(1, 3)) {
                Res &q = *ls[s.lid].res; char b[5000]; 
                switch (r.below(4)) { case 0: vfr_send(q.b, "x", 1, MSG_NOSIGNAL); break; case 1: while (vfr_recv(q.a, b, sizeof b, 0) > 0); break;
                    case 2: while (vfr_send(q.a, b, sizeof b, MSG_NOSIGNAL | MSG_DONTWAIT) > 0); break; case 3: while (vfr_recv(q.b, b, sizeof b, 0) > 0); break; }
            }
            if (r.chance(1, 3)) { int i = r.below(3); want[i]++; for (auto &l: ls) if (l.kind == SIG && l.armed && l.sig == SIGS[i]) l.raised++; raise(SIGS[i]); 
                vf::stat("signals_raised"); }
            if (r.chance(1, 4)) vf::msleep(r.below(8));
            for (auto &l: ls) { l.touched = false; l.run_fires = 0; }
            struct Exp { int lid; int need; }; std::vector<Exp> exp;
            for (size_t i = 0; i < ls.size(); i++) { L &l = ls[i]; if (!l.armed) continue;
                if (l.kind == FD) { short p = l.res->ready(); int have = ((p & POLLIN) ? FdEvent::READ : 0) | ((p & POLLOUT) ? FdEvent::WRITE : 0); if (have & l.mask) exp.push_back({(int)i, 1}); }
                else if (l.kind == CHECK) exp.push_back({(int)i, 1});
                else if (l.kind == SIG && l.raised) exp.push_back({(int)i, l.once ? 1 : (int)l.raised}); }
            in_run = true; uv_run(ec.get(), UV_RUN_NOWAIT); in_run = false;
            for (auto &e: exp) { L &l = ls[e.lid]; if (l.touched || l.dead) continue;
                if (l.run_fires < e.need) {
                    if (l.kind == SIG) { in_run = true; for (int k = 0; k < 20 && l.run_fires < e.need; k++) { vf::msleep(2); uv_run(ec.get(), UV_RUN_NOWAIT); } in_run = false; if (l.touched || l.dead || l.run_fires >= e.need) continue; }
                    vf::violation("event:did-not-fire", ctx(e.lid)); }
                if (l.kind == SIG && l.once && l.run_fires > 1) vf::violation("event:one-shot-fired-twice", ctx(e.lid));
                vf::stat("expected_fires_checked"); }
        }
        // let everything that must still happen happen: the loop ends by itself when only finished events are left
        ending = true;
        for (int k = 0; k < 30 && (got != want); k++) { in_run = true; uv_run(ec.get(), UV_RUN_NOWAIT); in_run = false; vf::msleep(1); }
        for (int i = 0; i < 3; i++) VF_CHECK(got[i] == want[i], "event:signal-count", "signal %d raised %ld times, reported %ld times, case %llu", SIGS[i], want[i], got[i], (unsigned long long)seed);
        guard.clear();
        for (auto &s: sl) if (s.lid >= 0 && ls[s.lid].armed) { L &l = ls[s.lid];
            if (l.kind == FD || l.kind == SIG || l.kind == CHECK) disarm(s);
            else if (l.kind == TIMED) { char b[5000]; if (l.mask & FdEvent::WRITE) disarm(s); else while (vfr_recv(l.res->a, b, sizeof b, 0) > 0); } }
        long pending = 0; for (auto &l: ls) pending += l.armed; 
        in_run = true; ec.dispatch(); in_run = false;
        for (size_t i = 0; i < ls.size(); i++) if (ls[i].armed) vf::violation("event:never-fired", "armed but the loop ended without it" + ctx(i));
        vf::stat("drained_armed_events", pending);
        for (auto &s: sl) s.drop();
        in_run = true; uv_run(ec.get(), UV_RUN_DEFAULT); in_run = false;
        long total = 0; for (auto &l: ls) total += l.fires;
        vf::eval(); if (total) vf::sig(vf::hash(trace)); vf::stat("events_created", ls.size());
    }
};
static void on_fire(Case *c, int lid, int events) { c->fired(lid, events); }

int main(int argc, char **argv) {
    vf::init(argc, argv); vf::watchdog(40);
    for (long k = 0; k < vf::args.n && !vf::violated(); k++) {
        uint64_t seed = vf::args.seed * 100003 + k;
        if (k % 4 == 3) { std::thread t([&] { Case c(seed); c.run(); }); t.join(); } // a loop run by another thread
        else { Case c(seed); c.run(); }
    }
    vf::sample("random programs over timers (0-20ms), descriptors, combined, signal (repeating/one-shot) and check events");
    vf::finish();
}
