// C06: an event wakes every waiter exactly once and never loses a set.
#include "common.hpp"
#include <coro/event.hpp>
#include <coro/thread_pool.hpp>
const char* const harness_property = "C06";
const char* const harness_rule =
    "a case = initial state, 1-4 waiter coroutines (each awaiting 1-3 times), 1-4 threads with scripts of start-waiter/set(policy)/set(executor)/reset/is_set, "
    "and every scheduling decision; non-trivial = at least one waiter really suspended and at least one set happened concurrently with or after it";

using coro::event;
struct W { int th; uint64_t begin, susp, end; int end_th; bool done; };  // one wait
struct S { uint64_t b, e; int th; bool exec; int policy; bool open; };
struct R { uint64_t b, e; };
static hvec<W> waits; static hvec<S> sets; static hvec<R> resets;
static int pool_tid_lo, active_waiters, plain_open[64];
static int* cells; // heap payload written before each set
static bool single_setter;
static int state_of[16];
static bool init_set;

static bool maybe_set_in(uint64_t b, uint64_t e, bool initial)
{
    // could the event have been set at some moment in [b,e]?
    auto ok = [&](uint64_t sb, uint64_t se) {
        if (sb > e) return false;
        for (auto& r : resets) if (r.e && se && r.b > se && r.e < b)
        {
            return false; // a reset completely after this set and completely before the wait
        }
        return true;
    };
    if (initial && ok(0, 1)) return true;
    for (auto& s : sets) if (ok(s.b, s.e)) return true;
    return false;
}
static fire waiter(event& ev, int id, int times)
{
    for (int k = 0; k < times; ++k)
    {
        size_t i = waits.size();
        waits.push_back({rt::tid(), stamp(), 0, 0, -1, false});
        state_of[id] = 1;
        rt::trace("waiter %d wait#%zu begin", id, i);
        co_await ev;
        if (state_of[id] != 1) rt::fail("dup: waiter %d resumed while not waiting", id);
        state_of[id] = 2;
        W& w = waits[i];
        w.end = stamp(); w.end_th = rt::tid(); w.done = true;
        rt::trace("waiter %d wait#%zu resumed", id, i);
        if (!maybe_set_in(w.begin, w.end, init_set)) rt::fail("spurious: waiter %d passed an event that was never set while it waited", id);
        if (w.susp && w.end_th != w.th && !plain_open[w.end_th] && w.end_th < pool_tid_lo)
            rt::fail("executor: waiter %d resumed on thread T%d which is neither the executor's nor setting the event", id, w.end_th);
        if (single_setter && !init_set && cells[0] != 7) rt::fail("visibility: data written before the set not seen by the waiter");
    }
    state_of[id] = 3;
    --active_waiters;
}
// one set for everybody, and whoever is resumed last owns the event: set() must be through with it by then
static std::unique_ptr<event> owned; static std::atomic<int> to_resume, seen;
static fire last_one(int id) { co_await *owned; rt::trace("waiter %d resumed", id); if (cells[0] != 7) rt::fail("spurious: waiter %d passed an event that was never set", id); ++seen; if (--to_resume == 0) { rt::label("the last waiter destroyed the event"); owned.reset(); } }
static void one_shot()
{
    int nw = rt::range(1, 4), nth = rt::range(0, 3), pol = rt::choose(2); bool pool = rt::chance(1, 3); rt::note("one set, last of %d waiters destroys the event, %s, %s\n", nw, pool ? "on a pool" : "inline", pol ? "fifo" : "lifo");
    auto payload = std::make_unique<int[]>(4); cells = payload.get(); owned = rt::chance(1, 2) ? std::make_unique<event>() : std::make_unique<event>(false); to_resume = nw; seen = 0; std::unique_ptr<coro::thread_pool> tp; if (pool) tp = coro::thread_pool::make_unique({.thread_count = (uint32_t)rt::range(1, 2)});
    int setter = rt::choose(nth + 1), on[4]; for (int& o : on) o = rt::choose(nth + 1); bool first = rt::chance(1, 4);
    auto p = pol ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo;
    auto set = [&] { cells[0] = 7; rt::trace("set"); if (pool) owned->set(tp, p); else owned->set(p); rt::trace("set returned"); };
    auto body = [&](int t) { if (t == setter && first) set(); for (int i = 0; i < nw; ++i) if (on[i] == t) { last_one(i); rt::point(); } if (t == setter && !first) set(); };
    { threads ths; for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    rt::quiesce(); if (seen != nw) rt::fail("lost: %d of %d waiters were resumed by the set", seen.load(), nw); if (owned) rt::fail("harness: event left"); if (nw > 1 || nth) rt::nontrivial(); if (tp) tp->shutdown();
}
void harness_case()
{
    if (rt::chance(1, 8)) { one_shot(); return; }
    waits.clear(); sets.clear(); resets.clear(); g_stamp = 1; active_waiters = 0;
    for (auto& p : plain_open) p = 0;
    for (auto& s : state_of) s = 0;
    init_set = rt::chance(1, 6);
    int nth = rt::weighted({1, 4, 4, 2}); // extra threads
    bool with_pool = rt::chance(1, 3);
    int nw = rt::range(1, 4);
    rt::note("init_set=%d threads=%d pool=%d waiters=%d\n", init_set, nth, with_pool, nw);
    struct Op { int k, a, b; };
    hvec<hvec<Op>> script(nth + 1);
    int nsetops = 0;
    for (int i = 0; i < nw; ++i) { int times = rt::range(1, 3); script[rt::choose(nth + 1)].push_back({0, i, times}); }
    int extra = rt::range(1, 4 + 2 * nth);
    for (int i = 0; i < extra; ++i)
    {
        int t = rt::choose(nth + 1);
        int k = 1 + rt::weighted({6, with_pool ? 3u : 0u, 3, 2});
        auto& sc = script[t];
        size_t pos = rt::choose(sc.size() + 1);
        Op o{k, (int)rt::choose(2), 0};
        if (k == 1 || k == 2) ++nsetops;
        sc.insert(sc.begin() + pos, o);
    }
    // sometimes finish with a set by the last thread
    for (int t = 0; t <= nth; ++t)
    {
        rt::note(" thread %d:", t);
        for (auto& o : script[t])
        {
            static const char* n[] = {"start", "set", "set_on_pool", "reset", "is_set"};
            rt::note(" %s(%d)", n[o.k], o.a);
        }
        rt::note("\n");
    }
    single_setter = nsetops == 1;
    auto payload = std::make_unique<int[]>(4);
    cells = payload.get();
    auto ev = !init_set && rt::chance(1, 2) ? std::make_unique<event>() : std::make_unique<event>(init_set);
    std::unique_ptr<coro::thread_pool> tp;
    pool_tid_lo = 1000;
    if (with_pool) { pool_tid_lo = 1; tp = coro::thread_pool::make_unique({.thread_count = (uint32_t)rt::range(1, 2)}); }
    int pool_hi = with_pool ? (int)tp->thread_count() : 0;
    static int phi; phi = pool_hi;
    if (with_pool) pool_tid_lo = 1; else pool_tid_lo = 1000;
    active_waiters = nw;
    auto do_set = [&](int pol, bool ex) {
        size_t i = sets.size();
        if (single_setter) cells[0] = 7;
        sets.push_back({stamp(), 0, rt::tid(), ex, pol, true});
        rt::trace("set(%s%s)", pol ? "fifo" : "lifo", ex ? ", pool" : "");
        auto p = pol ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo;
        bool dflt = !pol && rt::chance(1, 2);
        if (ex) { if (dflt) ev->set(tp); else ev->set(tp, p); }
        else { plain_open[rt::tid()]++; if (dflt) ev->set(); else ev->set(p); plain_open[rt::tid()]--; }
        sets[i].e = stamp(); sets[i].open = false;
        rt::trace("set returned");
    };
    auto body = [&](int t) {
        for (auto& o : script[t])
        {
            switch (o.k)
            {
                case 0:
                {
                    size_t n0 = waits.size(); (void)n0;
                    waiter(*ev, o.a, o.b);
                    // whatever this waiter's latest unfinished wait is, it is registered now
                    uint64_t s = stamp();
                    for (auto& w : waits) if (!w.done && !w.susp && w.th == rt::tid() && state_of[o.a] == 1) w.susp = s;
                    break;
                }
                case 1: do_set(o.a, false); break;
                case 2: do_set(o.a, true); break;
                case 3: { size_t i = resets.size(); resets.push_back({stamp(), 0}); rt::trace("reset"); ev->reset(); resets[i].e = stamp(); break; }
                case 4:
                {
                    uint64_t b = stamp(); bool r = ev->is_set(); uint64_t e = stamp();
                    rt::trace("is_set -> %d", r);
                    if (r && !maybe_set_in(b, e, init_set)) rt::fail("is_set: reported set although it cannot be");
                    if (!r)
                    {
                        // must be set if some set completed before and no reset could have taken effect since
                        auto definitely = [&](uint64_t sb, uint64_t se) {
                            if (!se || se > b) return false;
                            for (auto& x : resets) if (x.b < e && (x.e == 0 || x.e > sb)) return false;
                            return true;
                        };
                        bool d = init_set && definitely(0, 1);
                        for (auto& s : sets) d |= definitely(s.b, s.e);
                        if (d) rt::fail("is_set: reported not set although a set completed and nothing reset it");
                    }
                    break;
                }
            }
            rt::point();
        }
    };
    {
        threads ths;
        for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); });
        body(0);
        ths.join();
    }
    if (tp) { rt::quiesce(); }
    // liveness: a registered waiter must have been released by any set that began afterwards
    bool susp = false;
    for (size_t i = 0; i < waits.size(); ++i)
    {
        W& w = waits[i];
        if (w.susp || !w.done) susp = true;
        if (w.done) continue;
        for (auto& s : sets) if (w.susp && s.b > w.susp) rt::fail("lost: wait#%zu still suspended although a set began after it was registered", i);
        if (ev->is_set()) rt::fail("lost: wait#%zu still suspended while the event is set", i);
    }
    // order of wake-ups within one inline set
    for (auto& s : sets)
    {
        // a pool with one thread keeps the order too
        bool one = s.exec && single_setter && phi == 1;
        if (s.exec && !one) continue;
        for (auto& a : waits)
            for (auto& b : waits)
            {
                if (!a.done || !b.done || !a.susp || !b.susp) continue;
                if (!(a.susp < b.begin && b.susp < s.b)) continue;
                auto in = [&](W& w) { if (one) return w.end > s.b; return w.end > s.b && w.end < s.e && w.end_th == s.th; };
                if (!in(a) || !in(b)) continue;
                // a registered strictly before b
                if (s.policy == 1 && a.end > b.end) rt::fail("order: fifo set resumed a later waiter first");
                if (s.policy == 0 && a.end < b.end) rt::fail("order: lifo set resumed an earlier waiter first");
            }
    }
    if (susp && !sets.empty()) rt::nontrivial();
    if (susp) rt::label("suspended");
    if (!resets.empty()) rt::label("with reset");
    if (with_pool) rt::label("with pool");
    for (auto& s : sets) if (s.exec && single_setter && phi == 1 && susp > 1) rt::label("order on a pool");
    // release whoever is left so that nothing leaks
    for (int k = 0; active_waiters > 0; ++k)
    {
        if (k > 20) rt::fail("lost: repeated set/reset does not release the remaining waiters");
        do_set(1, false); 
        ev->reset();
        if (tp) rt::quiesce();
    }
    if (tp) tp->shutdown();
}
