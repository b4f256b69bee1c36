// C11: a semaphore conserves its permits and strands no acquirer.
#include "common.hpp"
#include <coro/semaphore.hpp>
#include <coro/thread_pool.hpp>
const char* const harness_property = "C11";
const char* const harness_rule =
    "a case = maximum (1,2,3,5), initial count, 1-4 threads with scripts of acquire (coroutine), try_acquire, release, value, shutdown, acquirers optionally parking or hopping onto a pool while holding and releasing afterwards, "
    "destruction with blocked acquirers, and every scheduling decision; non-trivial = at least one acquirer really blocked";
static long granted, rel_begun, rel_ended, start_v, max_v; static uint64_t sd_begin, sd_end; static int blockedn, waitingn; static bool mutexlike; static int* payload; static int value_; static long inside;
static bool crowded; // at least one release may have met a full semaphore
struct Co { int state; int hold; bool rel; int times; uint64_t begin; };
static hvec<Co> cos; static hvec<gate> gates;
static void granted_one(int id)
{
    ++granted;
    if (granted - rel_begun > start_v) rt::fail("overissue: %ld permits granted, %ld returned, initial count %ld", granted, rel_begun, start_v);
    if (mutexlike)
    {
        if (inside++) rt::fail("overissue: two holders of a single permit");
        if (payload[0] != value_) rt::fail("visibility: holder %d sees %d instead of %d", id, payload[0], value_);
        payload[0] = ++value_; 
        rt::point();
    }
}
static void returning() { if (mutexlike) { if (--inside) rt::fail("overissue: two holders of a single permit"); } ++rel_begun; if (start_v + rel_begun > max_v) crowded = true; }
template<long MAX> static void scenario()
{
    using sem = coro::semaphore<MAX>;
    static coro::thread_pool* TP; static sem* S;
    struct F
    {
        static fire run(int id)
        {
            for (int k = 0; k < cos[id].times; ++k)
            {
                Co& c = cos[id];
                c.state = 1; ++waitingn; c.begin = stamp();
                rt::trace("%d acquire", id);
                uint64_t sd0 = sd_end; 
                auto r = co_await S->acquire();
                if (cos[id].state != 1) rt::fail("dup: acquirer %d resumed twice", id);
                cos[id].state = 2; --waitingn;
                rt::trace("%d -> %s", id, r == coro::semaphore_acquire_result::acquired ? "acquired" : "shutdown");
                if (r == coro::semaphore_acquire_result::acquired)
                {
                    if (sd0) rt::fail("shutdown: an acquire begun after shutdown completed was granted a permit");
                    granted_one(id);
                    if (cos[id].hold == 1) co_await gates[id];
                    else if (cos[id].hold == 2 && TP) co_await TP->schedule();
                    if (cos[id].rel)
                    {
                        returning(); rt::trace("%d release", id);
                        co_await S->release();
                        ++rel_ended;
                    }
                }
                else
                {
                    if (r != coro::semaphore_acquire_result::shutdown) rt::fail("result: neither acquired nor shutdown");
                    if (!sd_begin) rt::fail("shutdown: stop result without a shutdown");
                }
                rt::point();
            }
            cos[id].state = 9;
        }
        static fire rel(bool* d) { co_await S->release(); ++rel_ended; *d = true; }
    };
    int nth = rt::weighted({2, 4, 4, 2});
    bool with_pool = rt::chance(1, 4);
    mutexlike = start_v == 1 && rt::chance(2, 3);
    int n = rt::range(1, 5);
    rt::note("max=%ld initial=%ld threads=%d pool=%d mutexlike=%d\n", max_v, start_v, nth, with_pool, mutexlike);
    cos.assign(n, Co{}); gates = hvec<gate>(n);
    for (int i = 0; i < n; ++i) { cos[i].hold = rt::weighted({4, 2, with_pool ? 2u : 0u}); cos[i].rel = mutexlike || rt::chance(2, 3); cos[i].times = rt::range(1, 2); rt::note(" acquirer %d: x%d%s%s\n", i, cos[i].times, cos[i].hold == 1 ? " park" : cos[i].hold == 2 ? " hop" : "", cos[i].rel ? " release" : ""); }
    struct Op { int k, a; };
    hvec<hvec<Op>> sc(nth + 1);
    for (int i = 0; i < n; ++i) sc[rt::choose(nth + 1)].push_back({0, i});
    int extra = rt::range(0, 6);
    bool with_sd = rt::chance(1, 3);
    for (int i = 0; i < extra; ++i)
    {
        auto& s = sc[rt::choose(nth + 1)];
        Op o{1 + (int)rt::weighted({mutexlike ? 0u : 5u, 3, 2, with_sd ? 2u : 0u, 2}), (int)rt::choose(n)};
        s.insert(s.begin() + rt::choose(s.size() + 1), o);
    }
    for (int t = 0; t <= nth; ++t) { rt::note(" thread %d:", t); static const char* nm[] = {"start", "release", "try_acquire", "value", "shutdown", "open"}; for (auto& o : sc[t]) rt::note(" %s(%d)", nm[o.k], o.a); rt::note("\n"); }
    auto pl = std::make_unique<int[]>(1); payload = pl.get();
    std::unique_ptr<coro::thread_pool> tp; if (with_pool) tp = coro::thread_pool::make_unique({.thread_count = rt::range(1, 2)}); TP = tp.get();
    auto s = std::make_unique<sem>(start_v); S = s.get();
    int sd_calls = 0;
    auto try_one = [&](bool must) {
        bool ok = S->try_acquire();
        rt::trace("try_acquire -> %d", ok);
        if (must && !ok) rt::fail("try: failed although permits are available at rest");
        if (ok)
        {
            granted_one(99);
            if (mutexlike) { returning(); bool d = false; F::rel(&d); while (!d) rt::yield(); }
        }
        return ok;
    };
    auto do_shutdown = [&] {
        rt::trace("shutdown"); if (!sd_begin) sd_begin = stamp(); ++sd_calls;
        coro::sync_wait(S->shutdown());
        if (!S->is_shutdown()) rt::fail("shutdown: not reported after it returned");
        if (!sd_end) sd_end = stamp(); 
        rt::trace("shutdown returned");
    };
    auto body = [&](int t) {
        for (auto& o : sc[t])
        {
            switch (o.k)
            {
                case 0: F::run(o.a); if (cos[o.a].state == 1) ++blockedn; break;
                case 1: { returning(); rt::trace("release"); bool d = false; F::rel(&d); while (!d) rt::yield(); break; }
                case 2: try_one(false); break;
                case 3: { auto v = S->value(); if (v > max_v || v < 0) rt::fail("value: %ld outside 0..%ld", (long)v, max_v); break; }
                case 4: do_shutdown(); break;
                case 5: rt::trace("open gate %d", o.a); gates[o.a].release(); break;
            }
            rt::point();
        }
    };
    { threads ths; for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    bool destroy_early = rt::chance(1, 3);
    for (int k = 0;; ++k)
    {
        rt::quiesce();
        long v = S->value(), exact = start_v + rel_begun - granted;
        rt::trace("at rest: value %ld, granted %ld, returned %ld, %d waiting", v, granted, rel_begun, waitingn);
        if (rel_begun != rel_ended) rt::fail("release: a release has not completed at rest");
        if (v < 0 || v > max_v) rt::fail("value: %ld outside 0..%ld", v, max_v);
        if (v > exact) rt::fail("conservation: %ld available, but initial %ld + returned %ld - granted %ld = %ld", v, start_v, rel_begun, granted, exact);
        if (v < exact && (!crowded)) rt::fail("conservation: permit lost: %ld available, but initial %ld + returned %ld - granted %ld = %ld", v, start_v, rel_begun, granted, exact);
        if (v > 0 && waitingn) rt::fail("stranded: %ld permits available but %d acquirers are blocked", v, waitingn);
        if (sd_end && waitingn) rt::fail("stranded: %d acquirers blocked after shutdown", waitingn);
        if (S->is_shutdown() != (sd_begin != 0)) rt::fail("shutdown: is_shutdown() wrong at rest");
        if (waitingn) ++blockedn;
        bool any = false;
        for (int i = 0; i < n && !any; ++i) any = gates[i].release();
        if (any) continue;
        if (destroy_early || !waitingn || k > 40) break;
        // feed the blocked acquirers one permit at a time
        if (mutexlike) break;
        returning(); rt::trace("release"); bool d = false; long g0 = granted; F::rel(&d); if (!d) rt::fail("release: did not complete at rest");
        rt::quiesce();
        if (granted == g0 && !sd_begin) rt::fail("stranded: a release with blocked acquirers granted nothing");
    }
    if (S->value() > 0 && rt::chance(1, 2)) try_one(true);
    if (mutexlike && waitingn && !sd_begin) rt::fail("stranded: the permit is back but acquirers stay blocked");
    if (blockedn) { rt::nontrivial(); rt::label("blocked"); }
    if (sd_begin) rt::label("shutdown");
    int w = waitingn; (void)w;
    if (w) rt::label("destroyed with blocked acquirers");
    if (!sd_begin) sd_begin = stamp();
    rt::trace("destroy");
    if (rt::chance(1, 2)) { do_shutdown(); if (waitingn) rt::fail("stranded: %d acquirers blocked after shutdown", waitingn); if (!mutexlike) { bool d = false; returning(); F::rel(&d); if (!d) rt::fail("release: does not complete after shutdown"); } }
    // an acquirer with more rounds to go ends quickly after shutdown
    rt::quiesce();
    s.reset();
    for (auto& g : gates) g.release();
    for (int i = 0; i < n; ++i) if (cos[i].state != 9) rt::fail("stranded: acquirer %d never finished", i);
    TP = nullptr; if (tp) tp->shutdown();
}
void harness_case()
{
    { using r = coro::semaphore_acquire_result; auto &a = coro::to_string(r::acquired), &b = coro::to_string(r::shutdown); if (a.empty() || b.empty() || a == b) rt::fail("result: acquired is called '%s', shutdown '%s'", a.c_str(), b.c_str()); }
    granted = rel_begun = rel_ended = 0; g_stamp = 1; sd_begin = sd_end = 0; blockedn = waitingn = 0; mutexlike = crowded = false; value_ = 0; inside = 0;
    static const long maxes[] = {1, 2, 3, 5};
    int mi = rt::choose(4); max_v = maxes[mi]; start_v = rt::choose(max_v + 1);
    switch (mi) { case 0: scenario<1>(); break; case 1: scenario<2>(); break; case 2: scenario<3>(); break; default: scenario<5>(); }
}
