// C21: running a task with a timeout reports exactly which came first.
#include "common.hpp"
#include <cstring>
#include <coro/when_any.hpp>
#include <coro/scheduler.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C21";
const char* const harness_rule =
    "a case = a scheduler (own event loop or driven by hand, inline or on 1-3 pool threads), up to 6 tasks run with a timeout (negative to seconds, sub-millisecond, fractional, several duration types; with and without a stop source; value, owning and void results; from on and off the scheduler), "
    "each task finishing at once, computing, yielding, waiting until just before, at or after its deadline, waiting for the stop request or for an outside release, and ending by value or exception, time passing in arbitrary amounts, and every scheduling decision; "
    "non-trivial = at least one task is still running when its timeout is reported or finishes within a millisecond of it";
static std::unique_ptr<coro::scheduler> S; static bool harness_thread[16]; static bool jump, blocking_ok;
enum { AT_ONCE, HOP, SLEEP, STOP, GATE, WORK };
struct run_t { int kind, type, form; bool src, thrown, nested; int64_t to, d; int64_t t0{0}, te{-1}, tr{-1}; int started{0}, ended{0}, ret{0}; bool saw_stop{false}, timeout{false}, exc{false}; std::stop_source ss{std::nostopstate}; };
static hvec<run_t> R; static gate G[16];
static const int64_t DS[] = {5000000, 0, -1000000, 1, 400000, 999999, 1000000, 1500000, 2000000, 5000001, 20000000, 999000000, 1000000000, 2500000000};
template<class V> static V value(int i) { return V(1000 + i); }
template<class V> static coro::task<V> body(int i)
{
    auto* self = &R[i]; struct alive { int i; counted c; alive(int x) : i(x), c(x) {} ~alive() { if (c.get() != i) rt::fail("life: the frame of task %d was damaged", i); } } a(i);
    if (self->started++) rt::fail("dup: task %d was started twice", i);
    if (harness_thread[rt::tid()]) rt::fail("thread: task %d was not run on the scheduler", i);
    rt::trace("task %d starts", i);
    switch (self->kind)
    {
        case HOP: co_await S->schedule(); break;
        case SLEEP: if (self->d > 0) co_await S->yield_for(std::chrono::nanoseconds(self->d)); break;
        case STOP: for (int k = 0; k < 40 && !self->ss.stop_requested(); ++k) co_await S->yield_for(std::chrono::milliseconds(100)); break;
        case GATE: co_await G[i]; break;
        case WORK: rt::advance(self->d > 0 ? self->d : 1); break;
    }
    if (a.c.get() != i) rt::fail("life: the frame of task %d was damaged", i);
    if (self->src && self->kind != STOP && self->ss.stop_requested()) self->saw_stop = true; else if (self->kind == STOP) self->saw_stop = self->ss.stop_requested();
    self->te = rt::now_ns(); ++self->ended; rt::trace("task %d ends%s", i, self->saw_stop ? " having seen the stop request" : "");
    if (self->thrown) throw boom{i};
    if constexpr (!std::is_void_v<V>) co_return value<V>(i);
}
static void returned(int i, bool timeout, int v)
{
    auto& r = R[i]; r.tr = rt::now_ns(); r.timeout = timeout;
    if (r.ret++) rt::fail("dup: run %d returned twice", i);
    rt::trace("run %d returns %s", i, timeout ? "timeout" : r.exc ? "exception" : "value");
    if (timeout)
    {
        if (r.to <= 0) rt::fail("status: run %d with no limit (%lld ns) timed out", i, (long long)r.to);
        if (r.tr - r.t0 < r.to) rt::fail("early: run %d with a timeout of %lld ns timed out after %lld ns", i, (long long)r.to, (long long)(r.tr - r.t0));
        if (!jump && r.ended && r.te < r.t0 + r.to) rt::fail("status: task %d ended %lld ns into its %lld ns but a timeout was reported", i, (long long)(r.te - r.t0), (long long)r.to);
        if (r.src && !r.ss.stop_requested()) rt::fail("stop: run %d timed out without requesting its task to stop", i);
        if (!r.ended) rt::nontrivial();
    }
    else
    {
        if (!r.ended) rt::fail("status: run %d returned a result before its task ended", i);
        if (!r.exc && v != 1000 + i) rt::fail("value: run %d returned %d", i, v);
        if (r.exc != r.thrown) rt::fail("value: run %d ended by %s though its task %s", i, r.exc ? "exception" : "value", r.thrown ? "threw" : "did not throw");
        if (!jump && r.to > 0 && r.te > r.t0 + r.to) rt::fail("late: run %d with a timeout of %lld ns returned the result its task had after %lld ns", i, (long long)r.to, (long long)(r.te - r.t0));
        if (r.saw_stop) rt::fail("stop: task %d saw a stop request but its result was returned", i);
        if (r.to > 0 && r.t0 + r.to - r.te < 1000000) rt::nontrivial();
    }
}
template<class V, class D> static coro::task<coro::expected<V, coro::timeout_status>> call(int i, D d)
{
    if (R[i].src) return S->schedule(R[i].ss, body<V>(i), d);
    return S->schedule(body<V>(i), d);
}
template<class V> static coro::task<coro::expected<V, coro::timeout_status>> begin(int i)
{
    using namespace std::chrono; nanoseconds d(R[i].to);
    switch (R[i].form)
    {
        case 1: return call<V>(i, duration<double>(double(R[i].to) / 1e9));
        case 2: return call<V>(i, duration_cast<microseconds>(d));
        case 3: return call<V>(i, duration_cast<milliseconds>(d));
        case 4: return call<V>(i, duration<double, std::milli>(double(R[i].to) / 1e6));
        default: return call<V>(i, d);
    }
}
template<class V> static fire go(int i)
{
    if (R[i].nested) co_await S->schedule();
    auto& r = R[i]; r.t0 = rt::now_ns(); int v = 1000 + i; bool to = false;
    rt::trace("run %d: %s timeout %lld ns%s", i, r.kind == AT_ONCE ? "at once" : r.kind == HOP ? "hop" : r.kind == SLEEP ? "sleep" : r.kind == STOP ? "until stopped" : r.kind == GATE ? "until released" : "work", (long long)r.to, r.src ? " with stop source" : "");
    try
    {
        auto x = co_await begin<V>(i);
        if (x.has_value()) { if constexpr (std::is_same_v<V, int>) v = *x; else if constexpr (!std::is_void_v<V>) v = x->get(); } else { to = true; if (x.error() != coro::timeout_status::timeout) rt::fail("status: run %d reports no timeout and no value", i); }
    }
    catch (boom& b) { R[i].exc = true; if (b.id != i) rt::fail("value: run %d received another task's exception", i); }
    returned(i, to, v);
}
static void start(int i)
{
    switch (R[i].type) { case 0: go<int>(i); break; case 1: go<void>(i); break; case 2: go<counted>(i); break; }
}
static void at_rest()
{
    if (jump) return;
    for (size_t i = 0; i < R.size(); ++i)
    {
        auto& r = R[i]; if (r.ret || !r.t0) continue;
        if (r.ended) rt::fail("lost: task %d has ended but its run has not returned", int(i));
        if (r.to > 0 && rt::now_ns() >= r.t0 + r.to) rt::fail("late: run %d with a timeout of %lld ns has not returned after %lld ns", int(i), (long long)r.to, (long long)(rt::now_ns() - r.t0));
    }
}
// a timeout of centuries doesn't end here; what runs with one is just run
static int eons_done; static fire eons(int form, int type, bool src, int64_t d)
{
    using namespace std::chrono; using years = duration<int64_t, std::ratio<31556952>>; std::stop_source ss; int64_t t0 = rt::now_ns();
    auto job = [](int64_t d) -> coro::task<int> { if (d > 0) co_await S->yield_for(nanoseconds(d)); co_return 42; }; auto vjob = [](int64_t d) -> coro::task<void> { if (d > 0) co_await S->yield_for(nanoseconds(d)); };
    auto with = [&](auto to) -> coro::task<bool> { bool ok; if (type) { if (src) { auto t = S->schedule(ss, job(d), to); auto r = co_await t; ok = r.has_value() && *r == 42; } else { auto t = S->schedule(job(d), to); auto r = co_await t; ok = r.has_value() && *r == 42; } } else { if (src) { auto t = S->schedule(ss, vjob(d), to); auto r = co_await t; ok = r.has_value(); } else { auto t = S->schedule(vjob(d), to); auto r = co_await t; ok = r.has_value(); } } co_return ok; };
    rt::trace("a timeout of centuries (%d) around a task of %lld ns", form, (long long)d); bool ok = true;
    switch (form) { case 0: { auto t = with(hours::max()); ok = co_await t; break; } case 1: { auto t = with(seconds::max()); ok = co_await t; break; } case 2: { auto t = with(milliseconds::max()); ok = co_await t; break; } case 3: { auto t = with(nanoseconds::max()); ok = co_await t; break; } case 4: { auto t = with(years(400)); ok = co_await t; break; } case 5: { auto t = with(duration<double>(1e20)); ok = co_await t; break; } case 6: { auto t = with(microseconds(INT64_MAX / 1000 + 7)); ok = co_await t; break; } }
    if (!ok) rt::fail("early: a task of %lld ns with a timeout of centuries (%d) was reported as timed out after %lld ns", (long long)d, form, (long long)(rt::now_ns() - t0)); ++eons_done;
}
static void eternity()
{
    rt::cfg.timejump = false; rt::cfg.leak = false; /* the timeouts are still waiting when the scheduler goes */ eons_done = 0; rt::label("centuries"); rt::note("timeouts of centuries\n");
    coro::scheduler::options o; o.thread_strategy = coro::scheduler::thread_strategy_t::manual; o.execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline; S = coro::scheduler::make_unique(std::move(o)); int n = rt::range(1, 3);
    for (int i = 0; i < n; ++i) { static const int64_t ds[] = {0, 1000000, 5000000, 1500000}; eons(rt::choose(7), rt::choose(2), rt::chance(1, 2), ds[rt::choose(4)]); if (rt::chance(1, 2)) S->process_events(); }
    for (int i = 0; i < 12 && eons_done < n; ++i) { S->process_events(); S->process_events(); rt::advance(1000000); }
    if (eons_done < n) rt::fail("lost: %d of %d tasks with a timeout of centuries have ended", eons_done, n); if (n > 1) rt::nontrivial(); S.reset();
}
void harness_case()
{
    if (rt::chance(1, 40)) { eternity(); return; }

    R.clear(); R.reserve(16); g_stamp = 1; memset(harness_thread, 0, sizeof harness_thread); harness_thread[0] = true; for (auto& g : G) g.h = nullptr;
    bool manual = rt::chance(1, 5), inl = manual || rt::chance(1, 3); int nt = 1 + rt::choose(3); jump = rt::chance(1, 4); blocking_ok = !inl && nt >= 2; int blockers = 0;
    rt::cfg.timejump = false;
    coro::scheduler::options o; o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn; o.pool.thread_count = nt;
    o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
    { threads t; t.go([] {}); t.join(); }
    int n = rt::range(1, 6);
    rt::note("scheduler: %s %s threads=%d runs=%d time %s\n", manual ? "manual" : "own thread", inl ? "inline" : "pooled", nt, n, jump ? "passes at any time" : "passes at rest");
    for (int i = 0; i < n; ++i)
    {
        run_t r{}; r.form = rt::weighted({5, 1, 1, 2, 1}); r.to = DS[rt::weighted({4, 1, 1, 1, 2, 2, 3, 3, 2, 2, 2, 1, 1, 1})]; r.type = rt::choose(3); r.src = rt::chance(1, 2); r.thrown = rt::chance(1, 6); r.nested = rt::chance(1, 2);
        using namespace std::chrono; if (r.form == 2) r.to = r.to / 1000 * 1000; if (r.form == 3) r.to = r.to / 1000000 * 1000000;
        if (r.form == 1) r.to = duration_cast<nanoseconds>(duration<double>(double(r.to) / 1e9)).count(); if (r.form == 4) r.to = duration_cast<nanoseconds>(duration<double, std::milli>(double(r.to) / 1e6)).count();
        r.kind = rt::weighted({2, 2, 6, 2, 2, 2});
        static const int64_t off[] = {0, -1, 1, -1000000, 1000000, -400000, 600000, 7000000, 3000000000};
        r.d = std::max<int64_t>(r.to, 0) + off[rt::choose(9)];
        if (r.kind == STOP && !r.src) r.kind = SLEEP;
        if (r.kind == WORK && (!blocking_ok || ++blockers >= nt)) r.kind = HOP; // some thread is left for the others
        if (r.kind == WORK && r.nested) r.nested = false;
        if (r.src) r.ss = std::stop_source();
        R.push_back(r);
    }
    S = coro::scheduler::make_unique(std::move(o));
    std::atomic<bool> stop{false}; threads drv; if (manual) drv.go([&] { while (!stop.load()) S->process_events(std::chrono::milliseconds(200)); });
    int i = 0;
    while (i < n)
    {
        int k = std::min<int>(n - i, rt::range(1, 3)), other = rt::choose(3);
        { threads ths; int hi = i + k; if (other == 1) ths.go([&, hi] { harness_thread[rt::tid()] = true; start(hi - 1); }); for (int j = i; j < hi - (other == 1); ++j) start(j); ths.join(); }
        i += k;
        if (!rt::chance(1, 5)) { rt::quiesce(); at_rest(); }
        for (int s = rt::choose(4); s > 0; --s)
        {
            static const int64_t steps[] = {1000000, 0, 1, 1500000, 400000, 5000000, 100000000, 3000000000};
            if (rt::chance(1, 4)) { int g = rt::choose(i); G[g].release(); }
            rt::cfg.timejump = jump; rt::advance(steps[rt::choose(8)]); rt::cfg.timejump = false;
            if (!rt::chance(1, 4)) { rt::quiesce(); at_rest(); }
        }
    }
    rt::quiesce(); at_rest();
    // whatever is left: limited runs return by their deadlines, and every task reaches its end
    for (int guard = 0;; ++guard)
    {
        bool left = false; int64_t next = -1;
        for (auto& r : R) { if (!r.ret || !r.ended) left = true; if (!r.ret && r.to > 0 && (next < 0 || r.t0 + r.to < next)) next = r.t0 + r.to; }
        if (!left) break;
        if (guard > 300) rt::fail("lost: runs or tasks never end");
        rt::advance(next > rt::now_ns() ? next - rt::now_ns() : 100000000); rt::quiesce(); at_rest();
        if (next < 0) { for (int g = 0; g < n; ++g) G[g].release(); rt::quiesce(); at_rest(); }
    }
    for (int k = 0; k < n; ++k)
    {
        auto& r = R[k]; if (r.ret != 1 || r.started != 1 || r.ended != 1) rt::fail("count: run %d returned %d times, its task started %d and ended %d times", k, r.ret, r.started, r.ended);
        if (r.src && r.to <= 0 && r.ss.stop_requested()) rt::fail("stop: a stop was requested of task %d, which had no limit", k);
    }
    for (int guard = 0; S->size() != 0; ++guard) { if (guard > 20) rt::fail("count: size() is %zu at rest", S->size()); rt::advance(1000000000); rt::quiesce(); }
    if (rt::cfg.leak && counted::live.load() != 0) rt::fail("life: %d values left", counted::live.load());
    stop = true; drv.join(); S.reset(); R.clear();
}
