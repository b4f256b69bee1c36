// C19: timers fire exactly once, never early, in deadline order, and are never lost.
#include "common.hpp"
#include <cstring>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <coro/scheduler.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C19";
const char* const harness_rule =
    "a case = a scheduler (own event loop or driven by hand, inline or on 1-2 pool threads), up to 14 timed waits in 1-3 batches by every function and duration type (negative, zero, sub-millisecond, equal, around whole seconds, an hour), made on and off the scheduler's "
    "threads, some from a coroutine a timer has just resumed, some polls with a timeout that are satisfied first, time passing in arbitrary amounts, and every scheduling decision; non-trivial = at least three timers were pending at once";
static std::unique_ptr<coro::scheduler> S;
struct timer { int form, again; int64_t d; int64_t t0, t1; uint64_t reg; bool settled, off; int fired; uint64_t st; int64_t at; int pipe; };
static hvec<timer> W; static bool harness_thread[16]; static int pending;
static const int64_t DS[] = {0, -5000000, -1, 1, 400, 999999, 1000000, 1000001, 1500000, 2000000, 2000000, 5000000, 5000001, 50000000, 999000000, 999999999, 1000000000, 1000000001, 1500000000, 3000000000, 3600000000000};
static int pipes[8][2]; static int npipes; static bool g_jump;
static fire run(int w, int depth);
static int mk(int depth)
{
    if (W.size() >= 40) return -1;
    timer t{}; t.form = rt::weighted({4, 3, 3, 3, 1, 1, 1, 2}); t.d = DS[rt::weighted({1, 1, 1, 1, 1, 2, 3, 2, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, g_jump ? 0 : 1})]; t.again = depth < 2 && rt::chance(1, 4) ? 1 + rt::choose(2) : 0; t.pipe = -1;
    if (t.form == 7) { if (npipes >= 8) t.form = 0; else if (t.d > 0) { t.d = (t.d + 999999) / 1000000 * 1000000; t.pipe = npipes++; if (pipe2(pipes[t.pipe], O_NONBLOCK)) rt::fail("harness: pipe"); } else t.form = 0; }
    // the duration as given, in nanoseconds
    using namespace std::chrono;
    if (t.form == 4) t.d = ceil<nanoseconds>(duration<double>(double(t.d) / 1e9)).count(); if (t.form == 5) t.d = t.d / 1000 * 1000; if (t.form == 6) t.d = ceil<nanoseconds>(duration_cast<duration<float>>(nanoseconds(t.d))).count();
    W.push_back(t); return W.size() - 1;
}
static fire run(int w, int depth)
{
    using namespace std::chrono; auto& t = W[w]; nanoseconds d(t.d);
    t.off = harness_thread[rt::tid()]; t.t0 = rt::now_ns(); auto tp = coro::clock::now() + d; ++pending;
    rt::trace("timer %d: %lld ns by %d", w, (long long)t.d, t.form);
    t.t1 = -1;
    switch (t.form)
    {
        case 0: co_await S->yield_for(d); break;
        case 1: co_await S->schedule_after(d); break;
        case 2: co_await S->yield_until(tp); break;
        case 3: co_await S->schedule_at(tp); break;
        case 4: co_await S->yield_for(duration<double>(double(t.d) / 1e9)); break;
        case 5: co_await S->schedule_after(duration_cast<microseconds>(d)); break;
        case 6: co_await S->yield_for(duration_cast<duration<float>>(d)); break;
        case 7: { auto r = co_await S->poll(pipes[t.pipe][0], coro::poll_op::read, duration_cast<milliseconds>(d)); if (r == coro::poll_status::read) t.d = -2; else if (r != coro::poll_status::timeout) rt::fail("status: a poll ended as %s", coro::to_string(r).c_str()); break; }
    }
    if (W[w].fired++) rt::fail("dup: timer %d fired twice", w);
    W[w].st = stamp(); W[w].at = rt::now_ns(); --pending;
    rt::trace("timer %d fires", w);
    int64_t want = W[w].d; if (W[w].form == 4 || W[w].form == 6) --want; // less than a nanosecond is not measured
    if (want > 0 && W[w].at - W[w].t0 < want) rt::fail("early: timer %d of %lld ns fired after %lld ns", w, (long long)want, (long long)(W[w].at - W[w].t0));
    if (harness_thread[rt::tid()] ) rt::fail("thread: timer %d resumed its coroutine on a thread that isn't the scheduler's", w);
    for (int i = W[w].again; i > 0; --i) { int n = mk(depth + 1); if (n >= 0) run(n, depth + 1); }
}
// waits that are centuries long don't end here
static coro::task<void> centuries(int form)
{
    using namespace std::chrono; using years = duration<int64_t, std::ratio<31556952>>;
    switch (form)
    {
        case 0: co_await S->yield_for(hours::max()); break;
        case 1: co_await S->schedule_after(seconds::max()); break;
        case 2: co_await S->yield_for(milliseconds::max()); break;
        case 3: co_await S->yield_for(nanoseconds::max()); break;
        case 4: co_await S->schedule_after(years(1000)); break;
        case 5: co_await S->yield_for(duration<double>(1e30)); break;
        case 6: co_await S->yield_until(coro::time_point::max()); break;
        case 7: co_await S->schedule_at(coro::time_point::max() - nanoseconds(1)); break;
        case 8: co_await S->yield_for(nanoseconds::max() - seconds(1)); break;
        case 9: co_await S->yield_for(microseconds(INT64_MAX / 1000 + 1)); break;
    }
    rt::fail("early: a wait of centuries has ended (%d)", form);
}
static fire soon(int64_t ns) { int64_t t0 = rt::now_ns(); co_await S->yield_for(std::chrono::nanoseconds(ns)); if (rt::now_ns() - t0 < ns) rt::fail("early: a timer of %lld ns fired after %lld ns", (long long)ns, (long long)(rt::now_ns() - t0)); --pending; }
static void eternity()
{
    pending = 0; rt::cfg.timejump = false; rt::cfg.hang_ns = 200000LL * 1000000000; rt::label("centuries"); coro::scheduler::options o; o.thread_strategy = coro::scheduler::thread_strategy_t::manual; o.execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline; S = coro::scheduler::make_unique(std::move(o));
    rt::note("waits of centuries\n"); int n = rt::range(1, 4); std::vector<coro::task<void>> ts; auto look = [&] { int64_t t0 = rt::now_ns(); S->process_events(std::chrono::milliseconds(rt::choose(2))); if (rt::now_ns() - t0 > 1000000) rt::fail("blocked: process_events took %lld ns", (long long)(rt::now_ns() - t0)); };
    for (int i = 0; i < n; ++i)
    {
        int f = rt::choose(10); rt::trace("a wait of centuries: %d", f); ts.push_back(centuries(f)); ts.back().resume(); if (ts.back().is_ready()) rt::fail("early: a wait of centuries ended at once (%d)", f);
        if (rt::chance(1, 2)) look(); if (rt::chance(1, 2)) { ++pending; soon(1000000 * rt::range(1, 3)); } if (rt::chance(1, 3)) { rt::advance(1000000 * rt::range(1, 5)); look(); }
    }
    for (int i = 0; i < 3; ++i) { rt::advance(i == 2 ? 86400000000000LL : 5000000); look(); }
    for (int i = 0; pending && i < 20; ++i) look(); if (pending) rt::fail("late: %d timers have not fired", pending);
    for (auto& t : ts) if (t.is_ready()) rt::fail("early: a wait of centuries has ended");
    if (n > 2) rt::nontrivial(); ts.clear(); S.reset();
}
void harness_case()
{
    if (rt::chance(1, 30)) { eternity(); return; }

    free_zero zero(rt::chance(1, 10));
    W.clear(); W.reserve(64); g_stamp = 1; memset(harness_thread, 0, sizeof harness_thread); harness_thread[0] = true; npipes = 0; pending = 0;
    rt::cfg.hang_ns = 20000LL * 1000000000;
    bool manual = rt::chance(1, 4), inl = manual || rt::chance(1, 2); int nt = 1 + rt::choose(2), nbatch = 1 + rt::weighted({3, 2, 2});
    bool jump = rt::chance(1, 2); // time may pass while threads are running
    g_jump = jump; rt::cfg.timejump = false;
    rt::note("scheduler: %s %s threads=%d batches=%d time %s\n", manual ? "manual" : "own thread", inl ? "inline" : "pooled", nt, nbatch, jump ? "passes at any time" : "passes at rest");
    coro::scheduler::options o; o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn; o.pool.thread_count = nt;
    o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
    { threads t; t.go([] {}); t.join(); }
    S = coro::scheduler::make_unique(std::move(o));
    std::atomic<bool> stop{false}; threads drv;
    if (manual) drv.go([&] { while (!stop.load()) S->process_events(std::chrono::milliseconds(200)); });
    for (int b = 0; b < nbatch; ++b)
    {
        int n = rt::range(1, 5), nc = rt::choose(2); hvec<int> mine, theirs;
        for (int i = 0; i < n; ++i) { int w = mk(0); if (w >= 0) (nc && i % 2 ? theirs : mine).push_back(w); }
        size_t first = W.size();
        threads ths; if (nc) ths.go([&] { harness_thread[rt::tid()] = true; for (int w : theirs) { run(w, 0); W[w].t1 = rt::now_ns(); rt::point(); } });
        for (int w : mine) { run(w, 0); W[w].t1 = rt::now_ns(); }
        ths.join();
        bool q = !rt::chance(1, 5); if (q) rt::quiesce(); // otherwise the next batch or step overtakes
        int np = 0; for (auto& t : W) { np += !t.fired; if (q && !t.fired && t.t1 == t.t0 && t.t0 == rt::now_ns()) t.settled = true; }
        if (np >= 3) rt::nontrivial();
        // some polls are satisfied before their timeout
        for (auto& t : W) if (t.pipe >= 0 && !t.fired && rt::chance(1, 2)) { char c = 1; if (write(pipes[t.pipe][1], &c, 1) != 1) rt::fail("harness: write"); rt::label("poll satisfied first"); if (rt::chance(1, 2)) rt::quiesce(); }
        static const int64_t steps[] = {0, 1, 1000000, 1000001, 2000000, 7000000, 60000000, 999500000, 1700000000, 4000000000};
        for (int i = rt::range(0, 3); i > 0; --i)
        {
            size_t had = W.size(); int64_t dt = steps[rt::choose(10)], from = rt::now_ns();
            rt::cfg.timejump = jump; rt::advance(dt); rt::cfg.timejump = false; if (!rt::chance(1, 4)) rt::quiesce(); else continue;
            int64_t now = rt::now_ns(); (void)from; (void)had;
            for (size_t w = 0; w < W.size(); ++w)
            {
                auto& t = W[w]; int64_t due = t.t0 + std::max<int64_t>(t.d, 0);
                if (!jump && !t.fired && due <= now) rt::fail("late: timer %zu of %lld ns has not fired after %lld ns", w, (long long)t.d, (long long)(now - t.t0));
            }
        }
        (void)first;
    }
    rt::quiesce();
    // everything left fires as time passes, each at its own time
    for (int guard = 0;; ++guard)
    {
        int64_t next = -1, now = rt::now_ns();
        for (size_t w = 0; w < W.size(); ++w) if (!W[w].fired)
        {
            int64_t due = W[w].t0 + std::max<int64_t>(W[w].d, 0);
            if (!jump && due <= now) rt::fail("late: timer %zu of %lld ns has not fired after %lld ns", w, (long long)W[w].d, (long long)(now - W[w].t0));
            if (next < 0 || due < next) next = due;
        }
        if (next < 0) break;
        if (guard > 2000) rt::fail("lost: timers remain");
        if (next - now > 50000000000LL) rt::label("hour"); // the event loop wakes up each second meanwhile
        rt::advance(next > now ? next - now : 50000000);
        rt::quiesce();
        if (jump) for (size_t w = 0; w < W.size(); ++w) if (!W[w].fired && W[w].t0 + std::max<int64_t>(W[w].d, 0) + 30000000000LL < rt::now_ns()) rt::fail("lost: timer %zu of %lld ns has not fired after %lld ns", w, (long long)W[w].d, (long long)(rt::now_ns() - W[w].t0));
    }
    // deadline order: on a single thread, those that were all waiting before the first of them was due
    if (inl || nt == 1)
        for (size_t a = 0; a < W.size(); ++a) for (size_t b = 0; b < W.size(); ++b)
        {
            auto &x = W[a], &y = W[b];
            if (x.form == 7 || y.form == 7 || (x.form >= 4 && x.form <= 6) || (y.form >= 4 && y.form <= 6) || !x.settled || !y.settled || x.d <= 0 || y.d <= 0) continue;
            if (x.t0 + x.d <= y.t0 || y.t0 + y.d <= x.t0) continue; // both were waiting
            if (x.t0 + x.d < y.t0 + y.d && x.st > y.st) rt::fail("order: timer %zu, due at %lld, fired after timer %zu, due at %lld", a, (long long)(x.t0 + x.d), b, (long long)(y.t0 + y.d));
        }
    for (size_t w = 0; w < W.size(); ++w) if (W[w].fired != 1) rt::fail("lost: timer %zu fired %d times", w, W[w].fired);
    rt::quiesce(5000000000LL);
    if (S->size() != 0) rt::fail("count: size() is %zu at rest", S->size());
    stop = true; drv.join(); S.reset(); for (int i = 0; i < npipes; ++i) { close(pipes[i][0]); close(pipes[i][1]); }
}
