// C28: a manual event loop makes exactly the progress asked of it.
#include "common.hpp"
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <coro/scheduler.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C28";
const char* const harness_rule =
    "a case = a scheduler driven by hand (inline or on 1-2 pool threads), up to 24 coroutines of several steps (schedule, yields of zero to seconds, polls, resumed handles, spawned tasks, tasks that start others or drive the loop themselves), submitted by the driver, other threads or running tasks, "
    "1-3 threads driving with timeouts of zero to 50 ms or without limit, time passing between and during calls, and every scheduling decision; non-trivial = two drivers overlap, or a task drives the loop, or work arrives while a driver waits";
static std::unique_ptr<coro::scheduler> S; static bool inl; static thread_local int t_inside;
static std::atomic<int> g_inside; static int progress, spawned; static bool overlap_seen;
enum { SCHED, YIELD, POLL, AFTER, WORK };
static std::atomic<int> g_work, g_nwork; // a task that is computing on a pool thread
struct step { int k; int64_t d; };
struct job { hvec<step> steps; int form, at{-1}, runs{0}; bool drives, starts, done{false}; int waiting{-1}; int64_t due{-1}; int pipe{-1}; int64_t t0{0}; };
static hvec<job*> J; static int pipes[8][2]; static bool written[8]; static int npipes; static int budget; static bool g_jump;
static coro::task<void> work(job* j);
static fire launch(job* j) { co_await work(j); }
static size_t drive(int64_t ms, bool jump)
{
    int64_t a = rt::now_ns(); bool was = t_inside; ++t_inside; if (g_inside++ > 0) { if (!was) { rt::nontrivial(); overlap_seen = true; } }
    int w = g_work.load(); size_t n = S->process_events(std::chrono::milliseconds(ms));
    if (n == 0 && w && g_work.load() == w) rt::fail("count: process_events returned 0 though a task was executing");
    --g_inside; --t_inside; int64_t e = rt::now_ns() - a;
    if (!jump && ms >= 0 && e > ms * 1000000) rt::fail("blocked: process_events(%lld ms) took %lld ns", (long long)ms, (long long)e);
    return n;
}
struct here { std::coroutine_handle<>* h; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> x) { *h = x; } void await_resume() {} };
static void submit(job* j);
static job* mk(int depth)
{
    if (budget <= 0) return nullptr; --budget;
    auto* j = new (malloc(sizeof(job))) job; j->form = rt::weighted({5, 2, 1, 2}); j->drives = rt::chance(1, 8); j->starts = depth == 0 && rt::chance(1, 4);
    for (int n = rt::range(0, 3); n > 0; --n)
    {
        static const int64_t ds[] = {0, -1000000, 1, 500000, 1000000, 5000000, 20000000, 1500000000};
        step s{(int)rt::weighted({3, 3, 1, 2, inl ? 0u : 1u}), ds[rt::choose(8)]}; if (s.k == POLL && npipes >= 8) s.k = SCHED;
        if (s.k == POLL) { s.d = npipes; written[npipes] = false; if (pipe2(pipes[npipes++], O_NONBLOCK)) rt::fail("harness: pipe"); }
        j->steps.push_back(s);
    }
    J.push_back(j); return j;
}
static void on_thread(job* j) { if (inl && !t_inside) rt::fail("thread: a task was run outside of process_events"); if (j->runs++ > (int)j->steps.size() + 1) rt::fail("dup: a task was resumed too often"); ++progress; }
static coro::task<void> work(job* j)
{
    j->waiting = SCHED; j->due = -1; j->t0 = rt::now_ns();
    if (j->form == 0) { co_await S->schedule(); on_thread(j); } else if (j->form == 3) { static_cast<void>(0); on_thread(j); } else on_thread(j); // 1, 2: already on it
    j->waiting = -1; int at = 0;
    for (auto& s : j->steps)
    {
        j->at = at++;
        if (j->waiting != -1) rt::fail("harness: overlap");
        rt::trace("task %p step %d: %s %lld", (void*)0, j->at, s.k == SCHED ? "schedule" : s.k == POLL ? "poll" : "yield", (long long)s.d);
        int64_t a = rt::now_ns(); j->t0 = a;
        switch (s.k)
        {
            case SCHED: j->waiting = SCHED; co_await S->schedule(); break;
            case YIELD: j->due = a + std::max<int64_t>(s.d, 0); j->waiting = YIELD; co_await S->yield_for(std::chrono::nanoseconds(s.d)); break;
            case AFTER: j->due = a + std::max<int64_t>(s.d, 0); j->waiting = YIELD; co_await S->schedule_after(std::chrono::nanoseconds(s.d)); break;
            case WORK: j->waiting = WORK; g_work = ++g_nwork; rt::advance(3000000); g_work = 0; break;
            case POLL: j->waiting = POLL; j->pipe = s.d; { auto r = co_await S->poll(pipes[s.d][0], coro::poll_op::read); if (r != coro::poll_status::read) rt::fail("status: a poll ended as %s", coro::to_string(r).c_str()); } if (!written[s.d]) rt::fail("early: a poll ended before there was anything to read"); break;
        }
        if (j->waiting == -1) rt::fail("dup: a task was resumed twice");
        if (j->waiting == YIELD && rt::now_ns() < j->due) rt::fail("early: a task waiting %lld ns was resumed after %lld", (long long)s.d, (long long)(rt::now_ns() - a));
        j->waiting = -1; on_thread(j);
        if (j->drives) { rt::nontrivial(); rt::label("re-entrant"); drive(rt::choose(2) * 5, true); }
        if (j->starts) { j->starts = false; if (auto* n = mk(1)) submit(n); }
    }
    j->done = true; ++progress;
}
static fire direct(job* j) { std::coroutine_handle<>* h = (std::coroutine_handle<>*)malloc(sizeof *h); j->waiting = SCHED; co_await here{h}; free(h); co_await work(j); }
static std::coroutine_handle<> g_h[16]; static thread_local int t_slot;
static fire parked(job* j, std::coroutine_handle<>* h) { co_await here{h}; co_await work(j); }
static void submit(job* j)
{
    j->waiting = SCHED; j->t0 = rt::now_ns();
    switch (j->form)
    {
        case 0: launch(j); break;
        case 1: ++spawned; if (!S->spawn_detached(work(j))) rt::fail("refused: spawn_detached"); break;
        case 2: { auto go = [](job* j) -> fire { co_await S->schedule(work(j)); }; go(j); break; }
        case 3: { std::coroutine_handle<> h; parked(j, &h); if (!S->resume(h)) rt::fail("refused: resume"); break; }
    }
}
static bool ready(job* j)
{
    if (j->done || j->waiting == -1) return false;
    if (j->waiting == SCHED) return true;
    if (j->waiting == YIELD) return j->due + (g_jump ? 20000000000LL : 0) <= rt::now_ns(); // a thread held up while arming the timer makes it late
    if (j->waiting == WORK) return false;
    return written[j->pipe];
}
static int outstanding() { int n = 0; for (auto* j : J) n += !j->done; return n; }
// how long process_events() waits, however long that may be: until something is to be done
static void patience()
{
    using namespace std::chrono; rt::cfg.timejump = false; coro::scheduler::options o; o.thread_strategy = coro::scheduler::thread_strategy_t::manual; o.execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline; S = coro::scheduler::make_unique(std::move(o)); rt::label("long waits");
    rt::note("process_events with long timeouts\n");
    for (int n = rt::range(1, 3); n > 0; --n)
    {
        static const int64_t ms[] = {-1, 4294967296, 2147483648, 4294967297, 8589934592, 3600000000, INT64_MAX, INT64_MAX - 1, 1LL << 40, 5000, 86400000, 2147483647, 6442450944}; int64_t w = ms[rt::choose(13)], d = rt::range(1, 4) * 1000000;
        auto wait = [](int64_t d) -> coro::task<void> { co_await S->yield_for(nanoseconds(d)); }; auto t = wait(d); int64_t t0 = rt::now_ns(); t.resume();
        rt::trace("process_events(%lld ms), a timer in %lld ns", (long long)w, (long long)d); S->process_events(milliseconds(w)); int64_t el = rt::now_ns() - t0; rt::trace("returned after %lld ns", (long long)el);
        if (el < d) rt::fail("early: process_events(%lld ms) returned after %lld ns without anything to do", (long long)w, (long long)el);
        if (!t.is_ready()) rt::fail("lost: process_events(%lld ms) returned after %lld ns without having run the task whose timer of %lld ns was over", (long long)w, (long long)el, (long long)d); rt::nontrivial();
    }
    S.reset();
}
void harness_case()
{
    if (rt::chance(1, 40)) { patience(); return; }

    J.clear(); J.reserve(64); npipes = 0; budget = 24; g_inside = 0; g_work = g_nwork = 0; progress = spawned = 0; t_inside = 0; overlap_seen = false;
    inl = rt::chance(2, 3); int nt = 1 + rt::choose(2), ndrv = rt::weighted({3, 2, 1}), rounds = 1 + rt::choose(3); bool jump = rt::chance(1, 4); g_jump = jump;
    rt::note("manual scheduler: %s threads=%d extra drivers=%d rounds=%d time %s\n", inl ? "inline" : "pooled", nt, ndrv, rounds, jump ? "passes at any time" : "passes at rest");
    coro::scheduler::options o; o.thread_strategy = coro::scheduler::thread_strategy_t::manual; o.pool.thread_count = nt;
    o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
    { threads t; t.go([] {}); t.join(); }
    rt::cfg.timejump = false; S = coro::scheduler::make_unique(std::move(o));
    static const int64_t touts[] = {0, 0, 1, 5, 50}; static const int64_t steps[] = {0, 1, 1000000, 5000000, 20000000, 1600000000};
    for (int r = 0; r < rounds; ++r)
    {
        rt::cfg.timejump = jump;
        threads ths; hvec<int64_t> plan[3]; std::atomic<int> dead{0};
        for (int d = 0; d < ndrv; ++d) { for (int n = rt::range(1, 4); n > 0; --n) plan[d].push_back(touts[rt::choose(5)]); ths.go([&, d] { t_inside = 0; for (auto ms : plan[d]) drive(ms, jump); }); }
        hvec<job*> theirs; bool sub = rt::chance(1, 3); if (sub) { for (int n = rt::range(1, 3); n > 0; --n) if (auto* j = mk(0)) theirs.push_back(j); ths.go([&] { t_inside = 0; for (auto* j : theirs) { submit(j); rt::point(); } }); }
        for (int n = rt::range(1, 5); n > 0; --n)
        {
            switch (rt::weighted({4, 3, 2, 1}))
            {
                case 0: if (auto* j = mk(0)) submit(j); break;
                case 1: drive(touts[rt::choose(5)], jump); break;
                case 2: { int64_t d = steps[rt::choose(6)]; rt::advance(d); break; }
                case 3: if (npipes) { int p = rt::choose(npipes); if (!written[p]) { written[p] = true; char c = 1; if (write(pipes[p][1], &c, 1) != 1) rt::fail("harness: write"); } } break;
            }
        }
        rt::cfg.timejump = false;
        ths.join();
    }
    if (rt::chance(1, 2))
    {
        // a driver waiting in a long or unlimited call handles whatever becomes ready meanwhile
        threads w; std::atomic<bool> quit{false}; bool unlimited = rt::chance(1, 2);
        w.go([&] { t_inside = 0; while (!quit.load()) drive(unlimited ? -1 : 100000, true); });
        for (int n = rt::range(1, 4); n > 0; --n)
        {
            rt::quiesce(); if (g_inside.load() != 1) rt::fail("harness: no driver");
            for (auto* j : J) if (ready(j) && !g_work.load()) rt::fail("lost: a task that could run was not, though a driver is waiting in process_events");
            rt::label("arrives while waiting"); rt::nontrivial();
            switch (rt::choose(3))
            {
                case 0: if (auto* j = mk(0)) submit(j); break;
                case 1: { int64_t d = steps[rt::choose(6)]; rt::advance(d); break; }
                case 2: if (npipes) { int p = rt::choose(npipes); if (!written[p]) { written[p] = true; char c = 1; if (write(pipes[p][1], &c, 1) != 1) rt::fail("harness: write"); } } break;
            }
        }
        rt::quiesce(); quit = true; for (auto* j : J) if (ready(j) && !g_work.load()) rt::fail("lost: a task that could run was not, though a driver is waiting in process_events");
        auto last = []() -> fire { co_await S->yield_for(std::chrono::nanoseconds(1)); }; last(); w.join(); rt::quiesce(); // wakes the driver up
    }
    rt::quiesce();
    // everything that can run does so by repeated calls, then the rest as its time comes
    for (int guard = 0;; ++guard)
    {
        int rdy = 0; for (auto* j : J) rdy += ready(j);
        int before = progress; size_t n = drive(0, false); rt::quiesce();
        if (inl && rdy && progress == before) { n = drive(0, false); rt::quiesce(); if (progress == before) rt::fail("lost: process_events made no progress though %d tasks could run", rdy); }
        int out = outstanding(); if (!inl) n = S->size(); // the pool may still have been working
        if ((n != 0) != (out != 0)) rt::fail("count: process_events returned %zu with %d tasks outstanding", n, out);
        if (inl && !spawned && n != (size_t)out) rt::fail("count: process_events returned %zu with %d tasks outstanding", n, out);
        if (!out) break;
        rdy = 0; for (auto* j : J) rdy += ready(j);
        if (rdy) { if (g_inside.load() || g_work.load()) { rt::advance(5000000); rt::quiesce(); } if (guard > 400) rt::fail("lost: tasks that could run never finish"); continue; }
        int64_t next = -1; bool any = false;
        for (auto* j : J) if (!j->done && j->waiting == YIELD && (next < 0 || j->due < next)) next = j->due;
        for (auto* j : J) if (!j->done && j->waiting == POLL && (next < 0 || rt::chance(1, 2))) { char c = 1; written[j->pipe] = true; if (write(pipes[j->pipe][1], &c, 1) != 1) rt::fail("harness: write"); any = true; break; }
        if (!any && next >= 0) { int64_t d = next - rt::now_ns(); if (d <= 0) d = 50000000; if (rt::chance(1, 2)) rt::advance(d); else drive(d / 1000000 + 1, false); rt::quiesce(); }
        else if (!any) { if (guard > 400) rt::fail("lost: a task is neither waiting nor done"); rt::advance(5000000); rt::quiesce(); } // a task may itself be waiting in process_events
    }
    for (auto* j : J) if (!j->done) rt::fail("lost: a task never finished");
    if (size_t n = S->process_events(std::chrono::milliseconds(0))) rt::fail("count: %zu at rest", n);
    S.reset(); for (int i = 0; i < npipes; ++i) { close(pipes[i][0]); close(pipes[i][1]); } for (auto* j : J) { j->~job(); free(j); } J.clear();
}
