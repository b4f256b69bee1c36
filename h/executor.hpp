// Shared by C16 (thread pool) and C18 (scheduler, with SCHED defined): every way of giving work to an executor, racing its shutdown.
#include "common.hpp"
#include <cstring>
#include <deque>
#include <list>
#include <stdexcept>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/thread_pool.hpp>
#ifdef SCHED
#include <coro/scheduler.hpp>
using executor_t = coro::scheduler;
static constexpr unsigned EXTRA = 3; // the scheduler has timers, and a shutdown of it waits for all that it spawned
#else
using executor_t = coro::thread_pool;
static constexpr unsigned EXTRA = 0;
#endif
enum { DETACHED, JOINABLE, TASK, SWITCH, RESUME, RANGE };
enum { S_YIELD, S_AWAY, S_SPAWN, S_PARK, S_OBS, S_BLOCK, S_TIMER };
struct work { int kind, nsteps, steps[3], thrower; uint64_t sub_b, sub_e; int tri; /* accepted: 0 unknown, 1 yes, 2 refused */ int runs, finished, refused_inside; uint64_t ran; int state; /* 0 idle/elsewhere, 1 queued, 2 running on the pool */ bool parked, single, timed; uint64_t in; /* in the executor without a break since */ };
static hvec<work>* W;
static std::unique_ptr<executor_t> P; static executor_t* tp; static bool inline_tasks; /* scheduler which runs everything on its event loop */
static int io_started, io_stopped, io_tid;
static int nthreads, nworks, budget, blockers; static hoppers H; static gate gates[64];
static uint64_t sd_b, sd_e; static bool sd_req, cbs;
static int starts[8], stops[8], owner[8], on_pool[16]; // on_pool[tid] = index + 1
static int ranby[16]; static bool raced; static std::atomic<bool> drain; static std::atomic<int> others; // blocked work waits for other work
static coro::task<void> body(int w);
static void submit(int kind, bool inside);
static bool harness_thread[16];
static int pool_thread()
{
    if (harness_thread[rt::tid()]) return false;
    if (inline_tasks) return io_tid < 0 || rt::tid() == io_tid;
    if (io_tid >= 0 && rt::tid() == io_tid) return false;
    return !cbs || on_pool[rt::tid()] != 0;
}
static void come(int w, const char* how)
{
    if (!pool_thread()) rt::fail("thread: work %d %s on a thread that isn't the pool's", w, how);
    if (cbs && !inline_tasks && stops[on_pool[rt::tid()] - 1]) rt::fail("callback: work ran after its thread's stop callback");
    if (sd_e) rt::fail("shutdown: work %d %s after shutdown() had returned", w, how);
    if ((*W)[w].state == 2) rt::fail("dup: work %d %s twice", w, how);
    (*W)[w].state = 2; ++ranby[rt::tid()]; if (!(*W)[w].in) (*W)[w].in = stamp();
    others.fetch_add(1);
}
static void observe()
{
    bool was = sd_b != 0, done = sd_e != 0; bool s = tp->is_shutdown();
    if (s && !sd_b) rt::fail("shutdown: is_shutdown() before any shutdown");
    if (!s && done) rt::fail("shutdown: is_shutdown() is false after a shutdown");
    (void)was;
#ifndef SCHED
    if (tp->thread_count() != (size_t)nthreads) rt::fail("count: thread_count() is %zu, not %d", tp->thread_count(), nthreads);
#endif
    hvec<int> act; for (size_t i = 0; i < W->size(); ++i) if ((*W)[i].tri == 1 && (*W)[i].state == 2) act.push_back(i);
    #ifdef SCHED
    size_t z = tp->size(), q = 0;
    // the event loop has its own thread: calling it by hand does nothing
    if (rt::chance(1, 3)) { rt::label("process_events by hand"); z = tp->process_events(std::chrono::milliseconds(rt::chance(1, 2) ? 0 : 1)); }
#else
    size_t z = tp->size(), q = tp->queue_size();
#endif
   
    if (z > 4 * W->size() + 8 || q > 2 * W->size() + 4) rt::fail("count: size() is %zu, queue_size() %zu with %zu pieces of work", z, q, W->size());
    // somebody who was running before and is still running now was counted
    if (!act.empty() && (*W)[act[0]].state == 2 && z == 0) rt::fail("count: size() is zero while work %d is running", act[0]);
    if (!act.empty() && (*W)[act[0]].state == 2 && tp->empty()) { if ((*W)[act[0]].state == 2) rt::fail("count: empty() while work %d is running", act[0]); }
}
// what the scheduler is running when it's shut down completes, whatever it asks the scheduler for
static void stays(int w) { if (EXTRA && (*W)[w].in && (*W)[w].in < sd_b) rt::fail("shutdown: work %d, which was being run when the shutdown began, was refused", w); }
static bool legal_refusal(const char* what) { if (!sd_b) rt::fail("refused: %s was refused although the pool wasn't shut down", what); raced = true; return true; }
static void legal_accept(bool late, const char* what) { if (late) rt::fail("accepted: %s was accepted after shutdown() had returned", what); }
static coro::task<void> steps(int w)
{
    for (int i = 0; i < (*W)[w].nsteps; ++i)
    {
        rt::point(); static const char* sn[] = {"yields", "leaves", "submits", "parks", "observes", "blocks", "waits for a timer"}; rt::trace("work %d %s", w, sn[(*W)[w].steps[i]]);
        switch ((*W)[w].steps[i])
        {
            case S_YIELD:
            case S_AWAY:
            {
                bool away = (*W)[w].steps[i] == S_AWAY;
                if (away) { (*W)[w].state = 0; (*W)[w].in = 0; co_await H.hop(w); if (!harness_thread[rt::tid()]) rt::fail("harness: hop"); rt::label("left the pool"); }
                bool late = sd_e; bool ok = true; int me = rt::tid(), was = (*W)[w].state;
                (*W)[w].state = away || was != 2 ? 3 : 1;
                try { if (away) co_await tp->schedule(); else co_await tp->yield(); } catch (const std::runtime_error&) { ok = false; }
                if (ok) { legal_accept(late, "schedule"); come(w, "rescheduled"); }
                else { legal_refusal("schedule"); stays(w); if (rt::tid() != me) rt::fail("refused: continued on another thread"); (*W)[w].state = was; ++(*W)[w].refused_inside; rt::label("refused inside"); }
                break;
            }
#ifdef SCHED
            case S_TIMER:
            {
                static const int64_t ds[] = {0, -1000000, 1000000, 3000000, 500, 20000000}; int64_t d = ds[rt::choose(6)]; int form = rt::choose(4); bool late = sd_e, ok = true; int was = (*W)[w].state;
                (*W)[w].state = was == 2 ? 1 : 3; int64_t t0 = rt::now_ns(); auto tp0 = coro::clock::now() + std::chrono::nanoseconds(d); (*W)[w].timed = d > 0;
                try { if (form == 0) co_await tp->yield_for(std::chrono::nanoseconds(d)); else if (form == 1) co_await tp->schedule_after(std::chrono::nanoseconds(d)); else if (form == 2) co_await tp->yield_until(tp0); else co_await tp->schedule_at(tp0); } catch (const std::runtime_error&) { ok = false; }
                if (ok) { legal_accept(late, "yield_for"); (*W)[w].timed = false; come(w, "resumed by a timer"); if (rt::now_ns() - t0 < d) rt::fail("early: a timer of %lld ns fired after %lld ns", (long long)d, (long long)(rt::now_ns() - t0)); rt::label("timer"); }
                else { legal_refusal("yield_for"); stays(w); (*W)[w].state = was; (*W)[w].timed = false; ++(*W)[w].refused_inside; }
                break;
            }
#endif
            case S_SPAWN: if (W->size() < 12) submit(rt::choose(2) ? DETACHED : RESUME, true); break;
            case S_PARK: if (w < 64) { (*W)[w].parked = true; (*W)[w].state = 0; (*W)[w].in = 0; co_await gates[w]; /* resumed through the pool, or by hand when it refuses */ if (!sd_b || pool_thread()) come(w, "resumed"); (*W)[w].parked = false; } break;
            case S_BLOCK: { int o = others.load(); rt::label("blocked a thread"); rt::wait_until([&] { return others.load() > o || sd_b || drain; }, "other work"); break; }
            case S_OBS: observe(); break;
        }
    }
}
static coro::task<void> body(int w)
{
    counted local(w);
    if ((*W)[w].runs++) rt::fail("dup: work %d started twice", w);
    (*W)[w].ran = stamp(); (*W)[w].tri = 1;
    rt::trace("work %d starts", w);
    if ((*W)[w].single) for (int i = 0; i < w; ++i) { auto& o = (*W)[i]; if (o.single && o.tri == 1 && o.sub_e && o.sub_e < (*W)[w].sub_b && !o.runs) rt::fail("fifo: work %d ran before work %d which was accepted earlier", w, i); }
    co_await steps(w);
    if ((*W)[w].finished++) rt::fail("dup: work %d finished twice", w);
    rt::trace("work %d ends", w);
    (*W)[w].state = 0;
    if ((*W)[w].thrower) throw boom{w};
}
static coro::task<void> wrapped(int w, counted c) { come(w, "run"); co_await body(w); (void)c; }
static coro::task<int> valued(int w, counted c) { come(w, "run"); co_await body(w); co_return c.get(); }
// coroutine which switches itself to the pool
static fire switcher(int w)
{
    bool late = sd_e, ok = true; int me = rt::tid(); (*W)[w].sub_b = stamp(); (*W)[w].state = 1;
    try { co_await tp->schedule(); } catch (const std::runtime_error&) { ok = false; }
    if (ok) { legal_accept(late, "schedule"); (*W)[w].tri = 1; come(w, "run"); try { co_await body(w); } catch (const boom&) {} }
    else { legal_refusal("schedule"); (*W)[w].tri = 2; (*W)[w].state = 0; if (rt::tid() != me) rt::fail("refused: continued on another thread"); }
}
// coroutine which is started parked, for resume()
struct parked
{
    struct promise_type { parked get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { rt::fail("exception: escaped"); } };
    std::coroutine_handle<promise_type> h;
};
static parked resumable(int w) { come(w, "resumed"); try { co_await body(w); } catch (const boom&) {} }
struct ended { struct promise_type { ended get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() {} }; std::coroutine_handle<> h; };
static ended at_end() { co_return; }
static int mk(int kind)
{
    if (W->size() >= 60) return -1;
    int w = W->size(); work k{}; k.kind = kind; k.nsteps = rt::weighted({3, 3, 2, 1});
    for (auto& s : k.steps) { s = rt::weighted({4, 4, 2, 1, 3, 1, EXTRA}); if (s == S_BLOCK) { if (blockers >= nthreads - 1 || kind == SWITCH || kind == TASK || kind == JOINABLE) s = S_OBS; } if (s == S_PARK && (kind == TASK || kind == JOINABLE || (EXTRA && kind == DETACHED))) s = S_YIELD; if (s == S_BLOCK && inline_tasks) s = S_OBS; }
    for (int i = 0; i < k.nsteps; ++i) if (k.steps[i] == S_BLOCK) { if (blockers >= nthreads - 1) k.steps[i] = S_OBS; else ++blockers; }
    k.thrower = rt::chance(1, 5); W->push_back(k); return w;
}
static void outcome(int w, bool ok, bool late, const char* what)
{
    auto& k = (*W)[w]; k.sub_e = stamp();
    if (ok) { legal_accept(late, what); k.tri = 1; } else { legal_refusal(what); if (k.runs) rt::fail("refused: %s was refused but ran", what); k.tri = 2; k.state = 0; }
    rt::trace("%s of work %d %s", what, w, ok ? "accepted" : "refused");
}
static void submit(int kind, bool inside)
{
    int w = mk(kind); if (w < 0) return;
    bool late = sd_e; if (sd_b) raced = true;
    switch (kind)
    {
        case DETACHED: { (*W)[w].single = nthreads == 1 || inline_tasks; (*W)[w].sub_b = stamp(); (*W)[w].state = 1; bool ok = tp->spawn_detached(wrapped(w, counted(1))); outcome(w, ok, late, "spawn_detached"); break; }
        case JOINABLE:
        {
            (*W)[w].sub_b = stamp(); (*W)[w].state = 1;
            auto j = tp->spawn_joinable(wrapped(w, counted(1)));
            if (rt::chance(1, 4)) { rt::label("join dropped"); j = coro::task<void>{}; } else coro::sync_wait(j);
            if ((*W)[w].runs) { outcome(w, true, late, "spawn_joinable"); if (!(*W)[w].finished) rt::fail("early: join of work %d", w); }
            else outcome(w, false, late, "spawn_joinable");
            break;
        }
        case TASK:
        {
            (*W)[w].sub_b = stamp(); (*W)[w].state = 1; bool ok = true, threw = false; int v = 0;
            try { v = coro::sync_wait(tp->schedule(valued(w, counted(w + 100)))); } catch (const std::runtime_error&) { ok = false; } catch (const boom& b) { threw = true; v = b.id; }
            outcome(w, ok, late, "schedule(task)");
            if (ok && (threw != bool((*W)[w].thrower) || v != (threw ? w : w + 100))) rt::fail("result: work %d", w);
            break;
        }
        case SWITCH: { (*W)[w].single = false; switcher(w); break; }
        case RESUME:
        {
            if (rt::chance(1, 6)) { auto e = at_end(); if (tp->resume(nullptr) || tp->resume(e.h)) rt::fail("resume: accepted a null or finished handle"); e.h.destroy(); }
            auto p = resumable(w); (*W)[w].single = nthreads == 1 || inline_tasks; (*W)[w].sub_b = stamp(); (*W)[w].state = 1;
            bool ok = tp->resume(p.h); outcome(w, ok, late, "resume"); if (!ok) p.h.destroy();
            break;
        }
        case RANGE:
        {
            int n = rt::choose(5); hvec<int> ws; std::vector<std::coroutine_handle<>> hs; ended e{};
            if (rt::chance(1, 3)) { e = at_end(); hs.push_back(e.h); }
            if (rt::chance(1, 3)) hs.push_back(nullptr);
            ws.push_back(w); for (int i = 1; i < n; ++i) { int x = mk(RANGE); if (x >= 0) ws.push_back(x); }
            hvec<std::coroutine_handle<>> mine;
            for (int x : ws) { auto h = resumable(x).h; hs.push_back(h); mine.push_back(h); if (rt::chance(1, 6)) hs.push_back(nullptr); (*W)[x].state = 1; (*W)[x].sub_b = stamp(); }
            size_t got; int form = rt::choose(3);
            if (form == 0) got = tp->resume(hs); else if (form == 1) got = tp->resume(std::list<std::coroutine_handle<>>(hs.begin(), hs.end())); else got = tp->resume(std::span<std::coroutine_handle<>>(hs));
#ifdef SCHED
            if (got != 0 && got != ws.size() && sd_b) { rt::label("range partly refused"); /* the scheduler takes the handles one by one */ for (size_t i = 0; i < ws.size(); ++i) { outcome(ws[i], i < got, late, "resume(range)"); if (i >= got) mine[i].destroy(); } if (e.h) e.h.destroy(); break; }
#endif
            if (got != 0 && got != ws.size()) rt::fail("resume: %zu of %zu handles accepted", got, ws.size());
            for (size_t i = 0; i < ws.size(); ++i) { outcome(ws[i], got != 0, late, "resume(range)"); if (!got) mine[i].destroy(); }
            if (e.h) e.h.destroy();
            break;
        }
    }
}
static void shut() { if (sd_b) return; sd_b = stamp(); rt::trace("shutdown"); tp->shutdown(); sd_e = stamp(); rt::trace("shutdown returned");
    for (size_t i = 0; i < W->size(); ++i) { auto& k = (*W)[i]; if (k.state == 2 && !k.parked) rt::fail("shutdown: returned while work %zu is running", i); if (k.tri == 1 && k.state == 1 && k.sub_e) rt::fail("lost: work %zu was accepted but shutdown returned before it ran", i);
        if (EXTRA && k.kind == DETACHED && k.tri == 1 && k.sub_e && !k.finished) rt::fail("shutdown: returned while detached work %zu is unfinished", i); }
    if (EXTRA && cbs && (io_started != 1 || io_stopped != 1)) rt::fail("callback: the event loop's callbacks ran %d and %d times", io_started, io_stopped);
    if (cbs && !inline_tasks) for (int i = 0; i < nthreads; ++i) { if (starts[i] != 1) rt::fail("callback: thread %d's start callback ran %d times", i, starts[i]); if (stops[i] != 1) rt::fail("callback: thread %d's stop callback ran %d times", i, stops[i]); } }
static void client(int n, int sd_at)
{
    harness_thread[rt::tid()] = true;
    for (int i = 0; i < n; ++i)
    {
        if (i == sd_at) shut();
        int k = rt::weighted({4, 2, 2, 3, 3, 2, 2, 2});
        if (k < 6) submit(k, false); else if (k == 6) observe();
        else { for (int w = 0; w < (int)W->size(); ++w) if ((*W)[w].parked && gates[w].parked())
            { void* h = gates[w].h.exchange(nullptr, std::memory_order_acq_rel); if (!h) continue; bool late = sd_e; (*W)[w].state = 3; if (tp->resume(std::coroutine_handle<>::from_address(h))) legal_accept(late, "resume"); else { legal_refusal("resume"); (*W)[w].state = 0; std::coroutine_handle<>::from_address(h).resume(); } break; } }
        rt::point();
    }
    if (sd_at == n) shut();
}
void harness_case()
{
    hvec<work> ws; ws.reserve(128); W = &ws; counted::live = 0; g_stamp = 1; sd_b = sd_e = 0; raced = false; blockers = 0; others = 0; drain = false;
    memset(starts, 0, sizeof starts); memset(stops, 0, sizeof stops); memset(on_pool, 0, sizeof on_pool); memset(ranby, 0, sizeof ranby); memset(harness_thread, 0, sizeof harness_thread); harness_thread[0] = true;
    for (auto& g : gates) g.h = nullptr;
    io_started = io_stopped = 0; io_tid = -1; inline_tasks = EXTRA && rt::chance(1, 2);
    nthreads = 1 + rt::weighted({3, 4, 2}); cbs = rt::chance(2, 3);
    int nh = 1, nc = rt::weighted({3, 3, 1}); int sd_who = rt::weighted({3, 2, 2}); // 0: at the end, 1: main, 2: another client
    hvec<int> cnt; for (int i = 0; i <= nc; ++i) cnt.push_back(rt::range(1, 5)); if (sd_who > nc) sd_who = nc ? 1 : sd_who ? 1 : 0;
    int sd_client = sd_who == 0 ? -1 : sd_who - 1, sd_at = sd_client >= 0 ? (int)rt::choose(cnt[sd_client] + 1) : -1;
    rt::note("%sthreads=%d clients=%d callbacks=%d shutdown by %d before op %d\n", EXTRA ? inline_tasks ? "inline scheduler " : "pooled scheduler " : "", nthreads, nc + 1, cbs, sd_client, sd_at);
    // helper threads first, so that their ids are known
    H.start(nh); rt::quiesce();
    { threads t; t.go([] {}); t.join(); }
    coro::thread_pool::options o; o.thread_count = nthreads;
    if (cbs)
    {
        o.on_thread_start_functor = [](size_t i) { if (i >= (size_t)nthreads) rt::fail("callback: start with index %zu", i); if (starts[i]++) rt::fail("callback: thread %zu started twice", i); on_pool[rt::tid()] = i + 1; };
        o.on_thread_stop_functor = [](size_t i) { if (i >= (size_t)nthreads || on_pool[rt::tid()] != (int)i + 1) rt::fail("callback: stop of %zu on another thread", i); if (stops[i]++) rt::fail("callback: thread %zu stopped twice", i); };
    }
    for (int t = 1; t <= nh; ++t) harness_thread[t] = true;
#ifdef SCHED
    coro::scheduler::options so; so.pool = std::move(o);
    so.execution_strategy = inline_tasks ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
    if (cbs) { so.on_io_thread_start_functor = [] { ++io_started; io_tid = rt::tid(); }; so.on_io_thread_stop_functor = [] { ++io_stopped; if (rt::tid() != io_tid) rt::fail("callback: the event loop's stop callback ran on another thread"); }; }
    P = coro::scheduler::make_unique(std::move(so)); tp = P.get();
#else
    P = coro::thread_pool::make_unique(std::move(o)); tp = P.get();
#endif
    if (rt::chance(1, 4)) rt::quiesce();
    threads ths; for (int i = 1; i <= nc; ++i) ths.go([&, i] { client(cnt[i], sd_client == i ? sd_at : -1); });
    client(cnt[0], sd_client == 0 ? sd_at : -1);
    ths.join(); rt::cfg.timejump = false; rt::quiesce();
#ifndef SCHED
    if (tp->queue_size() != 0) rt::fail("lost: %zu pieces of work are queued while a thread of the pool is idle", tp->queue_size());
#endif
    drain = true;
#ifdef SCHED
    rt::quiesce(0); { size_t n = 0; for (auto& k : ws) n += (k.kind == DETACHED && k.tri == 1 && !k.finished) + k.timed; if (tp->size() != n) rt::fail("count: size() is %zu at rest with %zu unfinished detached tasks and timers", tp->size(), n); }
#endif
    rt::quiesce(EXTRA ? 100000000 : 0);
    for (int round = 0;; ++round)
    {
        size_t det = 0; bool any = false;
        for (size_t w = 0; w < ws.size(); ++w)
        {
            auto& k = ws[w];
            if (k.tri == 1 && k.state == 1) rt::fail("lost: accepted work %zu has not run", w);
            if (k.parked && !gates[w].parked()) rt::fail("lost: parked work %zu was resumed but has not run", w);
            if (k.tri == 1 && !k.finished && !k.parked) rt::fail("lost: work %zu has not finished (state %d)", w, k.state);
            if (k.kind == DETACHED && k.tri == 1 && !k.finished) ++det;
            any |= k.parked;
        }
        if (tp->size() != det || tp->empty() != (det == 0)) rt::fail("count: size() is %zu at rest with %zu unfinished detached tasks", tp->size(), det);
#ifndef SCHED
        if (tp->queue_size() != 0 || !tp->queue_empty()) rt::fail("count: queue_size() is %zu at rest", tp->queue_size());
#endif
        if (!any) break;
        for (size_t w = 0; w < ws.size(); ++w) if (ws[w].parked && gates[w].parked())
        { void* h = gates[w].h.exchange(nullptr, std::memory_order_acq_rel); ws[w].state = 3; if (!tp->resume(std::coroutine_handle<>::from_address(h))) { legal_refusal("resume"); ws[w].state = 0; std::coroutine_handle<>::from_address(h).resume(); } }
        rt::quiesce(EXTRA ? 100000000 : 0);
    }
    int used = 0; for (int t = 0; t < 16; ++t) used += ranby[t] > 0;
    if (used > 1 || raced) rt::nontrivial(); if (raced) rt::label("raced the shutdown"); if (sd_client >= 0) rt::label("explicit shutdown");
    if (!sd_b && rt::chance(1, 3)) { for (int i = rt::choose(3); i >= 0; --i) { int w = mk(DETACHED); if (w < 0) break; ws[w].nsteps = 0; ws[w].state = 1; if (!tp->spawn_detached(wrapped(w, counted(1)))) rt::fail("refused: spawn"); ws[w].tri = 1; ws[w].sub_e = 0; } rt::nontrivial(); rt::label("destroyed with work queued"); }
    if (!sd_b) sd_b = stamp();
    bool idle = tp->empty(); int64_t t0 = rt::now_ns();
    if (rt::chance(1, 2)) { tp->shutdown(); if (EXTRA && idle && rt::now_ns() - t0 > 300000000) rt::fail("shutdown: took %lld ms with nothing to do", (long long)((rt::now_ns() - t0) / 1000000)); }
    P.reset();
    for (size_t w = 0; w < ws.size(); ++w) if (ws[w].tri == 1 && ws[w].finished != 1) rt::fail("lost: work %zu was accepted but has not finished by the destruction of the pool", w);
    if (cbs && !inline_tasks) for (int i = 0; i < nthreads; ++i) { if (starts[i] != 1 || stops[i] != 1) rt::fail("callback: thread %d's callbacks ran %d and %d times", i, starts[i], stops[i]); }
    H.finish();
    if (counted::live != 0) rt::fail("lifetime: %d objects remain", counted::live.load());
}
