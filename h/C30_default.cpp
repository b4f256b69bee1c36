// C30: the process-wide default executors are created once and usable from any thread. Every case runs in a process of its own (batch=1), because the first use happens once.
#include "common.hpp"
#include <coro/default_executor.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C30";
const char* const harness_rule =
    "a case = a fresh process in which 1-4 threads (and the main thread) first use the default thread pool and the default scheduler (directly, or through perfect()), with none to three option sets requested before from any thread and perhaps one after the creation, "
    "then give it work (schedule, spawn, resume, submit and wait), and every scheduling decision from the first use on; non-trivial = two threads' first uses overlapped";
namespace de = coro::default_executor;
struct cfg { int n; bool inl; };
static std::atomic<int> starts[4], iostarts[4], ran, callers, stopped; static int given; // per option set
static thread_local int t_pool; // 1 + option set of the pool thread we are, 100 + for an io thread
static void* first[2]; static std::atomic<int> in[2]; static std::atomic<bool> made[2];
static cfg want[2]; static int setno[2]; // option set in force
static coro::thread_pool::options popts(int i, int n)
{
    coro::thread_pool::options o; o.thread_count = n;
    o.on_thread_start_functor = [i](size_t) { t_pool = 1 + i; ++starts[i]; }; o.on_thread_stop_functor = [](size_t) { ++stopped; }; return o;
}
static void request(int which, int i)
{
    cfg c{(int)rt::range(1, 3), which == 1 && rt::chance(1, 3)};
    if (which == 0) de::set_executor_options(popts(i, c.n));
    else
    {
        coro::scheduler::options o; o.pool = popts(i, c.n); o.on_io_thread_start_functor = [i] { t_pool = 100 + i; ++iostarts[i]; };
        o.execution_strategy = c.inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool; de::set_io_executor_options(std::move(o));
    }
    rt::trace("options %d of executor %d requested: %d threads%s", i, which, c.n, c.inl ? " inline" : "");
    if (!made[which]) { want[which] = c; setno[which] = i; }
}
static void here(int which)
{
    ++ran; if (setno[which] < 0) { if (t_pool) rt::fail("configured: work ran on a thread of another configuration"); return; }
    int w = which == 1 && want[1].inl ? 100 : 1; if (t_pool != w + setno[which]) rt::fail("thread: work given to executor %d ran on a thread of kind %d, not %d", which, t_pool, w + setno[which]);
}
template<class P> static void use(int which, P& p, int form)
{
    ++given; rt::trace("work %d given to executor %d, form %d", given, which, form);
    switch (form)
    {
        case 0: { auto f = [](P& p, int which) -> fire { co_await p->schedule(); here(which); }; f(p, which); break; }
        case 1: { auto f = [](int which) -> coro::task<void> { here(which); co_return; }; if (!p->spawn_detached(f(which))) rt::fail("refused: the default executor refused work"); break; }
        case 2: { auto f = [](int which) -> coro::task<int> { here(which); co_return 42; }; if (coro::sync_wait(p->schedule(f(which))) != 42) rt::fail("value: wrong result"); break; }
        case 3: { auto f = [](P& p, int which) -> coro::task<int> { co_await p->schedule(); here(which); co_await p->yield(); --ran; here(which); co_return 7; }; if (coro::sync_wait(f(p, which)) != 7) rt::fail("value: wrong result"); break; }
    }
}
template<class P> static P& get(int which, bool perfect)
{
    if (!made[which] && in[which]++ > 0) { rt::nontrivial(); rt::label("overlapping first use"); }
    int64_t t0 = rt::now_ns(); P* p;
    if constexpr (std::is_same_v<P, std::unique_ptr<coro::scheduler>>) p = perfect ? &de::perfect<P>() : &de::io_executor(); else p = &de::executor();
    made[which] = true; if (rt::cfg.timejump == false && rt::now_ns() - t0 > 1000000000) rt::fail("blocked: the default executor took %lld ns", (long long)(rt::now_ns() - t0));
    if (!*p) rt::fail("null: an asked for default executor doesn't exist");
    { rt::no_instr q; if (!first[which]) first[which] = p->get(); if (first[which] != (void*)p->get()) rt::fail("instance: two threads got different default executors"); }
    if ((*p)->is_shutdown()) rt::fail("shutdown: the default executor is shut down");
    if constexpr (std::is_same_v<P, std::unique_ptr<coro::thread_pool>>) { size_t n = setno[0] < 0 ? std::thread::hardware_concurrency() : want[0].n; if ((*p)->thread_count() != n) rt::fail("configured: the default pool has %zu threads, not %zu", (*p)->thread_count(), n); }
    return *p;
}
static void check(bool end)
{
    for (int i = 0; i < 4; ++i) for (int which = 0; which < 2; ++which)
    {
        // option sets 0, 1 are the pool's and 2, 3 the scheduler's
        if ((i >= 2) != which) continue; int n = starts[i], e = made[which] && setno[which] == i && !(which == 1 && want[1].inl) ? want[which].n : 0;
        if (n > e || (end && n != e)) rt::fail("threads: %d threads of option set %d were started, not %d", n, i, e);
        int m = iostarts[i], f = which == 1 && made[1] && setno[1] == i; if (m > f || (end && m != f)) rt::fail("threads: %d event loop threads of option set %d were started, not %d", m, i, f);
    }
}
void harness_case()
{
    int nt = 1 + rt::weighted({1, 4, 2, 1}), kinds = rt::weighted({3, 3, 2}); // pool, scheduler, both
    setno[0] = setno[1] = -1; bool mainuses = rt::chance(1, 3); rt::cfg.timejump = rt::chance(1, 3);
    rt::note("default executors: threads=%d main uses too=%d which=%s\n", nt, mainuses, kinds == 0 ? "pool" : kinds == 1 ? "scheduler" : "both");
    for (int which = 0; which < 2; ++which)
    {
        if (kinds != 2 && kinds != which) continue;
        int sets = rt::weighted({1, 3, 2}); // none, one or two requests before
        for (int k = 0; k < sets; ++k) { if (rt::chance(1, 3)) { threads t; t.go([=] { request(which, 2 * which + k); }); t.join(); } else request(which, 2 * which + k); }
    }
    struct op { int which, form; bool perfect; }; hvec<op> plan[5];
    for (int t = 0; t <= nt; ++t) if (t < nt || mainuses) for (int n = rt::range(1, 3); n > 0; --n) plan[t].push_back({kinds == 2 ? (int)rt::choose(2) : kinds, (int)rt::choose(6), rt::chance(1, 3)});
    auto run = [&](int t) {
        t_pool = 0;
        for (auto& o : plan[t])
            if (o.which == 0) { auto& p = get<std::unique_ptr<coro::thread_pool>>(0, false); if (o.form < 4) use(0, p, o.form); }
            else { auto& p = get<std::unique_ptr<coro::scheduler>>(1, o.perfect); if (o.form < 4) use(1, p, o.form); }
    };
    threads ths; for (int t = 0; t < nt; ++t) ths.go([&, t] { run(t); });
    if (mainuses) run(nt);
    ths.join(); rt::cfg.timejump = false; rt::quiesce(); check(true);
    // requesting options after the creation changes nothing
    if (rt::chance(1, 3))
    {
        if (made[0]) { if (setno[0] != 1) request(0, 1); auto& p = get<std::unique_ptr<coro::thread_pool>>(0, false); use(0, p, rt::choose(4)); }
        if (made[1]) { if (setno[1] != 3) request(1, 3); auto& p = get<std::unique_ptr<coro::scheduler>>(1, rt::chance(1, 2)); use(1, p, rt::choose(4)); }
        rt::quiesce(); check(true);
    }
    if (ran != given) rt::fail("lost: %d pieces of work ran of %d given", ran.load(), given);
    if (made[0]) { auto& p = get<std::unique_ptr<coro::thread_pool>>(0, false); if (!p->empty()) rt::fail("count: the idle default pool isn't empty"); de::set_executor_options({}); p.reset(); }
    if (made[1]) { auto& p = get<std::unique_ptr<coro::scheduler>>(1, false); if (!p->empty()) rt::fail("count: the idle default scheduler isn't empty"); de::set_io_executor_options({}); p.reset(); }
    if (!made[0]) de::set_executor_options({}); if (!made[1]) de::set_io_executor_options({});
}
