// C03: a blocking wait returns only after completion, with the awaited result.
#include "common.hpp"
#include <coro/event.hpp>
#include <coro/latch.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/thread_pool.hpp>
const char* const harness_property = "C03";
const char* const harness_rule =
    "a case = 1-3 calling threads each making 1-4 blocking waits on an awaitable (task by value / by reference, custom awaiter, member and free operator co_await, event, latch, pool schedule) of a value kind "
    "(int, movable, move-only, copy-only, void, reference, const reference) or throwing, whose body nests up to 2 tasks and suspends 0-3 times, each time continued by one of 1-3 other threads, and every scheduling "
    "decision; non-trivial = some wait was completed by another thread than the caller's";
static hoppers H;
static std::unique_ptr<coro::thread_pool> tp;
struct spec { int depth, thrower; int hops[4]; int nh; int value; int kind; };
static std::atomic<int> finished[64], left[64]; static std::atomic<int> remote;
template<class T> struct mk { static T make(int v, int*) { return T(v); } static int read(const T& t) { if constexpr (std::is_same_v<T, int>) return t; else return t.get(); } };
template<> struct mk<int&> { static int& make(int v, int* c) { *c = v; return *c; } static int read(int& t) { return t; } };
template<> struct mk<const counted&> { static const counted& make(int v, int* c) { return *reinterpret_cast<counted*>(c); } static int read(const counted& t) { return t.get(); } };
static void body_end(const spec& s, int id, int* cell, int me) { *cell = s.value + 7; if (rt::tid() != me) ++remote; finished[id].store(1, std::memory_order_relaxed); }
template<class T> static coro::task<T> work(spec s, int id, int* cell, int* ref, int me)
{
    counted local(s.value);
    for (int i = 0; i < s.nh; ++i) { if (i == s.depth) { co_await H.hop(s.hops[i]); } else co_await H.hop(s.hops[i]); rt::point(); }
    if (s.depth > 0)
    {
        spec in = s; in.depth--;
        if constexpr (std::is_reference_v<T>) { auto t = work<T>(in, id, cell, ref, me); co_return co_await t; }
        else if constexpr (std::is_same_v<T, copy_only>) { auto t = work<T>(in, id, cell, ref, me); co_return co_await t; }
        else co_return co_await work<T>(in, id, cell, ref, me);
    }
    body_end(s, id, cell, me);
    if (s.thrower) throw boom{s.value};
    if constexpr (std::is_same_v<T, copy_only>) { copy_only c(s.value); co_return c; }
    else co_return mk<T>::make(s.value, ref);
}
template<> coro::task<void> work<void>(spec s, int id, int* cell, int* ref, int me)
{
    counted local(s.value);
    for (int i = 0; i < s.nh; ++i) { co_await H.hop(s.hops[i]); rt::point(); }
    if (s.depth > 0) { spec in = s; in.depth--; co_await work<void>(in, id, cell, ref, me); co_return; }
    body_end(s, id, cell, me);
    if (s.thrower) throw boom{s.value};
}
// hand-written awaiters: the value is produced by another thread
struct by_value_awaiter
{
    spec s; int id; int* cell; int me;
    bool await_ready() const { return s.hops[0] < 0; }
    void await_suspend(std::coroutine_handle<> h) { H.hop(s.hops[0]).await_suspend(h); }
    move_only await_resume() { body_end(s, id, cell, me); if (s.thrower) throw boom{s.value}; return move_only(s.value); }
};
struct member_awaitable { by_value_awaiter a; by_value_awaiter operator co_await() const { return a; } };
struct free_awaitable { by_value_awaiter a; };
static by_value_awaiter operator co_await(const free_awaitable& f) { return f.a; }
template<class F> static void judge(const spec& s, int id, int* cell, bool has_value, F&& f)
{
    bool threw = false; int got = 0;
    try { got = f(); } catch (const boom& b) { threw = true; got = b.id; }
    if (finished[id].load(std::memory_order_relaxed) != 1) rt::fail("early: a blocking wait returned before the work had finished");
    if (threw != bool(s.thrower)) rt::fail("result: the wait %s although the work %s", threw ? "threw" : "returned", s.thrower ? "threw" : "returned");
    if ((threw || has_value) && got != s.value) rt::fail("result: got %d, the work gave %d", got, s.value);
    if (*cell != s.value + 7) rt::fail("visibility: the work's writes are not visible after the wait");
}
template<class T> static void by_task(const spec& s, int id, bool lvalue)
{
    auto cell = std::make_unique<int>(0); auto ref = std::make_unique<int>(0); auto cref = std::make_unique<counted>(s.value);
    int me = rt::tid(); int* r = std::is_same_v<T, const counted&> ? reinterpret_cast<int*>(cref.get()) : ref.get();
    constexpr bool val = !std::is_void_v<T>;
    if (!lvalue)
        judge(s, id, cell.get(), val, [&] {
            if constexpr (!val) { coro::sync_wait(work<T>(s, id, cell.get(), r, me)); return 0; }
            else if constexpr (std::is_reference_v<T>) { T x = coro::sync_wait(work<T>(s, id, cell.get(), r, me)); if ((const void*)&x != (const void*)r) rt::fail("result: a reference result refers to another object"); return mk<T>::read(x); }
            else if constexpr (std::is_same_v<T, copy_only>) { const copy_only x = coro::sync_wait(work<T>(s, id, cell.get(), r, me)); return x.get(); }
            else { T x = coro::sync_wait(work<T>(s, id, cell.get(), r, me)); return mk<T>::read(x); }
        });
    else
    {
        auto t = work<T>(s, id, cell.get(), r, me);
        for (int n = 0; n < 2; ++n)
        {
            judge(s, id, cell.get(), val, [&] {
                if constexpr (!val) { coro::sync_wait(t); return 0; }
                else { decltype(auto) x = coro::sync_wait(t); return mk<T>::read(x); }
            });
            if (!t.is_ready()) rt::fail("early: the awaited task is not complete after the wait");
        }
    }
}
static fire set_after(coro::event& e, spec s, int id, int* cell, int me) { co_await H.hop(s.hops[0]); body_end(s, id, cell, me); e.set(); left[id] = 1; }
static fire down_after(coro::latch& l, spec s, int id, int* cell, int me, int n) { for (int i = 0; i < n; ++i) { co_await H.hop(s.hops[i]); if (i == n - 1) body_end(s, id, cell, me); l.count_down(); } left[id] = 1; }
static coro::task<int> pooled(spec s, int id, int* cell, int me) { co_await tp->schedule(); body_end(s, id, cell, me); if (s.thrower) throw boom{s.value}; co_return s.value; }
static void one(spec s, int id)
{
    auto cell = std::make_unique<int>(0); int me = rt::tid();
    switch (s.kind)
    {
        case 0: by_task<int>(s, id, false); break;
        case 1: by_task<void>(s, id, false); break;
        case 2: by_task<counted>(s, id, false); break;
        case 3: by_task<move_only>(s, id, false); break;
        case 4: by_task<copy_only>(s, id, false); break;
        case 5: by_task<int&>(s, id, false); break;
        case 6: by_task<const counted&>(s, id, false); break;
        case 7: by_task<counted>(s, id, true); break;
        case 8: by_task<void>(s, id, true); break;
        case 9: judge(s, id, cell.get(), true, [&] { move_only m = coro::sync_wait(by_value_awaiter{s, id, cell.get(), me}); return m.get(); }); break;
        case 10: judge(s, id, cell.get(), true, [&] { member_awaitable a{{s, id, cell.get(), me}}; move_only m = coro::sync_wait(a); return m.get(); }); break;
        case 11: judge(s, id, cell.get(), true, [&] { free_awaitable a{{s, id, cell.get(), me}}; move_only m = coro::sync_wait(a); return m.get(); }); break;
        case 12: { s.thrower = 0; auto e = std::make_unique<coro::event>(); set_after(*e, s, id, cell.get(), me); judge(s, id, cell.get(), false, [&] { coro::sync_wait(*e); return 0; }); rt::wait_until([&] { return left[id].load() != 0; }, "setter"); break; }
        case 13: { s.thrower = 0; int n = s.depth > 0 ? 2 : 1; auto l = std::make_unique<coro::latch>(n); down_after(*l, s, id, cell.get(), me, n); judge(s, id, cell.get(), false, [&] { coro::sync_wait(*l); return 0; }); rt::wait_until([&] { return left[id].load() != 0; }, "setter"); break; }
        case 14: judge(s, id, cell.get(), true, [&] { return coro::sync_wait(pooled(s, id, cell.get(), me)); }); break;
        // the task is moved into the wait's own scope and dies before the result is read
        case 15: judge(s, id, cell.get(), true, [&] { auto ref = std::make_unique<int>(0); auto f = [](spec s, int id, int* cell, int me) -> coro::task<counted> { co_return co_await work<counted>(s, id, cell, nullptr, me); }; counted c = coro::sync_wait(f(s, id, cell.get(), me)); return c.get(); }); break;
    }
}
void harness_case()
{
    counted::live = 0; remote = 0; g_stamp = 1; for (auto& f : finished) f = 0; for (auto& f : left) f = 0;
    int nh = rt::range(1, 3), nc = rt::weighted({4, 3, 2});
    hvec<hvec<spec>> sc(nc + 1); bool pool = false; int id = 0;
    for (int t = 0; t <= nc; ++t)
    {
        int k = rt::range(1, t == 0 ? 4 : 3);
        for (int i = 0; i < k; ++i)
        {
            spec s{}; s.kind = rt::choose(16); s.value = 100 + rt::choose(50); s.thrower = rt::chance(1, 4); s.depth = rt::weighted({3, 2, 1});
            s.nh = rt::weighted({1, 4, 2}); for (int j = 0; j < 4; ++j) s.hops[j] = rt::chance(1, 6) ? -1 : (int)rt::choose(nh);
            pool |= s.kind == 14; sc[t].push_back(s);
        }
    }
    rt::note("hoppers=%d callers=%d pool=%d\n", nh, nc + 1, pool);
    for (int t = 0; t <= nc; ++t) { rt::note(" thread %d:", t); for (auto& s : sc[t]) rt::note(" kind%d(depth=%d hops=%d%s)", s.kind, s.depth, s.nh, s.thrower ? " throws" : ""); rt::note("\n"); }
    if (pool) tp = coro::thread_pool::make_unique({.thread_count = rt::range(1, 2)});
    H.start(nh);
    hvec<int> base(nc + 1, 0); for (int t = 0; t <= nc; ++t) { base[t] = id; id += sc[t].size(); }
    auto body = [&](int t) { for (size_t i = 0; i < sc[t].size(); ++i) { one(sc[t][i], base[t] + i); rt::point(); } };
    { threads ths; for (int t = 1; t <= nc; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    H.finish();
    if (tp) { tp->shutdown(); tp.reset(); }
    if (remote) { rt::nontrivial(); rt::label("completed by another thread"); }
    if (counted::live != 0) rt::fail("lifetime: %d counted objects remain", counted::live.load());
}
