// C27: invoke keeps the callable and its arguments alive for the whole coroutine.
#include "common.hpp"
#include <coro/invoke.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/when_all.hpp>
const char* const harness_property = "C27";
const char* const harness_rule =
    "a case = 1-5 invocations of capturing callables (lambda, mutable lambda, function object; by-value, by-reference and move-only captures and arguments; value / void / reference / throwing results) that suspend 0-3 times on "
    "1-3 other threads, awaited inline, after the caller's scope is gone, from another thread, as a group, nested, by a blocking wait, or dropped; non-trivial = the callable suspended at least once and was continued by another thread";
static hoppers H;
struct cap // tracked captured / argument object
{
    static inline std::atomic<int> live{0}; int* p; int magic{4242};
    explicit cap(int v) : p(new int(v)) { ++live; } cap(const cap& o) : p(new int(o.get())) { ++live; } cap(cap&& o) noexcept : p(std::exchange(o.p, nullptr)) { o.ok(); ++live; }
    ~cap() { ok(); magic = 0; delete p; --live; }
    void ok() const { if (magic != 4242) rt::fail("lifetime: a destroyed capture or argument is used"); }
    int get() const { ok(); if (!p) rt::fail("lifetime: a moved-from capture or argument is used"); return *p; }
};
struct job { int id, kind, nh, hops[3], thrower, runs, done, how; };
static hvec<job> J; static std::atomic<int> remote, finished;
static hvec<int> cells;
static coro::task<void> sus(int j) { for (int i = 0; i < J[j].nh; ++i) { co_await H.hop(J[j].hops[i]); rt::point(); } }
static void enter(int j) { if (J[j].runs++) rt::fail("dup: callable %d ran twice", j); }
static void leave(int j, int me) { if (J[j].done++) rt::fail("dup: callable %d finished twice", j); if (rt::tid() != me) ++remote; }
template<class T> struct fobj // function object
{
    cap c; int me;
    coro::task<int> operator()(int j, cap a, const cap& b) { enter(j); int x = c.get(); co_await sus(j); leave(j, me); if (J[j].thrower) throw boom{j}; if (c.get() != x) rt::fail("lifetime: a capture changed"); co_return c.get() + a.get() + b.get(); }
};
struct pick // which overload is run shows how the argument was given
{
    cap c; int me; int expect;
    coro::task<int> body(int j, int got, const cap& a) { if (got != expect) rt::fail("arguments: given as %d, received as %d", expect, got); enter(j); co_await sus(j); leave(j, me); if (J[j].thrower) throw boom{j}; co_return c.get() + a.get() + 5; }
    coro::task<int> operator()(int j, cap& a) { return body(j, 0, a); } coro::task<int> operator()(int j, const cap& a) { return body(j, 1, a); } coro::task<int> operator()(int j, cap&& a) { return body(j, 2, a); }
};
// each form: expected value, or boom
static coro::task<int> form(int j, int me)
{
    switch (J[j].kind)
    {
        case 0: // captures by value, arguments by value from lvalues that die before the await
        {
            coro::task<int> t;
            { cap c(j * 10); cap a(j); int k = 5; auto f = [c, me](int j, cap a, int k) -> coro::task<int> { enter(j); co_await sus(j); leave(j, me); if (J[j].thrower) throw boom{j}; co_return c.get() + a.get() + k; }; t = coro::invoke(f, j, a, k); }
            co_return co_await t;
        }
        case 1: // temporary lambda, moved-in argument, in one expression
            co_return co_await coro::invoke([c = cap(j * 10), me](int j, cap a) -> coro::task<int> { enter(j); co_await sus(j); leave(j, me); if (J[j].thrower) throw boom{j}; co_return c.get() + a.get() + 5; }, j, cap(j));
        case 2: // mutable lambda with a move-only capture and reference argument
        {
            auto own = std::make_unique<int>(j * 10); cap a(j);
            co_return co_await coro::invoke([own = std::move(own), n = 0, me](int j, cap& a) mutable -> coro::task<int> { enter(j); n = *own; co_await sus(j); n += a.get(); leave(j, me); if (J[j].thrower) throw boom{j}; co_return n + 5; }, j, a);
        }
        case 3: { cap b(5); co_return co_await coro::invoke(fobj<int>{cap(j * 10), me}, j, cap(j), b); }
        case 4: // void, result through a reference capture
        {
            int out = 0;
            co_await coro::invoke([&out, c = cap(j * 10), me](int j, cap a) -> coro::task<void> { enter(j); co_await sus(j); leave(j, me); if (J[j].thrower) throw boom{j}; out = c.get() + a.get() + 5; }, j, cap(j));
            co_return out;
        }
        case 5: // reference result
        {
            int& r = co_await coro::invoke([c = cap(j * 10), me](int j, cap a) -> coro::task<int&> { enter(j); co_await sus(j); leave(j, me); if (J[j].thrower) throw boom{j}; cells[j] = c.get() + a.get() + 5; co_return cells[j]; }, j, cap(j));
            if (&r != &cells[j]) rt::fail("result: another object"); co_return r;
        }
        case 6: // nested
            co_return co_await coro::invoke([c = cap(j * 10), me](int j, cap a) -> coro::task<int> {
                int in = co_await coro::invoke([a = std::move(a), me](int j) -> coro::task<int> { enter(j); co_await sus(j); leave(j, me); if (J[j].thrower) throw boom{j}; co_return a.get() + 5; }, j);
                co_return in + c.get(); }, j, cap(j));
        case 8: // an argument reaches the callable the way it was given
        {
            cap a(j); int how = j % 3; const cap& ca = a;
            if (how == 0) co_return co_await coro::invoke(pick{cap(j * 10), me, 0}, j, a);
            if (how == 1) co_return co_await coro::invoke(pick{cap(j * 10), me, 1}, j, ca);
            co_return co_await coro::invoke(pick{cap(j * 10), me, 2}, j, std::move(a));
        }
        case 9: // sole owners given away stay sole owners, shared ones stay with the caller
        {
            auto keep = std::make_shared<int>(j * 10);
            int r = co_await coro::invoke([own = std::make_shared<int>(5), me](int j, std::shared_ptr<int> given, std::shared_ptr<int> kept) -> coro::task<int> {
                enter(j); if (own.use_count() != 1) rt::fail("arguments: a capture has %ld owners", own.use_count()); if (given.use_count() != 1) rt::fail("arguments: what was given away has %ld owners", given.use_count());
                if (kept.use_count() != 2) rt::fail("arguments: what the caller keeps has %ld owners", kept.use_count()); co_await sus(j); leave(j, me); if (J[j].thrower) throw boom{j}; co_return *given + *kept + *own; }, j, std::make_shared<int>(j), keep);
            if (!keep || *keep != j * 10 || keep.use_count() != 1) rt::fail("arguments: the caller's own object was changed"); co_return r;
        }
        default: // created, moved around, awaited later
        {
            auto t = coro::invoke([c = cap(j * 10), me](int j, cap a) -> coro::task<int> { enter(j); co_await sus(j); leave(j, me); if (J[j].thrower) throw boom{j}; co_return c.get() + a.get() + 5; }, j, cap(j));
            auto u = std::move(t); rt::point(); coro::task<int> w; w = std::move(u);
            co_return co_await std::move(w);
        }
    }
}
static coro::task<void> judged(int j, int me)
{
    bool threw = false; int v = 0;
    try { v = co_await form(j, me); } catch (const boom& b) { threw = true; if (b.id != j) rt::fail("result: another exception"); }
    if (J[j].done != 1) rt::fail("early: the awaiter of invocation %d went on before the callable finished", j);
    if (threw != bool(J[j].thrower)) rt::fail("result: invocation %d %s", j, threw ? "threw" : "lost its exception");
    if (!threw && v != j * 11 + 5) rt::fail("result: invocation %d gave %d instead of %d", j, v, j * 11 + 5);
    ++finished; rt::trace("invocation %d judged", j);
}
static fire detached(int j, int me) { co_await judged(j, me); }
static fire group(int n, int me) { std::vector<coro::task<void>> v; for (int j = 0; j < n; ++j) v.push_back(judged(j, me)); auto r = co_await coro::when_all(std::move(v)); for (auto& x : r) x.return_value(); }
void harness_case()
{
    J.clear(); cap::live = 0; remote = 0; finished = 0; g_stamp = 1; cells.clear(); cells.resize(16);
    int nh = rt::range(1, 3), n = rt::range(1, 5), how = rt::choose(4);
    for (int j = 0; j < n; ++j) { job k{}; k.id = j; k.kind = rt::choose(10); k.nh = rt::weighted({2, 4, 2, 1}); for (auto& h : k.hops) h = rt::choose(nh); k.thrower = rt::chance(1, 4); J.push_back(k); }
    static const char* hows[] = {"detached", "sync_wait", "group", "threads"};
    rt::note("hoppers=%d awaited by %s:", nh, hows[how]); for (auto& j : J) rt::note(" kind%d(hops=%d%s)", j.kind, j.nh, j.thrower ? " throws" : ""); rt::note("\n");
    if (rt::chance(1, 8)) { job k{}; J.push_back(k); auto t = coro::invoke([c = cap(1)](int j, cap a) -> coro::task<int> { enter(j); co_await std::suspend_always{}; co_return c.get() + a.get(); }, n, cap(2)); rt::label("dropped"); }
    if (cap::live != 0) rt::fail("lifetime: dropping an invocation left %d captures alive", cap::live.load());
    H.start(nh); int me = rt::tid();
    switch (how)
    {
        case 0: for (int j = 0; j < n; ++j) detached(j, me); break;
        case 1: for (int j = 0; j < n; ++j) { coro::sync_wait(judged(j, me)); if (finished != j + 1) rt::fail("early: blocking wait"); } break;
        case 2: group(n, me); break;
        case 3: { threads t; for (int j = 1; j < n; ++j) t.go([j] { detached(j, rt::tid()); }); detached(0, me); t.join(); break; }
    }
    rt::quiesce();
    if (finished != n) rt::fail("lost: %d of %d invocations completed", finished.load(), n);
    for (int j = 0; j < n; ++j) if (J[j].runs != 1 || J[j].done != 1) rt::fail("dup: callable %d ran %d times", j, J[j].runs);
    H.finish();
    if (remote) rt::nontrivial();
    if (cap::live != 0) rt::fail("lifetime: %d captures or arguments are alive at the end", cap::live.load());
}
