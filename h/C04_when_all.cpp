// C04: when_all resumes once, after all children, with each own outcome in order.
#include "common.hpp"
#include <list>
#include <ranges>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/thread_pool.hpp>
#include <coro/when_all.hpp>
const char* const harness_property = "C04";
const char* const harness_rule =
    "a case = 1-4 groups of 0-6 children (value kinds int, void, movable, move-only, copy-only, reference, hand-written awaiters; returning or throwing; each suspending 0-2 times and continued by one of 1-3 other threads or a pool), "
    "given as arguments, vector, list or lazy view, awaited by value / by reference / after a move / inside another group / by a blocking wait / dropped unawaited, and every scheduling decision; non-trivial = children of a group completed on two or more threads";
static hoppers H;
static std::unique_ptr<coro::thread_pool> tp;
struct child { int value, thrower, nh, hops[3], done, th; };
static hvec<child> C; static std::atomic<int> remote; static std::atomic<int> groups_done; static std::unique_ptr<int[]> cells;
static std::unique_ptr<int[]> refs;
static int fin(int c, int me) { cells[c] = C[c].value + 1; if (C[c].done++) rt::fail("dup: child %d ran twice", c); C[c].th = rt::tid(); if (rt::tid() != me) ++remote; if (C[c].thrower) throw boom{C[c].value}; return C[c].value; }
template<class T> static coro::task<T> kid(int c, int me)
{
    counted local(c);
    for (int i = 0; i < C[c].nh; ++i) { if (C[c].hops[i] == 9) co_await tp->schedule(); else co_await H.hop(C[c].hops[i]); rt::point(); }
    int v = fin(c, me);
    if constexpr (std::is_same_v<T, int&>) { refs[c] = v; co_return refs[c]; }
    else if constexpr (std::is_same_v<T, copy_only>) { copy_only x(v); co_return x; }
    else co_return T(v);
}
template<> coro::task<void> kid<void>(int c, int me)
{
    counted local(c);
    for (int i = 0; i < C[c].nh; ++i) { if (C[c].hops[i] == 9) co_await tp->schedule(); else co_await H.hop(C[c].hops[i]); rt::point(); }
    fin(c, me);
}
struct custom // move-only awaiter returning by value
{
    int c, me; std::unique_ptr<int> own{std::make_unique<int>(3)};
    bool await_ready() const { return C[c].nh == 0; }
    void await_suspend(std::coroutine_handle<> h) { H.hop(C[c].hops[0] == 9 ? 0 : C[c].hops[0] < 0 ? 0 : C[c].hops[0]).await_suspend(h); }
    move_only await_resume() { return move_only(fin(c, me)); }
};
static void all_done(int c0, int n)
{
    for (int c = c0; c < c0 + n; ++c)
    {
        if (C[c].done != 1) rt::fail("early: a group completed although child %d had not finished", c);
        if (cells[c] != C[c].value + 1) rt::fail("visibility: writes of child %d are not visible", c);
    }
}
template<class F> static void outcome(int c, F&& f, int which = 0)
{
    bool threw = false; int got = 0; try { got = f(); } catch (const boom& b) { threw = true; got = b.id; }
    if (threw != bool(C[c].thrower)) rt::fail("result: child %d %s but its result %s (%d)", c, C[c].thrower ? "threw" : "returned", threw ? "throws" : "is a value", which);
    if (got != C[c].value && (threw || got != -12345)) rt::fail("result: child %d gave %d, the group says %d", c, C[c].value, got);
}
template<class V> static int rd(V&& v) { using U = std::remove_cvref_t<V>; if constexpr (std::is_same_v<U, int>) return v; else if constexpr (requires { v.get(); }) return v.get(); else return -12345; }
template<class R> static void one(int c, R& r, bool move)
{
    outcome(c, [&] { decltype(auto) v = r.return_value(); return rd(v); });
    outcome(c, [&] { decltype(auto) v = r.return_value(); return rd(v); }, 1); // an outcome can be read again
    if constexpr (requires { std::as_const(r).return_value(); }) outcome(c, [&] { decltype(auto) v = std::as_const(r).return_value(); return rd(v); }, 2);
    if (move) if constexpr (!std::is_lvalue_reference_v<decltype(std::move(r).return_value())>) outcome(c, [&] { using V = std::remove_cvref_t<decltype(std::move(r).return_value())>; if constexpr (std::is_same_v<V, move_only> || std::is_same_v<V, counted>) { V v = std::move(r).return_value(); return rd(v); } else { (void)std::move(r).return_value(); return -12345; } }, 3);
}
struct group { int c0, n, form, type, mode, nest; };
template<class Tup, size_t... I> static void tuple_results(int c0, Tup& t, bool move, std::index_sequence<I...>) { (one(c0 + I, std::get<I>(t), move), ...); }
template<class W> static coro::task<void> await_tuple(group g, W w, int* k)
{
    constexpr size_t N = std::tuple_size_v<std::remove_cvref_t<decltype(w.operator co_await().await_resume())>>;
    if (g.mode == 0) { auto t = co_await std::move(w); ++*k; all_done(g.c0, g.n); tuple_results(g.c0, t, true, std::make_index_sequence<N>{}); }
    else if (g.mode == 1) { auto& t = co_await w; ++*k; all_done(g.c0, g.n); tuple_results(g.c0, t, false, std::make_index_sequence<N>{}); }
    else { auto w2 = std::move(w); auto t = co_await std::move(w2); ++*k; all_done(g.c0, g.n); tuple_results(g.c0, t, false, std::make_index_sequence<N>{}); }
}
template<class W> static coro::task<void> await_range(group g, W w, int* k)
{
    if (g.mode == 0) { auto v = co_await std::move(w); ++*k; all_done(g.c0, g.n); if ((int)v.size() != g.n) rt::fail("result: %zu results of %d children", v.size(), g.n); int c = g.c0; for (auto& r : v) one(c++, r, true); }
    else if (g.mode == 1) { auto& v = co_await w; ++*k; all_done(g.c0, g.n); if ((int)v.size() != g.n) rt::fail("result: %zu results of %d children", v.size(), g.n); int c = g.c0; for (auto& r : v) one(c++, r, false); }
    else { auto w2 = std::move(w); auto v = co_await std::move(w2); ++*k; all_done(g.c0, g.n); if ((int)v.size() != g.n) rt::fail("result: %zu results of %d children", v.size(), g.n); int c = g.c0; for (auto& r : v) one(c++, r, false); }
}
template<class T> static coro::task<void> ranged(group g, int me, int* k)
{
    if (g.form == 1) { std::list<coro::task<T>> l; for (int i = 0; i < g.n; ++i) l.push_back(kid<T>(g.c0 + i, me)); co_await await_range(g, coro::when_all(std::move(l)), k); }
    else if (g.form == 2) { int c0 = g.c0; co_await await_range(g, coro::when_all(std::views::iota(c0, c0 + g.n) | std::views::transform([me](int c) { return kid<T>(c, me); })), k); }
    else
    {
        std::vector<coro::task<T>> l; for (int i = 0; i < g.n; ++i) l.push_back(kid<T>(g.c0 + i, me));
        if (g.mode == 3) { auto w = coro::when_all(std::move(l)); for (int i = 0; i < g.n; ++i) if (C[g.c0 + i].done) rt::fail("lazy: a child of an unawaited group ran"); for (int i = 0; i < g.n; ++i) C[g.c0 + i].done = -1; ++*k; co_return; }
        co_await await_range(g, coro::when_all(std::move(l)), k);
    }
}
static coro::task<void> run_group(group g, int me, int* k)
{
    int c = g.c0;
    if (g.form >= 3)
        switch (g.n)
        {
            case 0: { auto t = co_await coro::when_all(); (void)t; ++*k; break; }
            case 1: co_await await_tuple(g, coro::when_all(kid<int>(c, me)), k); break;
            case 2: if (g.type & 1) co_await await_tuple(g, coro::when_all(kid<int&>(c, me), kid<void>(c + 1, me)), k); else co_await await_tuple(g, coro::when_all(custom{c, me}, kid<move_only>(c + 1, me)), k); break;
            case 3: if (g.type & 1) co_await await_tuple(g, coro::when_all(kid<void>(c, me), kid<move_only>(c + 1, me), kid<counted>(c + 2, me)), k); else co_await await_tuple(g, coro::when_all(kid<copy_only>(c, me), kid<int>(c + 1, me), custom{c + 2, me}), k); break;
            default: co_await await_tuple(g, coro::when_all(kid<int>(c, me), custom{c + 1, me}, kid<void>(c + 2, me), kid<counted>(c + 3, me)), k); break;
        }
    else switch (g.type)
        {
            case 0: co_await ranged<int>(g, me, k); break;
            case 1: co_await ranged<void>(g, me, k); break;
            case 2: co_await ranged<counted>(g, me, k); break;
            case 3: co_await ranged<move_only>(g, me, k); break;
            case 4: co_await ranged<int&>(g, me, k); break;
            default:
            {   // a group of hand-written awaiters
                std::vector<custom> l; for (int i = 0; i < g.n; ++i) l.push_back(custom{g.c0 + i, me});
                co_await await_range(g, coro::when_all(std::move(l)), k); break;
            }
        }
    if (*k != 1) rt::fail("dup: the awaiter of a group went on %d times", *k);
    ++groups_done;
}
static fire detached(group g, int me, int* k) { co_await run_group(g, me, k); }
static coro::task<void> nested(hvec<group>* gs, int me, hvec<int>* ks)
{
    std::vector<coro::task<void>> v; for (size_t i = 0; i < gs->size(); ++i) v.push_back(run_group((*gs)[i], me, &(*ks)[i]));
    auto r = co_await coro::when_all(std::move(v));
    for (auto& x : r) x.return_value();
    if (groups_done != (int)gs->size()) rt::fail("early: a group of groups completed before its members");
}
static fire detached_nested(hvec<group>* gs, int me, hvec<int>* ks) { co_await nested(gs, me, ks); }
void harness_case()
{
    C.clear(); remote = 0; groups_done = 0; counted::live = 0; g_stamp = 1;
    int nh = rt::range(1, 3), ng = rt::weighted({5, 3, 2, 1}) + 1, how = rt::weighted({3, 2, 2, 2, 2});
    bool pool = rt::chance(1, 4); hvec<group> gs;
    for (int i = 0; i < ng; ++i)
    {
        group g{}; g.c0 = C.size(); g.form = rt::choose(5); g.type = rt::choose(6); g.mode = rt::weighted({4, 2, 2, 1}); g.n = rt::weighted({1, 2, 3, 3, 2, 1, 1});
        if (g.form >= 3 && g.n > 4) g.n = 4; if (g.mode == 3 && (g.form != 0 || g.type == 5)) g.mode = 0; if (g.form >= 3 && g.mode == 3) g.mode = 0;
        for (int c = 0; c < g.n; ++c) { child k{}; k.value = 1000 + C.size(); k.thrower = rt::chance(1, 4); k.nh = rt::weighted({2, 4, 1}); for (int j = 0; j < 3; ++j) k.hops[j] = pool && rt::chance(1, 3) ? 9 : (int)rt::choose(nh); C.push_back(k); }
        gs.push_back(g);
    }
    static const char* hows[] = {"detached", "sync_wait", "nested group", "nested sync_wait", "threads"};
    rt::note("hoppers=%d pool=%d groups awaited by: %s\n", nh, pool, hows[how]);
    for (auto& g : gs) { rt::note(" group form=%d type=%d mode=%d children:", g.form, g.type, g.mode); for (int c = g.c0; c < g.c0 + g.n; ++c) { rt::note(" [hops"); for (int j = 0; j < C[c].nh; ++j) rt::note(" %d", C[c].hops[j]); rt::note("%s]", C[c].thrower ? " throws" : ""); } rt::note("\n"); }
    cells = std::make_unique<int[]>(C.size() + 1); refs = std::make_unique<int[]>(C.size() + 1); for (size_t i = 0; i <= C.size(); ++i) cells[i] = refs[i] = 0;
    if (pool) tp = coro::thread_pool::make_unique({.thread_count = rt::range(1, 2)});
    H.start(nh); hvec<int> ks(ng + 1, 0); int me = rt::tid();
    switch (how)
    {
        case 0: for (int i = 0; i < ng; ++i) detached(gs[i], me, &ks[i]); break;
        case 1: for (int i = 0; i < ng; ++i) { coro::sync_wait(run_group(gs[i], me, &ks[i])); if (ks[i] != 1) rt::fail("early: group %d", i); } break;
        case 2: detached_nested(&gs, me, &ks); break;
        case 3: coro::sync_wait(nested(&gs, me, &ks)); break;
        case 4: { threads ths; for (int i = 1; i < ng; ++i) ths.go([&, i] { detached(gs[i], rt::tid(), &ks[i]); }); detached(gs[0], me, &ks[0]); ths.join(); break; }
    }
    rt::quiesce();
    for (int i = 0; i < ng; ++i) if (ks[i] != 1) rt::fail("lost: every child is done or resumed but the awaiter of group %d was not resumed", i);
    for (size_t c = 0; c < C.size(); ++c) if (C[c].done != 1 && C[c].done != -1) rt::fail("lost: child %zu did not finish", c);
    if (groups_done != ng) rt::fail("lost: %d of %d awaiters finished", groups_done.load(), ng);
    H.finish(); if (tp) { tp->shutdown(); tp.reset(); } cells.reset(); refs.reset();
    for (auto& g : gs) { int a = -1; for (int c = g.c0; c < g.c0 + g.n; ++c) { if (a >= 0 && C[c].th != a) { rt::nontrivial(); rt::label("completed on several threads"); } a = C[c].th; } }
    if (counted::live != 0) rt::fail("lifetime: %d objects remain", counted::live.load());
}
