// C05: when_any yields the first finisher's own result and leaves the losers safe.
#include "common.hpp"
#include <list>
#include <ranges>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/when_all.hpp>
#include <coro/when_any.hpp>
const char* const harness_property = "C05";
const char* const harness_rule =
    "a case = 1-3 waits on 1-5 tasks (value kinds int, void, movable, move-only, reference, hand-written awaiter; returning or throwing; suspending 0-2 times on 1-3 other threads, some held back until the wait is over, some until "
    "they see the stop request), given as arguments, vector, list or lazy view, with or without a stop source, awaited directly / blocking / nested in another group / dropped unawaited, and every scheduling decision; "
    "non-trivial = at least one loser was still running when the wait completed, or two tasks finished on different threads";
static hoppers H;
struct child { int value, thrower, nh, hops[3], hold, group; uint64_t start, fb, end; int started, done; };
static hvec<child> C; static hvec<hvec<int>> fins; // per thread: completions whose aftermath is not over
struct group { int c0, n, form, type, stop; std::stop_source src; int conts, winner; uint64_t we; bool threw; };
static hvec<group>* G;
static gate holds[64];
static void aftermath() { auto& f = fins[rt::tid()]; for (int c : f) C[c].end = stamp(); f.clear(); }
static void fin(int c)
{
    if (C[c].done++) rt::fail("dup: task %d ran twice", c);
    C[c].fb = stamp(); fins[rt::tid()].push_back(c); rt::trace("task %d %s", c, C[c].thrower ? "throws" : "finishes");
    if (C[c].thrower) throw boom{C[c].value};
}
static void begin(int c)
{
    if (C[c].started++) rt::fail("dup: task %d started twice", c);
    C[c].start = stamp();
    // tasks of a group are started one after the other: whoever finished inside an earlier start is over
    for (int x = (*G)[C[c].group].c0; x < c; ++x) if (C[x].nh == 0 && !C[x].hold && !C[x].end && C[x].fb) C[x].end = C[c].start;
}
template<class T> static coro::task<T> kid(int c)
{
    counted local(c); begin(c); auto& k = C[c];
    for (int i = 0; i < k.nh; ++i) { co_await H.hop(k.hops[i]); rt::point(); }
    if (k.hold == 1) co_await holds[c];
    if (k.hold == 2) { auto tok = (*G)[k.group].src.get_token(); while (!tok.stop_requested()) co_await H.hop(k.hops[0]); }
    fin(c);
    if constexpr (std::is_void_v<T>) co_return;
    else co_return T(k.value);
}
template<> coro::task<void> kid<void>(int c)
{
    counted local(c); begin(c); auto& k = C[c];
    for (int i = 0; i < k.nh; ++i) { co_await H.hop(k.hops[i]); rt::point(); }
    if (k.hold == 1) co_await holds[c];
    if (k.hold == 2) { auto tok = (*G)[k.group].src.get_token(); while (!tok.stop_requested()) co_await H.hop(k.hops[0]); }
    fin(c);
}
static std::unique_ptr<int[]> refs;
template<> coro::task<int&> kid<int&>(int c)
{
    counted local(c); begin(c); auto& k = C[c];
    for (int i = 0; i < k.nh; ++i) { co_await H.hop(k.hops[i]); rt::point(); }
    if (k.hold == 1) co_await holds[c];
    if (k.hold == 2) { auto tok = (*G)[k.group].src.get_token(); while (!tok.stop_requested()) co_await H.hop(k.hops[0]); }
    fin(c); refs[c] = k.value; co_return refs[c];
}
struct custom
{
    int c; std::unique_ptr<int> own{std::make_unique<int>(1)};
    bool await_ready() const { begin(c); return C[c].nh == 0 && C[c].hold == 0; }
    void await_suspend(std::coroutine_handle<> h) { if (C[c].hold) holds[c].await_suspend(h); else H.hop(C[c].hops[0]).await_suspend(h); }
    move_only await_resume() { fin(c); return move_only(C[c].value); }
};
template<class V> static int rd(V&& v) { using U = std::remove_cvref_t<V>; if constexpr (std::is_same_v<U, int>) return v; else if constexpr (std::is_same_v<U, std::monostate>) return -1; else return v.get(); }
static void judge(int gi, int idx, int got, bool threw)
{
    group& g = (*G)[gi]; uint64_t now = stamp();
    if (g.conts++) rt::fail("dup: wait %d completed twice", gi);
    g.we = now; g.threw = threw;
    rt::trace("wait %d completed: index %d value %d%s", gi, idx, got, threw ? " (exception)" : "");
    int w = -1;
    for (int c = g.c0; c < g.c0 + g.n; ++c) if (C[c].done && bool(C[c].thrower) == threw && (idx < 0 || c - g.c0 == idx) && (got == -1 || C[c].value == got)) w = c;
    if (got == -1 && idx < 0 && !threw) { w = -1; for (int c = g.c0; c < g.c0 + g.n; ++c) if (C[c].done && !C[c].thrower && (w < 0 || C[c].fb < C[w].fb)) w = c; }
    if (w < 0) rt::fail("result: wait %d gave index %d value %d, which no finished task produced", gi, idx, got);
    g.winner = w;
    if (threw) { for (int c = g.c0; c < g.c0 + g.n; ++c) if (!C[c].done || !C[c].thrower) rt::fail("exception: the wait failed although not every task failed"); }
    else for (int x = g.c0; x < g.c0 + g.n; ++x) if (x != w && !C[x].thrower && C[x].end && C[x].end < C[w].fb) rt::fail("first: wait %d gave task %d although task %d had finished before it", gi, w, x);
    if (g.stop && !g.src.stop_requested()) rt::fail("stop: the stop source was not signalled by the end of the wait");
    if (!g.stop && g.src.stop_requested()) rt::fail("stop: harness");
}
template<class F> static coro::task<void> guarded(int gi, F f)
{
    int idx = -1, got = -1; bool threw = false;
    try { co_await f(&idx, &got); } catch (const boom& b) { threw = true; got = b.id; }
    judge(gi, threw ? -1 : idx, got, threw);
}
template<class T> static coro::task<T> dflt();
template<class R> static coro::task<void> ranged2(int gi, R r)
{
    group& g = (*G)[gi];
    co_await guarded(gi, [&](int*, int* got) -> coro::task<void> {
        using A = std::ranges::range_value_t<R>; using T = std::remove_reference_t<typename coro::concepts::awaitable_traits<A>::awaiter_return_type>;
        if constexpr (std::is_void_v<T>) { if (g.stop) co_await coro::when_any(g.src, std::move(r)); else co_await coro::when_any(std::move(r)); }
        else if (g.stop) { T v = co_await coro::when_any(g.src, std::move(r)); *got = rd(v); }
        else { T v = co_await coro::when_any(std::move(r)); *got = rd(v); }
    });
}
template<class T> static coro::task<void> ranged(int gi)
{
    group& g = (*G)[gi]; int c0 = g.c0, n = g.n;
    if (g.form == 1) { std::list<coro::task<T>> l; for (int i = 0; i < n; ++i) l.push_back(kid<T>(c0 + i)); co_await ranged2(gi, std::move(l)); }
    else if (g.form == 2) co_await ranged2(gi, std::views::iota(c0, c0 + n) | std::views::transform([](int c) { return kid<T>(c); }));
    else { std::vector<coro::task<T>> l; for (int i = 0; i < n; ++i) l.push_back(kid<T>(c0 + i)); co_await ranged2(gi, std::move(l)); }
}
template<class... A> static coro::task<void> tupled(int gi, A... a)
{
    group& g = (*G)[gi];
    auto t = g.stop ? coro::when_any(g.src, std::move(a)...) : coro::when_any(std::move(a)...);
    co_await guarded(gi, [&](int* idx, int* got) -> coro::task<void> { auto v = co_await std::move(t); *idx = v.index(); *got = std::visit([](auto& x) { return rd(x); }, v); });
}
static coro::task<void> run(int gi)
{
    group& g = (*G)[gi]; int c = g.c0;
    if (g.form >= 3) switch (g.n)
    {
        case 1: co_await tupled(gi, kid<int>(c)); break;
        case 2: if (g.type & 1) co_await tupled(gi, kid<void>(c), kid<move_only>(c + 1)); else co_await tupled(gi, custom{c}, kid<int>(c + 1)); break;
        case 3: if (g.type & 1) co_await tupled(gi, kid<void>(c), kid<void>(c + 1), kid<counted>(c + 2)); else co_await tupled(gi, kid<counted>(c), kid<counted>(c + 1), custom{c + 2}); break;
        default: co_await tupled(gi, kid<int>(c), kid<void>(c + 1), kid<move_only>(c + 2), kid<int&>(c + 3)); break;
    }
    else switch (g.type)
    {
        case 0: co_await ranged<int>(gi); break;
        case 1: co_await ranged<void>(gi); break;
        case 2: co_await ranged<counted>(gi); break;
        case 3: co_await ranged<move_only>(gi); break;
        case 4: co_await ranged<int&>(gi); break;
        default: { std::vector<custom> l; for (int i = 0; i < g.n; ++i) l.push_back(custom{c + i}); co_await ranged2(gi, std::move(l)); break; }
    }
}
static fire detached(int gi) { co_await run(gi); }
static fire together(int n) { std::vector<coro::task<void>> v; for (int i = 0; i < n; ++i) v.push_back(run(i)); auto r = co_await coro::when_all(std::move(v)); for (auto& x : r) x.return_value(); for (auto& g : *G) if (g.conts != 1) rt::fail("early: outer group"); }
void harness_case()
{
    C.clear(); counted::live = 0; g_stamp = 1; hvec<group> gs; G = &gs; for (auto& h : holds) h.h = nullptr;
    fins.clear(); fins.resize(16);
    int nh = rt::range(1, 3), ng = rt::weighted({5, 3, 2}) + 1, how = rt::weighted({3, 2, 2, 2});
    bool allfail = rt::chance(1, 6);
    for (int i = 0; i < ng; ++i)
    {
        group g{}; g.c0 = C.size(); g.form = rt::choose(5); g.type = rt::choose(6); g.stop = rt::chance(1, 2); g.n = 1 + rt::weighted({1, 4, 3, 2, 1}); if (g.form >= 3 && g.n > 4) g.n = 4;
        bool cust = (g.form < 3 && g.type == 5) || (g.form >= 3 && !(g.type & 1) && (g.n == 2 || g.n == 3));
        bool some = false;
        for (int c = 0; c < g.n; ++c)
        {
            child k{}; k.value = 1000 + C.size(); k.group = i; k.thrower = allfail || rt::chance(1, 4); k.nh = rt::weighted({2, 4, 2}); for (auto& h : k.hops) h = rt::choose(nh);
            k.hold = c + 1 < g.n || some ? (int)rt::weighted({4, 2, g.stop && !cust ? 1u : 0u}) : 0; if (!k.hold && !k.thrower) some = true;
            if (c + 1 == g.n && !some && !allfail) { k.thrower = 0; k.hold = 0; some = true; }
            if (allfail) k.hold = 0;
            C.push_back(k);
        }
        gs.push_back(g);
    }
    static const char* hows[] = {"detached", "sync_wait", "when_all", "threads"};
    rt::note("hoppers=%d awaited by: %s\n", nh, hows[how]);
    for (auto& g : gs) { rt::note(" group form=%d type=%d stop=%d tasks:", g.form, g.type, g.stop); for (int c = g.c0; c < g.c0 + g.n; ++c) { rt::note(" [hops"); for (int j = 0; j < C[c].nh; ++j) rt::note(" %d", C[c].hops[j]); rt::note("%s%s]", C[c].hold == 1 ? " held" : C[c].hold == 2 ? " until stop" : "", C[c].thrower ? " throws" : ""); } rt::note("\n"); }
    refs = std::make_unique<int[]>(C.size() + 1);
    if (rt::chance(1, 20)) { std::vector<coro::task<int>> l; for (int i = 0; i < 2; ++i) { C.push_back(child{}); C.back().group = 0; l.push_back(kid<int>(C.size() - 1)); } auto t = coro::when_any(std::move(l)); if (C.back().started) rt::fail("lazy: an unawaited wait ran its tasks"); C.pop_back(); C.pop_back(); }
    H.after = aftermath; H.start(nh);
    switch (how)
    {
        case 0: for (int i = 0; i < ng; ++i) { detached(i); aftermath(); } break;
        case 1: for (int i = 0; i < ng; ++i) { coro::sync_wait(run(i)); if (gs[i].conts != 1) rt::fail("early: blocking wait"); } break;
        case 2: together(ng); aftermath(); break;
        case 3: { threads ths; for (int i = 1; i < ng; ++i) ths.go([&, i] { detached(i); aftermath(); }); detached(0); aftermath(); ths.join(); break; }
    }
    rt::quiesce();
    for (auto& g : gs)
    {
        if (g.conts != 1) rt::fail("lost: wait %d did not complete although %s", int(&g - &gs[0]), allfail ? "every task failed" : "a task finished");
        int run = 0; for (int c = g.c0; c < g.c0 + g.n; ++c) run += C[c].hold == 1; if (run) { rt::nontrivial(); rt::label("losers still running"); }
        if (g.n > 1) rt::nontrivial(); if (g.threw) rt::label("every task failed");
        if (g.winner >= 0 && C[g.winner].hold == 1) rt::fail("result: a held task won");
    }
    // now the held losers run to their own end
    for (int c = 0; c < (int)C.size(); ++c) if (C[c].hold == 1) { if (!holds[c].release()) rt::fail("lost: losing task %d is gone", c); rt::point(); }
    rt::quiesce();
    for (size_t c = 0; c < C.size(); ++c) if (C[c].done != 1 || C[c].started != 1) rt::fail("lost: losing task %zu did not run to its end", c);
    H.finish(); H.after = nullptr; refs.reset(); gs.clear();
    if (counted::live != 0) rt::fail("lifetime: %d objects remain", counted::live.load());
}
