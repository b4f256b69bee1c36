// C02: a generator yields its sequence lazily, in order, and propagates exceptions once.
#include "common.hpp"
#include <ranges>
#include <stdexcept>
#include <coro/generator.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C02";
const char* const harness_rule =
    "a case = generated generator bodies (yields of locals, temporaries and heap objects, nested generators consumed fully or abandoned, internal awaits, a throw at any point; 6 element kinds) and a consumer script over "
    "two generator variables (begin, step, post-step, read, compare, move, move-assign, drop, iterate to the end, take(n), re-begin after the end, step on another thread); non-trivial = some generator was abandoned, moved or replaced midway, threw, or nested another";
struct step { int k, child, n; };
struct spec { hvec<step> steps; bool thrower; };
static hvec<spec> S; static hvec<int> live; static bool nontriv; static int work; static hvec<int> expect_cache;
struct tok { int* c; int m{77}; tok(int* x) : c(x) { ++*c; } tok(const tok& o) : c(o.c) { ++*c; } ~tok() { if (m != 77) rt::fail("lifetime: destroyed twice"); m = 0; --*c; } void ok() const { if (m != 77) rt::fail("lifetime: dead object used"); } };
static int values; // running number of the next value of the outermost body
// the values a body yields, in order (-1 - x at the end: throws x)
static void flat(int id, hvec<int>& out, bool& threw, int limit)
{
    int n0 = out.size();
    for (size_t i = 0; i < S[id].steps.size() && !threw; ++i)
    {
        auto& s = S[id].steps[i];
        if (s.k <= 2) out.push_back(id * 100 + i);
        else if (s.k == 3) { hvec<int> in; bool t = false; flat(s.child, in, t, -1); bool cut = s.n <= (int)in.size(); for (int j = 0; j < (cut ? s.n : (int)in.size()); ++j) out.push_back(in[j]); if (t && !cut) threw = true; }
    }
    (void)n0; (void)limit;
    if (S[id].thrower && !threw) threw = true;
}
static coro::task<int> instant(int v) { co_return v; }
template<class T> static coro::generator<T> body(int id, tok param)
{
    using V = std::remove_cvref_t<T>;
    tok local(&live[id]); auto heap = std::make_unique<tok>(&live[id]);
    std::unique_ptr<V> keep;
    for (size_t i = 0; i < S[id].steps.size(); ++i)
    {
        auto& s = S[id].steps[i]; int v = id * 100 + i;
        if (s.k <= 2)
        {
            if (v != expect_cache[work]) rt::fail("order: the body ran out of order"); // also catches running ahead
            ++work;
            if constexpr (std::is_same_v<T, int>) { if (s.k == 0) { int x = v; co_yield x; if (x != v) rt::fail("value: the yielded local changed"); } else if (s.k == 1) co_yield v + 0; else co_yield co_await instant(v); }
            else if constexpr (std::is_rvalue_reference_v<T>) { V x(v); co_yield std::move(x); }
            else if constexpr (std::is_lvalue_reference_v<T>) { if (s.k == 0) { V x(v); co_yield x; } else { keep = std::make_unique<V>(v); co_yield *keep; } }
            else { if (s.k == 0) { V x(v); co_yield x; } else if (s.k == 1) co_yield V(v); else { keep = std::make_unique<V>(v); co_yield std::move(*keep); } }
        }
        else if (s.k == 3)
        {
            int j = 0;
            { auto g = body<T>(s.child, tok(&live[s.child]));
            // stepping only on demand: the child is not advanced once enough was taken
            if (s.n > 0) for (auto it = g.begin(); it != g.end();) { if constexpr (std::is_same_v<V, move_only> || std::is_rvalue_reference_v<T>) co_yield std::move(*it); else co_yield *it; if (++j == s.n) break; ++it; } }
            if (live[s.child]) rt::fail("lifetime: an abandoned nested generator left %d objects alive", live[s.child]);
        }
        else { int x = co_await instant(v); if (x != v) rt::fail("value: internal await"); }
        local.ok(); heap->ok(); param.ok();
    }
    if (S[id].thrower) throw boom{id};
}
static int gen(int depth)
{
    int id = S.size(); S.push_back({}); live.push_back(0); spec s; s.thrower = rt::chance(1, 5);
    int n = rt::weighted({1, 2, 4, 3, 2});
    for (int i = 0; i < n; ++i) { int k = rt::weighted({5, 3, 3, depth < 3 && S.size() < 30 ? 4u : 0u, 1}); step st{k, -1, 0}; if (k == 3) { st.child = gen(depth + 1); st.n = rt::chance(1, 3) ? (int)rt::choose(3) : 99; nontriv = true; } s.steps.push_back(st); }
    S[id] = s; return id;
}
static void nothing_left(int id) { if (live[id]) rt::fail("lifetime: %d objects of generator %d are alive after its destruction", live[id], id); for (auto& s : S[id].steps) if (s.k == 3) nothing_left(s.child); }
static void describe(int id, int ind) { rt::note("%*sgen %d%s:", ind, "", id, S[id].thrower ? " throws at the end" : ""); for (auto& s : S[id].steps) if (s.k == 3) rt::note(" nest(%d, %d)", s.child, s.n); else rt::note(s.k == 4 ? " await" : " yield%d", s.k); rt::note("\n"); for (auto& s : S[id].steps) if (s.k == 3) describe(s.child, ind + 1); }
// who throws: the id of the first thrower reached
static int thrower(int id) { for (auto& s : S[id].steps) if (s.k == 3) { hvec<int> in; bool t = false; flat(s.child, in, t, -1); if (t && s.n > (int)in.size()) return thrower(s.child); } return id; }
template<class T> static int read(T&& v) { using V = std::remove_cvref_t<T>; if constexpr (std::is_same_v<V, int>) return v; else return v.get(); }
template<class T> static void driver()
{
    struct var { std::unique_ptr<coro::generator<T>> g; std::unique_ptr<typename coro::generator<T>::iterator> it; int id{-1}, pos{0}, state{0}; hvec<int> exp; bool throws{false}; int work{0}; bool taken{false}; };
    var v[2]; for (auto& x : v) x.g = std::make_unique<coro::generator<T>>();
    auto gone = [&](var& x) { if (x.id >= 0) { if (x.state == 1) { nontriv = true; rt::label("abandoned midway"); } nothing_left(x.id); } x.id = -1; x.state = 0; x.it.reset(); };
    auto enter = [&](var& x) { work = x.work; expect_cache = x.exp; expect_cache.push_back(-1); };
    auto settle = [&](var& x, bool threw, int eid) {
        x.work = work;
        bool last = x.pos == (int)x.exp.size();
        if (threw)
        {
            nontriv = true;
            if (!last || !x.throws) rt::fail("exception: thrown at value %d of %zu%s", x.pos, x.exp.size(), x.throws ? "" : " by a body that does not throw");
            if (eid != thrower(x.id)) rt::fail("exception: the wrong one");
            x.state = 2; return;
        }
        if (last) { if (x.throws) rt::fail("exception: not delivered"); if (!(*x.it == x.g->end())) rt::fail("end: more values than the body yields"); x.state = 2; if (work != x.pos) rt::fail("lazy"); return; }
        if (*x.it == x.g->end() || x.g->end() == *x.it || !(*x.it != x.g->end()) || !(x.g->end() != *x.it)) rt::fail("end: reached after %d of %zu values", x.pos, x.exp.size());
        if (work != x.pos + 1) rt::fail("lazy: the body reached value %d while value %d is wanted", work, x.pos + 1);
        x.state = 1; x.taken = false;
    };
    auto look = [&](var& x) {
        decltype(auto) r = **x.it;
        int got = read(r), want = x.exp[x.pos];
        if (!x.taken && got != want) rt::fail("value: got %d, the body yielded %d", got, want);
        if constexpr (std::is_same_v<T, move_only> || std::is_rvalue_reference_v<T>) if (!x.taken && rt::chance(1, 2)) { std::remove_cvref_t<T> m = std::move(**x.it); if (m.get() != want) rt::fail("value: moved-out value differs"); x.taken = true; }
        if constexpr (!std::is_same_v<T, int> && !std::is_rvalue_reference_v<T>) if (!x.taken && (*x.it)->get() != want) rt::fail("value: -> differs");
    };
    int n = rt::range(2, 16);
    for (int k = 0; k < n; ++k)
    {
        var& x = v[rt::choose(2)]; var& y = &x == v ? v[1] : v[0];
        switch (rt::weighted({5, 4, 8, 4, 2, 2, 1, 2, 2, 1}))
        {
            case 0: if (x.id < 0 && S.size() < 50) { x = var{}; x.id = gen(0); describe(x.id, 1); flat(x.id, x.exp, x.throws, -1); rt::trace("new gen %d", x.id); *(x.g = std::make_unique<coro::generator<T>>()) = body<T>(x.id, tok(&live[x.id])); } break;
            case 1: case 2: case 7:
            {
                bool remote = false, threw = false; int eid = -1; if (x.id < 0) break;
                int mode = x.state == 0 ? 0 : x.state == 1 ? 1 : 2;
                if (mode == 2) { if (rt::chance(1, 2)) { rt::label("begin after the end"); enter(x); auto it = x.g->begin(); if (!(it == x.g->end())) rt::fail("end: a finished generator has values again"); if (work != x.work) rt::fail("end: a finished body ran again"); } break; }
                remote = rt::chance(1, 6); enter(x);
                rt::trace("gen %d: %s", x.id, mode == 0 ? "begin" : "++");
                auto go = [&] { try { if (mode == 0) { if (work) rt::fail("lazy: the body ran before iteration began"); x.it = std::make_unique<typename coro::generator<T>::iterator>(); *x.it = x.g->begin(); } else { ++x.pos; if (rt::chance(1, 3)) (*x.it)++; else ++*x.it; } } catch (const boom& b) { threw = true; eid = b.id; } };
                if (remote) { threads t; t.go(go); t.join(); } else go();
                settle(x, threw, eid);
                break;
            }
            case 3: if (x.state == 1) look(x); break;
            case 4: // move to the other variable
                if (x.id >= 0) { rt::trace("move gen %d", x.id); if (x.state == 1) nontriv = true; *y.g = std::move(*x.g); int id = y.id; gone(y); (void)id; auto g = std::move(y.g); auto g2 = std::move(x.g); y = std::move(x); y.g = std::move(g); x = var{}; x.g = std::move(g2); if (!(x.g->begin() == x.g->end())) rt::fail("move: a moved-from generator has values"); }
                break;
            case 5: { rt::trace("drop gen %d", x.id); if (rt::chance(1, 2)) x.g.reset(); else *x.g = coro::generator<T>{}; gone(x); if (!x.g) x.g = std::make_unique<coro::generator<T>>(); break; }
            case 6: *x.g = std::move(*&*x.g); break;
            case 8: // range-for to the end or to a break
                if (x.id >= 0 && x.state == 0)
                {
                    enter(x); int at = 0, stop = rt::chance(1, 2) ? 99 : rt::choose(3); bool threw = false; rt::trace("iterate gen %d up to %d", x.id, stop);
                    try { for (auto&& e : *x.g) { if (at >= (int)x.exp.size() || read(e) != x.exp[at]) rt::fail("value: iteration gave a wrong value at %d", at); if (work != at + 1) rt::fail("lazy: ran ahead"); ++at; if (at > stop) break; } } catch (const boom& b) { threw = true; if (b.id != thrower(x.id)) rt::fail("exception: the wrong one"); }
                    if (at <= stop && at != (int)x.exp.size()) rt::fail("end: iteration gave %d of %zu values", at, x.exp.size());
                    if (threw != (at <= stop && x.throws)) rt::fail("exception: %s", threw ? "unexpected" : "lost");
                    if (at > stop) nontriv = true;
                    x.state = at > stop ? 1 : 2; rt::trace("drop"); x.g = std::make_unique<coro::generator<T>>(); gone(x);
                }
                break;
            case 9: // through a view
                if constexpr (std::is_same_v<T, int>) if (x.id >= 0 && x.state == 0)
                {
                    enter(x); int at = 0, want = 1 + rt::choose(3); bool threw = false;
                    try { for (auto&& e : std::move(*x.g) | std::views::take(want)) { if (at >= (int)x.exp.size() || e != x.exp[at]) rt::fail("value: a view gave a wrong value"); ++at; } } catch (const boom& b) { threw = true; }
                    if (at > want || (at < want && at != (int)x.exp.size())) rt::fail("end: a view of %d gave %d", want, at);
                    if (threw && !x.throws) rt::fail("exception: unexpected");
                    x.state = 2; gone(x);
                }
                break;
        }
    }
    for (auto& x : v) { x.g.reset(); gone(x); }
}
void harness_case()
{
    S.clear(); live.clear(); S.reserve(128); live.reserve(128); counted::live = 0; nontriv = false; work = 0;
    switch (rt::choose(6))
    {
        case 0: driver<int>(); break; case 1: driver<counted>(); break; case 2: driver<move_only>(); break; case 3: driver<counted&>(); break; case 4: driver<const counted&>(); break; default: driver<counted&&>(); break;
    }
    if (nontriv) rt::nontrivial();
    if (counted::live != 0) rt::fail("lifetime: %d values remain", counted::live.load());
}
