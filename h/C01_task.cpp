// C01: a task delivers its result once and lives exactly as long as owed.
#include "common.hpp"
#include <coro/task.hpp>
const char* const harness_property = "C01";
const char* const harness_rule =
    "a case = a forest of generated coroutine bodies (suspensions, children awaited by value / by reference / twice / as constant / as temporary, the result copied or moved out / after a partial run, children dropped unstarted, replaced or suspended, value or exception, 7 result kinds) "
    "and a driver script over three task variables (create, run on, run on on another thread, move, move-assign, swap, self-move, destroy, drop, query, read the result before and after completion, await from a new parent); "
    "non-trivial = some task was moved, dropped or replaced while suspended, or awaited after a partial run, or threw";
enum { VAL, THROW };
struct step { int k; int child; };
struct spec { int type, out; hvec<step> steps; };
static hvec<spec> S;
struct info { int started, done, conts, locals, params, permit; };
static hvec<info> M;
static void* leaf[64]; static int leaf_owner[64]; static int root_of_run; static bool nontriv;
struct tok
{
    int id; int* ctr; int magic{0x5a5a};
    tok(int i, int* c) : id(i), ctr(c) { ++*ctr; } tok(const tok& o) : id(o.id), ctr(o.ctr) { o.ok(); ++*ctr; } tok(tok&& o) noexcept : id(o.id), ctr(o.ctr) { o.ok(); ++*ctr; }
    ~tok() { ok(); magic = 0; if (--*ctr < 0) rt::fail("lifetime: an object of task %d was destroyed twice", id); }
    void ok() const { if (magic != 0x5a5a) rt::fail("lifetime: a destroyed object of a task is used"); }
};
struct park
{
    int id, root;
    bool await_ready() const { return false; }
    void await_suspend(std::coroutine_handle<> h) { leaf[root] = h.address(); leaf_owner[root] = id; }
    void await_resume() { leaf[root] = nullptr; if (!M[id].permit) rt::fail("dup: task %d was resumed although nobody resumed it", id); M[id].permit = 0; }
};
static int val(int id) { return 1000 + id; }
static std::unique_ptr<int> refcell; static std::unique_ptr<counted> refcounted;
template<class T> static coro::task<T> body(int id, int root, tok param);
template<class T> static void check_result(int child, T&& v)
{
    int got; using U = std::remove_cvref_t<T>; if constexpr (std::is_same_v<U, int>) got = v; else got = v.get();
    if (&M && S[child].type == 5) { if ((const void*)&v != (const void*)refcell.get()) rt::fail("result: a reference result refers to another object"); return; }
    if (S[child].type == 6) { if ((const void*)&v != (const void*)refcounted.get()) rt::fail("result: a reference result refers to another object"); return; }
    if (got != val(child)) rt::fail("result: task %d gave %d instead of %d", child, got, val(child));
}
static void cont(int child, bool threw, int eid)
{
    if (!M[child].done) rt::fail("early: the awaiter of task %d went on before it completed", child);
    if (threw != (S[child].out == THROW)) rt::fail("result: task %d %s but its awaiter %s", child, S[child].out == THROW ? "threw" : "returned", threw ? "got an exception" : "did not get it");
    if (threw && eid != val(child)) rt::fail("result: the awaiter of task %d got another exception", child);
    if (M[child].locals) rt::fail("lifetime: locals of completed task %d are alive", child);
}
// Awaits the task t in one of the ways a result can be taken; only the last await of a task may move the result out.
#define AWAIT(T, t, id, last)                                                                                          \
    if constexpr (std::is_void_v<T>) { if ((last) && rt::chance(1, 3)) co_await std::move(t); else co_await t; }       \
    else if constexpr (std::is_reference_v<T>) { switch (rt::choose(3)) { case 0: { decltype(auto) v = co_await t; check_result<T>(id, v); break; } case 1: { decltype(auto) v = co_await std::as_const(t); check_result<T>(id, v); break; } default: { decltype(auto) v = co_await std::move(t); check_result<T>(id, v); } } } \
    else switch (rt::choose((last) ? 5 : 3))                                                                           \
    {                                                                                                                  \
        case 0: { decltype(auto) v = co_await t; check_result(id, v); break; } \
        case 1: { decltype(auto) v = co_await std::as_const(t); check_result(id, v); break; } \
        case 2: if constexpr (std::is_copy_constructible_v<T>) { T v = co_await t; check_result(id, v); } else { const T& v = co_await t; check_result(id, v); } break; \
        case 3: { decltype(auto) v = co_await std::move(t); T w(std::forward<decltype(v)>(v)); check_result(id, w); break; } \
        default: { T v = co_await std::move(std::as_const(t)); check_result(id, v); }                                  \
    }
template<class T> static coro::task<void> awaits(int mode, int child, int root, int me)
{
    tok local(me, &M[me].locals);
    if (mode == 1)
    {
        bool threw = false; int e = 0;
        try {
            if constexpr (std::is_void_v<T>) co_await body<T>(child, root, tok(child, &M[child].params));
            else if constexpr (std::is_reference_v<T>) { T v = co_await body<T>(child, root, tok(child, &M[child].params)); check_result<T>(child, v); }
            else if constexpr (std::is_same_v<T, copy_only>) { const auto& v = co_await body<T>(child, root, tok(child, &M[child].params)); (void)v; }
            else { T v = co_await body<T>(child, root, tok(child, &M[child].params)); check_result(child, v); }
        } catch (const boom& b) { threw = true; e = b.id; }
        cont(child, threw, e);
        if (M[child].conts++) rt::fail("dup: the awaiter of task %d was continued twice", child);
        if (M[child].params) rt::fail("lifetime: parameters of dropped task %d are alive", child);
        co_return;
    }
    if (mode == 4) { nontriv = true; { auto t = body<T>(child, root, tok(child, &M[child].params)); if (t.is_ready()) rt::fail("lazy: an unstarted task says it is complete"); auto t2 = std::move(t); if (!t.is_ready()) rt::fail("move: a moved-from task says it is unfinished"); } if (M[child].started) rt::fail("lazy: a task that was never awaited ran"); if (M[child].params) rt::fail("lifetime: parameters of a dropped task are alive"); co_return; }
    {
        auto t = body<T>(child, root, tok(child, &M[child].params));
        if (mode == 3)
        {   // run it up to its first suspension, then await it
            nontriv = true;
            t.resume();
            if (!M[child].started) rt::fail("lazy: resume did not run the task");
            if (!t.is_ready()) { if (leaf_owner[root] != child) rt::fail("harness: partial run suspended elsewhere"); M[child].permit = 1; }
        }
        for (int n = 0; n < (mode == 2 ? 2 : 1); ++n)
        {
            bool threw = false; int e = 0;
            try { AWAIT(T, t, child, n == (mode == 2 ? 1 : 0)) } catch (const boom& b) { threw = true; e = b.id; }
            cont(child, threw, e);
            if (n == 0 && M[child].conts++) rt::fail("dup: the awaiter of task %d was continued twice", child);
        }
        if (!t.is_ready()) rt::fail("done: a completed task says it is unfinished");
        if (t.resume()) rt::fail("done: a completed task says it can be resumed");
        if (mode == 5) { nontriv = true; t = coro::task<T>{}; if (M[child].params) rt::fail("lifetime: parameters of a replaced task are alive"); }
    }
    if (M[child].params) rt::fail("lifetime: parameters of dropped task %d are alive", child);
}
static coro::task<void> dispatch(int mode, int child, int root, int me)
{
    switch (S[child].type)
    {
        case 0: co_await awaits<int>(mode, child, root, me); break;
        case 1: co_await awaits<void>(mode, child, root, me); break;
        case 2: co_await awaits<counted>(mode, child, root, me); break;
        case 3: co_await awaits<move_only>(mode, child, root, me); break;
        case 4: co_await awaits<copy_only>(mode, child, root, me); break;
        case 5: co_await awaits<int&>(mode, child, root, me); break;
        default: co_await awaits<const counted&>(mode, child, root, me); break;
    }
}
struct ender { int id; ~ender() { if (M[id].started == 1 && !M[id].done) {} } };
template<class T> static coro::task<T> body(int id, int root, tok param)
{
    if (M[id].started++) rt::fail("dup: task %d was started twice", id);
    rt::trace("task %d starts", id);
    {
        tok a(id, &M[id].locals); auto b = std::make_unique<tok>(id, &M[id].locals);
        for (auto& s : S[id].steps)
        {
            if (s.k == 0) co_await park{id, root};
            else co_await dispatch(s.k, s.child, root, id);
            a.ok(); b->ok(); param.ok();
        }
    }
    rt::trace("task %d ends", id);
    M[id].done = 1;
    if (S[id].out == THROW) { nontriv = true; throw boom{val(id)}; }
    if constexpr (std::is_same_v<T, int&>) co_return *refcell;
    else if constexpr (std::is_same_v<T, const counted&>) co_return *refcounted;
    else if constexpr (std::is_void_v<T>) co_return;
    else switch (id % 4) // what is returned: a constant, something that converts, an object others keep, a local
    {
        case 0: if constexpr (std::is_copy_constructible_v<T>) { const T c(val(id)); co_return c; } break;
        case 1: { unsigned short v = val(id); co_return v; }
        case 2: if constexpr (std::is_same_v<T, counted>) { auto kept = std::make_unique<counted>(val(id)); { struct look { counted& c; int id; ~look() { if (c.get() != val(id)) rt::fail("result: returning an object took its value away"); } } l{*kept, id}; co_return *kept; } } break;
        default: if constexpr (!std::is_same_v<T, move_only>) { T c(val(id)); co_return c; } else { T c(val(id)); co_return std::move(c); }
    }
    if constexpr (std::is_same_v<T, copy_only>) { copy_only c(val(id)); co_return c; } else if constexpr (!std::is_reference_v<T>) co_return T(val(id));
}
template<> coro::task<void> body<void>(int id, int root, tok param)
{
    if (M[id].started++) rt::fail("dup: task %d was started twice", id);
    tok a(id, &M[id].locals);
    for (auto& s : S[id].steps)
    {
        if (s.k == 0) co_await park{id, root};
        else co_await dispatch(s.k, s.child, root, id);
        a.ok(); param.ok();
    }
    M[id].done = 1; M[id].locals -= 0;
    if (S[id].out == THROW) { nontriv = true; throw boom{val(id)}; }
}
static int gen(int depth)
{
    int id = S.size(); S.push_back({}); M.push_back({});
    spec s; s.type = rt::choose(7); s.out = rt::chance(1, 4) ? THROW : VAL;
    int n = rt::weighted({2, 4, 3, 1});
    for (int i = 0; i < n && S.size() < 24; ++i)
    {
        int k = depth < 3 ? rt::weighted({5, 3, 2, 2, 1, 1}) : 0;
        if (k == 0) { s.steps.push_back({0, -1}); continue; }
        int c = gen(depth + 1);
        // a partially run child must suspend in its own body, not in one of its children
        if (k == 3) { bool nested = false; for (auto& x : S[c].steps) { if (x.k == 0) break; if (x.k != 4) nested = true; } if (nested) k = 2; }
        s.steps.push_back({k, c});
    }
    S[id] = s; return id;
}
static void describe(int id, int ind) { rt::note("%*stask %d type=%d%s:", ind, "", id, S[id].type, S[id].out ? " throws" : ""); for (auto& s : S[id].steps) rt::note(s.k ? " await%d(%d)" : " suspend", s.k, s.child); rt::note("\n"); for (auto& s : S[id].steps) if (s.k) describe(s.child, ind + 1); }
static void gone(int id) { if (M[id].locals || M[id].params) rt::fail("lifetime: task %d was destroyed but %d locals and %d parameters are alive", id, M[id].locals, M[id].params); for (auto& s : S[id].steps) if (s.k) gone(s.child); }
template<class T> static fire parent(coro::task<T> t, int id, int* state)
{
    *state = 1; bool threw = false; int e = 0;
    try { AWAIT(T, t, id, true) } catch (const boom& b) { threw = true; e = b.id; }
    if (*state != 1) rt::fail("dup: an awaiter was resumed twice");
    *state = 2; cont(id, threw, e);
}
template<class T> static void driver()
{
    std::unique_ptr<coro::task<T>> s[3]; int m[3] = {-1, -1, -1}; for (auto& x : s) x = std::make_unique<coro::task<T>>();
    int pstate[3] = {0, 0, 0}; std::coroutine_handle<> ph[3]; int pid[3] = {-1, -1, -1};
    constexpr int TY = std::is_same_v<T, int> ? 0 : std::is_void_v<T> ? 1 : std::is_same_v<T, counted> ? 2 : std::is_same_v<T, move_only> ? 3 : std::is_same_v<T, copy_only> ? 4 : std::is_same_v<T, int&> ? 5 : 6;
    auto dropped = [&](int id) { if (id >= 0) { if (M[id].started && !M[id].done) { nontriv = true; rt::label("dropped while suspended"); } leaf[id] = nullptr; gone(id); } };
    auto run = [&](int i, bool remote) {
        int id = m[i]; auto go = [&] {
            int how = 0; bool more;
            if (leaf[id]) M[leaf_owner[id]].permit = 1;
            if (leaf[id] && leaf_owner[id] != id) { std::coroutine_handle<>::from_address(leaf[id]).resume(); more = !s[i]->is_ready(); }
            else if (rt::chance(1, 3) && !M[id].done) { how = 1; s[i]->handle().resume(); more = !s[i]->handle().done(); }
            else more = s[i]->resume();
            if (!M[id].started) rt::fail("run: resuming task %d did not run it", id);
            if (more == bool(M[id].done) || s[i]->is_ready() != bool(M[id].done)) rt::fail("run: task %d says it is %s (how %d)", id, more ? "unfinished" : "finished", how);
        };
        if (remote) { threads t; t.go(go); t.join(); } else go();
    };
    int n = rt::range(2, 14);
    for (int k = 0; k < n; ++k)
    {
        int i = rt::choose(3), j = rt::choose(3);
        switch (rt::weighted({6, 8, 2, 2, 2, 1, 2, 2, 2}))
        {
            case 0: if (m[i] < 0 && S.size() < 40) { int id = gen(0); S[id].type = TY; describe(id, 1); m[i] = id; *s[i] = body<T>(id, id, tok(id, &M[id].params)); if (M[id].started) rt::fail("lazy: creating task %d ran it", id); if (s[i]->is_ready()) rt::fail("lazy: a new task says it is complete"); rt::trace("v%d = task %d", i, id); } break;
            case 1: if (m[i] >= 0) { rt::trace("run v%d", i); run(i, false); } break;
            case 2: if (m[i] >= 0) { rt::trace("run v%d on another thread", i); run(i, true); } break;
            case 3: // move-assign (or self-move)
            {
                rt::trace("v%d = move(v%d)", j, i);
                if (i != j && M.size() && m[i] >= 0 && M[m[i]].started && !M[m[i]].done) nontriv = true;
                int old = m[j]; *s[j] = std::move(*s[i]);
                if (i != j) { m[j] = m[i]; m[i] = -1; if (old >= 0) { nontriv = true; dropped(old); } if (!s[i]->is_ready()) rt::fail("move: a moved-from task says it is unfinished"); }
                break;
            }
            case 4: { rt::trace("v%d destroy", i); bool r = s[i]->destroy(); if (r != (m[i] >= 0)) rt::fail("destroy: reported %d", r); dropped(m[i]); m[i] = -1; break; }
            case 5: { rt::trace("v%d drop", i); s[i].reset(); dropped(m[i]); m[i] = -1; s[i] = std::make_unique<coro::task<T>>(); break; }
            case 6: if (i != j) { rt::trace("swap v%d v%d", i, j); std::swap(*s[i], *s[j]); std::swap(m[i], m[j]); } break;
            case 7: // read the result
                if (m[i] >= 0)
                {
                    int id = m[i]; bool threw = false, unset = false; rt::trace("result v%d", i);
                    try { int how = rt::choose(M[id].done ? 2 : 3); if constexpr (std::is_void_v<T>) s[i]->promise().result(); else if (how == 2) (void)std::move(s[i]->promise()).result(); else if (how) { decltype(auto) v = std::as_const(*s[i]).promise().result(); check_result(id, v); } else { decltype(auto) v = s[i]->promise().result(); check_result(id, v); } } catch (const boom& b) { threw = true; if (b.id != val(id)) rt::fail("result: another exception"); } catch (const std::runtime_error&) { unset = true; }
                    if (!M[id].done) { if (!std::is_void_v<T> && !unset) rt::fail("result: an unfinished task gave a result"); }
                    else if (unset || threw != (S[id].out == THROW)) rt::fail("result: task %d gave the wrong kind of result", id);
                }
                break;
            case 8: // a new parent awaits it; the parent frame owns it from now on
                if (m[i] >= 0)
                {
                    int p = 0; while (p < 3 && pid[p] >= 0) ++p; if (p == 3) break;
                    int id = m[i]; if (leaf[id] && leaf_owner[id] != id) break; // resuming the outer frame of a nested suspension is the caller's error
                    if (M[id].started && !M[id].done) { nontriv = true; rt::label("awaited after a partial run"); M[id].permit = 1; }
                    rt::trace("await v%d", i);
                    pid[p] = id; m[i] = -1; pstate[p] = 0; parent<T>(std::move(*s[i]), id, &pstate[p]);
                    break;
                }
                break;
        }
        // parents make progress too
        for (int p = 0; p < 3; ++p) if (pid[p] >= 0)
        {
            int id = pid[p];
            if (M[id].done != (pstate[p] == 2)) rt::fail("lost: task %d is %s but its awaiter %s", id, M[id].done ? "complete" : "unfinished", pstate[p] == 2 ? "was resumed" : "was not resumed");
            if (pstate[p] == 2) { gone(id); pid[p] = -1; }
            else if (rt::chance(1, 2)) { M[leaf_owner[id]].permit = 1; std::coroutine_handle<>::from_address(leaf[id]).resume(); }
        }
    }
    for (int p = 0; p < 3; ++p) while (pid[p] >= 0)
    {
        int id = pid[p];
        if (M[id].done != (pstate[p] == 2)) rt::fail("lost: task %d is %s but its awaiter %s", id, M[id].done ? "complete" : "unfinished", pstate[p] == 2 ? "was resumed" : "was not resumed");
        if (pstate[p] == 2) { gone(id); pid[p] = -1; break; }
        if (!leaf[id]) rt::fail("lost: task %d neither completed nor suspended", id);
        M[leaf_owner[id]].permit = 1; std::coroutine_handle<>::from_address(leaf[id]).resume();
    }
    for (int i = 0; i < 3; ++i) { s[i].reset(); dropped(m[i]); }
}
// long sequences of awaits complete in bounded stack
static char* lo; static char* hi;
static __attribute__((noinline)) void depth() { char* f = (char*)__builtin_frame_address(0); if (f < lo) lo = f; if (f > hi) hi = f; }
static coro::task<int> tiny(int i) { depth(); co_return i; }
static coro::task<long> looped(int n) { long s = 0; for (int i = 0; i < n; ++i) s += co_await tiny(i); co_return s; }
static fire loop_root(int n, long* out) { *out = co_await looped(n); }
void harness_case()
{
    S.clear(); M.clear(); S.reserve(64); M.reserve(64); for (auto& l : leaf) l = nullptr; counted::live = 0; nontriv = false;
    refcell = std::make_unique<int>(1); refcounted = std::make_unique<counted>(5);
    if (rt::chance(1, 50)) { int n = rt::range(50, 1500); long r = 0; lo = hi = (char*)__builtin_frame_address(0); loop_root(n, &r); if (r != (long)n * (n - 1) / 2) rt::fail("result: a sequence of %d awaits gave %ld", n, r); if (hi - lo > 32768) rt::fail("stack: %d sequential awaits used %ld bytes of stack", n, (long)(hi - lo)); rt::label("long sequence"); }
    switch (rt::choose(7))
    {
        case 0: driver<int>(); break; case 1: driver<void>(); break; case 2: driver<counted>(); break; case 3: driver<move_only>(); break;
        case 4: driver<copy_only>(); break; case 5: driver<int&>(); break; default: driver<const counted&>(); break;
    }
    refcell.reset(); refcounted.reset();
    if (nontriv) rt::nontrivial();
    if (counted::live != 0) rt::fail("lifetime: %d results remain", counted::live.load());
}
