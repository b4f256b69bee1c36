// C17: a task group completes exactly when every started task has completed.
#include "common.hpp"
#include <cstring>
#include <list>
#include <stdexcept>
#include <coro/scheduler.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/task_group.hpp>
#include <coro/thread_pool.hpp>
const char* const harness_property = "C17";
const char* const harness_rule =
    "a case = a task group on a thread pool (1-3 threads) or an inline / pooled scheduler, 1-3 threads starting tasks, awaiting the group and reading its size, tasks that yield, leave the executor, start more tasks, throw or stay held, "
    "the executor possibly shut down in between, the group destroyed at the end with tasks possibly still running, and every scheduling decision; non-trivial = an await began while a task was unfinished, the group became empty more than once, or a start was refused";
enum { M_YIELD, M_AWAY, M_START, M_HOLD, M_SIZE, M_LOOKUP };
struct mem { int nsteps, steps[3], thrower, parent, tri; uint64_t sb, se, run, fin; int runs, fins; bool held; };
static hvec<mem>* W; static hoppers H; static gate gates[64]; static bool harness_thread[16];
static uint64_t sd_b, sd_e; static int nrefused;
struct igroup { virtual ~igroup() {} virtual bool start(coro::task<void>&&) = 0; virtual size_t size() = 0; virtual bool empty() = 0; virtual coro::task<void> join() = 0; virtual int bjoin() = 0; };
template<class E> struct group final : igroup
{
    std::unique_ptr<coro::task_group<E>> g;
    bool start(coro::task<void>&& t) override { return g->start(std::move(t)); }
    size_t size() override { return g->size(); }
    bool empty() override { return g->empty(); }
    coro::task<void> join() override { co_await *g; }
    int bjoin() override { coro::sync_wait(*g); return 0; }
};
static igroup* G;
static std::unique_ptr<coro::thread_pool> P; static std::unique_ptr<coro::scheduler> S; static bool can_yield, blocking;
static coro::task<void> member(int w, counted c);
static int mk(int parent, bool simple)
{
    if (W->size() >= 40) return -1;
    mem k{}; k.parent = parent; k.nsteps = simple ? rt::choose(2) : rt::weighted({3, 4, 2, 1});
    for (auto& s : k.steps) { s = rt::weighted({4, 4, 3, 1, 2}); if (blocking && (s == M_HOLD || s == M_START)) s = M_AWAY; }
    k.thrower = rt::chance(1, 6); W->push_back(k); return W->size() - 1;
}
static void outcome(int w, bool ok, bool late)
{
    auto& k = (*W)[w]; k.se = stamp();
    if (ok) { if (late) rt::fail("accepted: a task was started after the executor's shutdown() had returned"); k.tri = 1; }
    else { if (!sd_b) rt::fail("refused: start() failed although the executor wasn't shut down"); if (k.runs) rt::fail("refused: task %d ran although its start failed", w); k.tri = 2; ++nrefused; rt::label("start refused"); }
    rt::trace("start of task %d %s (%llu)", w, ok ? "accepted" : "refused", (unsigned long long)k.se);
}
static void start(int parent)
{
    int w = mk(parent, false); if (w < 0) return;
    bool late = sd_e; (*W)[w].sb = stamp();
    outcome(w, G->start(member(w, counted(1))), late);
}
static void sizes()
{
    hvec<int> live; for (size_t w = 0; w < W->size(); ++w) if ((*W)[w].tri == 1 && !(*W)[w].fin) live.push_back(w);
    size_t n = G->size(); bool e = G->empty();
    size_t still = 0; for (int w : live) still += !(*W)[w].fin;
    if (n < still || (still && e)) rt::fail("size: size() is %zu, empty() %d with %zu tasks unfinished throughout", n, e, still);
    if (n > W->size()) rt::fail("size: size() is %zu but only %zu tasks were ever started", n, W->size());
}
static coro::task<void> member(int w, counted c)
{
    auto on = [&] { if (harness_thread[rt::tid()]) rt::fail("thread: task %d runs on a thread that isn't the executor's", w); };
    on(); counted local(2);
    if ((*W)[w].runs++) rt::fail("dup: task %d ran twice", w);
    (*W)[w].run = stamp(); rt::trace("task %d runs", w);
    for (int i = 0; i < (*W)[w].nsteps; ++i) switch ((*W)[w].steps[i])
    {
        case M_YIELD: if (can_yield) { try { if (P) co_await P->yield(); else co_await S->yield(); on(); } catch (const std::runtime_error&) {} } break;
        case M_AWAY: co_await H.hop(w); break;
        case M_START: start(w); break;
        case M_HOLD: (*W)[w].held = true; co_await gates[w]; (*W)[w].held = false; break;
        case M_SIZE: sizes(); break;
    }
    if ((*W)[w].fins++) rt::fail("dup: task %d finished twice", w);
    (*W)[w].fin = stamp(); rt::trace("task %d ends", w);
    if ((*W)[w].thrower) throw boom{w};
}
static int joins, joined; static bool busy_join;
static bool covered(int w, uint64_t b) { for (; w >= 0; w = (*W)[w].parent) if ((*W)[w].tri == 1 && (*W)[w].se < b) return true; return false; }
static void judge(uint64_t b)
{
    // a task whose start had returned before the wait began, or that such a task started, cannot be unfinished
    for (size_t w = 0; w < W->size(); ++w) if ((*W)[w].tri == 1 && !(*W)[w].fin && covered(w, b)) rt::fail("early: the wait on the group ended although task %zu is unfinished", w);
    ++joined;
}
static fire joiner()
{
    uint64_t b = stamp(); ++joins; for (auto& k : *W) busy_join |= k.tri == 1 && !k.fin;
    rt::trace("join %d begins", joins); int id = joins; co_await G->join(); rt::trace("join %d ends (from %llu)", id, (unsigned long long)b); judge(b);
}
static void client(int n, int sd_at)
{
    for (int i = 0; i < n; ++i)
    {
        if (i == sd_at) { sd_b = stamp(); rt::trace("shutdown"); if (P) P->shutdown(); else S->shutdown(); sd_e = stamp(); rt::trace("shutdown returned"); }
        switch (rt::weighted({6, 3, 2, 1}))
        {
            case 0: start(-1); break;
            case 1: joiner(); break;
            case 2: sizes(); break;
            case 3: { if (!blocking) { joiner(); break; } uint64_t b = stamp(); ++joins; G->bjoin(); judge(b); rt::label("blocking join"); break; }
        }
        rt::point();
    }
}
template<class E> static igroup* make(std::unique_ptr<E>& e, int how)
{
    auto* g = new group<E>; hvec<int> ws;
    try { coro::task_group<E> bad{static_cast<E*>(nullptr)}; rt::fail("null: a group was made without an executor"); } catch (const std::runtime_error&) {}
    // these tasks may run before G is known: they only do simple things
    auto one = [&] { int w = mk(-1, false); for (auto& s : (*W)[w].steps) if (s == M_START || s == M_SIZE) s = M_AWAY; (*W)[w].sb = stamp(); ws.push_back(w); return member(w, counted(1)); };
    switch (how)
    {
        case 0: g->g = std::make_unique<coro::task_group<E>>(e.get()); break;
        case 1: g->g = std::make_unique<coro::task_group<E>>(e); break;
        case 2: g->g = std::make_unique<coro::task_group<E>>(e.get(), one()); break;
        case 3: g->g = std::make_unique<coro::task_group<E>>(e, one()); break;
        case 4: { std::vector<coro::task<void>> v; for (int i = rt::choose(4); i > 0; --i) v.push_back(one()); g->g = std::make_unique<coro::task_group<E>>(e.get(), std::move(v)); break; }
        default: { std::list<coro::task<void>> v; for (int i = rt::choose(4); i > 0; --i) v.push_back(one()); g->g = std::make_unique<coro::task_group<E>>(e.get(), std::move(v)); break; }
    }
    for (int w : ws) outcome(w, true, false);
    return g;
}
void harness_case()
{
    hvec<mem> ws; ws.reserve(64); W = &ws; counted::live = 0; g_stamp = 1; sd_b = sd_e = 0; nrefused = 0; joins = joined = 0; busy_join = false;
    memset(harness_thread, 0, sizeof harness_thread); harness_thread[0] = true; for (auto& g : gates) g.h = nullptr;
    int kind = rt::weighted({6, 1, 1}), nt = 1 + rt::weighted({3, 4, 2}), nc = rt::weighted({3, 3, 1}), how = rt::weighted({4, 2, 1, 1, 1, 1});
    hvec<int> cnt; for (int i = 0; i <= nc; ++i) cnt.push_back(rt::range(1, 5));
    int sdw = rt::weighted({4, 1, 1}); if (sdw > nc + 1) sdw = 1; int sd_at = sdw ? (int)rt::choose(cnt[sdw - 1]) : -1; if (kind) sd_at = -1; if (sd_at < 0) sdw = 0;
    blocking = rt::chance(1, 3);
    bool running = rt::chance(1, 2); can_yield = true;
    static const char* kinds[] = {"thread pool", "inline scheduler", "pooled scheduler"};
    rt::note("executor=%s threads=%d clients=%d constructor=%d shutdown by %d before op %d\n", kinds[kind], nt, nc + 1, how, sdw - 1, sd_at);
    H.start(1); rt::quiesce(); harness_thread[1] = true;
    coro::thread_pool::options po; po.thread_count = nt;
    if (kind == 0) P = coro::thread_pool::make_unique(std::move(po));
    else { coro::scheduler::options so; so.pool = std::move(po); so.execution_strategy = kind == 1 ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool; S = coro::scheduler::make_unique(std::move(so)); }
    G = P ? make(P, how) : make(S, how);
    threads ths; for (int i = 1; i <= nc; ++i) ths.go([&, i] { harness_thread[rt::tid()] = true; client(cnt[i], sdw == i + 1 ? sd_at : -1); });
    client(cnt[0], sdw == 1 ? sd_at : -1);
    ths.join();
    rt::cfg.timejump = false;
    if (running && !nrefused)
    {
        // destroyed while tasks are running: the destructor waits for them
        bool held = true; while (held) { rt::quiesce(); held = false; for (size_t w = 0; w < ws.size(); ++w) if (ws[w].held) { held = true; gates[w].release(); } }
        if (!sd_b) for (int i = rt::range(1, 4); i > 0; --i) { int w = mk(-1, true); if (w < 0) break; for (auto& s : ws[w].steps) if (s == M_START || s == M_HOLD || s == M_SIZE) s = M_AWAY; ws[w].sb = stamp(); outcome(w, G->start(member(w, counted(1))), false); }
        for (int i = rt::choose(6); i > 0; --i) rt::point();
        rt::label("destroyed while running"); delete G; rt::trace("group destroyed");
        for (size_t w = 0; w < ws.size(); ++w) if (ws[w].tri == 1 && !ws[w].fin) rt::fail("early: the group's destructor returned although task %zu is unfinished", w);
        rt::quiesce(); if (joined != joins) rt::fail("lost: %d of %d waits on the group have not ended", joins - joined, joins);
    }
    else
    {
        for (;;)
        {
            rt::quiesce();
            size_t un = 0; bool held = false;
            for (size_t w = 0; w < ws.size(); ++w) if (ws[w].tri == 1 && !ws[w].fin) { ++un; if (!ws[w].held) rt::fail("lost: task %zu has not finished", w); held = true; }
            if (G->size() != un || G->empty() != (un == 0)) rt::fail("size: size() is %zu at rest with %zu unfinished tasks", G->size(), un);
            if (!un) break;
            if (rt::chance(1, 2)) joiner();
            for (size_t w = 0; w < ws.size(); ++w) if (ws[w].held) { gates[w].release(); if (rt::chance(1, 2)) break; }
            (void)held;
        }
        if (joined != joins) rt::fail("lost: %d of %d waits on the group have not ended although it is empty", joins - joined, joins);
        joiner(); if (joined != joins) rt::fail("lost: a wait on an empty group did not end at once");
        delete G;
    }
    if (busy_join || nrefused) rt::nontrivial();
    P.reset(); S.reset(); H.finish();
    for (size_t w = 0; w < ws.size(); ++w) { if (ws[w].tri == 1 && (ws[w].runs != 1 || ws[w].fins != 1)) rt::fail("lost: task %zu ran %d times", w, ws[w].runs); if (ws[w].tri == 2 && ws[w].runs) rt::fail("refused: task %zu ran", w); }
    if (counted::live != 0) rt::fail("lifetime: %d objects remain", counted::live.load());
}
