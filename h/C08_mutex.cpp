// C08: the mutex admits one holder, loses no waiter, and publishes writes.
#include "common.hpp"
#include <coro/mutex.hpp>
#include <coro/thread_pool.hpp>
const char* const harness_property = "C08";
const char* const harness_rule =
    "a case = 1-4 threads starting 1-6 coroutines with scripts of lock / scoped lock / try_lock sections (some hold the lock across a suspension, hop onto a pool while holding it, or start further coroutines while holding it), "
    "and every scheduling decision; non-trivial = at least one coroutine really blocked on the mutex";
using coro::mutex;
struct Sec { int kind; int hold; int child; }; // kind 0 lock/unlock 1 scoped 2 scoped+explicit unlock 3 try_lock; hold: 0 nothing 1 gate 2 pool hop 3 schedule points
struct Co { hvec<Sec> secs; int state; uint64_t wb; bool blocked_ever; gate* g; };
static hvec<Co> cos;
static int holder, hold_by, waiting; static bool in_unlock; static int ops_open; static uint64_t ops_count;
static int* payload; static int expect_n; static mutex* M; static coro::thread_pool* TP; static int done;
struct op { op() { ++ops_open; ++ops_count; } ~op() { --ops_open; } };
static void enter(int id)
{
    if (holder != -1) rt::fail("exclusion: coroutine %d entered while %d holds the mutex", id, holder);
    holder = id;
    rt::trace("%d holds", id);
    if (payload[0] != expect_n || payload[1] != expect_n) rt::fail("visibility: holder %d sees %d/%d, previous holders wrote %d", id, payload[0], payload[1], expect_n);
    payload[0] = expect_n + 1;
    rt::point();
    if (holder != id) rt::fail("exclusion: two holders");
}
static void leave(int id)
{
    if (holder != id) rt::fail("exclusion: coroutine %d lost the lock to %d", id, holder);
    payload[1] = ++expect_n;
    holder = -1;
    rt::trace("%d releases", id);
}
static fire run(int id);
#define HOLD(s)                                                                         \
    if ((s).hold == 1) { rt::trace("%d parks holding", id); co_await *cos[id].g; }         \
    else if ((s).hold == 2 && TP) co_await TP->schedule();                              \
    else if ((s).hold == 3) { rt::point(); rt::point(); }                               \
    if ((s).child >= 0) run((s).child);
static fire run(int id)
{
    for (auto s : cos[id].secs)
    {
        switch (s.kind)
        {
            case 0:
            {
                cos[id].state = 1; ++ops_count; rt::trace("%d lock", id);
                co_await M->lock();
                if (cos[id].state != 1 && cos[id].state != 2) rt::fail("dup: coroutine %d resumed twice by the mutex", id);
                cos[id].state = 3; ++ops_count;
                enter(id); HOLD(s); leave(id);
                cos[id].state = 0;
                ++ops_count; ++ops_open; M->unlock(); --ops_open; ++ops_count;
                break;
            }
            case 1:
            {
                cos[id].state = 1; ++ops_count; rt::trace("%d scoped", id);
                {
                    auto lk = co_await M->scoped_lock();
                    if (cos[id].state != 1 && cos[id].state != 2) rt::fail("dup: coroutine %d resumed twice by the mutex", id);
                    cos[id].state = 3; ++ops_count;
                    enter(id); HOLD(s); leave(id);
                    cos[id].state = 0; ++ops_count; ++ops_open;
                }
                --ops_open; ++ops_count;
                break;
            }
            case 2:
            {
                cos[id].state = 1; ++ops_count; rt::trace("%d scoped", id);
                auto lk = co_await M->scoped_lock();
                if (cos[id].state != 1 && cos[id].state != 2) rt::fail("dup: coroutine %d resumed twice by the mutex", id);
                cos[id].state = 3; ++ops_count;
                enter(id); HOLD(s); leave(id);
                cos[id].state = 0;
                ++ops_count; ++ops_open; lk.unlock(); --ops_open; ++ops_count;
                break;
            }
            case 3:
            {
                // nobody else near the mutex and nobody holding it: a try-lock has to succeed
                int others = 0; for (auto& c : cos) if (c.state) ++others;
                bool quiet = holder == -1 && ops_open == 0 && others == 0; uint64_t c0 = ++ops_count;
                ++ops_open; bool ok = M->try_lock(); --ops_open;
                rt::trace("%d try_lock -> %d", id, ok);
                if (quiet && ops_open == 0 && ops_count == c0 && !ok) rt::fail("trylock: failed on a free, unused mutex");
                if (ok)
                {
                    cos[id].state = 3; ++ops_count;
                    enter(id); HOLD(s); leave(id);
                    cos[id].state = 0; ++ops_count; ++ops_open; M->unlock(); --ops_open; ++ops_count;
                }
                break;
            }
        }
        rt::point();
    }
    ++done;
    rt::trace("%d done", id);
}
void harness_case()
{
    cos.clear(); holder = -1; ops_open = 0; ops_count = 0; expect_n = 0; done = 0;
    int nth = rt::weighted({1, 4, 4, 2});
    bool with_pool = rt::chance(1, 4);
    int n = rt::range(1, 6);
    rt::note("threads=%d pool=%d\n", nth, with_pool);
    hvec<int> parent(n, -1);
    hvec<gate> gates(n);
    cos.resize(n);
    for (int i = 0; i < n; ++i)
    {
        int k = rt::range(1, 3);
        rt::note(" co %d:", i);
        for (int j = 0; j < k; ++j)
        {
            Sec s{(int)rt::weighted({5, 2, 2, 3}), (int)rt::weighted({4, 2, with_pool ? 2u : 0u, 1}), -1};
            cos[i].secs.push_back(s);
            static const char* kn[] = {"lock", "scoped", "scoped+unlock", "try"}; static const char* hn[] = {"", "+park", "+hop", "+pts"};
            rt::note(" %s%s", kn[s.kind], hn[s.hold]);
        }
        cos[i].state = 0; cos[i].g = &gates[i];
        if (i > 0 && rt::chance(1, 5)) { int p = rt::choose(i); auto& s = cos[p].secs[0]; if (s.child < 0) { s.child = i; parent[i] = p; rt::note(" (started by %d)", p); } }
        rt::note("\n");
    }
    auto pl = std::make_unique<int[]>(2); payload = pl.get();
    auto m = std::make_unique<mutex>(); M = m.get();
    std::unique_ptr<coro::thread_pool> tp; if (with_pool) tp = coro::thread_pool::make_unique({.thread_count = rt::range(1, 2)});
    TP = tp.get();
    hvec<hvec<int>> sc(nth + 1);
    int roots = 0;
    for (int i = 0; i < n; ++i) if (parent[i] < 0) { sc[rt::choose(nth + 1)].push_back(i); ++roots; }
    int rel = rt::range(0, 3); // threads that open gates
    for (int i = 0; i < rel; ++i) sc[rt::choose(nth + 1)].push_back(-1 - (int)rt::choose(n));
    auto body = [&](int t) {
        for (int x : sc[t])
        {
            if (x >= 0) { run(x); if (cos[x].state == 1) { cos[x].state = 2; cos[x].blocked_ever = true; } }
            else { auto& g = gates[-1 - x]; rt::trace("release gate %d", -1 - x); g.release(); }
            rt::point();
        }
    };
    { threads ths; for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    bool blocked = false;
    for (auto& c : cos) blocked |= c.blocked_ever;
    for (int k = 0;; ++k)
    {
        rt::quiesce();
        int b = 0; for (auto& c : cos) if (c.state == 1 || c.state == 2) ++b;
        if (b) blocked = true;
        if (holder == -1)
        {
            if (b) rt::fail("stranded: mutex free but %d coroutines are blocked on it", b);
            break;
        }
        bool ok = M->try_lock();
        if (ok) rt::fail("trylock: succeeded on a held mutex");
        auto& g = gates[holder];
        if (!g.parked()) rt::fail("stuck: holder %d neither runs nor is parked", holder);
        g.release();
    }
    // try-lock only scripts may legitimately have children never started; everyone started has finished
    for (int i = 0; i < n; ++i) if (cos[i].state) rt::fail("stranded: coroutine %d not finished", i);
    if (!M->try_lock()) rt::fail("trylock: failed on a free mutex at rest");
    if (payload[0] != expect_n) rt::fail("visibility: final payload");
    M->unlock();
    if (rt::chance(1, 4)) // an unlock that is one too many is refused and changes nothing
    {
        bool refused = false; try { M->unlock(); } catch (const std::runtime_error&) { refused = true; } if (!refused) rt::fail("unlock: of a free mutex is not refused");
        if (!M->try_lock()) rt::fail("trylock: failed on a free mutex after a refused unlock"); if (M->try_lock()) rt::fail("trylock: succeeded on a held mutex after a refused unlock"); M->unlock();
    }
    if (blocked) { rt::nontrivial(); rt::label("blocked"); }
    if (with_pool) rt::label("with pool");
    TP = nullptr;
    if (tp) tp->shutdown();
}
