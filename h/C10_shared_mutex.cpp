// C10: the shared mutex keeps writers exclusive, readers shared, and strands nobody.
#include "common.hpp"
#include <coro/shared_mutex.hpp>
#include <coro/thread_pool.hpp>
const char* const harness_property = "C10";
const char* const harness_rule =
    "a case = 1-4 threads starting 2-7 coroutines with scripts of exclusive/shared sections (lock, try-lock, scoped task, scoped task that throws), some holding across a suspension or hopping onto the pool, settle points where all is at rest, "
    "and every scheduling decision; non-trivial = at least one coroutine really blocked on the shared mutex";
using pool = coro::thread_pool;
enum { EX, SH, TRY_EX, TRY_SH, SC_EX, SC_SH, SC_EX_THROW, SC_SH_THROW };
struct Sec { int kind, hold; };
struct Co { hvec<Sec> secs; int state; bool shared; uint64_t begin, settled; bool blocked; gate* g; };
static hvec<Co> cos; static int writers, readers; static int* payload; static int value; static coro::shared_mutex<pool>* M; static pool* TP; static int pool_n;
static void admitted(int id, bool sh)
{
    Co& c = cos[id];
    if (c.state != 1) rt::fail("dup: coroutine %d resumed while not waiting", id);
    if (sh) { if (writers) rt::fail("exclusion: reader %d admitted beside a writer", id); ++readers; }
    else { if (writers || readers) rt::fail("exclusion: writer %d admitted beside %d writers and %d readers", id, writers, readers); ++writers; }
    rt::trace("%d admitted %s", id, sh ? "shared" : "exclusive");
    if (c.settled && sh && (rt::tid() < 1 || rt::tid() > pool_n)) rt::fail("executor: blocked reader %d resumed off the executor on T%d", id, rt::tid());
    for (size_t i = 0; i < cos.size(); ++i)
    {
        Co& o = cos[i];
        if ((int)i == id || o.state != 1 || !o.settled || o.settled > c.begin) continue;
        if (sh && o.shared) continue; // both may have been admitted together
        rt::fail("order: %s %zu was blocked before %s %d even arrived, but is admitted after it", o.shared ? "reader" : "writer", i, sh ? "reader" : "writer", id);
    }
    c.state = 3; c.settled = 0;
    if (payload[0] != value || payload[1] != value) rt::fail("visibility: %d sees %d/%d, writers wrote %d", id, payload[0], payload[1], value);
    if (!sh) { payload[0] = value + 1; }
    rt::point();
    if (!sh && (writers != 1 || readers)) rt::fail("exclusion: writer %d not alone", id);
}
static void leave(int id, bool sh)
{
    if (sh) { if (writers) rt::fail("exclusion: a writer entered beside reader %d", id); if (payload[0] != value) rt::fail("visibility: value changed under reader %d", id); --readers; }
    else { if (writers != 1 || readers) rt::fail("exclusion: writer %d not alone at its end", id); payload[1] = ++value; --writers; }
    cos[id].state = 0;
    rt::trace("%d releases", id);
}
static coro::task<void> section(int id, bool sh, int hold, bool thr)
{
    admitted(id, sh);
    if (hold == 1) { rt::trace("%d parks", id); co_await *cos[id].g; }
    else if (hold == 2) co_await TP->schedule();
    else if (hold == 3) { rt::point(); rt::point(); }
    leave(id, sh);
    if (thr) throw boom{id};
}
static fire run(int id)
{
    for (auto s : cos[id].secs)
    {
        bool sh = s.kind == SH || s.kind == TRY_SH || s.kind == SC_SH || s.kind == SC_SH_THROW;
        Co& c = cos[id];
        c.shared = sh; c.begin = stamp(); c.settled = 0; 
        rt::trace("%d wants %s kind %d", id, sh ? "shared" : "exclusive", s.kind);
        switch (s.kind)
        {
            case EX: c.state = 1; co_await M->lock(); co_await section(id, false, s.hold, false); co_await M->unlock(); break;
            case SH: c.state = 1; co_await M->lock_shared(); co_await section(id, true, s.hold, false); co_await M->unlock_shared(); break;
            case TRY_EX: if (M->try_lock()) { c.state = 1; co_await section(id, false, s.hold, false); co_await M->unlock(); } break;
            case TRY_SH: if (M->try_lock_shared()) { c.state = 1; co_await section(id, true, s.hold, false); co_await M->unlock_shared(); } break;
            default:
            {
                bool thr = s.kind >= SC_EX_THROW, got = false;
                c.state = 1;
                try { if (sh) co_await M->scoped_lock_shared(section(id, true, s.hold, thr)); else co_await M->scoped_lock(section(id, false, s.hold, thr)); }
                catch (boom& b) { got = true; if (b.id != id) rt::fail("exception: wrong one"); }
                if (got != thr) rt::fail("exception: %s", thr ? "swallowed" : "invented");
                if (cos[id].state != 0) rt::fail("scoped: the scoped task did not run");
            }
        }
        rt::point();
    }
    cos[id].state = 9;
    rt::trace("%d done", id);
}
void harness_case()
{
    cos.clear(); g_stamp = 1; writers = readers = value = 0;
    int nth = rt::weighted({3, 4, 4, 2});
    int n = rt::range(2, 7);
    pool_n = rt::range(1, 2);
    rt::note("threads=%d pool=%d\n", nth, pool_n);
    hvec<gate> gates(n); cos.resize(n);
    for (int i = 0; i < n; ++i)
    {
        int k = rt::range(1, 3); rt::note(" co %d:", i);
        for (int j = 0; j < k; ++j)
        {
            Sec s{(int)rt::weighted({5, 5, 2, 2, 1, 1, 1, 1}), (int)rt::weighted({3, 4, 2, 1})};
            static const char* kn[] = {"lock", "lock_shared", "try_lock", "try_lock_shared", "scoped", "scoped_shared", "scoped_throw", "scoped_shared_throw"};
            static const char* hn[] = {"", "+park", "+hop", "+pts"};
            rt::note(" %s%s", kn[s.kind], hn[s.hold]); cos[i].secs.push_back(s);
        }
        cos[i].g = &gates[i]; cos[i].state = 0; cos[i].settled = 0; cos[i].blocked = false; rt::note("\n");
    }
    hvec<hvec<int>> sc(nth + 1);
    for (int i = 0; i < n; ++i) sc[rt::choose(nth + 1)].push_back(i);
    int rel = rt::range(0, 4); for (int i = 0; i < rel; ++i) { auto& s = sc[rt::choose(nth + 1)]; s.insert(s.begin() + rt::choose(s.size() + 1), -1 - (int)rt::choose(n)); }
    int settles = rt::range(0, 4); for (int i = 0; i < settles; ++i) { auto& s = sc[0]; s.insert(s.begin() + rt::choose(s.size() + 1), 1000); }
    for (int t = 0; t <= nth; ++t) { rt::note(" thread %d:", t); for (int x : sc[t]) { if (x >= 1000) rt::note(" settle"); else if (x >= 0) rt::note(" start(%d)", x); else rt::note(" release(%d)", -1 - x); } rt::note("\n"); }
    auto pl = std::make_unique<int[]>(2); payload = pl.get();
    std::unique_ptr<pool> tp = pool::make_unique({.thread_count = (uint32_t)pool_n}); TP = tp.get();
    auto m = std::make_unique<coro::shared_mutex<pool>>(tp); M = m.get();
    bool blocked = false;
    auto settle = [&] {
        rt::quiesce();
        int waiting = 0, parked = 0;
        for (int i = 0; i < n; ++i)
        {
            if (cos[i].state == 1) { ++waiting; blocked = true; if (!cos[i].settled) cos[i].settled = stamp(); }
            if (gates[i].parked()) ++parked;
        }
        rt::trace("at rest: %d waiting, %d writers, %d readers", waiting, writers, readers);
        if (writers + readers == 0 && waiting) rt::fail("stranded: shared mutex free but %d coroutines are blocked on it", waiting);
        if (writers + readers != parked) rt::fail("stuck: %d holders but %d parked sections", writers + readers, parked);
        // readers-only and no waiting writer: every reader must have been let in
        if (waiting && writers == 0)
        {
            bool wr = false; for (auto& c : cos) wr |= c.state == 1 && !c.shared;
            if (!wr) rt::fail("stranded: only readers hold and wait, but some stay blocked");
        }
        bool a = M->try_lock();
        if (a != (writers + readers == 0)) rt::fail("try_lock: returned %d at rest with %d writers and %d readers", a, writers, readers);
        if (a) { bool d = false; auto f = [&]() -> fire { co_await M->unlock(); d = true; }; f(); if (!d) rt::fail("unlock: did not complete at rest"); }
        bool s = M->try_lock_shared();
        bool want = writers == 0 && waiting == 0;
        if (s != want) rt::fail("try_lock_shared: returned %d at rest with %d writers, %d readers, %d waiting", s, writers, readers, waiting);
        if (s) { bool d = false; auto f = [&]() -> fire { co_await M->unlock_shared(); d = true; }; f(); if (!d) rt::fail("unlock_shared: did not complete at rest"); }
    };
    auto body = [&](int t) {
        for (int x : sc[t])
        {
            if (x == 1000) { if (nth == 0 || t == 0) { rt::quiesce(); for (auto& c : cos) if (c.state == 1 && !c.settled) { c.settled = stamp(); blocked = true; } } }
            else if (x >= 0) run(x);
            else { rt::trace("release gate %d", -1 - x); gates[-1 - x].release(); }
            rt::point();
        }
    };
    { threads ths; for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    for (int k = 0; k < 100; ++k)
    {
        settle();
        bool any = false;
        for (int i = 0; i < n && !any; ++i) any = gates[(i + k) % n].release();
        if (!any) break;
    }
    for (int i = 0; i < n; ++i) if (cos[i].state != 9) rt::fail("stranded: coroutine %d not finished", i);
    if (blocked) { rt::nontrivial(); rt::label("blocked"); }
    m.reset();
    tp->shutdown();
}
