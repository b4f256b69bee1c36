// C07: a latch opens exactly when its count reaches zero and releases everyone.
#include "common.hpp"
#include <atomic>
#include <coro/latch.hpp>
#include <coro/thread_pool.hpp>
const char* const harness_property = "C07";
const char* const harness_rule =
    "a case = initial count (-1..6), 0-4 waiters, count-downs of amounts 1..3 (inline or onto a pool) split over 1-4 threads, readiness/remaining queries, optional destruction by the last waiter, "
    "and every scheduling decision; non-trivial = some waiter suspended and the latch opened, or the count never reached zero with a waiter suspended";
using coro::latch;
struct CD { uint64_t b, e; int64_t n; bool exec; int th; };
static hvec<CD> cds;
static int64_t cnt, total;
static std::atomic<int> passed; static int started, nw, pool_lo; static bool destroy_mode, visible; static int* cells; static int ncd;
static int st[16], open_cd[64]; static uint64_t wb[16], wsusp[16]; static int wth[16];
static std::unique_ptr<latch> L;
static int64_t max_done_before(uint64_t t) { int64_t s = 0; for (auto& c : cds) if (c.b < t) s += c.n; return s; }
static int64_t min_done_before(uint64_t t) { int64_t s = 0; for (auto& c : cds) if (c.e && c.e < t) s += c.n; return s; }
static fire waiter(latch& l, int id)
{
    wb[id] = stamp(); st[id] = 1; wth[id] = rt::tid(); ++started;
    rt::trace("waiter %d begin", id);
    co_await l;
    if (st[id] != 1) rt::fail("dup: waiter %d resumed twice", id);
    st[id] = 2;
    rt::trace("waiter %d passed", id);
    uint64_t now = stamp();
    if (cnt > 0 && max_done_before(now) < cnt) rt::fail("early: a waiter passed after at most %ld of %ld counts", (long)max_done_before(now), (long)cnt);
    if (wsusp[id] && rt::tid() != wth[id] && !open_cd[rt::tid()] && rt::tid() < pool_lo) rt::fail("executor: waiter resumed on T%d", rt::tid());
    if (visible) for (int i = 0; i < ncd; ++i) if (cells[i] != i + 1) rt::fail("visibility: work before count-down %d is not visible to the waiter", i);
    if (passed.fetch_add(1) + 1 == nw && destroy_mode) { rt::trace("last waiter destroys the latch"); L.reset(); }
}
void harness_case()
{
    cds.clear(); g_stamp = 1; passed = 0; started = 0; total = 0;
    for (int i = 0; i < 16; ++i) { st[i] = 0; wsusp[i] = 0; } for (auto& x : open_cd) x = 0;
    cnt = (int64_t)rt::weighted({1, 3, 4, 4, 3, 2, 1, 1}); if (cnt == 7) cnt = -1;
    int nth = rt::weighted({1, 4, 4, 2});
    nw = rt::weighted({1, 5, 4, 2});
    bool with_pool = rt::chance(1, 3);
    int mode = rt::weighted({4, 2, 2}); // exact total, arbitrary total, exact+destroy
    struct Op { int k; int64_t n; bool ex; int id; };
    hvec<hvec<Op>> script(nth + 1);
    hvec<Op> downs;
    if (mode != 1) { int64_t left = cnt; while (left > 0) { int64_t n = std::min<int64_t>(left, 1 + rt::weighted({6, 2, 1})); downs.push_back({1, n, with_pool && rt::chance(1, 2), 0}); left -= n; } }
    else { int k = rt::range(0, 6); for (int i = 0; i < k; ++i) downs.push_back({1, 1 + (int64_t)rt::weighted({6, 2, 1}), with_pool && rt::chance(1, 2), 0}); }
    for (auto& d : downs) total += d.n;
    destroy_mode = mode == 2 && nw > 0;
    visible = total == cnt && cnt > 0;
    ncd = downs.size();
    for (int i = 0; i < ncd; ++i) { downs[i].id = i; script[rt::choose(nth + 1)].push_back(downs[i]); }
    for (int i = 0; i < nw; ++i) { auto& s = script[rt::choose(destroy_mode ? 1 : nth + 1)]; s.insert(s.begin() + (destroy_mode ? 0 : rt::choose(s.size() + 1)), Op{0, 0, false, i}); }
    if (!destroy_mode) { int q = rt::range(0, 3); for (int i = 0; i < q; ++i) { auto& s = script[rt::choose(nth + 1)]; s.insert(s.begin() + rt::choose(s.size() + 1), Op{2 + (int)rt::choose(2), 0, false, 0}); } }
    rt::note("count=%ld threads=%d waiters=%d pool=%d mode=%d\n", (long)cnt, nth, nw, with_pool, mode);
    for (int t = 0; t <= nth; ++t) { rt::note(" thread %d:", t); for (auto& o : script[t]) { static const char* n[] = {"wait", "down", "is_ready", "remaining"}; rt::note(" %s(%ld%s)", n[o.k], (long)o.n, o.ex ? ",pool" : ""); } rt::note("\n"); }
    auto pl = std::make_unique<int[]>(ncd + 1); cells = pl.get();
    for (int i = 0; i < ncd; ++i) cells[i] = 0;
    L = std::make_unique<latch>(cnt);
    std::unique_ptr<coro::thread_pool> tp;
    if (with_pool) tp = coro::thread_pool::make_unique({.thread_count = rt::range(1, 2)});
    pool_lo = with_pool ? 1 : 1000;
    auto body = [&](int t) {
        for (auto& o : script[t])
        {
            switch (o.k)
            {
                case 0: { int id = o.id; waiter(*L, id); if (st[id] == 1) wsusp[id] = stamp(); break; }
                case 1:
                {
                    size_t i = cds.size(); cells[o.id] = o.id + 1;
                    cds.push_back({stamp(), 0, o.n, o.ex, rt::tid()});
                    rt::trace("count_down(%ld%s)", (long)o.n, o.ex ? ", pool" : "");
                    bool one = o.n == 1 && rt::chance(1, 2); if (o.ex) { if (one) L->count_down(tp); else L->count_down(tp, o.n); } else { ++open_cd[rt::tid()]; if (one) L->count_down(); else L->count_down(o.n); --open_cd[rt::tid()]; }
                    cds[i].e = stamp();
                    break;
                }
                case 2:
                {
                    uint64_t b = stamp(); bool r = L->is_ready(); uint64_t e = stamp();
                    if (r && cnt > 0 && max_done_before(e) < cnt) rt::fail("ready: reported ready early");
                    if (!r && (cnt <= 0 || min_done_before(b) >= cnt)) rt::fail("ready: not ready although the count has been reached");
                    break;
                }
                case 3:
                {
                    uint64_t b = stamp(); uint64_t r = L->remaining(); uint64_t e = stamp();
                    int64_t hi = std::max<int64_t>(0, cnt - min_done_before(b)), lo = std::max<int64_t>(0, cnt - max_done_before(e));
                    if (r > (uint64_t)hi || r < (uint64_t)lo) rt::fail("remaining: reported %llu, possible %ld..%ld", (unsigned long long)r, (long)lo, (long)hi);
                    break;
                }
            }
            rt::point();
        }
    };
    { threads ths; for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    rt::quiesce();
    bool opened = cnt <= 0 || total >= cnt, susp = false;
    for (int i = 0; i < nw; ++i) susp |= wsusp[i] != 0;
    if (susp) { rt::nontrivial(); rt::label(opened ? "opened with suspended waiter" : "never opened"); }
    if (destroy_mode) rt::label("destroyed by last waiter");
    if (opened && passed != nw) rt::fail("lost: latch open but %d of %d waiters passed", passed.load(), nw);
    if (!opened && passed) rt::fail("early: %d waiters passed although the count was not reached", passed.load());
    if (!opened) { cds.push_back({stamp(), 0, cnt - total, false, rt::tid()}); ++open_cd[rt::tid()]; L->count_down(cnt - total); --open_cd[rt::tid()]; if (passed != nw) rt::fail("lost: latch open but %d of %d waiters passed", passed.load(), nw); }
    L.reset();
    if (tp) tp->shutdown();
}
