// C14: a condition variable loses no notification and resumes waiters holding the lock.
#include "common.hpp"
#include <coro/condition_variable.hpp>
#include <coro/thread_pool.hpp>
#include <stop_token>
const char* const harness_property = "C14";
const char* const harness_rule =
    "a case = 1-5 waiter coroutines (plain / predicate / predicate+stop waits, 1-3 times each, optionally consuming what they waited for), 1-4 threads of notifier steps (change the data under the lock, then notify one / all / one or all on a pool, or request a stop), "
    "and every scheduling decision; non-trivial = a waiter really suspended and a notification came after";
enum { PLAIN, PRED, STOP };
struct W { int kind, th, times; bool consume; int state; uint64_t reg, beg; bool was_susp; };
struct N { uint64_t b, e; bool all; };
static hvec<W> ws; static hvec<N> ns; static int holder, resumed, susp_n; static uint64_t last_mod, stop_req, stop_b; static int* data; static coro::mutex* M; static coro::condition_variable* CV;
static std::unique_ptr<coro::thread_pool> tp; static std::stop_source* SS;
struct Rz { uint64_t t; }; static hvec<Rz> rz;
static int notifiers_live;
static void enter(int id)
{
    if (holder != -1) rt::fail("lock: %d got the lock while %d holds it", id, holder);
    holder = id;
    uint64_t s = stamp();
    for (size_t i = 0; i < ws.size(); ++i) if (ws[i].state == 1 && !ws[i].reg && (int)i != id) { ws[i].reg = s; ws[i].was_susp = true; }
}
static void leave(int id) { if (holder != id) rt::fail("lock: %d lost the lock to %d", id, holder); holder = -1; }
static bool pred(int th) { return data[0] >= th; }
static fire waiter(int id)
{
    for (int k = 0; k < ws[id].times; ++k)
    {
        auto lk = co_await M->scoped_lock();
        enter(id);
        W& w = ws[id];
        if (w.kind != PLAIN && rt::chance(1, 8)) rt::point();
        w.state = 1; w.reg = 0; w.was_susp = false; w.beg = stamp(); int th = w.th;
        int me = rt::tid(); (void)me;
        bool ready = w.kind != PLAIN && pred(th);
        rt::trace("waiter %d waits (kind %d, >=%d)%s", id, w.kind, th, ready ? " ready" : "");
        holder = -1;
        bool res = true;
        if (w.kind == PLAIN) co_await CV->wait(lk);
        else if (w.kind == PRED) co_await CV->wait(lk, [th] { return pred(th); });
        else res = co_await CV->wait(lk, SS->get_token(), [th] { return pred(th); });
        W& x = ws[id];
        if (x.state != 1) rt::fail("dup: waiter %d resumed twice", id);
        x.state = 2;
        if (holder != -1) rt::fail("lock: waiter %d resumed without the lock, %d holds it", id, holder);
        holder = id;
        bool now = data[0] >= th;
        rt::trace("waiter %d resumed v=%d", id, data[0]);
        if (x.kind == PRED && !now) rt::fail("predicate: waiter %d resumed with its predicate false", id);
        if (x.kind == STOP && res != now) rt::fail("predicate: waiter %d got %d but the predicate is %d", id, res, now);
        if (x.kind == STOP && !now && !stop_b) rt::fail("predicate: waiter %d resumed with its predicate false and no stop", id);
        if (!ready)
        {
            ++resumed; uint64_t t = stamp(); rz.push_back({t});
            int ones = 0; bool any = false, all = false;
            for (auto& n : ns) { if (!n.e || n.e > x.beg) any = true; if (n.all) all = true; else ++ones; }
            if (!any) rt::fail("spurious: waiter %d resumed although nobody notified", id);
            if (!all && resumed > ones) rt::fail("extra: %d waiters released by %d notify_one", resumed, ones);
        }
        else if (x.was_susp) rt::fail("ready: a wait whose predicate held released the lock");
        if (x.consume && now) { data[0] -= 1; last_mod = stamp(); }
        rt::point();
        leave(id);
        lk.unlock();
        rt::point();
    }
    ws[id].state = 9;
}
// how: 0 one, 1 all, 2 one(pool), 3 all(pool)
static fire notifier(int add, int how, bool stop, bool stop_locked, int* done)
{
    if (add || (stop && stop_locked))
    {
        auto lk = co_await M->scoped_lock();
        enter(100);
        if (add) { data[0] += add; last_mod = stamp(); rt::trace("v=%d", data[0]); }
        if (stop && stop_locked) { if (!stop_b) stop_b = stamp(); SS->request_stop(); if (!stop_req) stop_req = stamp(); rt::trace("stop requested (locked)"); }
        rt::point();
        leave(100);
    }
    if (stop && !stop_locked) { if (!stop_b) stop_b = stamp(); SS->request_stop(); if (!stop_req) stop_req = stamp(); rt::trace("stop requested"); }
    size_t i = ns.size();
    ns.push_back({stamp(), 0, (how & 1) != 0});
    static const char* hn[] = {"notify_one", "notify_all", "notify_one(pool)", "notify_all(pool)"};
    rt::trace("%s", hn[how]);
    if (how == 0) co_await CV->notify_one();
    else if (how == 1) co_await CV->notify_all();
    else if (how == 2) CV->notify_one(tp);
    else CV->notify_all(tp);
    if (how < 2) ns[i].e = stamp();
    rt::trace("%s returned", hn[how]);
    *done = 9;
}
void harness_case()
{
    ws.clear(); ns.clear(); rz.clear(); g_stamp = 1; holder = -1; resumed = 0; last_mod = stop_req = stop_b = 0;
    int nth = rt::weighted({1, 4, 4, 3});
    int n = rt::range(1, 5);
    bool with_pool = rt::chance(1, 4), only_plain = rt::chance(1, 4), with_stop = !only_plain && rt::chance(2, 5);
    rt::note("threads=%d pool=%d\n", nth, with_pool);
    ws.resize(n);
    for (int i = 0; i < n; ++i)
    {
        W& w = ws[i]; w = W{};
        w.kind = only_plain ? PLAIN : (int)rt::weighted({with_stop ? 1u : 2u, 4, with_stop ? 6u : 0u}); w.th = rt::range(1, 3); w.times = rt::range(1, 3); w.consume = w.kind != PLAIN && rt::chance(1, 3);
        static const char* kn[] = {"plain", "predicate", "predicate+stop"};
        rt::note(" waiter %d: %s x%d >=%d%s\n", i, kn[w.kind], w.times, w.th, w.consume ? " consuming" : "");
    }
    struct Op { int k, a, how; bool stop, sl; int id; };
    hvec<hvec<Op>> sc(nth + 1);
    for (int i = 0; i < n; ++i) sc[rt::choose(nth + 1)].push_back({0, i, 0, false, false, 0});
    int nn = rt::range(1, 6); hvec<int> nd(nn + 64, 0);
    for (int i = 0; i < nn; ++i)
    {
        auto& s = sc[rt::choose(nth + 1)];
        Op o{1, (int)rt::weighted({2, 5, 2}), (int)rt::weighted({5, 4, with_pool ? 2u : 0u, with_pool ? 2u : 0u}), with_stop && rt::chance(1, 3), rt::chance(1, 3), i};
        if (o.stop && rt::chance(2, 3)) { o.a = 0; o.sl = false; if (rt::chance(2, 3)) o.how = 1; } // requested without the lock, while another notifier may have it
        s.insert(s.begin() + rt::choose(s.size() + 1), o);
    }
    for (int t = 0; t <= nth; ++t)
    {
        rt::note(" thread %d:", t);
        static const char* hn[] = {"one", "all", "one(pool)", "all(pool)"};
        for (auto& o : sc[t]) if (o.k == 0) rt::note(" waiter(%d)", o.a); else rt::note(" add%d%s/%s", o.a, o.stop ? (o.sl ? "/stop-locked" : "/stop") : "", hn[o.how]);
        rt::note("\n");
    }
    auto dp = std::make_unique<int[]>(1); data = dp.get();
    coro::mutex* m = new coro::mutex; M = m; coro::condition_variable* cv = new coro::condition_variable; CV = cv; std::stop_source* ss = new std::stop_source; SS = ss;
    if (with_pool) tp = coro::thread_pool::make_unique({.thread_count = rt::range(1, 2)});
    auto body = [&](int t) {
        for (auto& o : sc[t])
        {
            if (o.k == 0) waiter(o.a);
            else notifier(o.a, o.how, o.stop, o.sl, &nd[o.id]);
            rt::point();
        }
    };
    { threads ths; for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    auto rest = [&](const char* where) {
        rt::quiesce();
        int waiting = 0; for (auto& w : ws) waiting += w.state == 1;
        rt::trace("at rest (%s): %d waiting, v=%d", where, waiting, data[0]);
        for (int i = 0; i < nn; ++i) if (nd[i] != 9) rt::fail("stuck: a notify call has not returned at rest");
        if (holder != -1 || !M->try_lock()) rt::fail("lock: held at rest");
        M->unlock();
        bool all_used = false; for (auto& x : ns) all_used |= x.all;
        for (int i = 0; i < n; ++i)
        {
            W& w = ws[i];
            if (w.state == 0 || w.state == 2) rt::fail("stuck: waiter %d neither waiting nor done at rest", i);
            if (w.state != 1) continue;
            if (!w.reg) { w.reg = stamp(); }
            for (auto& x : ns)
            {
                if (!x.all || x.b < w.reg) continue;
                if (w.kind == PLAIN) rt::fail("lost: plain waiter %d still waits after a notify_all that began after it released the lock", i);
                if (x.b > last_mod && data[0] >= w.th) rt::fail("lost: waiter %d still waits although its predicate holds and a notify_all followed the last change", i);
                if (w.kind == STOP && stop_req && x.b > stop_req) rt::fail("lost: waiter %d still waits after a stop request and a notify_all", i);
            }
            if (only_plain && !all_used)
            {
                int ones = 0, res = 0;
                for (auto& x : ns) ones += x.b > w.reg;
                for (auto& z : rz) res += z.t > w.reg;
                if (res < ones) rt::fail("lost: %d notify_one since waiter %d waits, but only %d waiters were released", ones, i, res);
            }
        }
        return waiting;
    };
    int waiting = rest("scripts done");
    bool susp = waiting > 0 || resumed > 0;
    if (susp && !ns.empty()) rt::nontrivial();
    if (susp) rt::label("suspended");
    if (resumed) rt::label("released by a notification");
    // at rest one notify_one releases exactly one plain waiter
    for (int k = 0; k < 40 && waiting; ++k)
    {
        bool plain = true, ready_all = true;
        for (auto& w : ws) if (w.state == 1) { plain &= w.kind == PLAIN; ready_all &= w.kind == PLAIN || data[0] >= w.th; }
        int d = 0, r0 = resumed;
        if (plain || (ready_all && k < 8))
        {
            notifier(0, with_pool && k % 2 ? 2 : 0, false, false, &d); rt::quiesce();
            if (plain && resumed < r0 + 1) rt::fail("lost: notify_one with plain waiters released nobody");
            if (!plain && resumed == r0) rt::fail("lost: notify_one released nobody although every waiter could proceed");
        }
        else notifier(5, with_pool && k % 2 ? 3 : 1, false, false, &d);
        waiting = rest("draining");
    }
    if (waiting) rt::fail("lost: %d waiters cannot be released", waiting);
    if (tp) tp->shutdown();
    tp.reset();
    delete cv; delete m; delete ss;
}
