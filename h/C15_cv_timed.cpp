// C15: timed condition variable waits end exactly once, by a notification or by their deadline.
#include "common.hpp"
#include <coro/condition_variable.hpp>
#include <coro/scheduler.hpp>
#include <chrono>
#include <stop_token>
using namespace std::chrono;
const char* const harness_property = "C15";
const char* const harness_rule =
    "a case = 1-4 waiter coroutines (wait_for / wait_until, without predicate / with predicate / with predicate and stop token, -1..20 ms, plus untimed waits), 0-5 notifier steps (sleep, change the data under the lock, notify one / all, directly or on the scheduler, or request a stop) on 1-4 threads, "
    "an inline or thread-pool scheduler, and every scheduling decision and clock advance; non-trivial = a timed wait really suspended";
enum { PLAIN, TPLAIN, TPRED, TSTOP };
struct W { int kind, th, times; bool until, consume; int64_t d; int state; uint64_t reg, beg; int64_t t0; };
struct N { uint64_t b, e; bool all; };
static hvec<W> ws; static hvec<N> ns; static hvec<uint64_t> rz; static int holder, notified; static uint64_t last_mod, stop_req, stop_b; static int* data; static coro::mutex* M; static coro::condition_variable* CV;
static std::unique_ptr<coro::scheduler> sch; static std::stop_source* SS; static std::atomic<int> pending; static bool suspended_timed, by_timeout, by_notify;
static void enter(int id)
{
    if (holder != -1) rt::fail("lock: %d got the lock while %d holds it", id, holder);
    holder = id;
    uint64_t s = stamp();
    for (size_t i = 0; i < ws.size(); ++i) if (ws[i].state == 1 && !ws[i].reg && (int)i != id) { ws[i].reg = s; if (ws[i].kind != PLAIN) suspended_timed = true; }
}
static void leave(int id) { if (holder != id) rt::fail("lock: %d lost the lock to %d", id, holder); holder = -1; }
static bool pred(int th) { return data[0] >= th; }
static fire waiter(int id)
{
    for (int k = 0; k < ws[id].times; ++k)
    {
        auto lk = co_await M->scoped_lock();
        enter(id);
        W& w = ws[id]; int th = w.th; nanoseconds d{w.d};
        w.state = 1; w.reg = 0; w.beg = stamp(); w.t0 = rt::now_ns();
        bool ready = w.kind >= TPRED && pred(th);
        rt::trace("waiter %d waits (kind %d, %lld ns)%s", id, w.kind, (long long)w.d, ready ? " ready" : "");
        holder = -1;
        bool res = true; std::cv_status cs = std::cv_status::no_timeout;
        auto tp = steady_clock::now() + d;
        if (w.kind == PLAIN) co_await CV->wait(lk);
        else if (w.kind == TPLAIN) { if (w.until) cs = co_await CV->wait_until(sch, lk, tp); else cs = co_await CV->wait_for(sch, lk, d); }
        else if (w.kind == TPRED) { if (w.until) res = co_await CV->wait_until(sch, lk, tp, [th] { return pred(th); }); else res = co_await CV->wait_for(sch, lk, d, [th] { return pred(th); }); }
        else { if (w.until) res = co_await CV->wait_until(sch, lk, SS->get_token(), tp, [th] { return pred(th); }); else res = co_await CV->wait_for(sch, lk, SS->get_token(), d, [th] { return pred(th); }); }
        W& x = ws[id];
        if (x.state != 1) rt::fail("dup: waiter %d resumed twice", id);
        x.state = 2;
        if (holder != -1) rt::fail("lock: waiter %d resumed without the lock, %d holds it", id, holder);
        holder = id;
        int64_t el = rt::now_ns() - x.t0; bool now = data[0] >= th;
        rt::trace("waiter %d resumed after %lld ns: %s", id, (long long)el, x.kind <= TPLAIN ? (cs == std::cv_status::timeout ? "timeout" : "notified") : res ? "true" : "false");
        bool any = false, all = false; int ones = 0;
        for (auto& n : ns) { if (!n.e || n.e > x.beg) any = true; if (n.all) all = true; else ++ones; }
        bool elapsed = el >= x.d; // the deadline has passed
        bool surely_notified;
        if (x.kind >= TPRED)
        {
            if (res != now) rt::fail("result: waiter %d got %d but its predicate is %d", id, res, now);
            if (!res && !elapsed && !(x.kind == TSTOP && stop_b)) rt::fail("early: waiter %d ended with a false predicate after %lld of %lld ns", id, (long long)el, (long long)x.d);
            if (res && !ready && !elapsed && !any) rt::fail("spurious: waiter %d ended before its deadline although nobody notified", id);
            if (!res && el < x.d && !any) rt::fail("spurious: waiter %d ended before its deadline although nobody notified", id);
            surely_notified = !ready && !elapsed;
        }
        else
        {
            if (cs == std::cv_status::timeout && !elapsed) rt::fail("early: waiter %d timed out after %lld of %lld ns", id, (long long)el, (long long)x.d);
            if (cs == std::cv_status::no_timeout && !any) rt::fail("spurious: waiter %d reported a notification although nobody notified", id);
            surely_notified = cs == std::cv_status::no_timeout;
            if (cs == std::cv_status::timeout) by_timeout = true;
        }
        if (surely_notified)
        {
            by_notify = true;
            ++notified; rz.push_back(stamp());
            if (!all && notified > ones) rt::fail("extra: %d waiters released by %d notify_one", notified, ones);
        }
        else if (!ready) by_timeout = true;
        if (x.consume && now) { data[0] -= 1; last_mod = stamp(); }
        rt::point();
        leave(id);
        lk.unlock();
        rt::point();
    }
    ws[id].state = 9;
    pending.fetch_sub(1, std::memory_order_release);
}
static fire notifier(int add, int how, bool stop, bool stop_locked, int* done)
{
    if (add || (stop && stop_locked))
    {
        auto lk = co_await M->scoped_lock();
        enter(100);
        if (add) { data[0] += add; last_mod = stamp(); rt::trace("v=%d", data[0]); }
        if (stop && stop_locked) { if (!stop_b) stop_b = stamp(); SS->request_stop(); if (!stop_req) stop_req = stamp(); rt::trace("stop requested (locked)"); }
        rt::point();
        leave(100);
    }
    if (stop && !stop_locked) { if (!stop_b) stop_b = stamp(); SS->request_stop(); if (!stop_req) stop_req = stamp(); rt::trace("stop requested"); }
    size_t i = ns.size();
    ns.push_back({stamp(), 0, (how & 1) != 0});
    static const char* hn[] = {"notify_one", "notify_all", "notify_one(scheduler)", "notify_all(scheduler)"};
    rt::trace("%s", hn[how]);
    if (how == 0) co_await CV->notify_one();
    else if (how == 1) co_await CV->notify_all();
    else if (how == 2) CV->notify_one(sch);
    else CV->notify_all(sch);
    if (how < 2) ns[i].e = stamp();
    rt::trace("%s returned", hn[how]);
    *done = 9;
    pending.fetch_sub(1, std::memory_order_release);
}
static const int64_t durs[] = {1000000, 2000000, 0, -1000000, 1, 500000, 1500000, 3000000, 20000000};
// a wait of centuries ends by its notification only
static int eons_done; static bool eons_set; static fire eons(int form, int kind)
{
    auto lk = co_await M->scoped_lock(); rt::trace("waits for centuries (%d, kind %d)", form, kind); bool res = true; std::cv_status cs = std::cv_status::no_timeout; using years = duration<int64_t, std::ratio<31556952>>;
    auto p = [] { return eons_set; };
#define WITH(D) if (kind == TPLAIN) { auto w = CV->wait_for(sch, lk, D); cs = co_await w; } else if (kind == TPRED) { auto w = CV->wait_for(sch, lk, D, p); res = co_await w; } else { auto w = CV->wait_for(sch, lk, SS->get_token(), D, p); res = co_await w; }
    switch (form)
    {
        case 0: WITH(hours::max()) break; case 1: WITH(seconds::max()) break; case 2: WITH(milliseconds::max()) break; case 3: WITH(nanoseconds::max()) break; case 4: WITH(years(500)) break; case 5: WITH(duration<double>(1e25)) break;
        case 6: if (kind == TPLAIN) { auto w = CV->wait_until(sch, lk, steady_clock::time_point::max()); cs = co_await w; } else { auto w = CV->wait_until(sch, lk, steady_clock::time_point::max(), p); res = co_await w; } break;
    }
#undef WITH
    if (cs == std::cv_status::timeout || !res || !eons_set) rt::fail("early: a wait of centuries (%d) has ended without its notification", form);
    ++eons_done;
}
static fire eons_notify(bool all) { { auto lk = co_await M->scoped_lock(); eons_set = true; } rt::trace("notify"); if (all) co_await CV->notify_all(); else co_await CV->notify_one(); }
static void eternity()
{
    rt::cfg.timejump = false; rt::cfg.leak = false; /* the deadlines are still waiting when the scheduler goes */ eons_done = 0; eons_set = false; rt::label("centuries"); rt::note("waits of centuries\n");
    auto m = std::make_unique<coro::mutex>(); auto cv = std::make_unique<coro::condition_variable>(); auto ss = std::make_unique<std::stop_source>(); M = m.get(); CV = cv.get(); SS = ss.get();
    coro::scheduler::options o; o.thread_strategy = coro::scheduler::thread_strategy_t::manual; o.execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline; sch = coro::scheduler::make_unique(std::move(o)); int n = rt::range(1, 3);
    auto look = [&] { for (int i = 0; i < 3; ++i) sch->process_events(); };
    for (int i = 0; i < n; ++i) { eons(rt::choose(7), TPLAIN + rt::choose(3)); if (rt::chance(1, 2)) look(); }
    look(); rt::advance(1000000 * rt::choose(6)); look(); if (eons_done) rt::fail("early: a wait of centuries has ended");
    if (rt::chance(1, 2)) eons_notify(true); else for (int i = 0; i < n; ++i) eons_notify(false);
    for (int i = 0; i < 6; ++i) look(); if (eons_done != n) rt::fail("lost: %d of %d waits of centuries were notified", eons_done, n);
    if (n > 1) rt::nontrivial(); sch.reset(); cv.release(); m.release();
}
void harness_case()
{
    if (rt::chance(1, 40)) { eternity(); return; }

    ws.clear(); ns.clear(); rz.clear(); g_stamp = 1; holder = -1; notified = 0; last_mod = stop_req = stop_b = 0; suspended_timed = by_timeout = by_notify = false;
    int nth = rt::weighted({2, 4, 3, 2});
    int n = rt::range(1, 4);
    bool inl = rt::chance(1, 2), only_plain = rt::chance(1, 3), with_stop = !only_plain && rt::chance(2, 5), all_timed = rt::chance(1, 2), sched_notify = rt::chance(1, 4), calm = with_stop && rt::chance(1, 2); // calm: no deadline passes before the stop has had its effect
    rt::note("threads=%d scheduler=%s\n", nth, inl ? "inline" : "pool");
    ws.resize(n);
    for (int i = 0; i < n; ++i)
    {
        W& w = ws[i]; w = W{};
        w.kind = (int)rt::weighted({all_timed ? 0u : 2u, 4, only_plain ? 0u : 4u, with_stop ? 5u : 0u});
        w.th = rt::range(1, 3); w.times = rt::range(1, 2); w.until = rt::chance(1, 3); w.consume = w.kind >= TPRED && rt::chance(1, 3);
        w.d = durs[rt::weighted({6, 4, 2, 1, 2, 3, 3, 3, 1})]; if (calm) { w.d = 20000000; if (rt::chance(2, 3)) w.kind = TSTOP; }
        static const char* kn[] = {"plain untimed", "plain", "predicate", "predicate+stop"};
        rt::note(" waiter %d: %s x%d >=%d %s %lld ns%s\n", i, kn[w.kind], w.times, w.th, w.until ? "until" : "for", (long long)w.d, w.consume ? " consuming" : "");
    }
    struct Op { int k, a, how; bool stop, sl; int id; int64_t sleep; };
    hvec<hvec<Op>> sc(nth + 1);
    for (int i = 0; i < n; ++i) sc[rt::choose(nth + 1)].push_back({0, i, 0, false, false, 0, !calm && rt::chance(1, 4) ? (int64_t)rt::range(1, 6) * 500000 : 0});
    int nn = rt::weighted({1, 3, 3, 2, 1, 1}); hvec<int> nd(nn + 64, 0);
    for (int i = 0; i < nn; ++i)
    {
        auto& s = sc[rt::choose(nth + 1)];
        Op o{1, (int)rt::weighted({2, 5, 2}), (int)rt::weighted({5, 4, sched_notify ? 2u : 0u, sched_notify ? 2u : 0u}), with_stop && rt::chance(1, 3), rt::chance(1, 3), i, rt::chance(1, 2) ? (int64_t)rt::range(1, 6) * 500000 : 0};
        if (o.stop && rt::chance(2, 3)) { o.a = 0; o.sl = false; if (rt::chance(2, 3)) o.how = 1; } // requested without the lock, while another notifier may have it
        if (calm) o.sleep = 0; s.insert(s.begin() + rt::choose(s.size() + 1), o);
    }
    bool poke = rt::chance(1, 3); // notify while the timers expire
    for (int t = 0; t <= nth; ++t)
    {
        rt::note(" thread %d:", t);
        static const char* hn[] = {"one", "all", "one(scheduler)", "all(scheduler)"};
        for (auto& o : sc[t]) { if (o.sleep) rt::note(" sleep%lldus", (long long)o.sleep / 1000); if (o.k == 0) rt::note(" waiter(%d)", o.a); else rt::note(" add%d%s/%s", o.a, o.stop ? (o.sl ? "/stop-locked" : "/stop") : "", hn[o.how]); }
        rt::note("\n");
    }
    auto dp = std::make_unique<int[]>(1); data = dp.get();
    coro::mutex* m = new coro::mutex; M = m; coro::condition_variable* cv = new coro::condition_variable; CV = cv; std::stop_source* ss = new std::stop_source; SS = ss;
    pending.store(n + nn);
    sch = coro::scheduler::make_unique({.pool = {.thread_count = inl ? 1 : rt::range(1, 2)}, .execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool});
    if (calm) { rt::cfg.timejump = false; rt::label("deadlines far away"); }
    auto body = [&](int t) {
        for (auto& o : sc[t])
        {
            if (o.sleep) std::this_thread::sleep_for(nanoseconds(o.sleep));
            if (o.k == 0) waiter(o.a);
            else notifier(o.a, o.how, o.stop, o.sl, &nd[o.id]);
            rt::point();
        }
    };
    { threads ths; for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    if (all_timed && !calm && rt::chance(1, 2))
    {
        // every wait ends by itself: destroy the condition variable as soon as everybody is through with it
        while (pending.load(std::memory_order_acquire)) std::this_thread::sleep_for(microseconds(rt::range(1, 8) * 100));
        rt::label("destroyed at once");
        if (suspended_timed) rt::nontrivial();
        if (sched_notify) rt::quiesce();
        delete cv; delete m; delete ss;
        sch.reset();
        return;
    }
    auto rest = [&](const char* where, int64_t horizon) {
        struct freeze { ~freeze() { rt::cfg.timejump = true; } } fz; // no time passes while the state is checked
        rt::quiesce(horizon);
        for (int r = 0; horizon > 100000000 && r < 12; ++r) { bool t = false; for (auto& w : ws) t |= w.state == 1 && w.kind != PLAIN; if (!t) break; rt::quiesce(horizon); } // the clock may have jumped while a wait was beginning
        rt::cfg.timejump = false;
        int waiting = 0, timed = 0; for (auto& w : ws) { waiting += w.state == 1; timed += w.state == 1 && w.kind != PLAIN; }
        rt::trace("at rest (%s): %d waiting (%d timed), v=%d", where, waiting, timed, data[0]);
        for (int i = 0; i < nn; ++i) if (nd[i] != 9) rt::fail("stuck: a notify call has not returned at rest");
        if (holder != -1 || !M->try_lock()) rt::fail("lock: held at rest");
        M->unlock();
        bool all_used = false; for (auto& x : ns) all_used |= x.all;
        for (int i = 0; i < n; ++i)
        {
            W& w = ws[i];
            if (w.state == 0 || w.state == 2) rt::fail("stuck: waiter %d neither waiting nor done at rest", i);
            if (w.state != 1) continue;
            if (!w.reg) { w.reg = stamp(); if (w.kind != PLAIN) suspended_timed = true; }
            if (w.kind != PLAIN && horizon > 100000000) rt::fail("late: waiter %d still waits %lld ns after its deadline with the lock free", i, (long long)(rt::now_ns() - w.t0 - w.d));
            for (auto& x : ns)
            {
                if (!x.all || x.b < w.reg) continue;
                if (w.kind <= TPLAIN) rt::fail("lost: plain waiter %d still waits after a notify_all that began after it released the lock", i);
                if (x.b > last_mod && data[0] >= w.th) rt::fail("lost: waiter %d still waits although its predicate holds and a notify_all followed the last change", i);
                if (w.kind == TSTOP && stop_req && x.b > stop_req) rt::fail("lost: waiter %d still waits after a stop request and a notify_all", i);
            }
            if (only_plain && !all_used)
            {
                int ones = 0, res = 0;
                for (auto& x : ns) ones += x.b > w.reg;
                for (auto& z : rz) res += z > w.reg;
                if (res < ones) rt::fail("lost: %d notify_one since waiter %d waits, but only %d waiters were released", ones, i, res);
            }
        }
        return waiting;
    };
    int waiting = rest("scripts done", 0);
    if (suspended_timed) rt::nontrivial();
    if (poke && waiting)
    {
        int64_t dt = (int64_t)rt::range(1, 8) * 500000;
        rest("some timers expire", dt);
        int d = 0; ++nn; nd[nn - 1] = 9; pending.fetch_add(1);
        std::thread t([&] { notifier(rt::choose(3), rt::choose(2), false, false, &d); });
        std::this_thread::sleep_for(nanoseconds(rt::choose(3) * 500000));
        t.join();
    }
    waiting = rest("timers expire", 200 * 1000000);
    for (auto& w : ws) if (w.state == 1 && w.kind != PLAIN) rt::fail("late: a timed wait has not ended long after its deadline");
    for (int k = 0; k < 20 && waiting; ++k)
    {
        int d = 0, n0 = notified; pending.fetch_add(1);
        notifier(0, 0, false, false, &d);
        waiting = rest("draining", 200 * 1000000);
        if (notified < n0 + 1) rt::fail("lost: notify_one released nobody although plain waiters wait");
    }
    if (waiting) rt::fail("lost: %d waiters cannot be released", waiting);
    if (by_timeout) rt::label("ended by timeout");
    if (by_notify) rt::label("ended by notification");
    delete cv; delete m; delete ss;
    sch.reset();
}
