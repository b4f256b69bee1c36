// C12: a queue delivers every element once, in order, and shuts down without loss.
#include "common.hpp"
#include <coro/queue.hpp>
#include <coro/thread_pool.hpp>
const char* const harness_property = "C12";
const char* const harness_rule =
    "a case = element type (int, move-only heap value, copyable heap value), 1-4 threads with scripts of producers (push by copy / move / emplace), consumers (pop until a count or a stop), try_pop, immediate and draining shutdowns in any number, "
    "and every scheduling decision; non-trivial = a consumer really blocked, or a shutdown happened with elements or waiters present";
struct El { uint64_t pb, pe, cb, ce; int accepted; int consumed; };
static hvec<El> els; static int waiting, blockedn, open_push; static uint64_t sd_b, sd_e, dr_b, any_e; static int pushing;
struct copyable
{
    std::unique_ptr<int> p;
    copyable() = default;
    explicit copyable(int i) : p(new int(i)) {}
    copyable(const copyable& o) : p(o.p ? new int(*o.p) : nullptr) {}
    copyable(copyable&&) = default;
    copyable& operator=(const copyable& o) { p.reset(o.p ? new int(*o.p) : nullptr); return *this; }
    copyable& operator=(copyable&&) = default;
};
template<class T> T make(int i);
template<> int make<int>(int i) { return i; }
template<> std::unique_ptr<int> make<std::unique_ptr<int>>(int i) { return std::make_unique<int>(i); }
template<> copyable make<copyable>(int i) { return copyable(i); }
static int idof(int& v) { return v; }
static int idof(std::unique_ptr<int>& v) { return v ? *v : -1; }
static int idof(copyable& v) { return v.p ? *v.p : -1; }
static void consumed(int id, uint64_t b)
{
    if (id < 0 || id >= (int)els.size()) rt::fail("corrupt: delivered element %d was never pushed", id);
    El& e = els[id];
    if (e.consumed++) rt::fail("duplicate: element %d delivered twice", id);
    if (e.accepted == 2) rt::fail("refused: element %d was delivered although its push reported a stop", id);
    e.cb = b; e.ce = stamp();
    rt::trace("element %d delivered", id);
}
template<class T> static void scenario()
{
    using Q = coro::queue<T>;
    static Q* q; static coro::thread_pool* TP; static std::unique_ptr<coro::thread_pool> tp;
    struct F
    {
        static fire producer(int n, int how)
        {
            ++pushing;
            for (int i = 0; i < n; ++i)
            {
                int id = els.size(); els.push_back({stamp(), 0, 0, 0, 0, 0});
                uint64_t se = any_e;
                rt::trace("push %d", id);
                coro::queue_produce_result r;
                int h = (how + i) % 3;
                if constexpr (std::is_copy_constructible_v<T>)
                {
                    if (h == 0) { const T v = make<T>(id); r = co_await q->push(v); T w = v; if (idof(w) != id) rt::fail("corrupt: the pushed original changed"); }
                    else if (h == 1) r = co_await q->push(make<T>(id));
                    else r = co_await q->emplace(make<T>(id));
                }
                else if (h & 1) r = co_await q->push(make<T>(id));
                else r = co_await q->emplace(make<T>(id));
                El& e = els[id]; e.pe = stamp();
                if (r == coro::queue_produce_result::produced)
                {
                    if (se) rt::fail("shutdown: push %d was accepted although a shutdown had completed before it", id);
                    e.accepted = 1;
                }
                else
                {
                    e.accepted = 2;
                    if (!sd_b && !dr_b) rt::fail("refused: push %d reported a stop without a shutdown", id);
                    if (e.consumed) rt::fail("refused: push %d reported a stop although it was delivered", id);
                }
                rt::trace("push %d -> %s", id, e.accepted == 1 ? "produced" : "stopped");
                rt::point();
            }
            --pushing;
        }
        static fire consumer(int n, int* state)
        {
            for (int i = 0; i < n; ++i)
            {
                uint64_t b = stamp(), se = sd_e;
                *state = 1; ++waiting;
                auto r = co_await q->pop();
                if (*state != 1) rt::fail("dup: a consumer was resumed twice");
                *state = 2; --waiting;
                if (r)
                {
                    if (se) rt::fail("shutdown: a pop begun after an immediate shutdown completed got an element");
                    T v = std::move(*r); consumed(idof(v), b);
                }
                else
                {
                    if (r.error() != coro::queue_consume_result::stopped) rt::fail("result: pop ended with neither an element nor a stop");
                    if (!sd_b && !dr_b) rt::fail("stop: pop reported a stop without a shutdown");
                    rt::trace("pop -> stopped");
                    break;
                }
                rt::point();
            }
            *state = 9;
        }
        static fire shut(int* d) { rt::trace("shutdown"); if (!sd_b) sd_b = stamp(); co_await q->shutdown(); if (!q->is_shutdown()) rt::fail("shutdown: not reported"); rt::trace("shutdown returned"); if (!sd_e) sd_e = stamp(); if (!any_e) any_e = sd_e; *d = 9; }
        static fire drain(int* d) { rt::trace("shutdown_drain"); if (!dr_b) dr_b = stamp(); co_await q->shutdown_drain(tp); if (!q->is_shutdown()) rt::fail("shutdown: not reported"); rt::trace("shutdown_drain returned"); if (!any_e) any_e = stamp(); *d = 9; }
        static fire boot(int* d) { co_await tp->schedule(); drain(d); }
    };
    int nth = rt::weighted({2, 4, 4, 2});
    bool sd = rt::chance(2, 3);
    rt::note("threads=%d\n", nth);
    struct Op { int k, a, b; };
    hvec<hvec<Op>> sc(nth + 1);
    int np = rt::range(0, 3), nc = rt::range(0, 3), no = rt::range(0, 3), ns = sd ? rt::range(1, 3) : 0;
    auto put = [&](Op o) { auto& s = sc[rt::choose(nth + 1)]; s.insert(s.begin() + rt::choose(s.size() + 1), o); };
    for (int i = 0; i < np; ++i) put({0, (int)rt::range(1, 3), (int)rt::choose(3)});
    for (int i = 0; i < nc; ++i) put({1, (int)rt::range(1, 3), i});
    for (int i = 0; i < no; ++i) put({2, 0, 0});
    for (int i = 0; i < ns; ++i) put({3 + (int)rt::choose(2), 0, i});
    for (int t = 0; t <= nth; ++t) { rt::note(" thread %d:", t); static const char* nm[] = {"produce", "consume", "try_pop", "shutdown", "shutdown_drain"}; for (auto& o : sc[t]) rt::note(" %s(%d)", nm[o.k], o.a); rt::note("\n"); }
    tp = coro::thread_pool::make_unique({.thread_count = rt::range(1, 2)}); TP = tp.get();
    auto hold = std::make_unique<Q>(); q = hold.get();
    hvec<int> st(nc + 1, 0), ds(ns + 1, 0);
    static hvec<std::pair<uint64_t, uint64_t>> tstops; tstops.clear();
    auto body = [&](int t) {
        for (auto& o : sc[t])
        {
            switch (o.k)
            {
                case 0: F::producer(o.a, o.b); break;
                case 1: F::consumer(o.a, &st[o.b]); if (st[o.b] == 1) ++blockedn; break;
                case 2:
                {
                    uint64_t b = stamp(), se = sd_e;
                    auto r = q->try_pop();
                    if (r) { if (se) rt::fail("shutdown: try_pop after an immediate shutdown got an element"); T v = std::move(*r); consumed(idof(v), b); }
                    else if (r.error() == coro::queue_consume_result::stopped && !sd_b && !dr_b) rt::fail("stop: try_pop reported a stop without a shutdown");
                    else if (r.error() == coro::queue_consume_result::stopped && !sd_b) tstops.push_back({b, stamp()});
                    else if (r.error() == coro::queue_consume_result::empty && se) rt::fail("stop: try_pop after an immediate shutdown reported empty");
                    break;
                }
                case 3: ds[o.b] = 1; F::shut(&ds[o.b]); break;
                case 4: ds[o.b] = 1; if (rt::chance(1, 2)) F::boot(&ds[o.b]); else F::drain(&ds[o.b]); break;
            }
            rt::point();
        }
    };
    { threads ths; for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    if (waiting) ++blockedn;
    bool drained_by_us = ns > 0;
    if (drained_by_us && rt::chance(1, 3))
    {   // drain by polling first
        for (int i = 0; i < 12; ++i)
        {
            uint64_t b = stamp();
            auto r = q->try_pop();
            if (r) { T v = std::move(*r); consumed(idof(v), b); }
            else if (r.error() == coro::queue_consume_result::stopped) { if (!sd_b) tstops.push_back({b, stamp()}); break; }
            rt::point();
        }
    }
    int fin[2] = {0, 0};
    // a drain waits for consumers: provide one that pops until told to stop
    if (drained_by_us) { rt::trace("final consumer"); F::consumer(1000, &fin[0]); }
    rt::quiesce();
    size_t present = 0; for (auto& e : els) if (e.accepted == 1 && !e.consumed) ++present;
    if (pushing) rt::fail("stuck: a producer has not finished at rest");
    for (auto& e : els) if (!e.accepted) rt::fail("stuck: a push has not returned at rest");
    for (int i = 0; i < ns; ++i) if (ds[i] != 9) rt::fail("stuck: shutdown call %d has not returned at rest", i);
    if (!sd_b && !dr_b)
    {
        if (q->size() != present || q->empty() != (present == 0)) rt::fail("lost: %zu accepted elements undelivered but the queue holds %zu", present, q->size());
        if (present && waiting) rt::fail("stranded: %d consumers blocked while %zu elements are queued", waiting, present);
        if (q->is_shutdown()) rt::fail("shutdown: reported without one");
        auto r = q->try_pop();
        if (bool(r) != (present > 0)) rt::fail("try_pop: at rest with %zu elements returned %s", present, r ? "an element" : "none");
        if (r) { T v = std::move(*r); consumed(idof(v), stamp()); --present; }
    }
    else
    {
        if (blockedn || !els.empty()) rt::nontrivial();
        rt::label("shutdown");
        if (waiting) rt::fail("stranded: %d consumers blocked after shutdown", waiting);
        if (!sd_b && present) rt::fail("lost: draining shutdown left %zu accepted elements undelivered", present);
        auto r = q->try_pop();
        if (r || r.error() != coro::queue_consume_result::stopped) rt::fail("stop: try_pop after shutdown did not report a stop");
        int x = 0; F::consumer(1, &x); if (x != 9) rt::fail("stranded: a pop after shutdown blocked");
        F::producer(1, 0); if (els.back().accepted != 2) rt::fail("shutdown: a push after shutdown was accepted");
    }
    // an accepted element stays available while the queue is only draining
    for (auto& t : tstops) for (auto& a : els)
        if (a.accepted == 1 && a.pe && a.pe < t.first && a.consumed && a.cb > t.second) rt::fail("drain: try_pop reported a stop while an accepted element was still queued");
    // fifo: an element whose push ended before another's began is not delivered entirely after it
    for (auto& a : els) for (auto& b : els)
        if (a.accepted == 1 && b.accepted == 1 && a.pe && a.pe < b.pb && b.consumed)
        {
            if (!a.consumed) { if (!sd_b) rt::fail("order: a later element was delivered while an earlier one was not"); }
            else if (b.ce < a.cb) rt::fail("order: element pushed later was delivered before an earlier one");
        }
    if (blockedn) { rt::nontrivial(); rt::label("blocked consumer"); }
    if (waiting) rt::label("destroyed with blocked consumers");
    if (!sd_b) sd_b = stamp();
    hold.reset();
    if (waiting) rt::fail("stranded: destruction left %d consumers blocked", waiting);
    tp->shutdown(); tp.reset();
}
void harness_case()
{
    els.clear(); g_stamp = 1; waiting = blockedn = pushing = 0; sd_b = sd_e = dr_b = any_e = 0;
    switch (rt::choose(3)) { case 0: scenario<int>(); break; case 1: scenario<std::unique_ptr<int>>(); break; default: scenario<copyable>(); }
}
