// C13: a ring buffer is a bounded FIFO that never loses, duplicates or strands.
#include "common.hpp"
#include <coro/ring_buffer.hpp>
#include <coro/thread_pool.hpp>
const char* const harness_property = "C13";
const char* const harness_rule =
    "a case = element type (int, move-only heap value), capacity 1-4, 1-4 threads with scripts of producers, consumers (until a count or a stop), notify_producers/consumers, immediate and draining shutdowns in any number, size queries, "
    "and every scheduling decision; non-trivial = a producer or consumer really blocked";
namespace rr = coro::ring_buffer_result;
struct El { uint64_t pb, pe, cb, ce; int result; int consumed; }; // result 1 produced 2 notified 3 stopped
static hvec<El> els; static int cwait, pwait, blockedn, live_prod; static uint64_t sd_b, sd_e, dr_b, any_e, np_b, nc_b; static size_t cap; static int notified_c;
template<class T> T make(int i);
template<> int make<int>(int i) { return i; }
template<> std::unique_ptr<int> make<std::unique_ptr<int>>(int i) { return std::make_unique<int>(i); }
static int idof(int& v) { return v; }
static int idof(std::unique_ptr<int>& v) { return v ? *v : -1; }
static void consumed(int id, uint64_t b)
{
    if (id < 0 || id >= (int)els.size()) rt::fail("corrupt: consumed element %d was never produced", id);
    El& e = els[id];
    if (e.consumed++) rt::fail("duplicate: element %d consumed twice", id);
    if (e.result > 1) rt::fail("refused: element %d was consumed although produce() reported %s", id, e.result == 2 ? "notified" : "stopped");
    e.cb = b; e.ce = stamp();
    rt::trace("element %d consumed", id);
}
template<class T, size_t N> static void scenario()
{
    using Q = coro::ring_buffer<T, N>;
    static Q* q; static std::unique_ptr<coro::thread_pool> tp;
    cap = N;
    struct F
    {
        static fire producer(int n, int* state)
        {
            ++live_prod;
            for (int i = 0; i < n; ++i)
            {
                int id = els.size(); els.push_back({stamp(), 0, 0, 0, 0, 0});
                uint64_t se = any_e;
                rt::trace("produce %d", id);
                *state = 1; ++pwait;
                auto r = co_await q->produce(make<T>(id));
                if (*state != 1) rt::fail("dup: a producer was resumed twice");
                *state = 2; --pwait;
                El& e = els[id]; e.pe = stamp();
                rt::trace("produce %d -> %s", id, r == rr::produce::produced ? "produced" : r == rr::produce::notified ? "notified" : "stopped");
                if (r == rr::produce::produced) { e.result = 1; if (se) rt::fail("shutdown: element %d was produced although a shutdown had completed before", id); }
                else if (r == rr::produce::notified) { e.result = 2; if (!np_b) rt::fail("notified: produce %d reports a notification nobody sent", id); }
                else { e.result = 3; if (r != rr::produce::stopped) rt::fail("result: unknown"); if (!sd_b && !dr_b) rt::fail("stop: produce %d reports a stop without a shutdown", id); }
                if (e.result > 1 && e.consumed) rt::fail("refused: produce %d reports it was not produced, but it was consumed", id);
                if (e.result == 3) break;
                rt::point();
            }
            *state = 9; --live_prod;
        }
        static fire consumer(int n, int* state)
        {
            for (int i = 0; i < n; ++i)
            {
                uint64_t b = stamp(), se = sd_e;
                *state = 1; ++cwait;
                auto r = co_await q->consume();
                if (*state != 1) rt::fail("dup: a consumer was resumed twice");
                *state = 2; --cwait;
                if (r) { if (se) rt::fail("shutdown: a consume begun after an immediate shutdown got an element"); T v = std::move(*r); consumed(idof(v), b); }
                else if (r.error() == rr::consume::notified) { rt::trace("consume -> notified"); ++notified_c; if (!nc_b) rt::fail("notified: consume reports a notification nobody sent"); }
                else { if (r.error() != rr::consume::stopped) rt::fail("result: unknown"); if (!sd_b && !dr_b) rt::fail("stop: consume reports a stop without a shutdown"); rt::trace("consume -> stopped"); break; }
                rt::point();
            }
            *state = 9;
        }
        static fire shut(int* d) { rt::trace("shutdown"); if (!sd_b) sd_b = stamp(); co_await q->shutdown(); if (!q->is_shutdown()) rt::fail("shutdown: not reported"); rt::trace("shutdown returned"); if (!sd_e) sd_e = stamp(); if (!any_e) any_e = sd_e; *d = 9; }
        static fire drain(int* d, bool hop) { if (hop) co_await tp->schedule(); rt::trace("shutdown_drain"); if (!dr_b) dr_b = stamp(); co_await q->shutdown_drain(tp); if (!q->is_shutdown()) rt::fail("shutdown: not reported"); rt::trace("shutdown_drain returned"); if (!any_e) any_e = stamp(); *d = 9; }
        static fire notify(bool prod, int* d) { rt::trace("notify_%s", prod ? "producers" : "consumers"); auto& b = prod ? np_b : nc_b; if (!b) b = stamp(); if (prod) co_await q->notify_producers(); else co_await q->notify_consumers(); *d = 9; }
    };
    int nth = rt::weighted({2, 4, 4, 2});
    rt::note("capacity=%zu threads=%d\n", N, nth);
    struct Op { int k, a, b; };
    hvec<hvec<Op>> sc(nth + 1);
    int np = rt::range(0, 3), nc = rt::range(0, 3), nn = rt::weighted({3, 2, 1}), ns = rt::chance(1, 2) ? rt::range(1, 3) : 0, nq = rt::range(0, 2);
    auto put = [&](Op o) { auto& s = sc[rt::choose(nth + 1)]; s.insert(s.begin() + rt::choose(s.size() + 1), o); };
    for (int i = 0; i < np; ++i) put({0, (int)rt::range(1, 4), i});
    for (int i = 0; i < nc; ++i) put({1, (int)rt::range(1, 4), i});
    for (int i = 0; i < nn; ++i) put({2, (int)rt::choose(2), i});
    for (int i = 0; i < ns; ++i) put({3 + (int)rt::choose(3), 0, i});
    for (int i = 0; i < nq; ++i) put({6, 0, 0});
    for (int t = 0; t <= nth; ++t) { rt::note(" thread %d:", t); static const char* nm[] = {"produce", "consume", "notify", "shutdown", "drain", "drain_hop", "size"}; for (auto& o : sc[t]) rt::note(" %s(%d)", nm[o.k], o.a); rt::note("\n"); }
    tp = coro::thread_pool::make_unique({.thread_count = rt::range(1, 2)});
    auto hold = std::make_unique<Q>(); q = hold.get();
    if (q->max_size() != N) rt::fail("max_size: wrong");
    hvec<int> ps(np + 4, 0), cs(nc + 4, 0), ds(ns + 1, 0), ns_(nn + 4, 0);
    auto body = [&](int t) {
        for (auto& o : sc[t])
        {
            switch (o.k)
            {
                case 0: F::producer(o.a, &ps[o.b]); if (ps[o.b] == 1) ++blockedn; break;
                case 1: F::consumer(o.a, &cs[o.b]); if (cs[o.b] == 1) ++blockedn; break;
                case 2: ns_[o.b] = 1; F::notify(o.a, &ns_[o.b]); break;
                case 3: ds[o.b] = 1; F::shut(&ds[o.b]); break;
                case 4: case 5: ds[o.b] = 1; F::drain(&ds[o.b], o.k == 5); break;
                case 6: { size_t s = q->size(); if (s > N) rt::fail("capacity: size %zu", s); break; }
            }
            rt::point();
        }
    };
    { threads ths; for (int t = 1; t <= nth; ++t) ths.go([&, t] { body(t); }); body(0); ths.join(); }
    if (cwait || pwait) ++blockedn;
    int fin = 0, fin2 = 0;
    if (ns) { rt::trace("final consumer"); F::consumer(1000, &fin); }
    rt::quiesce();
    for (int i = 0; i < ns; ++i) if (ds[i] != 9) rt::fail("stuck: shutdown call %d has not returned at rest", i);
    for (int i = 0; i < nn; ++i) if (ns_[i] != 9) rt::fail("stuck: notify call %d has not returned at rest", i);
    auto present = [&] { size_t p = 0; for (auto& e : els) if (e.result == 1 && !e.consumed) ++p; return p; };
    auto rest = [&](const char* where) {
        rt::quiesce();
        size_t p = present();
        rt::trace("at rest (%s): stored %zu, producers waiting %d, consumers waiting %d", where, q->size(), pwait, cwait);
        if (q->size() > N) rt::fail("capacity: size %zu exceeds %zu", q->size(), N);
        if (q->size() != p) rt::fail("lost: %zu produced elements unconsumed but %zu stored", p, q->size());
        if (q->empty() != (p == 0) || q->full() != (p == N)) rt::fail("size: empty/full disagree with the size");
        if (pwait && p < N) rt::fail("stranded: %d producers blocked with %zu of %zu stored", pwait, p, N);
        if (cwait && p) rt::fail("stranded: %d consumers blocked with %zu stored", cwait, p);
    };
    if (!sd_b && !dr_b)
    {
        if (q->is_shutdown()) rt::fail("shutdown: reported without one");
        rest("scripts done");
        int act = rt::choose(4);
        if (act == 1)
        {   // everyone blocked at rest is released by a notification
            int w = cwait, n0 = notified_c; bool again = false; for (auto s : cs) again |= s == 1;
            int d = 0; F::notify(false, &d); if (d != 9) rt::fail("stuck: notify at rest");
            if (notified_c != n0 + w) rt::fail("notify: %d consumers blocked, %d released", w, notified_c - n0);
            w = pwait; int r0 = 0, r1 = 0; for (auto& e : els) r0 += e.result == 2;
            d = 0; F::notify(true, &d); for (auto& e : els) r1 += e.result == 2;
            if (r1 != r0 + w) rt::fail("notify: %d producers blocked, %d released", w, r1 - r0);
            rest("notified");
        }
        else if (act == 2 && pwait) { size_t c = 0; for (auto& e : els) c += e.consumed; F::consumer(1, &fin2); if (fin2 != 9) rt::fail("stranded: consume on a full buffer blocked"); rest("consumed one"); }
        else if (act == 3 && cwait) { F::producer(1, &fin2); if (fin2 != 9) rt::fail("stranded: produce with waiting consumers blocked"); rest("produced one"); }
    }
    else
    {
        rt::label(sd_b ? "shutdown" : "drain");
        if (cwait || pwait) rt::fail("stranded: %d producers and %d consumers blocked after shutdown", pwait, cwait);
        if (!sd_b && present()) rt::fail("lost: draining shutdown left %zu produced elements unconsumed", present());
        int x = 0; F::consumer(1, &x); if (x != 9) rt::fail("stranded: consume after shutdown blocked");
        x = 0; F::producer(1, &x); if (x != 9 || els.back().result != 3) rt::fail("shutdown: produce after shutdown not refused");
    }
    for (auto& a : els) for (auto& b : els)
        if (a.result == 1 && b.result == 1 && a.pe < b.pb && b.consumed)
        {
            if (!a.consumed) { if (!sd_b) rt::fail("order: a later element was consumed while an earlier one was not"); }
            else if (b.ce < a.cb) rt::fail("order: an element produced later was consumed before an earlier one");
        }
    if (blockedn) { rt::nontrivial(); rt::label("blocked"); }
    if (cwait || pwait) rt::label("destroyed with waiters");
    if (!sd_b) sd_b = stamp();
    hold.reset();
    if (cwait || pwait) rt::fail("stranded: destruction left %d producers and %d consumers blocked", pwait, cwait);
    tp->shutdown(); tp.reset();
}
void harness_case()
{
    els.clear(); g_stamp = 1; cwait = pwait = blockedn = live_prod = notified_c = 0; sd_b = sd_e = dr_b = any_e = np_b = nc_b = 0;
    switch (rt::choose(6))
    {
        case 0: scenario<int, 1>(); break; case 1: scenario<int, 2>(); break; case 2: scenario<int, 3>(); break;
        case 3: scenario<std::unique_ptr<int>, 1>(); break; case 4: scenario<std::unique_ptr<int>, 2>(); break; default: scenario<std::unique_ptr<int>, 4>();
    }
}
