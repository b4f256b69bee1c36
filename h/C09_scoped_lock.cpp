// C09: a scoped lock releases the mutex it owns exactly once.
#include "common.hpp"
#include <coro/mutex.hpp>
#include <coro/task.hpp>
#include <optional>
const char* const harness_property = "C09";
const char* const harness_rule =
    "a case = 1-3 mutexes, 2-6 scoped_lock objects per thread, 1-2 threads with histories of acquire (into a new object, move-assigned over an old one, adopted after try_lock, through a blocked waiter), "
    "move-construct, move-assign, self-assign, unlock, destroy, region left by exception, region dropped while suspended; after every step each mutex must be locked iff the model has an owner; "
    "non-trivial = at least one object was moved or assigned while some object owned a mutex";
using coro::mutex; using coro::scoped_lock;
struct Slot { alignas(scoped_lock) unsigned char mem[sizeof(scoped_lock)]; bool live; int owns; bool pending; int th;
    scoped_lock* p() { return reinterpret_cast<scoped_lock*>(mem); } };
static Slot slots[16]; static int owner[4], waiting[4]; static mutex* ms[4]; static int nm, ns; static bool exact; static int regions;
static void own(int m, int s)
{
    if (owner[m] != -1) rt::fail("double: lock %d acquired by object %d while object %d owns it", m, s, owner[m]);
    owner[m] = s; if (s < 16) slots[s].owns = m;
}
static void model_release(int s) { int m = slots[s].owns; slots[s].owns = -1; if (m >= 0) owner[m] = -1; }
static void place(int s, int m, scoped_lock&& l)
{
    if (slots[s].live)
    {
        // the temporary's mutex moves in, what the object owned before is released
        model_release(s);
        own(m, s);
        *slots[s].p() = std::move(l);
    }
    else { slots[s].live = true; own(m, s); new (slots[s].mem) scoped_lock(std::move(l)); }
}
static fire acquire(int s, int m)
{
    slots[s].pending = true; ++waiting[m];
    auto l = co_await ms[m]->scoped_lock();
    --waiting[m];
    rt::trace("object %d acquired mutex %d", s, m);
    place(s, m, std::move(l));
    slots[s].pending = false;
}
// a guarded region: its lock object has the pseudo id 100+m
static coro::task<int> region(int m, int how, gate* g)
{
    ++waiting[m];
    auto l = co_await ms[m]->scoped_lock();
    --waiting[m];
    own(m, 100 + m);
    rt::trace("region owns mutex %d", m);
    if (how & 2) co_await *g;
    rt::trace("region on mutex %d leaves", m);
    owner[m] = -1;
    if (how & 1) throw boom{m};
    co_return m;
}
static fire drive(int m, int how, gate* g, int* st)
{
    ++regions;
    try { int v = co_await region(m, how, g); if (v != m || (how & 1)) rt::fail("region: wrong result"); }
    catch (boom& b) { if (!(how & 1) || b.id != m) rt::fail("region: wrong exception"); }
    --regions; *st = 0;
}
static void check(int t)
{
    for (int m = 0; m < nm; ++m)
    {
        int o = owner[m];
        if (!exact) { bool mine = o >= 0 && o < 16 && slots[o].th == t && !slots[o].pending; if (!mine) continue; if (ms[m]->try_lock()) rt::fail("released: mutex %d is free although object %d owns it", m, o); continue; }
        if (o == -1)
        {
            if (waiting[m]) rt::fail("stranded: nobody owns mutex %d but %d acquirers wait", m, waiting[m]);
            if (!ms[m]->try_lock()) rt::fail("leaked: mutex %d is locked although no object owns it", m);
            ms[m]->unlock();
        }
        else if (ms[m]->try_lock()) rt::fail("released: mutex %d is free although object %d owns it", m, o);
    }
}
void harness_case()
{
    nm = rt::range(1, 3); int nth = rt::chance(1, 3) ? 2 : 1; exact = nth == 1; int per = rt::range(2, 6); ns = per * nth; if (ns > 12) { per = 6; ns = 12; }
    regions = 0;
    auto hold = std::make_unique<mutex[]>(nm);
    for (int i = 0; i < nm; ++i) { ms[i] = &hold[i]; owner[i] = -1; waiting[i] = 0; }
    for (int i = 0; i < ns; ++i) { slots[i].live = false; slots[i].owns = -1; slots[i].pending = false; slots[i].th = i / per; }
    int nops = rt::range(3, 14);
    struct Op { int k, a, b, m; };
    hvec<hvec<Op>> sc(nth);
    rt::note("mutexes=%d threads=%d objects=%d\n", nm, nth, per);
    static const char* names[] = {"acquire", "move_new", "move_assign", "unlock", "destroy", "adopt", "self_assign", "region", "release_region", "drop_region"};
    for (int i = 0; i < nops; ++i)
    {
        int t = rt::choose(nth);
        Op o{(int)rt::weighted({8, 4, 6, 4, 4, 3, 1, 3, 3, 3}), t * per + (int)rt::choose(per), t * per + (int)rt::choose(per), (int)rt::choose(nm)};
        sc[t].push_back(o);
    }
    for (int t = 0; t < nth; ++t) { rt::note(" thread %d:", t); for (auto& o : sc[t]) rt::note(" %s(%d,%d,m%d)", names[o.k], o.a, o.b, o.m); rt::note("\n"); }
    bool moved = false;
    hvec<gate> gates(nth * 4); hvec<int> gst(nth * 4, 0);
    struct Held { std::optional<coro::task<int>> t; gate g; };
    auto body = [&](int t) {
        int gi = 0;
        for (auto& o : sc[t])
        {
            int ia = o.a, ib = o.b;
            if (o.k == 1 || o.k == 2 || o.k == 3)
            {   // prefer an owning source, and a target of the right kind
                int own_n = 0, tgt_n = 0;
                for (int i = t * per; i < (t + 1) * per; ++i) own_n += slots[i].live && slots[i].owns >= 0 && !slots[i].pending;
                if (own_n) { int w = o.a % own_n; for (int i = t * per; i < (t + 1) * per; ++i) if (slots[i].live && slots[i].owns >= 0 && !slots[i].pending && w-- == 0) ia = i; }
                auto fit = [&](int i) { return i != ia && !slots[i].pending && slots[i].live == (o.k == 2); };
                for (int i = t * per; i < (t + 1) * per; ++i) tgt_n += fit(i);
                if (tgt_n) { int w = o.b % tgt_n; for (int i = t * per; i < (t + 1) * per; ++i) if (fit(i) && w-- == 0) ib = i; }
            }
            if (o.k == 3 && exact && o.b % 3 == 0) { ia = o.a; }
            o.a = ia; o.b = ib;
            Slot& A = slots[o.a]; Slot& B = slots[o.b];
            switch (o.k)
            {
                case 0:
                    if (A.pending || A.owns == o.m) break;
                    // never block on a mutex the same object would have to give up, and keep one waiter per object
                    acquire(o.a, o.m);
                    break;
                case 1: // move construct B from A
                    if (A.pending || B.pending || !A.live || B.live || o.a == o.b) break;
                    rt::trace("object %d move-constructed from %d", o.b, o.a);
                    new (B.mem) scoped_lock(std::move(*A.p())); B.live = true;
                    B.owns = A.owns; A.owns = -1; if (B.owns >= 0) { owner[B.owns] = o.b; moved = true; }
                    break;
                case 2:
                    if (A.pending || B.pending || !A.live || !B.live || o.a == o.b) break;
                    rt::trace("object %d = move(%d)", o.b, o.a);
                    if (A.owns >= 0 || B.owns >= 0) moved = true;
                    {
                        int m = A.owns; A.owns = -1;
                        model_release(o.b);
                        if (m >= 0) { owner[m] = -1; own(m, o.b); }
                    }
                    *B.p() = std::move(*A.p());
                    break;
                case 3:
                    // an explicit unlock may run a waiter inline that acquires into this very object
                    if (!A.live || (A.pending && !exact)) break;
                    rt::trace("object %d unlock", o.a);
                    model_release(o.a);
                    A.p()->unlock();
                    break;
                case 4:
                    if (!A.live || A.pending) break;
                    rt::trace("object %d destroyed", o.a);
                    A.live = false; model_release(o.a);
                    A.p()->~scoped_lock();
                    break;
                case 5:
                    if (A.pending || A.live) break;
                    if (ms[o.m]->try_lock()) { rt::trace("object %d adopts mutex %d", o.a, o.m); own(o.m, o.a); A.live = true; new (A.mem) scoped_lock(*ms[o.m]); }
                    else if (exact && owner[o.m] == -1) rt::fail("trylock: failed on a free mutex");
                    break;
                case 6:
                    if (A.pending || !A.live) break;
                    rt::trace("object %d self-assigned", o.a);
                    { auto* p = A.p(); auto* q = A.p(); *p = std::move(*q); }
                    break;
                case 7:
                    if (gi < 4) { int g = t * 4 + gi++; gst[g] = 1; drive(o.m, (o.a & 1) | (o.b & 1) * 2, &gates[g], &gst[g]); }
                    break;
                case 8: { int g = t * 4 + (o.a & 3); gates[g].release(); break; }
                case 9:
                {
                    // run a region only as far as holding the lock, then drop it
                    if (!exact || owner[o.m] != -1) break;
                    gate g; 
                    { auto tk = region(o.m, 2, &g); tk.resume(); if (owner[o.m] != 100 + o.m) rt::fail("region: did not get a free mutex"); rt::trace("region on mutex %d dropped", o.m); owner[o.m] = -1; g.h = nullptr; }
                    break;
                }
            }
            check(t);
            rt::point();
        }
    };
    { threads ths; if (nth == 2) ths.go([&] { body(1); }); body(0); ths.join(); }
    for (int k = 0; k < 200; ++k)
    {
        bool any = false;
        for (auto& g : gates) any |= g.release();
        for (int i = 0; i < ns; ++i) if (slots[i].live && !slots[i].pending) { any = true; slots[i].live = false; model_release(i); slots[i].p()->~scoped_lock(); }
        for (int i = 0; i < ns; ++i) if (slots[i].live && slots[i].owns >= 0) { any = true; model_release(i); slots[i].p()->unlock(); }
        if (!any) break;
    }
    exact = true; check(0);
    if (regions) rt::fail("stranded: %d guarded regions never finished", regions);
    for (int i = 0; i < ns; ++i) if (slots[i].pending) rt::fail("stranded: object %d still waits", i);
    if (moved) { rt::nontrivial(); rt::label("moved while owning"); }
    if (nth == 2) rt::label("two threads");
}
