// C20: a poll resumes exactly once with a true status, whenever a cause exists, and leaves the descriptor, token and scheduler as they were.
#include "common.hpp"
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <csignal>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <coro/scheduler.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C20";
const char* const harness_rule =
    "a case = a scheduler (own event loop or driven by hand, inline or on 1-2 pool threads), 1-3 channels (pipes, socket pairs) and 0-2 stop sources, up to 16 polls in sequences and side by side (read, write, both; with and without timeout and token; shared and reused descriptors and tokens; "
    "unwatchable descriptors), 0-2 threads and the main thread writing, draining, filling, half-closing, closing, reopening and signalling, with time passing to just before, at or after the deadlines, and every scheduling decision; non-trivial = at least two causes coincide for a pending poll or a descriptor or token is polled again after a poll that did not end by readiness";
using coro::poll_op; using coro::poll_status;
static std::unique_ptr<coro::scheduler> S;
// a descriptor under test: what may have been true of it, by history stamps
struct ev { uint64_t st; int d; };
struct end_t { int fd{-1}; bool sock{false}, rd{false}, wr{false}, peer_closed{false}; int peer{-1}; hvec<ev> bytes, full; uint64_t hup{0}, gone{0}, lastread{0}; int reading{0}; hvec<ev> sure; int users{0}, nonready{0}; };
static hvec<end_t> E; // ends come in pairs 2k, 2k+1
struct src { std::atomic<coro::poll_stop_source*> p; src(coro::poll_stop_source* x) : p(x) {} src(const src& o) : p(o.p.load()) {} src& operator=(const src& o) { p = o.p.load(); return *this; } coro::poll_stop_source* operator->() { return p.load(); } };
struct tok { src s; uint64_t sig; int users; int nonready; };
static hvec<tok> T;
struct pl { int e, tk, bad; poll_op op; int64_t to; int64_t t0, at; uint64_t s0, s1; int fired; poll_status r; int left; bool again, sync; };
static hvec<pl> P; static int budget; static bool harness_thread[16]; static int badfd;
static const char* opn(poll_op o) { return coro::to_string(o).c_str(); }
// bytes that might be waiting at end e at any instant of [a,b]: pos = started writes, neg = completed reads
static bool maybe_readable(const end_t& e, uint64_t a, uint64_t b)
{
    long lo = 0; bool r = false; // running upper bound
    for (auto& x : e.bytes) { if (x.st > b) break; if (x.st > a && lo > 0) r = true; lo += x.d; if (x.st >= a && lo > 0) r = true; }
    return r || lo > 0;
}
static bool maybe_writable(const end_t& e, uint64_t a, uint64_t b)
{
    bool w = true, r = false;
    for (auto& x : e.full) { if (x.st > b) break; if (x.st > a && w) r = true; w = !x.d; if (x.st >= a && w) r = true; }
    return r || w;
}
static void open_channel(int k, int kind)
{
    int f[2]; bool sock = kind == 1;
    if (sock ? socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, f) : pipe2(f, O_NONBLOCK)) rt::fail("harness: channel");
    for (int i = 0; i < 2; ++i)
    {
        auto& e = E[2 * k + i]; e.fd = f[i]; e.sock = sock; e.rd = sock || i == 0; e.wr = sock || i == 1; e.peer_closed = false; e.peer = 2 * k + 1 - i; e.bytes.clear(); e.full.clear(); e.sure.clear(); e.lastread = 0; e.hup = e.gone = 0; e.nonready = 0;
        if (sock) { int n = 4096; setsockopt(f[i], SOL_SOCKET, SO_SNDBUF, &n, sizeof n); } else fcntl(f[1], F_SETPIPE_SZ, 4096);
    }
}
static void close_end(int i)
{
    auto& e = E[i]; if (e.fd < 0) return;
    auto& p = E[e.peer]; if (p.fd >= 0) { p.peer_closed = true; if (!p.hup) p.hup = stamp(); if (!p.gone) p.gone = stamp(); }
    rt::trace("close end %d", i); int fd = e.fd; e.fd = -1; close(fd);
}
static bool put(int i, int n) // write n bytes (or all that fit, n < 0) at end i
{
    static char buf[16384]; auto& e = E[i]; auto& p = E[e.peer]; if (e.fd < 0 || !e.wr || p.fd < 0 || e.gone) return false;
    bool fill = n < 0; uint64_t at = 0;
    for (;;)
    {
        int want = fill ? 1024 : n; at = stamp(); p.bytes.push_back({at, want}); rt::trace("write at %d", i);
        ssize_t r = ::send(e.fd, buf, want, MSG_NOSIGNAL); if (r < 0 && errno == ENOTSOCK) r = ::write(e.fd, buf, want);
        if (r > 0) p.sure.push_back({stamp(), int(r)});
        if (r < want) p.bytes.push_back({stamp(), r < 0 ? -want : int(r - want)});
        if (r < 0) { if (errno != EAGAIN) return false; break; }
        if (!fill) return true;
    }
    // full from here on, unless someone was reading meanwhile
    if (!p.reading && p.lastread < at) e.full.push_back({stamp(), 1}); rt::trace("end %d full", i); return true;
}
static int drain(int i, bool all)
{
    static char buf[65536]; auto& e = E[i]; int got = 0; if (e.fd < 0 || !e.rd) return 0;
    auto& p = E[e.peer];
    for (;;)
    {
        p.full.push_back({stamp(), 0}); ++e.reading;
        ssize_t r = ::read(e.fd, buf, all ? sizeof buf : 1);
        p.full.push_back({stamp(), 0}); --e.reading; e.lastread = stamp();
        if (r > 0) { e.sure.push_back({e.lastread, -int(r)}); e.bytes.push_back({stamp(), -int(r)}); got += r; rt::trace("read %zd at %d", r, i); if (all) continue; }
        break;
    }
    return got;
}
// a timeout of centuries is none that ends here
static bool forever(int64_t to) { return to > 1000000000000; }
static bool g_jump; static bool timed(const pl& p) { return p.to > 0 && !forever(p.to); }
static void check(pl& p, int i)
{
    auto r = p.r; int64_t d = p.at - p.t0;
    if (p.bad) { if (r != poll_status::error) rt::fail("status: polling a descriptor that cannot be watched ended as %s", coro::to_string(r).c_str()); return; }
    auto& e = E[p.e];
    bool wantr = coro::poll_op_readable(p.op), wantw = coro::poll_op_writeable(p.op), hup = wantr ? e.hup && e.hup < p.s1 : e.gone && e.gone < p.s1; // a write can go on after the peer's half-close
    switch (r)
    {
        case poll_status::read:
            if (!wantr) rt::fail("status: poll %d for write ended as read", i);
            if (!maybe_readable(e, p.s0, p.s1) && !hup) rt::fail("status: poll %d ended as read but nothing was there to read", i);
            break;
        case poll_status::write:
            if (!wantw) rt::fail("status: poll %d for read ended as write", i);
            if (!maybe_writable(e, p.s0, p.s1) && !hup) rt::fail("status: poll %d ended as write but the descriptor was full throughout", i);
            break;
        case poll_status::timeout:
            if (p.to <= 0) rt::fail("status: poll %d without a timeout timed out", i);
            if ((forever(p.to) || d < p.to * 1000000)) rt::fail("early: poll %d with a timeout of %lld ms timed out after %lld ns", i, (long long)p.to, (long long)d);
            break;
        case poll_status::cancelled:
            if (p.tk < 0 || !T[p.tk].sig || T[p.tk].sig > p.s1) rt::fail("status: poll %d ended as cancelled but no token of its was signalled", i);
            break;
        case poll_status::closed:
        {
            if (!hup) rt::fail("status: poll %d ended as closed without a hang-up", i);
            long n = 0; for (auto& x : e.sure) if (x.st < p.s0) n += x.d; // written before the poll and not read until after it
            if (wantr && n > 0 && !e.reading && e.lastread < p.s0) rt::fail("status: poll %d for read ended as closed though %ld bytes were waiting throughout", i, n);
            break;
        }
        case poll_status::error: if (!(hup && e.wr && !e.sock)) rt::fail("status: poll %d ended as error", i); break;
    }
}
static bool start(bool sync);
static fire run(int i)
{
    auto& p = P[i];
    if (!p.sync) co_await S->schedule();
    p.t0 = rt::now_ns(); p.s0 = stamp();
    std::optional<coro::poll_stop_token> tk; if (p.tk >= 0) tk = T[p.tk].s->get_token();
    rt::trace("poll %d: end %d %s timeout %lld token %d%s", i, p.e, opn(p.op), (long long)p.to, p.tk, p.bad ? " unwatchable" : "");
    int fd = p.bad == 1 ? badfd : p.bad == 2 ? -1 : p.bad == 3 ? 987 : E[p.e].fd;
    bool shortly = !tk && rt::chance(1, 2); auto op = shortly ? p.to ? S->poll(fd, p.op, std::chrono::milliseconds(p.to)) : S->poll(fd, p.op) : S->poll(fd, p.op, std::chrono::milliseconds(p.to), tk); auto r = co_await op;
    auto& q = P[i]; q.s1 = stamp(); q.at = rt::now_ns(); q.r = r;
    if (q.fired++) rt::fail("dup: poll %d was resumed twice", i);
    rt::trace("poll %d ends: %s", i, coro::to_string(r).c_str());
    check(q, i);
    if (!q.bad && harness_thread[rt::tid()]) rt::fail("thread: poll %d resumed its coroutine on a thread that isn't the scheduler's", i);
    if (q.tk >= 0) { --T[q.tk].users; if (r != poll_status::cancelled) ++T[q.tk].nonready; }
    if (!q.bad) { if (r != poll_status::read && r != poll_status::write) ++E[q.e].nonready; if (r == poll_status::read && q.left & 1) drain(q.e, q.left & 2); if (r == poll_status::write && q.left & 4) put(q.e, -1); }
    if (!q.bad) --E[q.e].users;
    if (q.again) start(true);
}
static bool start(bool sync)
{
    if (budget <= 0) return false; --budget;
    pl p{}; p.tk = -1; p.e = -1; p.left = rt::choose(8); p.again = rt::chance(1, 3); p.sync = sync || rt::chance(1, 2);
    if (rt::chance(1, 25)) { p.bad = 1 + rt::choose(3); p.op = poll_op::read; p.to = rt::choose(2) * 5; if (!T.empty() && rt::chance(1, 3)) p.tk = rt::choose(T.size()); }
    else
    {
        hvec<int> c; for (size_t i = 0; i < E.size(); ++i) if (E[i].fd >= 0) c.push_back(i); if (c.empty()) return false;
        p.e = c[rt::choose(c.size())]; auto& e = E[p.e];
        p.op = e.rd && e.wr ? (rt::chance(1, 4) ? poll_op::read_write : rt::chance(1, 4) ? poll_op::write : poll_op::read) : e.rd ? poll_op::read : poll_op::write;
        static const int64_t tos[] = {0, 0, 1, 5, 5, 1000, -3}; p.to = tos[rt::choose(7)]; if (!g_jump && rt::chance(1, 8)) { static const int64_t eons[] = {INT64_MAX, INT64_MAX - 1, 1000LL * 365 * 86400 * 1000, 9223372036854LL, 9223372036855LL, INT64_MAX / 2}; p.to = eons[rt::choose(6)]; rt::label("eternal timeout"); }
        if (!T.empty() && rt::chance(2, 3)) p.tk = rt::choose(T.size());
        ++e.users; if (e.nonready) rt::nontrivial();
    }
    if (p.tk >= 0) { ++T[p.tk].users; if (T[p.tk].nonready) rt::nontrivial(); }
    P.push_back(p); run(P.size() - 1); return true;
}
static void act(int a, int x)
{
    switch (a)
    {
        case 0: put(x % E.size(), 1 + x % 7); break;
        case 1: put(x % E.size(), -1); break;
        case 2: drain(x % E.size(), true); break;
        case 3: drain(x % E.size(), false); break;
        case 4: if (!T.empty()) { auto& t = T[x % T.size()]; if (!t.sig) t.sig = stamp(); rt::trace("signal %d", int(x % T.size())); t.s->signal_stop(); } break;
        case 5: { auto& e = E[x % E.size()]; if (e.fd >= 0 && !e.users) close_end(x % E.size()); break; } // nobody may be polling the end that is closed
        case 6: { auto& e = E[x % E.size()]; if (e.fd >= 0 && e.sock && E[e.peer].fd >= 0 && !E[e.peer].hup) { E[e.peer].hup = stamp(); if (!E[e.peer].wr) e.gone = E[e.peer].gone = stamp(); rt::trace("half close %d", int(x % E.size())); e.wr = false; ::shutdown(e.fd, SHUT_WR); } break; }
        case 7: rt::point(); break;
    }
}
static short wants(poll_op o) { return (coro::poll_op_readable(o) ? POLLIN : 0) | (coro::poll_op_writeable(o) ? POLLOUT : 0) | (coro::poll_op_readable(o) ? POLLRDHUP : 0); }
static short real(int fd, short w) { struct pollfd q{fd, w, 0}; syscall(SYS_poll, &q, 1, 0); return q.revents; }
static void at_rest(bool jump)
{
    for (size_t i = 0; i < P.size(); ++i)
    {
        auto& p = P[i]; if (p.fired) continue;
        if (p.bad) rt::fail("lost: a poll of a descriptor that cannot be watched never ended");
        if (short ev = real(E[p.e].fd, wants(p.op))) rt::fail("lost: poll %d for %s is still waiting though its descriptor is ready (0x%x)", int(i), opn(p.op), ev);
        if (p.tk >= 0 && T[p.tk].sig) rt::fail("lost: poll %d is still waiting though its token was signalled", int(i));
        if (!jump && timed(p) && rt::now_ns() >= p.t0 + p.to * 1000000) rt::fail("late: poll %d with a timeout of %lld ms has not ended after %lld ns", int(i), (long long)p.to, (long long)(rt::now_ns() - p.t0));
    }
}
void harness_warmup() { signal(SIGPIPE, SIG_IGN); }
// every status and operation has a name of its own, and an operation watches what it says
static void names()
{
    static const poll_status st[] = {poll_status::read, poll_status::write, poll_status::timeout, poll_status::error, poll_status::closed, poll_status::cancelled};
    int i = rt::choose(6), j = rt::choose(6); auto &a = coro::to_string(st[i]), &b = coro::to_string(st[j]); if (a.empty() || (i != j && a == b)) rt::fail("names: statuses %d and %d are called '%s' and '%s'", i, j, a.c_str(), b.c_str());
    static const poll_op op[] = {poll_op::read, poll_op::write, poll_op::read_write};
    i = rt::choose(3), j = rt::choose(3); auto &x = coro::to_string(op[i]), &y = coro::to_string(op[j]); if (x.empty() || (i != j && x == y)) rt::fail("names: operations %d and %d are called '%s' and '%s'", i, j, x.c_str(), y.c_str());
    if (coro::poll_op_readable(op[i]) != (i != 1) || coro::poll_op_writeable(op[i]) != (i != 0)) rt::fail("names: '%s' misdescribes what it watches", x.c_str());
}
void harness_case()
{
    if (rt::chance(1, 8)) names();
    free_zero zero(rt::chance(1, 10));
    E.clear(); T.clear(); P.clear(); P.reserve(64); T.reserve(8); E.reserve(16); g_stamp = 1; memset(harness_thread, 0, sizeof harness_thread); harness_thread[0] = true; budget = 16;
    bool manual = rt::chance(1, 4), inl = manual || rt::chance(1, 2); int nt = 1 + rt::choose(2), nch = 1 + rt::choose(3), ntok = rt::choose(3), rounds = 1 + rt::weighted({3, 3, 2}), ndrv = rt::weighted({3, 2, 1});
    bool jump = g_jump = rt::chance(1, 3); rt::cfg.timejump = false;
    rt::note("scheduler: %s %s threads=%d channels=%d tokens=%d rounds=%d drivers=%d\n", manual ? "manual" : "own thread", inl ? "inline" : "pooled", nt, nch, ntok, rounds, ndrv);
    coro::scheduler::options o; o.thread_strategy = manual ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn; o.pool.thread_count = nt;
    o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
    { threads t; t.go([] {}); t.join(); }
    S = coro::scheduler::make_unique(std::move(o));
    badfd = syscall(SYS_memfd_create, "x", 0u); // epoll refuses it
    for (int i = 0; i < 2 * nch; ++i) E.push_back({}); for (int k = 0; k < nch; ++k) open_channel(k, rt::choose(2));
    for (int k = 0; k < ntok; ++k) T.push_back({new coro::poll_stop_source, 0, 0, 0});
    std::atomic<bool> stop{false}; threads drv; if (manual) drv.go([&] { while (!stop.load()) S->process_events(std::chrono::milliseconds(200)); });
    for (int r = 0; r < rounds; ++r)
    {
        struct op { int a, x; }; hvec<op> mine, theirs[2]; int n = rt::range(0, 3);
        auto gen = [&](hvec<op>& v) { for (int i = rt::range(1, 4); i > 0; --i) { op q{(int)rt::weighted({5, 2, 2, 2, 4, 1, 1, 1}), (int)rt::choose(64)}; v.push_back(q); } };
        for (int i = 0; i < ndrv; ++i) gen(theirs[i]);
        rt::cfg.timejump = jump;
        { threads ths; for (int i = 0; i < ndrv; ++i) ths.go([&, i] { harness_thread[rt::tid()] = true; for (auto& q : theirs[i]) if (q.a != 5) act(q.a, q.x); });
          int np = rt::range(1, 3); for (int i = 0; i < np; ++i) { start(false); if (rt::chance(1, 3)) rt::point(); } ths.join(); }
        rt::cfg.timejump = false;
        bool rest = !rt::chance(1, 4); if (rest) { rt::quiesce(); at_rest(jump); }
        for (int i = 0; i < n; ++i)
        {
            if (rt::chance(1, 2)) { int64_t steps[] = {0, 1000000, 5000000, 999999, 4999999, 1000000000, 1000001}; rt::advance(steps[rt::choose(7)]); }
            // two causes at once for a pending poll
            hvec<op> v; gen(v);
            int pend = -1; for (size_t k = 0; k < P.size(); ++k) if (!P[k].fired && !P[k].bad) pend = k;
            if (pend >= 0 && rest && rt::chance(1, 2))
            {
                auto& p = P[pend]; int c = 0;
                if (p.e >= 0 && coro::poll_op_readable(p.op) && E[E[p.e].peer].fd >= 0 && rt::chance(2, 3)) { put(E[p.e].peer, 3); ++c; }
                if (p.tk >= 0 && rt::chance(1, 2)) { act(4, p.tk); ++c; }
                if (timed(p) && rt::chance(1, 2)) { ++c; int64_t left = p.t0 + p.to * 1000000 - rt::now_ns(); if (left > 0) rt::advance(left); }
                if (c > 1) { rt::nontrivial(); rt::label("causes coincide"); }
            }
            else for (auto& q : v) act(q.a, q.x);
            if (rt::chance(2, 3)) { rt::quiesce(); at_rest(jump); rest = true; } else rest = false;
        }
        rt::quiesce(); at_rest(jump);
        // descriptors and tokens nobody uses may go away; their numbers are used again
        for (int k = 0; k < nch; ++k) if (!E[2 * k].users && !E[2 * k + 1].users && rt::chance(1, 4)) { close_end(2 * k); close_end(2 * k + 1); open_channel(k, rt::choose(2)); rt::label("reopened"); }
        for (auto& t : T) if (!t.users && rt::chance(1, 4)) { if (rt::chance(1, 2)) { auto* m = new coro::poll_stop_source(std::move(*t.s.p.load())); delete t.s.p.load(); t.s = src{m}; } else { delete t.s.p.load(); t = tok{new coro::poll_stop_source, 0, 0, 0}; } }
    }
    rt::quiesce(); at_rest(jump);
    budget = 0;
    // every poll left has a cause sooner or later: its token, its deadline or its peer closing
    for (int guard = 0; guard < 40; ++guard)
    {
        int k = -1; for (size_t i = 0; i < P.size(); ++i) if (!P[i].fired) k = i;
        if (k < 0) break;
        auto& p = P[k]; int c = rt::choose(3);
        if (c == 0 && p.tk >= 0) act(4, p.tk);
        else if (c == 1 && timed(p)) { int64_t left = p.t0 + p.to * 1000000 - rt::now_ns(); rt::advance(left > 0 ? left : 5000000); }
        else
        {
            int pe = E[p.e].peer; bool busy = false; for (auto& q : P) if (!q.fired && q.e == pe) busy = true;
            if (busy) { auto* x = E[p.e].sock ? &E[pe] : nullptr; if (x) { E[p.e].hup = E[p.e].hup ? E[p.e].hup : stamp(); E[pe].hup = E[pe].hup ? E[pe].hup : stamp(); E[p.e].gone = E[p.e].gone ? E[p.e].gone : stamp(); E[pe].gone = E[pe].gone ? E[pe].gone : stamp(); ::shutdown(x->fd, SHUT_RDWR); } else if (coro::poll_op_readable(p.op)) put(pe, 1); else drain(pe, true); }
            else close_end(pe);
        }
        rt::quiesce(); at_rest(jump);
    }
    for (size_t i = 0; i < P.size(); ++i) if (P[i].fired != 1) rt::fail("lost: poll %d ended %d times", int(i), P[i].fired);
    rt::quiesce(3000000000LL);
    if (S->size() != 0) rt::fail("count: size() is %zu at rest", S->size());
    stop = true; drv.join(); S.reset(); for (size_t i = 0; i < E.size(); ++i) close_end(i); for (auto& t : T) delete t.s.p.load(); T.clear(); syscall(SYS_close, badfd);
}
