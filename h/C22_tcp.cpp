// C22: TCP transfers deliver exactly the bytes sent, and counts and statuses are true.
#include "common.hpp"
#include <csignal>
#include <cstring>
#include <span>
#include <string>
#include <netinet/in.h>
#include <sys/socket.h>
#include <coro/net/tcp/client.hpp>
#include <coro/net/tcp/server.hpp>
#include <coro/scheduler.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C22";
const char* const harness_rule =
    "a case = a scheduler (inline or 1-3 pool threads), 1-2 connections over IPv4 or IPv6 made at once, in progress, late, refused or never, both directions in use at the same time, each end with plans of write_some / write_all / read_some / read_exact of 0 to 40000 bytes in several buffer types with and without timeouts, small socket buffers, "
    "short transfers, would-block, interrupts and errors injected at any call, ends half-closed, aborted, moved and copied on the way, and every scheduling decision; non-trivial = a transfer was split, refused for now or resumed, or an end closed while the other wrote";
using namespace std::chrono_literals; using coro::net::io_status; using kind = io_status::kind;
void harness_warmup() { signal(SIGPIPE, SIG_IGN); }
static unsigned char pat(int d, uint64_t o) { uint64_t x = (o + 1) * 0x9E3779B97F4A7C15ull + d * 0xD1B54A32D192ED03ull; return x >> 53; }
struct dirn { uint64_t sent{0}, recvd{0}; bool trying{false}, fin{false}, over{false}; uint64_t attempt{0}; };
struct endp
{
    std::unique_ptr<coro::net::tcp::client> c; int conn, side; std::atomic<int> users{0}; bool aborted{false}, dead{false};
    // what an operation is doing now
    int rop{0}; uint64_t rwant{0}; int64_t rt0{0}, rto{0}; int wop{0}; int64_t wt0{0}, wto{0}; int64_t rend{0}; size_t runit{1};
};
static std::unique_ptr<coro::scheduler> S; static dirn D[2][2]; static endp* E[2][2]; static int nconn, dom, running; static bool g_jump, duplex; static int port;
static int faults; static bool f_short, f_again, f_err; static std::atomic<int> inj_r[2][2], inj_w[2][2]; static int inj_errno_r[2][2], inj_errno_w[2][2]; static uint64_t maxlen;
static const int errs[] = {ECONNRESET, EINTR, ENOBUFS, ETIMEDOUT, ECONNREFUSED, EMSGSIZE, ENOMEM};
static endp* by_fd(int fd) { for (auto& x : E) for (auto* e : x) if (e && e->c && e->c->socket().native_handle() == fd) return e; return nullptr; }
static int hook(const char* op, int fd, size_t* len)
{
    if (!rt::net::is_socket(fd)) return 0; bool w = strstr(op, "send") || strstr(op, "write"); endp* e = by_fd(fd); if (!e) return 0;
    if (f_short && *len > 1 && rt::chance(1, 3)) { *len = 1 + rt::choose(std::min<size_t>(*len - 1, 2000)); rt::nontrivial(); }
    if (faults <= 0) return 0;
    if (f_again && rt::chance(1, 5)) { --faults; rt::trace("%s of end %d of connection %d: would block (injected)", op, e->side, e->conn); rt::nontrivial(); ++(w ? inj_w : inj_r)[e->conn][e->side]; (w ? inj_errno_w : inj_errno_r)[e->conn][e->side] = EAGAIN; return EAGAIN; }
    if (f_err && rt::chance(1, 12)) { --faults; int x = errs[rt::choose(7)]; rt::trace("%s of end %d of connection %d: errno %d (injected)", op, e->side, e->conn, x); rt::nontrivial(); (w ? inj_errno_w : inj_errno_r)[e->conn][e->side] = x; return x; }
    return 0;
}
static bool truthful(const io_status& s, int e)
{
    switch (e)
    {
        case ECONNRESET: return s.type == kind::connection_reset; case ECONNREFUSED: return s.type == kind::connection_refused; case EMSGSIZE: return s.type == kind::message_too_big;
        case EAGAIN: return s.type == kind::would_block_or_try_again; default: return s.type == kind::native && s.native_code == e;
    }
}
#include "status.hpp"
static std::string msg(const io_status& s) { return told(s); }
static bool g_trickle; static coro::task<void> breath() { if (g_trickle) { if (rt::chance(1, 2)) co_await S->yield_for(1ms); else if (rt::chance(1, 2)) co_await S->yield_for(4ms); co_return; }  switch (rt::weighted({4, 4, 3, 3, 2, 1})) { case 0: break; case 1: co_await S->schedule(); break; case 2: co_await S->yield_for(1ms); break; case 3: rt::point(); break; case 4: co_await S->yield_for(4ms); break; case 5: co_await S->yield_for(60ms); break; } }
// no timeout, or one that is centuries away
static bool g_eternal; static std::chrono::milliseconds ms(int64_t to) { if (to || !g_eternal) return std::chrono::milliseconds(to); rt::label("eternal timeout"); return std::chrono::milliseconds::max() - std::chrono::milliseconds(rt::choose(3)); }
// a timeout isn't given at all
static bool unsaid(int64_t to) { return !to && rt::chance(1, 4); }
static int64_t gen_timeout() { if (g_trickle) return 1 + rt::choose(5); static const int64_t ts[] = {0, 0, 0, 1, 5, 50}; return ts[rt::choose(6)]; }
static size_t gen_size() { if (g_trickle) return 1 + rt::choose(4) * rt::choose(4); switch (rt::weighted({4, 3, 2, 2, 1})) { case 0: return 1 + rt::choose(4); case 1: return 1 + rt::choose(100); case 2: return 1 + rt::choose(3000); case 3: return 1 + rt::choose(maxlen); default: return 0; } }
static void timing(const char* what, int64_t t0, int64_t to, bool timed_out)
{
    int64_t el = rt::now_ns() - t0; if (to > 0 && !g_jump && el > (to + 2) * 1000000) rt::fail("late: %s with a timeout of %lld ms ended after %lld ns", what, (long long)to, (long long)el); if (!timed_out) return;
    if (to <= 0) rt::fail("timeout: %s without a timeout timed out", what);
    if (el < to * 1000000) rt::fail("timeout: %s with a timeout of %lld ms timed out after %lld ns", what, (long long)to, (long long)el);
    rt::label("timed out");
}
// the other end has gone, or this one was shut down by its user
static bool broken(endp* e) { endp* o = E[e->conn][1 - e->side]; return e->aborted || !o || o->aborted || o->dead; }
static void bad_status(endp* e, const char* what, const io_status& s, int inj, bool write)
{
    if (s.type == kind::timeout) return; // timing checked apart
    if (inj && truthful(s, inj)) return;
    if (s.type == kind::would_block_or_try_again && inj == 0 && !write) rt::fail("status: %s reported would-block though nothing blocked", what);
    if (broken(e)) return;
    rt::fail("status: %s ended as '%s' (%d) on a healthy connection", what, msg(s).c_str(), s.native_code);
}
template<class B> static coro::task<void> write_op(endp* e, bool all)
{
    dirn& d = D[e->conn][e->side]; size_t n = gen_size(); int64_t to = gen_timeout(); B b(n, typename B::value_type{}); for (size_t i = 0; i < n; ++i) b[i] = (typename B::value_type)pat(e->conn * 2 + e->side, d.sent + i);
    d.trying = true; d.attempt = n; int& inj = inj_errno_w[e->conn][e->side]; inj = 0; int64_t t0 = rt::now_ns(); e->wt0 = t0; e->wto = to; e->wop = all ? 2 : 1; const char* what = all ? "write_all" : "write_some";
    rt::trace("connection %d end %d: %s of %zu bytes, timeout %lld ms", e->conn, e->side, what, n, (long long)to);
    bool nt = unsaid(to); auto op = all ? nt ? e->c->write_all(b) : e->c->write_all(b, ms(to)) : nt ? e->c->write_some(b) : e->c->write_some(b, ms(to)); auto [st, un] = co_await op;
    e->wop = 0; d.trying = false; rt::trace("connection %d end %d: %s: '%s', %zu of %zu unsent", e->conn, e->side, what, msg(st).c_str(), un.size(), n);
    if (!un.empty() && (un.size() > n || (const void*)(un.data() + un.size()) != (const void*)(b.data() + n))) rt::fail("span: the unsent part returned by %s isn't the end of the buffer", what);
    size_t moved = n - un.size(); d.sent += moved; timing(what, t0, to, st.type == kind::timeout);
    if (st.is_ok()) { if (all && moved != n) rt::fail("count: write_all reported success with %zu of %zu bytes", moved, n); if (n && !moved) rt::fail("count: write_some reported success with no byte written"); if (inj && inj != EAGAIN && inj != EINTR && !all) rt::fail("status: an error %d was reported as success", inj); }
    else { if (!all && moved) rt::fail("count: a failed write_some moved %zu bytes", moved); bad_status(e, what, st, inj, true); }
    if (moved && moved < n) { rt::nontrivial(); rt::label("partial write"); }
}
template<class B> static coro::task<bool> read_op(endp* e, bool exact, size_t unit)
{
    dirn& d = D[e->conn][1 - e->side]; size_t n = (gen_size() + unit - 1) / unit; int64_t to = gen_timeout(); B b(n, typename B::value_type{}); memset((void*)b.data(), 0xEE, n * unit);
    int& inj = inj_errno_r[e->conn][e->side]; inj = 0; int64_t t0 = rt::now_ns(); e->rt0 = t0; e->rto = to; e->rop = exact ? 2 : 1; e->rwant = n * unit; e->rend = d.recvd + n * unit; e->runit = unit; if (!n) e->rop = 0; const char* what = exact ? "read_exact" : "read_some";
    rt::trace("connection %d end %d: %s of %zu bytes, timeout %lld ms", e->conn, e->side, what, n * unit, (long long)to);
    bool nt = unsaid(to); auto op = exact ? nt ? e->c->read_exact(b) : e->c->read_exact(b, ms(to)) : nt ? e->c->read_some(b) : e->c->read_some(b, ms(to)); auto [st, sp] = co_await op;
    e->rop = 0; rt::trace("connection %d end %d: %s: '%s', %zu of %zu", e->conn, e->side, what, msg(st).c_str(), sp.size() * unit, n * unit);
    if (!sp.empty() && (sp.size() > n || (const void*)sp.data() != (const void*)b.data())) rt::fail("span: the part read by %s isn't the beginning of the buffer (%zu elements of %zu)", what, sp.size(), n);
    size_t got = sp.size() * unit; timing(what, t0, to, st.type == kind::timeout); const unsigned char* p = (const unsigned char*)b.data();
    for (size_t i = 0; i < got; ++i) if (p[i] != pat(e->conn * 2 + 1 - e->side, d.recvd + i)) rt::fail("bytes: byte %llu of the stream arrived as %02x, not %02x", (unsigned long long)(d.recvd + i), p[i], pat(e->conn * 2 + 1 - e->side, d.recvd + i));
    if (st.type != kind::ok || exact == false) for (size_t i = got; i < n * unit && unit == 1; ++i) if (p[i] != 0xEE) { rt::fail("count: %s reported %zu bytes but wrote further into the buffer", what, got); }
    d.recvd += got; if (d.recvd > d.sent + (d.trying ? d.attempt : 0)) rt::fail("invented: %llu bytes arrived of %llu sent", (unsigned long long)d.recvd, (unsigned long long)d.sent);
    if (exact && got && got < n * unit) { rt::nontrivial(); rt::label("partial read_exact"); }
    if (st.is_ok())
    {
        if (n && !got) rt::fail("count: %s reported success with no byte read", what); if (exact && got != n * unit) rt::fail("count: read_exact reported success with %zu of %zu bytes", got, n * unit);
        if (inj && inj != EAGAIN && inj != EINTR && !exact) rt::fail("status: an error %d was reported as success", inj);
        co_return true;
    }
    if (!exact && got && unit == 1) rt::fail("count: a failed read_some returned %zu bytes", got);
    if (st.type == kind::closed)
    {
        if (!d.fin && !broken(e)) rt::fail("closed: reported before the other end closed"); endp* o = E[e->conn][1 - e->side]; (void)o;
        if (!broken(e) && d.recvd != d.sent && unit == 1) rt::fail("closed: reported after %llu of %llu bytes", (unsigned long long)d.recvd, (unsigned long long)d.sent);
        co_return false;
    }
    bad_status(e, what, st, inj, false);
    if (unit > 1) co_return false; // part of an element may be lost with an error
    if (broken(e) && st.type != kind::timeout && !inj) co_return false;
    co_return true;
}
static void leave(endp* e) { if (--e->users == 0) { if (!e->aborted && !e->dead) { D[e->conn][e->side].fin = true; } e->dead = true; e->c.reset(); rt::trace("connection %d end %d destroyed", e->conn, e->side); } }
static coro::task<void> writer(endp* e, int ops)
{
    co_await S->schedule();
    for (; ops > 0 && !e->aborted; --ops)
    {
        co_await breath(); bool all = rt::chance(1, 2);
        switch (rt::choose(3)) { case 0: co_await write_op<std::string>(e, all); break; case 1: co_await write_op<std::vector<char>>(e, all); break; case 2: co_await write_op<std::vector<std::byte>>(e, all); break; }
        if (e->users == 1 && rt::chance(1, 4))
        {
            rt::label("moved or copied"); auto& c = *e->c;
            switch (rt::choose(4)) { case 0: e->c = std::make_unique<coro::net::tcp::client>(std::move(c)); break; case 1: e->c = std::make_unique<coro::net::tcp::client>(c); break; case 2: { coro::net::tcp::client t{c}; c = t; break; } case 3: { coro::net::tcp::client t{std::move(c)}; c = std::move(t); break; } }
            if (co_await e->c->connect() != coro::net::connect_status::connected) rt::fail("status: a moved or copied client isn't connected any more");
        }
    }
    co_await breath(); int how = rt::weighted({5, 2, 1});
    if (how == 0 || how == 1) { if (!e->aborted) { rt::trace("connection %d end %d shuts down its writing side", e->conn, e->side); D[e->conn][e->side].fin = true; e->c->socket().shutdown(coro::poll_op::write); if (!D[e->conn][1 - e->side].fin) rt::label("half-closed"); if (E[e->conn][1 - e->side] && E[e->conn][1 - e->side]->wop) rt::nontrivial(); } }
    else { rt::trace("connection %d end %d aborts", e->conn, e->side); e->aborted = true; D[e->conn][e->side].fin = true; e->c->socket().shutdown(coro::poll_op::read_write); }
    leave(e);
}
static coro::task<void> reader(endp* e, bool wide)
{
    co_await S->schedule();
    for (int n = 0;; ++n)
    {
        if (n < 12) co_await breath(); bool exact = rt::chance(1, 2), more;
        if (n > 40) more = co_await read_op<std::vector<char>>(e, false, 1);
        else if (wide) more = co_await read_op<std::vector<uint32_t>>(e, exact, 4);
        else switch (rt::choose(3)) { case 0: more = co_await read_op<std::string>(e, exact, 1); break; case 1: more = co_await read_op<std::vector<unsigned char>>(e, exact, 1); break; default: more = co_await read_op<std::vector<std::byte>>(e, exact, 1); break; }
        if (!more) break; if (n > 3000) rt::fail("harness: endless reader");
    }
    leave(e);
}
static void small_buffers(coro::net::tcp::client& c) { int v = 1; setsockopt(c.socket().native_handle(), SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
static bool g_small, g_wide; static int wops[2][2];
static void start(int k, int side, coro::net::tcp::client&& c)
{
    endp* e = E[k][side]; e->c = std::make_unique<coro::net::tcp::client>(std::move(c)); if (g_small) small_buffers(*e->c);
    e->users = 2; ++running; auto go = [](endp* e, coro::task<void> t) -> fire { co_await t; (void)e; --running; }; ++running; go(e, writer(e, wops[k][side])); go(e, reader(e, g_wide && side == 0)); // a wide reader gets whole elements only from a writer which sends them
}
static int cur_k[64], cfd[2], cport[2]; static int accepted, connecting, cdone, aop; static int64_t at0, ato; static bool stopping, alive_net; static int64_t ct0[2], cto[2]; static int cmode[2], cres[2]; static std::unique_ptr<coro::net::tcp::server> V; static bool faulty_accept; static bool cest[2];
static fire acceptor(coro::scheduler* s, int want)
{
    co_await s->schedule();
    while (accepted < want || stopping)
    {
        int64_t to = gen_timeout(); at0 = rt::now_ns(); ato = to; aop = 1; auto pending_accept = unsaid(to) ? V->accept() : V->accept(ms(to)); auto r = co_await pending_accept; aop = 0;
        if (r) { sockaddr_storage pa{}; socklen_t pl = sizeof pa; getpeername(r->socket().native_handle(), (sockaddr*)&pa, &pl); int pp = ntohs(((sockaddr_in*)&pa)->sin_port), k = -1; for (int i = 0; i < nconn; ++i) if (cport[i] == pp) k = i; ++accepted; if (k < 0) rt::fail("invented: a connection nobody made was accepted"); if (E[k][1]->c || E[k][1]->users) rt::fail("invented: a connection was accepted twice"); start(k, 1, std::move(*r)); continue; }
        auto st = r.error(); rt::trace("accept: '%s'", msg(st).c_str()); timing("accept", at0, to, st.type == kind::timeout);
        if (st.is_ok()) rt::fail("status: accept failed with success");
        if (stopping) { if (st.type == kind::timeout) continue; break; }
        if (st.type != kind::timeout && st.type != kind::would_block_or_try_again) rt::fail("status: accept ended as '%s'", msg(st).c_str());
    }
    --running;
}
static fire connector(int k)
{
    co_await S->schedule(); coro::net::tcp::client c{S, coro::net::socket_address{dom == AF_INET ? "127.0.0.1" : "::1", (uint16_t)port, (coro::net::domain_t)dom}};
    int64_t to = gen_timeout(); ct0[k] = rt::now_ns(); cto[k] = to; ++connecting; cur_k[rt::tid()] = k; auto pending_connect = unsaid(to) ? c.connect() : c.connect(ms(to)); auto st = co_await pending_connect; rt::trace("connect: %s", coro::net::to_string(st).c_str()); timing("connect", ct0[k], to, st == coro::net::connect_status::timeout);
    cres[k] = 1 + (int)st; if (st == coro::net::connect_status::error && !(cmode[k] >= 3)) rt::fail("status: connect failed though nothing refused it"); if (st == coro::net::connect_status::connected && cmode[k] >= 3) rt::fail("status: connected though the connection was refused"); if (st == coro::net::connect_status::connected && cmode[k] == 2 && !cest[k]) rt::fail("status: connected before the connection was established");
    if (st == coro::net::connect_status::invalid_ip_address) rt::fail("status: invalid address");
    if (rt::chance(1, 2)) { auto again = co_await c.connect(); if (again != st) rt::fail("status: a second connect() reported something else"); }
    if (st == coro::net::connect_status::connected) { start(k, 0, std::move(c)); } else { for (int i = 0; i < 2; ++i) if (!(E[k][i]->c)) E[k][i]->dead = true; D[k][0].fin = true; }
    ++cdone; --running;
}
static int chook(int fd) { int k = cur_k[rt::tid()]; cfd[k] = fd; cport[k] = rt::net::port(fd); int m = cmode[k]; return m == 3 ? ECONNREFUSED : m == 4 ? 2 : m; }
static void at_rest(bool exactly)
{
    for (int k = 0; k < nconn; ++k) for (int s = 0; s < 2; ++s)
    {
        endp* e = E[k][s]; if (!e->c) continue; dirn& in = D[k][1 - s]; endp* o = E[k][1 - s];
        if (e->rop == 1 && ((in.sent > in.recvd && in.sent % e->runit == 0) || (in.fin && !broken(e)))) rt::fail("stalled: a read_some waits though %llu bytes%s are there", (unsigned long long)(in.sent - in.recvd), in.fin ? " and the end" : "");
        if (e->rop == 2 && (in.sent >= (uint64_t)e->rend || in.fin)) rt::fail("stalled: a read_exact waits though %llu bytes%s are there", (unsigned long long)(in.sent - in.recvd), in.fin ? " and the end" : "");
        if (e->wop && o && o->rop) rt::fail("stalled: a write waits though the other end waits for data"); if (e->wop && broken(e)) rt::fail("stalled: a write waits though the other end has gone");
        if (exactly && e->rop && e->rto && rt::now_ns() - e->rt0 > (e->rto + 2) * 1000000) rt::fail("late: a read with a timeout of %lld ms waits for %lld ns", (long long)e->rto, (long long)(rt::now_ns() - e->rt0));
        if (exactly && e->wop && e->wto && rt::now_ns() - e->wt0 > (e->wto + 2) * 1000000) rt::fail("late: a write with a timeout of %lld ms waits for %lld ns", (long long)e->wto, (long long)(rt::now_ns() - e->wt0));
    }
}
static coro::task<void> noop() { co_return; }
static void connect_names()
{
    using c = coro::net::connect_status; static const c st[] = {c::connected, c::invalid_ip_address, c::timeout, c::error};
    int i = rt::choose(4), j = rt::choose(4); auto &a = coro::net::to_string(st[i]), &b = coro::net::to_string(st[j]); if (a.empty() || (i != j && a == b)) rt::fail("names: connect statuses %d and %d are called '%s' and '%s'", i, j, a.c_str(), b.c_str());
}
void harness_case()
{
    if (rt::chance(1, 8)) connect_names();
    free_zero zero(rt::chance(1, 10));
    if (rt::chance(1, 4)) statuses();
    for (int k = 0; k < 2; ++k) for (int s = 0; s < 2; ++s) { D[k][s] = dirn{}; E[k][s] = new (malloc(sizeof(endp))) endp{}; E[k][s]->conn = k; E[k][s]->side = s; inj_errno_r[k][s] = inj_errno_w[k][s] = 0; cres[k] = 0; cest[k] = false; cfd[k] = cport[k] = -1; }
    running = 0; accepted = connecting = cdone = aop = 0; stopping = false; nconn = 1 + rt::chance(1, 4); dom = rt::chance(1, 3) ? AF_INET6 : AF_INET; port = 1000 + rt::choose(3);
    bool inl = rt::chance(1, 2); int nt = 1 + rt::choose(3); g_jump = rt::chance(1, 5); g_eternal = !g_jump && rt::chance(1, 8); g_small = rt::chance(2, 3); g_wide = rt::chance(1, 8); g_trickle = rt::chance(1, 5); f_short = rt::chance(1, 2); f_again = rt::chance(1, 2); f_err = rt::chance(1, 3); faults = rt::choose(16); maxlen = rt::chance(1, 3) ? 40000 : 8000;
    bool bad = rt::chance(1, 6); for (int k = 0; k < nconn; ++k) { cmode[k] = bad ? 2 + rt::choose(3) : rt::choose(2); for (int s = 0; s < 2; ++s) wops[k][s] = rt::choose(6); }
    if (f_short) maxlen = std::min<uint64_t>(maxlen, 8000);
    rt::note("tcp: %s threads=%d connections=%d IPv%d%s%s%s%s%s faults=%d\n", inl ? "inline" : "pooled", nt, nconn, dom == AF_INET ? 4 : 6, g_small ? " small buffers" : "", g_wide ? " wide elements" : "", f_short ? " short transfers" : "", f_again ? " would-block" : "", f_err ? " errors" : "", faults); if (g_trickle) rt::note("trickle\n");
    rt::cfg.timejump = g_jump; rt::io_hook = hook; rt::net::connect_hook = chook; if (g_wide) f_err = false;
    coro::scheduler::options o; o.pool.thread_count = nt; o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool; S = coro::scheduler::make_unique(std::move(o));
    coro::net::socket_address at{dom == AF_INET ? (rt::chance(1, 3) ? "0.0.0.0" : "127.0.0.1") : "::1", (uint16_t)port, (coro::net::domain_t)dom};
    V = std::make_unique<coro::net::tcp::server>(S, at); if (rt::chance(1, 4)) { auto t = std::make_unique<coro::net::tcp::server>(std::move(*V)); if (rt::chance(1, 2)) { *V = std::move(*t); } else V = std::move(t); }
    ++running; acceptor(S.get(), bad ? 99 : nconn); stopping = false;
    for (int k = 0; k < nconn; ++k) { ++running; connector(k); }
    int64_t wait[] = {0, 1000000, 5000000, 60000000};
    for (int i = rt::choose(4); i > 0; --i) { rt::quiesce(); at_rest(!g_jump); rt::advance(wait[rt::choose(4)]); rt::point(); }
    if (bad)
    {
        rt::quiesce();
        for (int k = 0; k < nconn; ++k) if ((cmode[k] == 2 || cmode[k] == 4) && !cres[k] && rt::net::held_index(cfd[k]) >= 0)
        {
            if (cmode[k] == 4) rt::net::refuse(rt::net::held_index(cfd[k]), rt::chance(1, 2) ? ECONNREFUSED : ETIMEDOUT); else { cest[k] = true; rt::net::establish(rt::net::held_index(cfd[k])); } rt::trace("the held connection %d is %s", k, cmode[k] == 4 ? "refused" : "established"); rt::nontrivial();
            rt::quiesce(); if (!cres[k] && nconn == 1) rt::fail("stalled: connect still waits after the connection was %s", cmode[k] == 4 ? "refused" : "established");
        }
        else if ((cmode[k] == 2 || cmode[k] == 4) && cres[k] && rt::net::held() && nconn == 1) rt::fail("harness: held");
        rt::cfg.timejump = false; rt::quiesce(); rt::advance(100000000); rt::quiesce(); // whatever is timed ends
    }
    rt::cfg.timejump = false; rt::quiesce(); at_rest(!g_jump);
    stopping = true; if (bad) { V->shutdown(); rt::quiesce(); rt::advance(100000000); rt::quiesce(); if (aop) rt::fail("stalled: accept still waits after a shutdown"); }
    for (int i = 0; i < 400 && running; ++i) { rt::quiesce(); at_rest(!g_jump); if (!running) break; rt::advance(rt::now_ns() > 60000000000ll ? 1000000000 : 20000000); }
    if (running) { if (accepted < nconn && !bad) rt::fail("stalled: a connection was never accepted"); rt::fail("stalled: the transfers don't end"); }
    for (int k = 0; k < nconn; ++k) for (int s = 0; s < 2; ++s)
    {
        endp *e = E[k][s], *w = E[k][1 - s]; dirn& d = D[k][1 - s]; if (e->c) rt::fail("harness: end left");
        if (!e->aborted && !w->aborted && cres[k] == 1 && !(g_wide && s == 0) && d.recvd != d.sent) rt::fail("lost: %llu of %llu bytes arrived", (unsigned long long)d.recvd, (unsigned long long)d.sent);
    }
    V.reset(); S->shutdown(); S.reset(); (void)noop;
    for (auto& x : E) for (auto*& e : x) { e->~endp(); free(e); e = nullptr; }
}
