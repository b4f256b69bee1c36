// C23: UDP datagrams arrive whole, with their true sender, and statuses are true.
#include "common.hpp"
#include <cstring>
#include <deque>
#include <span>
#include <string>
#include <netinet/in.h>
#include <sys/socket.h>
#include <coro/net/udp/peer.hpp>
#include <coro/scheduler.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C23";
const char* const harness_rule = "a receive was truncated by its buffer or timed out, or a send or receive would block or failed half-way, or an empty, lost or foreign datagram was involved";
using namespace std::chrono_literals; using coro::net::io_status; using kind = coro::net::io_status::kind; using coro::net::udp::peer; using coro::net::socket_address;
struct dgram { sockaddr_storage from; hvec<unsigned char> b; };
struct sock_model { const void* id; hvec<dgram> q; size_t head{0}; };       // what the network has queued for a socket, in order
struct pt                                                                    // one peer object and its coroutines
{
    std::unique_ptr<peer> p; int n, sm; std::atomic<int> users{0}; bool bound, stop{false}; int rop{0}; int64_t rt0{0}, rto{0}; int wop{0}; int64_t wt0{0}, wto{0}; bool wblocked{false};
    int inj_w{0}, inj_r{0}; int sent{0}; sockaddr_storage want_to; hvec<unsigned char> want; uint16_t port{0};
};
static std::unique_ptr<coro::scheduler> S; static pt* P[6]; static int np, running, dom; static sock_model* M[6]; static int nm; static bool g_jump, f_again, f_err; static int faults; static int raw_fd, raw2_fd, lost_num; static bool oversize; static int stop_port;
static const int errs[] = {ECONNREFUSED, EINTR, ENOBUFS, EMSGSIZE, ENOMEM, ECONNRESET, EPERM};
static bool same(const sockaddr_storage& a, const sockaddr_storage& b)
{
    if (a.ss_family != b.ss_family) return false; auto *x = (const sockaddr_in*)&a, *y = (const sockaddr_in*)&b; auto *u = (const sockaddr_in6*)&a, *v = (const sockaddr_in6*)&b;
    return a.ss_family == AF_INET ? x->sin_port == y->sin_port && x->sin_addr.s_addr == y->sin_addr.s_addr : u->sin6_port == v->sin6_port && !memcmp(&u->sin6_addr, &v->sin6_addr, 16);
}
static sockaddr_storage store(const sockaddr* s) { sockaddr_storage r; memset(&r, 0, sizeof r); memcpy(&r, s, s->sa_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)); return r; }
static int port_of(const sockaddr_storage& a) { return ntohs(((const sockaddr_in*)&a)->sin_port); }
static pt* by_fd(int fd) { for (int i = 0; i < np; ++i) if (P[i]->p && P[i]->p->socket().native_handle() == fd) return P[i]; return nullptr; }
static int hook(const char* op, int fd, size_t* len)
{
    (void)len; pt* e = by_fd(fd); if (!e || faults <= 0) return 0; bool w = strstr(op, "send") != nullptr; int& inj = w ? e->inj_w : e->inj_r;
    if (f_again && rt::chance(1, 4)) { --faults; inj = EAGAIN; rt::nontrivial(); rt::trace("peer %d: %s would block (injected)", e->n, op); return EAGAIN; }
    if (f_err && rt::chance(1, 10)) { --faults; inj = errs[rt::choose(7)]; rt::nontrivial(); rt::trace("peer %d: %s errno %d (injected)", e->n, op, inj); return inj; }
    return 0;
}
static int drop(int, size_t) { if (lost_num && rt::chance(lost_num, 8)) { rt::nontrivial(); rt::label("lost by the network"); return 1; } return 0; }
static int mmodel(const void* id) { for (int i = 0; i < nm; ++i) if (M[i]->id == id) return i; return -1; }
static void sent(const void* by, const void* to, const sockaddr* from, const sockaddr* dest, const void* data, size_t n)
{
    dgram g; g.from = store(from); g.b.assign((const unsigned char*)data, (const unsigned char*)data + n);
    int bm = mmodel(by);
    if (bm >= 0)
    {
        pt* w = nullptr; for (int i = 0; i < np; ++i) if (P[i]->sm == bm && P[i]->wop && !P[i]->sent && same(store(dest), P[i]->want_to) && g.b == P[i]->want) w = P[i];
        if (!w)
        {
            int cand = 0; for (int i = 0; i < np; ++i) if (P[i]->sm == bm && P[i]->wop) { ++cand; w = P[i]; } if (!cand) rt::fail("invented: a datagram was sent though nothing was being written"); if (cand > 1) rt::fail("bytes: the datagram sent is none of those being written");
            if (w->sent) rt::fail("twice: one write sent two datagrams"); if (!same(store(dest), w->want_to)) rt::fail("address: a datagram went to port %d instead of %d (or another address)", port_of(store(dest)), port_of(w->want_to));
            rt::fail("bytes: the datagram sent isn't the buffer given (%zu bytes of %zu)", n, w->want.size());
        }
        ++w->sent; if (w->port && port_of(g.from) != w->port) rt::fail("address: peer %d bound to port %d sent from port %d", w->n, w->port, port_of(g.from));
    }
    if (to) { int m = mmodel(to); if (m >= 0) { M[m]->q.push_back(std::move(g)); } }
}
static bool truthful(const io_status& s, int e)
{
    switch (e)
    {
        case ECONNRESET: return s.type == kind::connection_reset; case ECONNREFUSED: return s.type == kind::connection_refused; case EMSGSIZE: return s.type == kind::message_too_big;
        case EAGAIN: return s.type == kind::would_block_or_try_again; default: return s.type == kind::native && s.native_code == e;
    }
}
static bool hard(int e) { return e && e != EAGAIN && e != EINTR; }
#include "status.hpp"
static std::string msg(const io_status& s) { return told(s); }
static coro::task<void> breath() { switch (rt::weighted({4, 4, 3, 3, 2, 1})) { case 0: break; case 1: co_await S->schedule(); break; case 2: co_await S->yield_for(1ms); break; case 3: rt::point(); break; case 4: co_await S->yield_for(4ms); break; case 5: co_await S->yield_for(60ms); break; } }
// no timeout, or one that is centuries away
static bool g_eternal; static std::chrono::milliseconds ms(int64_t to) { if (to || !g_eternal) return std::chrono::milliseconds(to); rt::label("eternal timeout"); return std::chrono::milliseconds::max() - std::chrono::milliseconds(rt::choose(3)); }
// a timeout isn't given at all
static bool unsaid(int64_t to) { return !to && rt::chance(1, 4); }
static int64_t gen_timeout() { static const int64_t ts[] = {0, 0, 0, 1, 5, 50}; return ts[rt::choose(6)]; }
static size_t gen_size() { switch (rt::weighted({4, 3, 2, 1, 1})) { case 0: return 1 + rt::choose(4); case 1: return 1 + rt::choose(100); case 2: return 1 + rt::choose(3000); case 3: return 1 + rt::choose(oversize ? 70000 : 9000); default: return 0; } }
static void timing(const char* what, int64_t t0, int64_t to, bool timed_out)
{
    int64_t el = rt::now_ns() - t0; if (to > 0 && !g_jump && el > (to + 1) * 1000000) rt::fail("late: %s with a timeout of %lld ms ended after %lld ns", what, (long long)to, (long long)el);
    if (!timed_out) return; rt::nontrivial(); rt::label("timed out");
    if (to <= 0) rt::fail("timeout: %s without a timeout timed out", what); if (el < to * 1000000) rt::fail("timeout: %s with a timeout of %lld ms timed out after %lld ns", what, (long long)to, (long long)el);
}
static socket_address addr(int port, const char* v4 = "127.0.0.1", const char* v6 = "::1", int d = 0) { if (!d) d = dom; return socket_address{d == AF_INET ? v4 : v6, (uint16_t)port, (coro::net::domain_t)d}; }
template<class B> static coro::task<void> write_op(pt* e)
{
    size_t n = gen_size(); int64_t to = gen_timeout(); B b(n, typename B::value_type{}); unsigned sd = rt::choose(65536); for (size_t i = 0; i < n; ++i) b[i] = (typename B::value_type)(sd ? ((sd + i) * 2654435761u) >> 9 : 0);
    int port, kindn = rt::weighted({10, 2, 1, 1}), d = dom; const char *v4 = "127.0.0.1", *v6 = "::1";
    if (kindn == 0) port = P[rt::choose(np)]->port; else port = 0; if (!port) port = 4000; if (kindn == 2) { port = 0; } if (kindn == 3) { d = dom == AF_INET ? AF_INET6 : AF_INET; } if (rt::chance(1, 8)) { v4 = "127.0.0.2"; v6 = "fe80::1234"; }
    auto a = addr(port, v4, v6, d); e->want_to = store(a.data().first); e->want.assign((const unsigned char*)b.data(), (const unsigned char*)b.data() + n * sizeof(typename B::value_type)); n *= sizeof(typename B::value_type);
    e->sent = 0; e->inj_w = 0; int64_t t0 = rt::now_ns(); e->wt0 = t0; e->wto = to; e->wop = 1; rt::trace("peer %d: write of %zu bytes to port %d, timeout %lld ms", e->n, n, port, (long long)to);
    bool nt = unsaid(to); auto op = nt ? e->p->write_to(a, b) : e->p->write_to(a, b, ms(to));
    auto st = co_await op; e->wop = 0; rt::trace("peer %d: write: '%s'", e->n, msg(st).c_str()); timing("write_to", t0, to, st.type == kind::timeout);
    if (!n) { if (!st.is_ok()) rt::fail("status: writing nothing ended as '%s'", msg(st).c_str()); if (e->sent && n) rt::fail("twice"); co_return; }
    if (hard(e->inj_w) && !truthful(st, e->inj_w)) rt::fail("status: the error %d of a write was reported as '%s'", e->inj_w, msg(st).c_str());
    bool invalid = kindn >= 2; // port 0 or the other family
    if (st.is_ok()) { if (!e->sent) rt::fail("lost: write_to reported success but sent nothing"); co_return; }
    if (e->sent) rt::fail("status: write_to sent its datagram but reported '%s'", msg(st).c_str());
    if (st.type == kind::timeout) { if (!g_jump && !e->wblocked && !e->inj_w) rt::fail("timeout: a write timed out though nothing blocked it"); co_return; }
    if (e->inj_w && truthful(st, e->inj_w)) co_return;
    if (st.type == kind::message_too_big && n > 65507) { rt::nontrivial(); co_return; }
    if (st.type == kind::would_block_or_try_again && e->wblocked) co_return;
    if (invalid && st.type == kind::native && (st.native_code == EINVAL || st.native_code == EAFNOSUPPORT)) co_return;
    rt::fail("status: write_to ended as '%s' (%d)", msg(st).c_str(), st.native_code);
}
template<class B> static coro::task<bool> read_op(pt* e)
{
    size_t n = gen_size(); int64_t to = gen_timeout(); B b(n, typename B::value_type{}); memset((void*)b.data(), 0xEE, n); bool unbound = !e->bound; if (unbound) to = 0;
    e->inj_r = 0; int64_t t0 = rt::now_ns(); e->rt0 = t0; e->rto = to; e->rop = (n && !unbound) ? 1 : 0; rt::trace("peer %d: read of up to %zu bytes, timeout %lld ms", e->n, n, (long long)to); uint64_t s0 = rt::steps(); (void)s0;
    bool nt = unsaid(to); auto op = nt ? e->p->read_from(b) : e->p->read_from(b, ms(to)); auto [st, from, sp] = co_await op; e->rop = 0; timing("read_from", t0, to, st.type == kind::timeout);
    rt::trace("peer %d: read: '%s', %zu bytes", e->n, msg(st).c_str(), sp.size()); const unsigned char* p = (const unsigned char*)b.data();
    if (unbound) { if (st.type != kind::udp_not_bound || !sp.empty()) rt::fail("status: reading from a peer that isn't bound ended as '%s'", msg(st).c_str()); co_return false; }
    if (!sp.empty() && ((const void*)sp.data() != (const void*)b.data() || sp.size() > n)) rt::fail("span: the part read isn't the beginning of the buffer (%zu of %zu)", sp.size(), n);
    for (size_t i = sp.size(); i < n; ++i) if (p[i] != 0xEE) rt::fail("count: read_from reported %zu bytes but wrote further into the buffer", sp.size());
    if (!n) { if (!st.is_ok()) rt::fail("status: reading nothing ended as '%s'", msg(st).c_str()); co_return true; }
    sock_model* m = M[e->sm]; if (hard(e->inj_r) && !truthful(st, e->inj_r)) rt::fail("status: the error %d of a read was reported as '%s'", e->inj_r, msg(st).c_str());
    if (!st.is_ok())
    {
        if (!sp.empty()) rt::fail("count: a failed read returned %zu bytes", sp.size()); if (st.type == kind::timeout) co_return true; if (e->inj_r && truthful(st, e->inj_r)) co_return true;
        if (st.type == kind::would_block_or_try_again) { int sharers = 0; for (int i = 0; i < np; ++i) sharers += P[i]->sm == e->sm; if (sharers > 1) co_return true; }
        rt::fail("status: read_from ended as '%s' (%d)", msg(st).c_str(), st.native_code);
    }
    if (m->head >= m->q.size()) rt::fail("invented: a datagram nobody sent was received"); 
    // several readers of one socket take from its queue in the order their calls reach the kernel, which is not the order they are reported in
    int sharers = 0; for (int i = 0; i < np; ++i) sharers += P[i]->sm == e->sm; size_t at = m->q.size();
    auto fits = [&](dgram& g) { return sp.size() == std::min(n, g.b.size()) && !memcmp(g.b.data(), p, sp.size()) && same(store(from.data().first), g.from); };
    if (sharers == 1) at = m->head; else for (size_t i = m->head; i < m->q.size(); ++i) if (fits(m->q[i])) { at = i; break; }
    if (at == m->q.size()) rt::fail("invented: the datagram received was never sent to this peer");
    dgram& g = m->q[at]; if (sp.size() != std::min(n, g.b.size())) rt::fail("whole: a datagram of %zu bytes read with a buffer of %zu came as %zu bytes", g.b.size(), n, sp.size());
    if (memcmp(g.b.data(), p, sp.size())) rt::fail("bytes: a datagram was altered"); auto fs = store(from.data().first); if (!same(fs, g.from)) rt::fail("sender: a datagram from port %d was reported as from port %d (or another address)", port_of(g.from), port_of(fs));
    if (from.port() != port_of(g.from)) rt::fail("sender: port() of the sender is wrong"); if (n < g.b.size()) { rt::nontrivial(); rt::label("truncated"); } if (g.b.empty()) { rt::nontrivial(); rt::label("empty datagram"); }
    bool last = port_of(g.from) == stop_port; m->q.erase(m->q.begin() + at); co_return !last;
}
static void leave(pt* e) { if (--e->users == 0) { rt::trace("peer %d destroyed", e->n); e->p.reset(); } }
static coro::task<void> writer(pt* e, int ops)
{
    co_await S->schedule();
    for (; ops > 0; --ops)
    {
        co_await breath();
        switch (rt::choose(4)) { case 0: co_await write_op<std::string>(e); break; case 1: co_await write_op<std::vector<char>>(e); break; case 2: co_await write_op<std::vector<std::byte>>(e); break; case 3: co_await write_op<std::vector<uint16_t>>(e); break; }
    }
    leave(e);
}
static coro::task<void> reader(pt* e)
{
    co_await S->schedule();
    for (int n = 0;; ++n)
    {
        if (n < 12) co_await breath(); bool more;
        if (e->users == 1 && rt::chance(1, 5))
        {
            rt::label("moved or copied"); auto& c = *e->p;
            switch (rt::choose(4)) { case 0: e->p = std::make_unique<peer>(std::move(c)); break; case 1: e->p = std::make_unique<peer>(c); break; case 2: { peer t{c}; c = t; break; } case 3: { peer t{std::move(c)}; c = std::move(t); break; } }
        }
        switch (n > 30 ? 0 : rt::choose(3)) { case 0: more = co_await read_op<std::string>(e); break; case 1: more = co_await read_op<std::vector<unsigned char>>(e); break; default: more = co_await read_op<std::vector<std::byte>>(e); break; }
        if (!more) break; if (n > 3000) rt::fail("harness: endless reader");
    }
    leave(e);
}
static void at_rest()
{
    for (int i = 0; i < np; ++i)
    {
        pt* e = P[i]; if (!e->p) continue; sock_model* m = M[e->sm]; int waiting = 0; for (int j = 0; j < np; ++j) waiting += P[j]->p && P[j]->sm == e->sm && P[j]->rop;
        if (e->rop && m->head < m->q.size()) rt::fail("stalled: peer %d waits for a datagram though %zu are there", e->n, m->q.size() - m->head); (void)waiting;
        if (e->wop && !e->wblocked) rt::fail("stalled: a write waits though nothing blocks it"); if (e->wop) rt::nontrivial();
        if (!g_jump && e->rop && e->rto && rt::now_ns() - e->rt0 > (e->rto + 1) * 1000000) rt::fail("late: a read with a timeout of %lld ms waits for %lld ns", (long long)e->rto, (long long)(rt::now_ns() - e->rt0));
        if (!g_jump && e->wop && e->wto && rt::now_ns() - e->wt0 > (e->wto + 1) * 1000000) rt::fail("late: a write with a timeout of %lld ms waits for %lld ns", (long long)e->wto, (long long)(rt::now_ns() - e->wt0));
    }
}
static void raw_send(int fd, int port, size_t n) { auto a = addr(port); unsigned char b[64]; for (size_t i = 0; i < n; ++i) b[i] = rt::choose(256); auto [sa, sl] = a.data(); if (::sendto(fd, b, n, 0, sa, sl) != (long)n) rt::fail("harness: sendto"); }
void harness_case()
{
    free_zero zero(rt::chance(1, 10));
    if (rt::chance(1, 4)) statuses();
    np = nm = running = 0; dom = rt::chance(1, 3) ? AF_INET6 : AF_INET; bool inl = rt::chance(1, 2); int nt = 1 + rt::choose(3); g_jump = rt::chance(1, 5); g_eternal = !g_jump && rt::chance(1, 8);
    f_again = rt::chance(1, 2); f_err = rt::chance(1, 3); faults = rt::choose(10); lost_num = rt::chance(1, 3) ? 1 + rt::choose(3) : 0; oversize = rt::chance(1, 8); int want = 1 + rt::choose(3), blocker = rt::chance(1, 3) ? rt::choose(3) : -1;
    rt::cfg.timejump = g_jump; rt::io_hook = hook; rt::net::drop_hook = drop; rt::net::sent_hook = sent;
    coro::scheduler::options o; o.pool.thread_count = nt; o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool; S = coro::scheduler::make_unique(std::move(o));
    raw_fd = ::socket(dom, SOCK_DGRAM, 0); { auto a = addr(0); auto [sa, sl] = a.data(); if (::bind(raw_fd, sa, sl)) rt::fail("harness: bind"); stop_port = rt::net::port(raw_fd); raw2_fd = ::socket(dom, SOCK_DGRAM, 0); if (::bind(raw2_fd, sa, sl)) rt::fail("harness: bind"); }
    rt::note("udp: %s threads=%d IPv%d%s%s%s%s%s faults=%d\n", inl ? "inline" : "pooled", nt, dom == AF_INET ? 4 : 6, f_again ? " would-block" : "", f_err ? " errors" : "", lost_num ? " loss" : "", oversize ? " oversize" : "", blocker >= 0 ? " full send buffer" : "", faults);
    for (int i = 0; i < want; ++i)
    {
        pt* e = P[np] = new (malloc(sizeof(pt))) pt{}; e->n = np++; e->bound = i == 0 || !rt::chance(1, 4); sock_model* m = M[nm] = new (malloc(sizeof(sock_model))) sock_model{}; e->sm = nm++;
        if (e->bound) { int port = rt::chance(1, 3) ? 0 : 2000 + i; bool any = rt::chance(1, 4); e->p = std::make_unique<peer>(S, any ? addr(port, "0.0.0.0", "::") : addr(port)); e->port = rt::net::port(e->p->socket().native_handle()); if (port && e->port != port) rt::fail("address: a peer for port %d is bound to %d", port, e->port); }
        else e->p = std::make_unique<peer>(S, (coro::net::domain_t)dom);
        m->id = rt::net::id(e->p->socket().native_handle()); if (!m->id) rt::fail("harness: no socket");
        rt::note("peer %d: %s port %d\n", e->n, e->bound ? "bound" : "unbound", e->port);
        if (e->bound && np < 5 && rt::chance(1, 6)) { pt* c = P[np] = new (malloc(sizeof(pt))) pt{}; c->n = np++; c->bound = true; c->port = e->port; c->sm = e->sm; if (rt::chance(1, 2)) c->p = std::make_unique<peer>(*e->p); else { c->p = std::make_unique<peer>(S, (coro::net::domain_t)dom); *c->p = *e->p; } rt::label("copy"); rt::note("peer %d: a copy of peer %d\n", c->n, e->n); if (rt::net::id(c->p->socket().native_handle()) != m->id) rt::fail("copy: not the same socket"); }
    }
    if (blocker >= np) blocker = -1; if (blocker >= 0) { P[blocker]->wblocked = true; rt::net::block_writes(M[P[blocker]->sm]->id, true); for (int i = 0; i < np; ++i) if (P[i]->sm == P[blocker]->sm) P[i]->wblocked = true; }
    auto go = [](pt* e, coro::task<void> t) -> fire { co_await t; (void)e; --running; };
    for (int i = 0; i < np; ++i) { P[i]->users = 2; running += 2; }
    for (int i = 0; i < np; ++i) { int ops = rt::choose(5); go(P[i], writer(P[i], ops)); go(P[i], reader(P[i])); }
    int64_t wait[] = {0, 1000000, 5000000, 60000000};
    for (int i = rt::choose(6); i > 0; --i) { if (rt::chance(1, 2)) { rt::quiesce(); at_rest(); } rt::advance(wait[rt::choose(4)]); rt::point(); if (rt::chance(1, 2)) { pt* e = P[rt::choose(np)]; if (e->bound && e->p) { rt::trace("a foreign datagram for peer %d", e->n); raw_send(raw2_fd, e->port, rt::choose(40)); } } }
    rt::cfg.timejump = false; rt::quiesce(); at_rest();
    if (blocker >= 0 && P[blocker]->p) { rt::trace("peer %d can send again", blocker); for (int i = 0; i < np; ++i) if (P[i]->sm == P[blocker]->sm) P[i]->wblocked = false; rt::net::block_writes(M[P[blocker]->sm]->id, false); rt::quiesce(); at_rest(); }
    f_again = f_err = false; lost_num = 0;
    for (int i = 0; i < 400 && running; ++i)
    {
        rt::quiesce(); at_rest(); if (!running) break; rt::advance(20000000); if (i < 30) continue; // writers and timed reads end by themselves
        for (int j = 0; j < np; ++j) if (P[j]->p && P[j]->bound && P[j]->rop) { raw_send(raw_fd, P[j]->port, 3); break; }
    }
    if (running) rt::fail("stalled: the transfers don't end");
    ::close(raw_fd); ::close(raw2_fd); S->shutdown(); S.reset();
    for (int i = 0; i < np; ++i) { if (P[i]->p) rt::fail("harness: peer left"); P[i]->~pt(); free(P[i]); } for (int i = 0; i < nm; ++i) { M[i]->~sock_model(); free(M[i]); }
}
