// C29: every lookup ends once, with the addresses the name servers gave, and leaves nothing behind.
#include "common.hpp"
#include <cstring>
#include <set>
#include <span>
#include <string>
#include <dlfcn.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include <ares.h>
#include <coro/net/dns/resolver.hpp>
#include <coro/scheduler.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C29";
const char* const harness_rule = "an answer was delayed, lost, truncated, malformed, forged or an error, or a socket or descriptor operation failed, or the resolver was destroyed under a lookup or right after the last one, or two lookups were in flight at once";
using namespace std::chrono_literals; using resolver = coro::net::dns::resolver<coro::scheduler>; using dstatus = coro::net::dns::status;
enum beh { ANSWER, EMPTY, NX, SERVFAIL, REFUSED, DROP, LATE, FLAKY, TRUNC, GARBAGE, SPOOF, SOCKERR, CNAME, NBEH };
static const char* const beh_name[] = {"answer", "empty", "no such name", "server failure", "refused", "lost", "late", "lost at first", "truncated", "malformed", "forged first", "socket error", "alias"};
struct rec { int b, n, ms, drops; bool half; };                    // one record type of a name
struct host { int kind; std::string name; rec q[2]; };              // kind 0: served; 1: IPv4 literal; 2: IPv6 literal; 3: localhost; 4: impossible
static std::unique_ptr<coro::scheduler> S; static std::unique_ptr<resolver> R; static host H[4]; static int nh, nservers, ares_ms, ares_tries, tcp_mode, destroy_mode, running, in_flight, faults; static bool g_jump, rough, f_short, f_again, f_err, f_sys, stopping, closing; static int ufd[2], tfd[2]; static bool up[2]; static coro::poll_stop_source* stop_src[4]; static std::atomic<int> clients, helpers; static uint64_t rnd_state;
static bool lib_fd(int fd) { for (int i = 0; i < nservers; ++i) if (fd == ufd[i] || fd == tfd[i]) return false; return rt::net::is_socket(fd); }
static hvec<int> conns; // the servers' ends of tcp connections
// ---------------------------------------------------------------- c-ares' view of the machine
extern "C" void arc4random_buf(void* p, size_t n) { unsigned char* b = (unsigned char*)p; while (n--) { rnd_state = rnd_state * 6364136223846793005ull + 1442695040888963407ull; *b++ = rnd_state >> 33 & 0x7f; } }
extern "C" int rand() { unsigned x; arc4random_buf(&x, 4); return x & 0x7fffffff; }
extern "C" void srand(unsigned) {}
static in_addr srv[2];
extern "C" int ares_init_options(ares_channel_t** ch, const ares_options* o, int mask)
{
    static auto real = (int (*)(ares_channel_t**, const ares_options*, int))dlsym(RTLD_NEXT, "ares_init_options"); ares_options x = *o;
    for (int i = 0; i < nservers; ++i) srv[i].s_addr = htonl(0x7f000001 + i);
    x.servers = srv; x.nservers = nservers; x.udp_port = x.tcp_port = 53; x.timeout = ares_ms; x.tries = ares_tries; x.ndots = 1; x.ndomains = 0; x.domains = nullptr; x.lookups = (char*)"fb"; x.hosts_path = (char*)"/dev/null"; x.resolvconf_path = (char*)"/dev/null"; x.flags = ARES_FLAG_NOSEARCH | (mask & ARES_OPT_FLAGS ? o->flags : 0);
    return real(ch, &x, mask | ARES_OPT_SERVERS | ARES_OPT_UDP_PORT | ARES_OPT_TCP_PORT | ARES_OPT_TIMEOUTMS | ARES_OPT_TRIES | ARES_OPT_NDOTS | ARES_OPT_DOMAINS | ARES_OPT_LOOKUPS | ARES_OPT_HOSTS_FILE | ARES_OPT_RESOLVCONF | ARES_OPT_FLAGS | ARES_OPT_NOROTATE);
}
// ---------------------------------------------------------------- the name servers
static std::string address(int k, int t, int i) { char b[64]; if (t == 0) snprintf(b, sizeof b, "10.%d.0.%d", k + 1, i + 1); else snprintf(b, sizeof b, "fd00::%x:%x", k + 1, i + 1); return b; }
struct msg { unsigned char b[700]; int n{0}; void u8(int v) { b[n++] = v; } void u16(int v) { u8(v >> 8); u8(v & 255); } void put(const void* p, int m) { memcpy(b + n, p, m); n += m; } };
struct ask { int k, t; bool tcp; msg q; int qlen; }; // a question: name, type (0 A, 1 AAAA), header and question
static bool parse(const unsigned char* p, int n, ask& a)
{
    if (n < 17) return false; std::string nm; int i = 12; while (i < n && p[i]) { int l = p[i++]; if (l > 63 || i + l > n) return false; if (!nm.empty()) nm += '.'; for (int j = 0; j < l; ++j) nm += (char)tolower(p[i + j]); i += l; } if (i + 5 > n) return false;
    int ty = p[i + 1] << 8 | p[i + 2]; a.qlen = i + 5; a.k = -1; for (int k = 0; k < nh; ++k) if (H[k].kind == 0 && H[k].name == nm) a.k = k; a.t = ty == 1 ? 0 : ty == 28 ? 1 : -1; a.q.n = 0; a.q.put(p, a.qlen); return true;
}
static void build(const ask& a, msg& m, int rcode, bool tc, bool answers, bool alias)
{
    m.n = 0; m.put(a.q.b, 2); m.u8(0x81 | (tc ? 2 : 0)); m.u8(0x80 | rcode); m.u16(1); int an = answers ? H[a.k].q[a.t].n : 0; m.u16(an + (alias ? 1 : 0)); m.u16(0); m.u16(0); m.put(a.q.b + 12, a.qlen - 12); int owner = 0xC00C;
    if (alias) { m.u16(owner); m.u16(5); m.u16(1); m.u16(0); m.u16(60); m.u16(7); owner = 0xC000 | m.n; m.u8(1); m.u8('z'); m.u8(3); m.put("com", 3); m.u8(0); }
    for (int i = 0; i < an; ++i) { m.u16(owner); m.u16(a.t ? 28 : 1); m.u16(1); m.u16(0); m.u16(60); if (a.t == 0) { m.u16(4); unsigned char x[4] = {10, (unsigned char)(a.k + 1), 0, (unsigned char)(i + 1)}; m.put(x, 4); } else { m.u16(16); unsigned char x[16] = {0xfd}; x[13] = a.k + 1; x[15] = i + 1; m.put(x, 16); } }
    if (alias) m.b[m.b[3] ? 7 : 7] = an + 1;
}
struct from { int s, fd; sockaddr_storage a; socklen_t l; };
static bool odd(const char* what) { rt::nontrivial(); rt::label(what); return true; }
static void reply(const from& f, const msg& m, bool tcp)
{
    if (stopping) return;
    if (!tcp) { (void)!sendto(f.fd, m.b, m.n, 0, (const sockaddr*)&f.a, f.l); return; }
    bool open = false; for (int c : conns) open |= c == f.fd; if (!open) return; msg x; x.u16(m.n); int cut = rt::chance(1, 3) ? 1 + rt::choose(m.n) : 0; memcpy(x.b + 2, m.b, m.n); x.n = m.n + 2;
    if (cut) { (void)!send(f.fd, x.b, cut, MSG_NOSIGNAL); rt::point(); for (int c : conns) if (c == f.fd) { (void)!send(f.fd, x.b + cut, x.n - cut, MSG_NOSIGNAL); break; } } else (void)!send(f.fd, x.b, x.n, MSG_NOSIGNAL);
}
static fire late(from f, msg m, bool tcp, int ms) { ++helpers; co_await S->yield_for(std::chrono::milliseconds(ms)); rt::trace("server %d answers at last", f.s); reply(f, m, tcp); --helpers; }
static const void* sock_of; // the socket the last datagram came from
static int socket_error_once;
static void handle(from f, const unsigned char* p, int n, bool tcp)
{
    ask a; a.tcp = tcp; if (!parse(p, n, a)) rt::fail("harness: a question that cannot be parsed"); if (!up[f.s]) { rt::trace("server %d is down", f.s); odd("a server is down"); return; }
    msg m; if (a.k < 0 || a.t < 0) { rt::trace("server %d: unknown name", f.s); build(a, m, 3, false, false, false); reply(f, m, tcp); return; }
    rec& r = H[a.k].q[a.t]; rt::trace("server %d asked for %s of %s over %s: %s", f.s, a.t ? "AAAA" : "A", H[a.k].name.c_str(), tcp ? "tcp" : "udp", beh_name[r.b]); if (r.b != ANSWER) { rt::nontrivial(); rt::label(beh_name[r.b]); }
    switch (r.b)
    {
        case ANSWER: build(a, m, 0, false, true, false); break; case CNAME: build(a, m, 0, false, true, true); break; case EMPTY: build(a, m, 0, false, false, false); break; case NX: build(a, m, 3, false, false, false); break; case SERVFAIL: build(a, m, 2, false, false, false); break; case REFUSED: build(a, m, 5, false, false, false); break;
        case DROP: return; case LATE: build(a, m, 0, false, true, false); late(f, m, tcp, r.ms); return;
        case FLAKY: if (r.drops-- > 0) return; build(a, m, 0, false, true, false); break;
        case TRUNC: build(a, m, 0, !tcp, tcp || r.half, false); break;
        case GARBAGE: build(a, m, 0, false, true, false); m.n = 2 + rt::choose(m.n - 2); if (rt::chance(1, 2)) for (int i = 4; i < m.n; ++i) if (rt::chance(1, 10)) m.b[i] ^= 1 << rt::choose(8); break;
        case SPOOF: { msg x; build(a, x, 0, false, true, false); x.b[0] |= 0x80; x.b[x.n - 1] = 200; reply(f, x, tcp); build(a, m, 0, false, true, false); break; }
        case SOCKERR: if (r.drops-- > 0) { if (tcp) { for (size_t i = 0; i < conns.size(); ++i) if (conns[i] == f.fd) { shutdown(f.fd, SHUT_RDWR); } } else { socket_error_once = 1; } return; } build(a, m, 0, false, true, false); break;
    }
    reply(f, m, tcp);
}
static const void* last_by[2][4096]; // the socket behind each port
static void sent(const void* by, const void*, const sockaddr* from_a, const sockaddr* dest, const void*, size_t) { if (ntohs(((const sockaddr_in*)dest)->sin_port) != 53) return; int p = ntohs(((const sockaddr_in*)from_a)->sin_port); last_by[0][p & 4095] = by; }
static hvec<const void*> live_ids;
static fire udp_server(int s)
{
    co_await S->schedule();
    while (!stopping)
    {
        auto ps = co_await S->poll(ufd[s], coro::poll_op::read, 0ms, stop_src[s]->get_token()); if (stopping) break; if (ps != coro::poll_status::read) { co_await S->yield_for(1ms); continue; }
        unsigned char b[700]; from f; f.s = s; f.fd = ufd[s]; f.l = sizeof f.a; long n = recvfrom(ufd[s], b, sizeof b, 0, (sockaddr*)&f.a, &f.l); if (n < 0) continue;
        socket_error_once = 0; handle(f, b, n, false);
        if (socket_error_once) { socket_error_once = 0; const void* id = last_by[0][ntohs(((sockaddr_in*)&f.a)->sin_port) & 4095]; for (int fd : rt::open_fds()) if (lib_fd(fd) && rt::net::id(fd) == id) { rt::net::error(id); rt::trace("an error is raised on descriptor %d", fd); break; } }
    }
    --helpers;
}
static fire tcp_conn(int s, int fd)
{
    ++helpers; conns.push_back(fd); unsigned char b[2000]; int n = 0; from f; f.s = s; f.fd = fd;
    for (;;)
    {
        auto ps = co_await S->poll(fd, coro::poll_op::read); if (stopping) break; if (ps == coro::poll_status::error) { co_await S->yield_for(1ms); }
        long r = recv(fd, b + n, sizeof b - n, MSG_DONTWAIT); if (r == 0) break; if (r < 0) { if (errno == EAGAIN || errno == EINTR) continue; break; } n += r;
        if (tcp_mode == 2) { rt::trace("server %d hangs up", s); odd("tcp connection closed"); break; } if (tcp_mode == 3) { odd("tcp connection silent"); n = 0; continue; }
        while (n >= 2 && n >= 2 + (b[0] << 8 | b[1])) { int l = b[0] << 8 | b[1]; handle(f, b + 2, l, true); memmove(b, b + 2 + l, n - 2 - l); n -= 2 + l; }
    }
    for (size_t i = 0; i < conns.size(); ++i) if (conns[i] == fd) { conns.erase(conns.begin() + i); break; } close(fd); --helpers;
}
static fire tcp_server(int s)
{
    co_await S->schedule();
    while (!stopping)
    {
        auto ps = co_await S->poll(tfd[s], coro::poll_op::read, 0ms, stop_src[2 + s]->get_token()); if (stopping) break; if (ps != coro::poll_status::read) { co_await S->yield_for(1ms); continue; }
        int fd = accept4(tfd[s], nullptr, nullptr, SOCK_NONBLOCK); if (fd < 0) { co_await S->yield_for(1ms); continue; } rt::trace("server %d: tcp connection", s); tcp_conn(s, fd);
    }
    --helpers;
}
// ---------------------------------------------------------------- faults
static int io(const char* op, int fd, size_t* len)
{
    if (!lib_fd(fd)) return 0; for (int c : conns) if (c == fd) return 0; bool w = strstr(op, "send") || strstr(op, "write");
    int ty = 0; socklen_t tl = sizeof ty; getsockopt(fd, SOL_SOCKET, SO_TYPE, &ty, &tl); if (f_short && ty == SOCK_STREAM && *len > 1 && rt::chance(1, 3)) *len = 1 + rt::choose(std::min<size_t>(*len - 1, 40));
    if (faults <= 0) return 0;
    if (f_again && rt::chance(1, 5)) { --faults; rt::trace("%s on %d would block (injected)", op, fd); rt::nontrivial(); return EAGAIN; }
    if (f_err && rt::chance(1, 6)) { --faults; static const int es[] = {ECONNREFUSED, ECONNRESET, EHOSTUNREACH, ENOBUFS}; int x = es[rt::choose(4)]; (void)w; rt::trace("%s on %d: errno %d (injected)", op, fd, x); odd("injected transfer error"); return x; }
    return 0;
}
static bool armed;
static int sys(const char* op) { if (!armed || !f_sys || faults <= 0 || !strcmp(op, "fcntl") || (!strcmp(op, "epoll_ctl") && !rt::net::is_socket(rt::sys_fd)) || !strcmp(op, "accept") || !rt::chance(1, 12)) return 0; --faults; static const int es[] = {EMFILE, ENOMEM, ENOBUFS}; int x = es[rt::choose(3)]; rt::trace("%s: errno %d (injected)", op, x); odd("injected failure"); return x; }
static int chook(int) { return rt::chance(1, 2) ? 1 : 0; }
// ---------------------------------------------------------------- lookups
static bool certain(const host& h, int t) { if (rough) return false; const rec& r = h.q[t]; switch (r.b) { case ANSWER: case SPOOF: case CNAME: return r.n > 0; case TRUNC: return r.n > 0 && (tcp_mode == 0); case LATE: return r.n > 0 && r.ms * 2 < ares_ms && !g_jump; default: return false; } }
static bool possible(const host& h, int t) { const rec& r = h.q[t]; switch (r.b) { case EMPTY: case NX: case SERVFAIL: case REFUSED: case DROP: return false; default: return r.n > 0; } }
static int64_t bound_ms() { int64_t s = 0; for (int i = 0; i < ares_tries * nservers; ++i) s += (int64_t)ares_ms << (i / nservers); return 2 * s + 2000; }
static fire client(int c, bool inl, int m)
{
    if (!inl) co_await S->schedule();
    for (int i = 0; i < m; ++i)
    {
        if (!inl) switch (rt::weighted({4, 3, 2, 1})) { case 0: break; case 1: co_await S->schedule(); break; case 2: co_await S->yield_for(1ms); break; default: co_await S->yield_for(std::chrono::milliseconds(1 + rt::choose(600))); }
        int k = rt::choose(nh); host& h = H[k]; int64_t t0 = rt::now_ns(); if (++in_flight > 1) odd("lookups in flight together"); rt::trace("client %d asks for '%s'", c, h.name.substr(0, 40).c_str());
        coro::net::hostname hn{h.name}; auto op = R->host_by_name(hn); auto r = co_await std::move(op); --in_flight; int64_t el = rt::now_ns() - t0;
        std::string got; std::multiset<std::string> as; for (auto& a : r->ip_addresses()) { as.insert(a.to_string()); got += " " + a.to_string(); if (a.domain() != (a.to_string().find(':') == std::string::npos ? coro::net::domain_t::ipv4 : coro::net::domain_t::ipv6)) rt::fail("family: %s is marked as the wrong family", a.to_string().c_str()); }
        bool ok = r->status() == dstatus::complete; rt::trace("client %d: %s%s", c, ok ? "complete" : "error", got.c_str());
        if (ok == as.empty()) rt::fail(ok ? "status: complete without an address" : "status: an error with addresses");
        if (!g_jump && el > bound_ms() * 1000000) rt::fail("late: a lookup took %lld ms, its attempts take at most %lld", (long long)(el / 1000000), (long long)bound_ms());
        for (auto& a : as) if (as.count(a) > 1) rt::fail("twice: %s is listed more than once", a.c_str());
        switch (h.kind)
        {
            case 0:
                if (h.q[0].b != GARBAGE && h.q[1].b != GARBAGE) for (auto& a : as) { bool f = false; for (int t = 0; t < 2; ++t) for (int j = 0; possible(h, t) && j < h.q[t].n; ++j) f |= address(k, t, j) == a; if (!f) rt::fail("invented: %s isn't an address of %s", a.c_str(), h.name.c_str()); }
                for (int t = 0; t < 2 && !closing; ++t) if (certain(h, t)) for (int j = 0; j < h.q[t].n; ++j) if (!as.count(address(k, t, j))) rt::fail("missing: %s, which the server gave for %s", address(k, t, j).c_str(), h.name.c_str());
                break;
            case 1: case 2: if (as.size() != 1 || *as.begin() != h.name) rt::fail("literal: %s became%s", h.name.c_str(), got.c_str()); break;
            case 3: for (auto& a : as) if (a != "127.0.0.1" && a != "::1") rt::fail("invented: %s isn't an address of localhost", a.c_str()); if (!ok) rt::fail("status: localhost isn't found"); break;
            case 4: if (ok) rt::fail("status: an impossible name is found"); break;
        }
    }
    int left = --clients; if (!left && destroy_mode == 1) { odd("destroyed after the last lookup"); rt::trace("client %d destroys the resolver", c); R.reset(); } --running;
}
void harness_case()
{
    free_zero zero(rt::chance(1, 10));
    rnd_state = 1 + rt::choose(1000); rt::cfg.hang_ns = 2000ll * 1000000000; stopping = closing = armed = false; socket_error_once = in_flight = 0; conns.clear(); memset(last_by, 0, sizeof last_by); helpers = 0;
    bool inl = rt::chance(1, 2); int nt = 1 + rt::choose(3); g_jump = rt::chance(1, 6); nservers = 1 + rt::choose(2); static const int tms[] = {250, 500, 1000, 2000}; ares_ms = tms[rt::choose(4)]; ares_tries = 1 + rt::choose(2); static const int mts[] = {0, 10, 100, 5000, 60000}; int m_ms = mts[rt::choose(5)];
    tcp_mode = rt::chance(1, 2) ? 0 : rt::choose(4); f_short = rt::chance(1, 3); f_again = rt::chance(1, 3); f_err = rt::chance(1, 6); f_sys = rt::chance(1, 5); faults = rt::choose(8); for (int i = 0; i < 2; ++i) up[i] = !rt::chance(1, 10); destroy_mode = rt::weighted({3, 4, 2});
    nh = 1 + rt::choose(4); rough = f_err || f_sys || f_again || g_jump || !up[0] || (nservers == 2 && !up[1]);
    for (int k = 0; k < nh; ++k)
    {
        host& h = H[k]; h.kind = rt::weighted({12, 1, 1, 1, 1}); char b[32]; snprintf(b, sizeof b, "h%d.test", k); h.name = b;
        if (h.kind == 1) h.name = rt::chance(1, 2) ? "192.0.2.7" : "0.0.0.0"; if (h.kind == 2) h.name = rt::chance(1, 2) ? "fd00::77" : "::"; if (h.kind == 3) h.name = "localhost"; if (h.kind == 4) { static const char* const bad[] = {"a..b", "x y", ".."}; h.name = rt::chance(1, 3) ? std::string(300, 'a') : rt::chance(1, 2) ? std::string(64, 'b') + ".test" : bad[rt::choose(3)]; }
        for (int t = 0; t < 2; ++t) { rec& r = h.q[t]; r.b = rt::chance(1, 3) ? ANSWER : rt::choose(NBEH); r.n = rt::chance(1, 10) ? 0 : 1 + rt::choose(3); r.ms = rt::chance(1, 2) ? 1 + rt::choose(100) : 1 + rt::choose(6000); r.drops = 1 + rt::choose(3); r.half = rt::chance(1, 2); if (h.kind == 0 && (r.b == SOCKERR || r.b == GARBAGE)) rough = true; }
    }
    if (tcp_mode) for (int k = 0; k < nh; ++k) for (int t = 0; t < 2; ++t) if (H[k].q[t].b == TRUNC) rough = true;
    rt::note("dns: %s threads=%d timeout=%d servers=%d%s%s, %d ms x %d, tcp=%d destroy=%d%s%s%s%s faults=%d%s\n", inl ? "inline" : "pooled", nt, m_ms, nservers, up[0] ? "" : " first down", nservers == 2 && !up[1] ? " second down" : "", ares_ms, ares_tries, tcp_mode, destroy_mode, f_short ? " short" : "", f_again ? " would-block" : "", f_err ? " errors" : "", f_sys ? " failures" : "", faults, g_jump ? " jump" : "");
    for (int k = 0; k < nh; ++k) { auto d = [&](int t) { rec& r = H[k].q[t]; std::string s = beh_name[r.b]; s += " x" + std::to_string(r.n); if (r.b == LATE) s += " " + std::to_string(r.ms) + " ms"; if (r.b == FLAKY || r.b == SOCKERR) s += " after " + std::to_string(r.drops); return s; }; if (H[k].kind) rt::note("name %d: '%s'\n", k, H[k].name.substr(0, 40).c_str()); else rt::note("name %d: '%s' A: %s, AAAA: %s\n", k, H[k].name.c_str(), d(0).c_str(), d(1).c_str()); }
    rt::cfg.timejump = g_jump; rt::io_hook = io; rt::sys_hook = sys; rt::net::connect_hook = chook; rt::net::sent_hook = sent;
    coro::scheduler::options o; o.pool.thread_count = nt; o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool; S = coro::scheduler::make_unique(std::move(o));
    coro::poll_stop_source src[4]; for (int i = 0; i < 4; ++i) stop_src[i] = &src[i];
    for (int s = 0; s < nservers; ++s)
    {
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(53); a.sin_addr.s_addr = htonl(0x7f000001 + s); ufd[s] = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0); tfd[s] = -1; if (bind(ufd[s], (sockaddr*)&a, sizeof a)) rt::fail("harness: bind"); ++helpers; udp_server(s);
        if (tcp_mode != 1) { tfd[s] = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); if (bind(tfd[s], (sockaddr*)&a, sizeof a) || listen(tfd[s], 5)) rt::fail("harness: listen"); ++helpers; tcp_server(s); }
    }
    rt::quiesce(); auto was = rt::open_fds(); size_t base = was.size();
    // no timeout, or one that is centuries away
    R = std::make_unique<resolver>(S, !m_ms && !g_jump && rt::chance(1, 2) ? std::chrono::milliseconds::max() - std::chrono::milliseconds(rt::choose(2)) : std::chrono::milliseconds(m_ms)); armed = true;
    int nc = 1 + rt::choose(4); clients = running = nc; for (int c = 0; c < nc; ++c) { bool in = destroy_mode == 2 || rt::chance(1, 4); client(c, in, destroy_mode == 2 ? 1 : 1 + rt::choose(3)); if (rt::chance(1, 3)) rt::point(); }
    if (destroy_mode == 2) { switch (rt::choose(4)) { case 0: break; case 1: rt::point(); break; case 2: rt::quiesce(); break; default: rt::quiesce(); rt::advance(1000000ll * (1 + rt::choose(3000))); } closing = true; if (running) odd("destroyed under a lookup"); rt::trace("main destroys the resolver"); R.reset(); rt::quiesce(); if (running) rt::fail("stalled: %d lookups go on though the resolver was destroyed", running); }
    for (int i = 0; i < 400 && running; ++i) { rt::quiesce(i < 4 ? 20000000 : 500000000); if (g_jump && i == 20) rt::cfg.timejump = false; }
    rt::cfg.timejump = false; rt::quiesce(); if (running) rt::fail("stalled: %d lookups don't end", running); faults = 0;
    if (destroy_mode == 0) { size_t n = 0; for (int fd : rt::open_fds()) if (lib_fd(fd)) { bool c = false; for (int x : conns) c |= x == fd; n += !c; } rt::trace("idle, %zu sockets open", n); R.reset(); rt::quiesce(); }
    rt::quiesce(3000000);
    for (int fd : rt::open_fds()) { bool k = false; for (int b : was) k |= b == fd; if (!k) rt::trace("descriptor %d is new%s", fd, rt::net::is_socket(fd) ? ", a socket" : ""); for (int c : conns) if (c == fd) rt::trace("%d is a server's", fd); }
    if (size_t n = rt::open_fds().size(); n != base) rt::fail("leak: %zu descriptors are open after the resolver is gone, %zu before it was made", n, base);
    stopping = true; for (auto& x : src) x.signal_stop(); for (int c : conns) shutdown(c, SHUT_RDWR); for (int i = 0; i < 20 && helpers > 0; ++i) rt::quiesce(500000000); if (helpers > 0) rt::fail("harness: the servers don't end"); rt::quiesce();
    if (S->size()) rt::fail("leak: %zu operations are pending after all lookups", S->size());
    for (int s = 0; s < nservers; ++s) { close(ufd[s]); if (tfd[s] >= 0) close(tfd[s]); } S->shutdown(); S.reset(); for (auto& h : H) std::string{}.swap(h.name);
}
