// C26: every descriptor is owned once: never leaked, never closed for someone else.
#include "common.hpp"
#include <cstring>
#include <map>
#include <span>
#include <string>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <coro/detail/pipe.hpp>
#include <coro/net/socket.hpp>
#include <coro/net/tcp/client.hpp>
#include <coro/net/tcp/server.hpp>
#include <coro/net/udp/peer.hpp>
#include <coro/poll.hpp>
#include <coro/scheduler.hpp>
#include <coro/sync_wait.hpp>
const char* const harness_property = "C26";
const char* const harness_rule = "an object was assigned over one that owned descriptors, a descriptor number was used again, or a system call failed inside an operation";
using namespace std::chrono_literals; using csock = coro::net::socket; using coro::detail::pipe_t; using coro::poll_stop_source; using coro::net::tcp::client; using coro::net::tcp::server; using coro::net::udp::peer; using coro::net::socket_address;
enum { N = 3 };
static long seq; static long desc_of[1024]; static int on_fd; static uint64_t used_numbers[16];
static hvec<long> opened_now, closed_now;
static void fdhook(const char* op, int fd)
{
    if (fd < 0 || fd >= 1024) return;
    if (!strcmp(op, "close")) { if (desc_of[fd]) closed_now.push_back(desc_of[fd]); desc_of[fd] = 0; return; }
    if (used_numbers[fd / 64] >> (fd % 64) & 1) { rt::nontrivial(); rt::label("number used again"); } used_numbers[fd / 64] |= 1ull << (fd % 64); desc_of[fd] = ++seq; opened_now.push_back(seq);
}
static bool armed, fired; static int arm_at, arm_errno; static bool in_op;
static int sysfault(const char* op)
{
    if (!armed || rt::tid() != 0) return 0; if (arm_at-- != 0) return 0; armed = false; fired = true; rt::nontrivial(); rt::trace("  %s fails with errno %d (injected)", op, arm_errno); rt::label("system call failed"); return arm_errno;
}
static long ino(int fd) { struct stat s; if (fd < 0 || fstat(fd, &s)) return -1; return (long)s.st_ino; }
static int nfds(const csock&) { return 1; } static int nfds(const pipe_t&) { return 2; } static int nfds(const poll_stop_source&) { return 1; } static int nfds(const client&) { return 1; } static int nfds(const server&) { return 1; } static int nfds(const peer&) { return 1; }
static int fd(const csock& s, int) { return s.native_handle(); } static int fd(const pipe_t& p, int i) { return i ? p.write_fd() : p.read_fd(); } static int fd(const poll_stop_source& s, int) { return s.get_token().native_handle(); }
static int fd(const client& c, int) { return c.socket().native_handle(); } static int fd(const server& c, int) { return c.accept_socket().native_handle(); } static int fd(const peer& c, int) { return c.socket().native_handle(); }
struct slots_base { const char* name; virtual void verify() = 0; virtual int hidden_owners() = 0; virtual ~slots_base() {} };
template<class T> struct slots : slots_base
{
    T* o[N]{}; long d[N][2]{}; long node[N][2]{}; bool empty[N]{}; long gen[N]{}; // what each owns: descriptors, the files behind them; empty: moved from or closed
    int count(int i) { return nfds(*o[i]); }
    void learn(int i, bool fresh) // after construction or a copy
    {
        empty[i] = true;
        for (int k = 0; k < count(i); ++k)
        {
            int f = fd(*o[i], k); d[i][k] = f < 0 ? 0 : desc_of[f]; node[i][k] = ino(f);
            if (f >= 0 && !d[i][k]) rt::fail("open: %s %d holds descriptor %d which isn't open", name, i, f); if (d[i][k]) empty[i] = false;
            if (fresh && d[i][k]) { bool is = false; for (long x : opened_now) is |= x == d[i][k]; if (!is) rt::fail("shared: %s %d holds a descriptor that was open before", name, i); }
        }
    }
    void verify() override
    {
        for (int i = 0; i < N; ++i) if (o[i]) for (int k = 0; k < count(i); ++k)
        {
            int f = fd(*o[i], k); long x = f < 0 ? 0 : f < 1024 ? desc_of[f] : 0; if (f >= 0 && !x) rt::fail("closed: descriptor %d of %s %d was closed under it", f, name, i);
            if (x != d[i][k]) rt::fail("owner: %s %d holds another descriptor (%d) than the one it owns", name, i, f);
        }
    }
    int hidden_owners() override { int n = 0; for (int i = 0; i < N; ++i) n += o[i] && !empty[i]; return n; }
    void gone(int i, const char* what) { for (int k = 0; k < 2; ++k) if (d[i][k]) { bool is = false; for (long x : closed_now) is |= x == d[i][k]; if (!is) rt::fail("leak: %s left a descriptor of %s %d open", what, name, i); } }
    void kill(int i) { if (!o[i]) return; rt::trace("destroy %s %d", name, i); delete o[i]; o[i] = nullptr; gone(i, "the destructor"); d[i][0] = d[i][1] = 0; empty[i] = true; }
    void put(int i, T* t) { kill(i); o[i] = t; learn(i, true); gen[i] = 0; }
    void none(int i, const char* what) { for (int k = 0; k < count(i); ++k) if (fd(*o[i], k) != -1) rt::fail("moved: %s %d still holds descriptor %d after %s", name, i, fd(*o[i], k), what); d[i][0] = d[i][1] = 0; empty[i] = true; }
    void take(int j, int i) { for (int k = 0; k < 2; ++k) { d[j][k] = d[i][k]; node[j][k] = node[i][k]; } empty[j] = empty[i]; gen[j] = gen[i]; }
    void move_construct(int i, int j)
    {
        rt::trace("%s %d is move-constructed from %d", name, j, i); T* t; try { t = new T(std::move(*o[i])); } catch (const std::exception& e) { if (!fired) rt::fail("exception: moving %s threw '%s'", name, e.what()); rt::discard(); }
        kill(j); o[j] = t; take(j, i); none(i, "being moved from");
    }
    void move_assign(int i, int j)
    {
        rt::trace("%s %d is move-assigned from %d", name, j, i); if (i != j && !empty[j]) { rt::nontrivial(); rt::label("assigned over an owner"); }
        *o[j] = std::move(*o[i]); if (i == j) { return; } gone(j, "move assignment"); take(j, i); none(i, "being moved from");
    }
    void copied(int j, int i, long* src) { for (int k = 0; k < count(j); ++k) { if (!src[k] && d[j][k]) rt::fail("copy: a copy of a %s that owns nothing owns something", name); if (src[k] && !d[j][k] && !fired) rt::fail("copy: a copy of %s %d owns nothing", name, i); } }
    void copy_construct(int i, int j) requires std::is_copy_constructible_v<T>
    {
        rt::trace("%s %d is copy-constructed from %d", name, j, i); long n[2] = {node[i][0], node[i][1]}, s[2] = {d[i][0], d[i][1]}, g = gen[i]; T* t = new T(*o[i]); kill(j); o[j] = t; learn(j, true); gen[j] = g; if (i != j) copied(j, i, s);
        for (int k = 0; k < count(j); ++k) if (d[j][k] && node[j][k] != n[k]) rt::fail("copy: %s %d isn't a copy of the same file as %d", name, j, i);
    }
    void copy_assign(int i, int j) requires std::is_copy_constructible_v<T>
    {
        rt::trace("%s %d is copy-assigned from %d", name, j, i); if (!empty[j]) { rt::nontrivial(); rt::label("assigned over an owner"); } long n[2] = {node[i][0], node[i][1]}, s[2] = {d[i][0], d[i][1]}; *o[j] = *o[i];
        if (i == j) { learn(j, false); for (int k = 0; k < count(j); ++k) { if (s[k] && !d[j][k] && !fired) rt::fail("self: %s %d lost its descriptor when it was assigned to itself", name, j); } } else { gone(j, "copy assignment"); learn(j, true); gen[j] = gen[i]; copied(j, i, s); }
        for (int k = 0; k < count(j); ++k) if (d[j][k] && node[j][k] != n[k]) rt::fail("copy: %s %d isn't a copy of the same file as %d", name, j, i);
    }
    void close_it(int i, auto&& f) { rt::trace("close %s %d", name, i); f(*o[i]); gone(i, "close()"); for (int k = 0; k < count(i); ++k) if (fd(*o[i], k) != -1) rt::fail("close: %s %d still holds a descriptor", name, i); d[i][0] = d[i][1] = 0; empty[i] = true; }
    void generic(int kindn, int i, int j)
    {
        if (!o[i]) return;
        switch (kindn)
        {
            case 0: kill(i); break; case 1: if (i != j) move_construct(i, j); break; case 2: if (o[j]) move_assign(i, j); break;
            case 3: if constexpr (std::is_copy_constructible_v<T>) copy_construct(i, j); break; case 4: if constexpr (std::is_copy_constructible_v<T>) if (o[j]) copy_assign(i, j); break;
        }
    }
};
static slots<csock>* K; static slots<pipe_t>* P; static slots<poll_stop_source>* Q; static slots<client>* C; static slots<server>* V; static slots<peer>* U; static slots_base* all[6]; static std::unique_ptr<coro::scheduler> S, X; static int foreign[4]; static long foreign_d[4]; static int sport[N], nport; static int dom;
static void use_pipe(pipe_t& p) { char c = 7, r = 0; if (p.read_fd() < 0 || p.write_fd() < 0) return; if (p.write(&c, 1) != 1 || p.read(&r, 1) != 1 || r != 7) rt::fail("use: a pipe that owns its descriptors doesn't work"); }
static void use_stop(poll_stop_source& s) { int f = s.get_token().native_handle(); if (f < 0) return; s.signal_stop(); int v = 0; if (::read(f, &v, sizeof v) != sizeof v || v != 1) rt::fail("use: a stop source that owns its descriptors doesn't signal"); }
static coro::task<bool> ping(client* a, client* b) { std::string m = "ping", r(4, 0); auto [s, u] = co_await a->write_all(m, 1000ms); rt::trace("  written: %s", s.message().c_str()); if (!s.is_ok() || !u.empty()) co_return false; auto [t, v] = co_await b->read_exact(r, 1000ms); rt::trace("  read: %s", t.message().c_str()); co_return t.is_ok() && r == m; }
static coro::task<bool> self_ping(peer* p, int port) { std::string m = "ping", r(9, 0); socket_address a{dom == AF_INET ? "127.0.0.1" : "::1", (uint16_t)port, (coro::net::domain_t)dom}; auto s = co_await p->write_to(a, m, 1000ms); if (!s.is_ok()) co_return false; auto [t, f, sp] = co_await p->read_from(r, 1000ms); co_return t.is_ok() && sp.size() == 4; }
static socket_address addr(int port) { return socket_address{dom == AF_INET ? "127.0.0.1" : "::1", (uint16_t)port, (coro::net::domain_t)dom}; }
template<class F> static auto make(const char* what, F&& f) -> decltype(f())
{
    try { return f(); } catch (const std::runtime_error& e) { rt::trace("  creating a %s failed: %s", what, e.what()); if (!fired) rt::fail("exception: creating a %s threw '%s'", what, e.what()); }
    long open = 0; for (long x : opened_now) { bool c = false; for (long y : closed_now) c |= x == y; if (!c) ++open; } if (open) rt::fail("leak: creating a %s failed and left %ld descriptors open", what, open); return nullptr;
}
static int hidden_base; static int total() { int n = 0; for (long x : desc_of) n += x != 0; return n; }
static void verify()
{
    for (auto* a : all) a->verify(); for (int i = 0; i < 4; ++i) if (foreign[i] >= 0 && desc_of[foreign[i]] != foreign_d[i]) rt::fail("foreign: descriptor %d that belongs to someone else was closed", foreign[i]);
    if (!X && !V->hidden_owners() && !Q->hidden_owners())
    {
        int vis = 0; for (int i = 0; i < N; ++i) { for (int k = 0; k < 2; ++k) { vis += P->o[i] && P->d[i][k]; } vis += K->o[i] && K->d[i][0]; vis += C->o[i] && C->d[i][0]; vis += U->o[i] && U->d[i][0]; } for (int f : foreign) vis += f >= 0;
        if (total() != hidden_base + vis) rt::fail("leak: %d descriptors are open, their owners account for %d", total(), hidden_base + vis);
    }
}
// nothing can be made without a scheduler, and trying leaves nothing behind
static void without_scheduler()
{
    opened_now.clear(); closed_now.clear(); armed = fired = false; int w = rt::choose(4); std::unique_ptr<coro::scheduler> none; bool got = true; rt::trace("create something (%d) without a scheduler", w); int before = total();
    try { if (w == 0) client c(none, addr(6000)); else if (w == 1) server v(none, addr(6900 + nport++)); else if (w == 2) peer u(none, (coro::net::domain_t)dom); else peer u(none, addr(6900 + nport++)); } catch (const std::runtime_error&) { got = false; }
    if (got) rt::fail("null: an object without a scheduler was made"); if (total() != before) rt::fail("leak: %d descriptors are open after creating an object without a scheduler", total() - before); rt::label("no scheduler");
}
static void op()
{
    if (rt::chance(1, 40)) { without_scheduler(); verify(); return; }
    opened_now.clear(); closed_now.clear(); fired = false; int i = rt::choose(N), j = rt::choose(N); int g = rt::weighted({2, 3, 4, 3, 3}); int what = rt::weighted({5, 4, 3, 4, 4, 3, 2, 3, 4});
    armed = rt::chance(1, 4); arm_at = armed ? rt::choose(8) : 0; static const int es[] = {EMFILE, ENFILE, ENOMEM, EACCES}; arm_errno = armed ? es[rt::choose(4)] : 0; bool fresh = rt::chance(1, 2);
    bool udp = rt::chance(1, 2); auto opts = csock::options{udp ? csock::type_t::udp : csock::type_t::tcp, rt::chance(1, 4) ? csock::blocking_t::yes : csock::blocking_t::no};
    switch (what)
    {
        case 0:
            if (fresh || !K->o[i])
            {
                int how = rt::choose(4); rt::trace("create socket %d (%d)", i, how);
                if (how == 0) K->put(i, new csock()); else if (how == 1) { auto* s = make("socket", [&] { return new csock(coro::net::make_socket(opts, (coro::net::domain_t)dom)); }); if (s) { if (fd(*s, 0) < 0) rt::fail("create: no descriptor"); K->put(i, s); } }
                else if (how == 2) { int port = 7000 + nport++; auto* s = make("socket", [&] { return new csock(coro::net::make_accept_socket(opts, addr(port), 5)); }); if (s) { if (fd(*s, 0) < 0) rt::fail("create: no descriptor"); K->put(i, s); } }
                else { int e = ::eventfd(0, 0); if (e >= 0) K->put(i, new csock(e)); }
            }
            else if (rt::chance(1, 4)) { K->close_it(i, [](csock& s) { s.close(); if (rt::chance(1, 2)) s.close(); if (s.is_ok()) rt::fail("close: is_ok() after close()"); }); }
            else if (rt::chance(1, 6)) { rt::trace("shut down socket %d", i); K->o[i]->shutdown(rt::chance(1, 2) ? coro::poll_op::write : coro::poll_op::read_write); }
            else K->generic(g, i, j); break;
        case 1: if (fresh || !P->o[i]) { rt::trace("create pipe %d", i); auto* p = make("pipe", [] { return new pipe_t(); }); if (p) P->put(i, p); } else if (rt::chance(1, 5)) P->close_it(i, [](pipe_t& p) { p.close(); }); else if (rt::chance(1, 4)) use_pipe(*P->o[i]); else P->generic(g, i, j); break;
        case 2: if (fresh || !Q->o[i]) { rt::trace("create stop source %d", i); auto* p = make("stop source", [] { return new poll_stop_source(); }); if (p) Q->put(i, p); } else if (rt::chance(1, 3)) use_stop(*Q->o[i]); else Q->generic(g, i, j); break;
        case 3: if (fresh || !C->o[i]) { rt::trace("create client %d", i); auto* p = make("client", [&] { return new client(S, addr(6000)); }); if (p) C->put(i, p); } else C->generic(g, i, j); break;
        case 4: if (fresh || !V->o[i]) { int port = 6000 + nport++; rt::trace("create server %d", i); auto* p = make("server", [&] { return new server(S, addr(port)); }); if (p) { V->put(i, p); V->gen[i] = port; } } else if (rt::chance(1, 6) && !V->empty[i] && V->gen[i] > 0) { armed = false; rt::trace("shut down server %d", i); V->o[i]->shutdown(); V->gen[i] = -1; } else V->generic(g, i, j); break;
        case 5: if (fresh || !U->o[i]) { int port = 5000 + nport++; bool bound = rt::chance(2, 3); rt::trace("create peer %d", i); auto* p = make("peer", [&] { return bound ? new peer(S, addr(port)) : new peer(S, (coro::net::domain_t)dom); }); if (p) { U->put(i, p); U->gen[i] = bound ? port : 0; } } else if (rt::chance(1, 3) && !U->empty[i] && U->gen[i]) { armed = false; rt::trace("peer %d sends to itself", i); if (!coro::sync_wait(self_ping(U->o[i], U->gen[i]))) rt::fail("use: peer %d doesn't work", i); } else U->generic(g, i, j); break;
        case 6:
            if (X) { rt::trace("destroy the other scheduler"); armed = false; X.reset(); }
            else
            {
                coro::scheduler::options o; o.pool.thread_count = 1; o.thread_strategy = rt::chance(1, 2) ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn; o.execution_strategy = rt::chance(1, 2) ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool;
                rt::trace("create another scheduler"); auto* p = make("scheduler", [&] { auto s = coro::scheduler::make_unique(std::move(o)); return s.release(); }); X.reset(p);
            }
            break;
        case 7: if (foreign[i] >= 0) { rt::trace("a foreign descriptor %d is closed", foreign[i]); ::close(foreign[i]); foreign[i] = -1; } else { armed = false; foreign[i] = ::eventfd(0, 0); foreign_d[i] = desc_of[foreign[i]]; rt::trace("a foreign descriptor %d is opened", foreign[i]); } break;
        case 8: // a connection between two client objects
            if (!V->o[i] || V->empty[i] || !V->gen[i]) break; if (V->gen[i] < 0) { armed = false; auto r = coro::sync_wait(V->o[i]->accept(1000ms)); if (r || r.error().type == coro::net::io_status::kind::timeout) rt::fail("use: a server that was shut down accepts"); break; }
            {
                bool fault = armed; armed = false; auto* a = make("client", [&] { return new client(S, addr(V->gen[i])); }); C->put(j, a); rt::trace("client %d connects to server %d", j, i); if (coro::sync_wait(C->o[j]->connect(1000ms)) != coro::net::connect_status::connected) rt::fail("use: connect failed");
                C->learn(j, false); opened_now.clear(); closed_now.clear(); armed = fault; arm_at = 0; auto r = coro::sync_wait(V->o[i]->accept(1000ms)); armed = false; int l = (j + 1) % N;
                if (!r) { if (!fired && !fault) rt::fail("use: server %d doesn't accept ('%s')", i, r.error().message().c_str()); rt::trace("  accept failed"); auto again = coro::sync_wait(V->o[i]->accept(1000ms)); if (!again) rt::fail("use: server %d does not accept after a failure", i); break; }
                int how = rt::choose(3); client* b; if (how == 0 || !C->o[l]) { b = new client(std::move(*r)); C->kill(l); C->o[l] = b; C->learn(l, true); } else if (how == 1) { *C->o[l] = std::move(*r); C->gone(l, "move assignment"); C->learn(l, true); } else { *C->o[l] = *r; C->gone(l, "copy assignment"); C->learn(l, true); r = coro::unexpected<coro::net::io_status>{coro::net::io_status{}}; } rt::trace("  accepted as client %d", l); b = C->o[l];
                if (!coro::sync_wait(ping(C->o[j], b)) || !coro::sync_wait(ping(b, C->o[j]))) rt::fail("use: a connection between clients %d and %d doesn't carry bytes", j, l);
            }
            break;
    }
    armed = false; verify();
}
void harness_case()
{
    rt::cfg.timejump = false; seq = 0; memset(desc_of, 0, sizeof desc_of); memset(used_numbers, 0, sizeof used_numbers); rt::fd_hook = fdhook; rt::sys_hook = sysfault; armed = false; nport = 1; dom = rt::chance(1, 3) ? AF_INET6 : AF_INET; for (int& f : foreign) f = -1;
    K = new slots<csock>; P = new slots<pipe_t>; Q = new slots<poll_stop_source>; C = new slots<client>; V = new slots<server>; U = new slots<peer>; slots_base* a[] = {K, P, Q, C, V, U}; const char* names[] = {"socket", "pipe", "stop source", "client", "server", "peer"}; for (int i = 0; i < 6; ++i) { all[i] = a[i]; a[i]->name = names[i]; }
    int zero = rt::choose(8); if (zero == 1) { rt::note("descriptor 0 is free\n"); syscall(SYS_close, 0); } // number 0 is a descriptor like any other
    coro::scheduler::options o; o.pool.thread_count = 1; o.execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline; S = coro::scheduler::make_unique(std::move(o)); hidden_base = total(); if (zero == 2) { rt::note("descriptor 0 becomes free\n"); syscall(SYS_close, 0); }
    int n = 1 + rt::choose(24); rt::note("descriptors: %d operations, IPv%d\n", n, dom == AF_INET ? 4 : 6); for (int i = 0; i < n; ++i) op();
    opened_now.clear(); closed_now.clear(); for (int i = 0; i < N; ++i) { K->kill(i); P->kill(i); Q->kill(i); C->kill(i); V->kill(i); U->kill(i); } X.reset(); for (int& f : foreign) if (f >= 0) { ::close(f); f = -1; }
    verify(); if (total() != hidden_base) rt::fail("leak: %d descriptors are left open", total() - hidden_base); S.reset(); if (total()) rt::fail("leak: a scheduler left %d descriptors open", total());
    for (auto* x : all) delete x;
    if (zero == 1 || zero == 2) { int d = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR); if (d > 0) { syscall(SYS_dup3, d, 0, 0); syscall(SYS_close, d); } }
}
