// An IPv4/IPv6 loopback network emulated on local socket pairs: real descriptors (so polling is the kernel's), no timers, no ports of the machine.
// Included by rt.cpp inside namespace rt.
struct Addr { sockaddr_storage s; socklen_t l; };
struct Pend { int b; Addr from, self; };
struct Sock
{
    int ref, dom, type, B; Addr self, peer; bool bound, listening, connected, down; int reuse, so_error; bool held; bool blocked; Addr target; mvec<Pend> pend;
};
static std::map<int, Sock*, std::less<int>, MA<std::pair<const int, Sock*>>>* es;
static mvec<Sock*>* bounds_; static mvec<Sock*>* held_; static int next_port;
namespace net { int (*connect_hook)(int) = nullptr; int (*drop_hook)(int, size_t) = nullptr; void (*sent_hook)(const void*, const void*, const sockaddr*, const sockaddr*, const void*, size_t) = nullptr; }
static Sock* emu(int fd) { if (!es) return nullptr; auto it = es->find(fd); return it == es->end() ? nullptr : it->second; }
static int hi(int fd) { int h = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 600); syscall(SYS_close, fd); return h; }
static bool wild(const Addr& a) { static const unsigned char z[16] = {}; return a.s.ss_family == AF_INET ? ((sockaddr_in*)&a.s)->sin_addr.s_addr == 0 : !memcmp(&((sockaddr_in6*)&a.s)->sin6_addr, z, 16); }
static int port_of(const Addr& a) { return ntohs(a.s.ss_family == AF_INET ? ((sockaddr_in*)&a.s)->sin_port : ((sockaddr_in6*)&a.s)->sin6_port); }
static void set_port(Addr& a, int p) { if (a.s.ss_family == AF_INET) ((sockaddr_in*)&a.s)->sin_port = htons(p); else ((sockaddr_in6*)&a.s)->sin6_port = htons(p); }
static bool same_ip(const Addr& a, const Addr& b) { if (a.s.ss_family != b.s.ss_family) return false; return a.s.ss_family == AF_INET ? ((sockaddr_in*)&a.s)->sin_addr.s_addr == ((sockaddr_in*)&b.s)->sin_addr.s_addr : !memcmp(&((sockaddr_in6*)&a.s)->sin6_addr, &((sockaddr_in6*)&b.s)->sin6_addr, 16); }
static Addr loop(int dom, int port)
{
    Addr a; memset(&a, 0, sizeof a); a.s.ss_family = dom;
    if (dom == AF_INET) { ((sockaddr_in*)&a.s)->sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.l = sizeof(sockaddr_in); } else { ((sockaddr_in6*)&a.s)->sin6_addr.s6_addr[15] = 1; a.l = sizeof(sockaddr_in6); }
    set_port(a, port); return a;
}
static void give(const Addr& a, sockaddr* s, socklen_t* l) { if (!s || !l) return; memcpy(s, &a.s, std::min(*l, a.l)); *l = a.l; }
static int take(Addr& a, int dom, const sockaddr* s, socklen_t l)
{
    memset(&a, 0, sizeof a); if (!s || l < (dom == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6))) return EINVAL;
    if (s->sa_family != dom) return EAFNOSUPPORT; a.l = dom == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); memcpy(&a.s, s, a.l); return 0;
}
static Sock* find(int type, const Addr& a, bool listening)
{
    for (size_t i = bounds_->size(); i-- > 0;) { Sock* s = (*bounds_)[i]; if (s->type == type && s->dom == a.s.ss_family && port_of(s->self) == port_of(a) && s->listening == listening && !s->down && (wild(s->self) || same_ip(s->self, a))) return s; }
    return nullptr;
}
static int emu_bind(Sock* s, Addr a)
{
    if (s->bound) return EINVAL;
    if (port_of(a) == 0) set_port(a, next_port++);
    else for (auto* o : *bounds_) if (o->type == s->type && o->dom == s->dom && port_of(o->self) == port_of(a) && (wild(o->self) || wild(a) || same_ip(o->self, a)) && !(o->reuse && s->reuse)) return EADDRINUSE;
    s->self = a; s->bound = true; bounds_->push_back(s); return 0;
}
static void autobind(Sock* s) { if (!s->bound) { Addr a = loop(s->dom, 0); emu_bind(s, a); } }
static int emu_socket(int d, int t, int p)
{
    (void)p; int f[2], base = t & ~(SOCK_NONBLOCK | SOCK_CLOEXEC); if (syscall(SYS_socketpair, AF_UNIX, t, 0, f)) return -1;
    int b = hi(f[1]); fcntl(b, F_SETFL, O_NONBLOCK);
    Sock* s = new (malloc(sizeof(Sock))) Sock{}; s->ref = 1; s->dom = d; s->type = base; s->B = b; (*es)[f[0]] = s; return f[0];
}
static void close_raw(int& fd) { if (fd >= 0) syscall(SYS_close, fd); fd = -1; }
static void emu_free(Sock* s)
{
    close_raw(s->B); for (auto& p : s->pend) close_raw(p.b);
    for (size_t i = 0; i < bounds_->size(); ++i) if ((*bounds_)[i] == s) { bounds_->erase(bounds_->begin() + i); break; }
    for (size_t i = 0; i < held_->size(); ++i) if ((*held_)[i] == s) { held_->erase(held_->begin() + i); break; }
    s->~Sock(); free(s);
}
static void emu_close(int fd) { auto it = es->find(fd); if (it == es->end()) return; Sock* s = it->second; es->erase(it); if (--s->ref == 0) emu_free(s); }
static void emu_dup(int from, int to) { if (to < 0) return; Sock* s = emu(from); if (s) { ++s->ref; (*es)[to] = s; } }
static void emu_refuse(Sock* s, int err) { s->so_error = err; s->held = false; close_raw(s->B); ++io_epoch; }
static void emu_establish(Sock* s)
{
    Sock* l = find(SOCK_STREAM, s->target, true); if (!l || l->B < 0) { emu_refuse(s, ECONNREFUSED); return; }
    autobind(s); if (s->held) { char junk[4096]; while (syscall(SYS_recvfrom, s->B, junk, sizeof junk, MSG_DONTWAIT, nullptr, nullptr) > 0) {} s->held = false; }
    char c = 1; (void)!syscall(SYS_write, l->B, &c, 1);
    l->pend.push_back(Pend{s->B, s->self, s->target}); s->B = -1; s->peer = s->target; s->connected = true; ++io_epoch;
}
static int emu_connect(int fd, Sock* s, const sockaddr* sa, socklen_t sl)
{
    if (s->type == SOCK_DGRAM && sa && sa->sa_family == AF_UNSPEC) { s->connected = false; return 0; }
    Addr a; if (int e = take(a, s->dom, sa, sl)) return e;
    if (s->type == SOCK_DGRAM) { autobind(s); if (wild(s->self)) { int p = port_of(s->self); s->self = loop(s->dom, p); } s->peer = a; s->connected = true; return 0; }
    if (s->connected) return EISCONN; if (s->held) return EALREADY; if (s->so_error) { int e = s->so_error; s->so_error = 0; return e; } if (s->B < 0) return ECONNABORTED;
    s->target = a; int mode = 0; if (net::connect_hook) { ++nohook; mode = net::connect_hook(fd); --nohook; }
    if (mode >= 10) return mode;
    if (mode == 2)
    {
        int old, small = 1; socklen_t ol = sizeof old; syscall(SYS_getsockopt, fd, SOL_SOCKET, SO_SNDBUF, &old, &ol); syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
        char junk[256] = {}; while (syscall(SYS_sendto, fd, junk, sizeof junk, MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0) > 0) {} while (syscall(SYS_sendto, fd, junk, 1, MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0) > 0) {}
        old /= 2; (void)old; s->held = true; autobind(s); held_->push_back(s); return EINPROGRESS;
    }
    Sock* l = find(SOCK_STREAM, a, true);
    if (!l) { if (mode == 0) return ECONNREFUSED; emu_refuse(s, ECONNREFUSED); return EINPROGRESS; }
    emu_establish(s); return mode == 1 ? EINPROGRESS : 0;
}
static int emu_accept(int fd, Sock* s, sockaddr* a, socklen_t* l, int flags)
{
    if (!s->listening || s->down) { errno = EINVAL; return -1; }
    for (;;)
    {
        char c; long r = syscall(SYS_recvfrom, fd, &c, 1, MSG_DONTWAIT, nullptr, nullptr); if (r < 0) return -1; if (r == 0 || s->pend.empty()) { errno = EAGAIN; return -1; }
        Pend p = s->pend.front(); s->pend.erase(s->pend.begin());
        int n = syscall(SYS_fcntl, p.b, (flags & SOCK_CLOEXEC) ? F_DUPFD_CLOEXEC : F_DUPFD, 0); syscall(SYS_close, p.b);
        syscall(SYS_fcntl, n, F_SETFL, (flags & SOCK_NONBLOCK) ? O_NONBLOCK : 0);
        Sock* q = new (malloc(sizeof(Sock))) Sock{}; q->ref = 1; q->dom = s->dom; q->type = s->type; q->B = -1; q->connected = true; q->bound = false; q->self = p.self; q->peer = p.from; (*es)[n] = q;
        give(p.from, a, l); return n;
    }
}
struct Hdr { Addr from; };
static long emu_sendto(Sock* s, const void* b, size_t n, const sockaddr* sa, socklen_t sl)
{
    Addr a; if (sa) { if (int e = take(a, s->dom, sa, sl)) { errno = e; return -1; } } else if (s->connected) a = s->peer; else { errno = EDESTADDRREQ; return -1; }
    if (port_of(a) == 0) { errno = EINVAL; return -1; } if (n > 65507) { errno = EMSGSIZE; return -1; }
    if (s->down) { errno = EPIPE; return -1; } if (s->blocked) { errno = EAGAIN; return -1; }
    autobind(s); Sock* t = find(SOCK_DGRAM, a, false);
    Hdr h; memset(&h, 0, sizeof h); h.from = s->self; if (wild(h.from)) { int p = port_of(h.from); h.from = loop(s->dom, p); }
    if (t && t->B < 0) t = nullptr;
    if (t && t->connected && !(same_ip(t->peer, h.from) && port_of(t->peer) == port_of(h.from))) t = nullptr;
    if (t && net::drop_hook) { ++nohook; bool d = net::drop_hook(port_of(a), n); --nohook; if (d) t = nullptr; }
    if (t) { iovec v[2] = {{&h, sizeof h}, {(void*)b, n}}; msghdr m{}; m.msg_iov = v; m.msg_iovlen = 2; if (syscall(SYS_sendmsg, t->B, &m, MSG_DONTWAIT | MSG_NOSIGNAL) < 0) t = nullptr; }
    if (net::sent_hook) { ++nohook; net::sent_hook(s, t, (sockaddr*)&h.from.s, (sockaddr*)&a.s, b, n); --nohook; }
    return n;
}
static long emu_recvfrom(int fd, Sock* s, void* b, size_t n, int f, sockaddr* a, socklen_t* l)
{
    if (s->down) return 0;
    Hdr h; iovec v[2] = {{&h, sizeof h}, {b, n}}; msghdr m{}; m.msg_iov = v; m.msg_iovlen = 2; long r = syscall(SYS_recvmsg, fd, &m, f); if (r < 0) return r;
    give(h.from, a, l); return r - (long)sizeof h;
}
static bool emu_dgram(Sock* s) { return s && s->type == SOCK_DGRAM; }
// stream sockets which aren't connected; 0: go on
static int emu_stream_err(Sock* s, bool w) { if (!s || s->connected) return 0; if (s->held) return EAGAIN; if (s->so_error) { int e = s->so_error; s->so_error = 0; return e; } return w ? EPIPE : ENOTCONN; }
static void emu_reset()
{
    if (!es) { es = new (malloc(sizeof *es)) std::remove_pointer_t<decltype(es)>; bounds_ = new (malloc(sizeof *bounds_)) mvec<Sock*>; held_ = new (malloc(sizeof *held_)) mvec<Sock*>; }
    while (!es->empty()) emu_close(es->begin()->first);
    bounds_->clear(); held_->clear(); next_port = 32768; net::connect_hook = nullptr; net::drop_hook = nullptr; net::sent_hook = nullptr;
}
namespace net
{
const void* id(int fd) { return emu(fd); }
void block_writes(const void* id, bool on)
{
    no_instr q; Sock* s = (Sock*)id; int fd = -1; for (auto& kv : *es) if (kv.second == s) fd = kv.first; if (fd < 0) return; if (s->blocked == on) return; s->blocked = on; char junk[4096] = {};
    if (on) { int small = 1; syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_SNDBUF, &small, sizeof small); while (syscall(SYS_sendto, fd, junk, 1, MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0) > 0) {} }
    else while (syscall(SYS_recvfrom, s->B, junk, sizeof junk, MSG_DONTWAIT, nullptr, nullptr) > 0) {}
    ++io_epoch;
}
void error(const void* id) { no_instr q; Sock* s = (Sock*)id; sockaddr u{}; u.sa_family = AF_UNSPEC; if (s->B >= 0) syscall(SYS_connect, s->B, &u, sizeof u); ++io_epoch; }
int held() { return held_->size(); }
static Sock* pop(int i) { Sock* s = (*held_)[i]; held_->erase(held_->begin() + i); return s; }
int port(int fd) { no_instr q; Sock* s = emu(fd); if (!s) return -1; autobind(s); return port_of(s->self); }
int held_index(int fd) { Sock* s = emu(fd); for (size_t i = 0; i < held_->size(); ++i) if ((*held_)[i] == s) return i; return -1; }
void establish(int i) { no_instr q; emu_establish(pop(i)); }
void refuse(int i, int err) { no_instr q; Sock* s = pop(i); emu_refuse(s, err); }
}
namespace net { bool is_socket(int fd) { return emu(fd) != nullptr; } }
