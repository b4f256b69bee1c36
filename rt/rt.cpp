// Deterministic execution runtime. Compiled WITHOUT -fsanitize=thread; linked with instrumented code and
// without libtsan. See DESIGN.md.
#include "rt.hpp"
#include "rt_int.hpp"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <time.h>
#include <ucontext.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <netinet/in.h>

#define REAL(name) (decltype(&::name))real_sym(#name)
static void* real_sym(const char* n)
{
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) { fprintf(stderr, "rt: no symbol %s\n", n); _exit(99); }
    return p;
}
template<class F> struct lazy { F f{nullptr}; };
#define REALCALL(name, ...) ([&]() { static void* _p = nullptr; if (!_p) _p = real_sym(#name); return ((decltype(&::name))_p)(__VA_ARGS__); }())

// malloc-backed allocator so runtime containers never touch the arena
template<class T> struct MA
{
    using value_type = T;
    MA() = default;
    template<class U> MA(const MA<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { free(p); }
    template<class U> bool operator==(const MA<U>&) const { return true; }
};
template<class K, class V> using umap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, MA<std::pair<const K, V>>>;
template<class T> using mvec = std::vector<T, MA<T>>;

namespace rt
{
config cfg;
int (*io_hook)(const char*, int, size_t*) = nullptr;
void (*fd_hook)(const char*, int) = nullptr;
int (*sys_hook)(const char*) = nullptr; int sys_fd = -1;
void (*sockopt_hook)(int) = nullptr;
Shm* shm = nullptr;

static constexpr int MAXT = 48;   // threads per case
static constexpr int CT = 10;     // threads tracked per heap cell
using clk = uint32_t;

struct VC
{
    clk c[MAXT];
    void join(const VC& o, int n) { for (int i = 0; i < n; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
    void clear() { memset(c, 0, sizeof c); }
};

enum St { READY, B_MUTEX, B_COND, B_JOIN, B_EPOLL, B_SLEEP, B_PRED, B_QUIESCE, B_GUARD, B_RW, DONE };
static const char* stname[] = {"ready", "mutex", "condvar", "join", "epoll", "sleep", "predicate", "quiesce", "static-guard", "rwlock", "done"};

struct Thr
{
    int id;
    St st;
    void* obj;           // what it is blocked on
    int64_t deadline;    // -1 none
    bool signalled;
    std::atomic<int> go;
    VC vc, acqf, relf;   // clock, pending acquire-fence clock, release-fence clock
    bool has_relf;
    uintptr_t stk_lo, stk_hi, sp;
    pthread_t pt;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    Thr* join_target;
    int epfd;
    uint64_t ep_epoch; bool ep_last;
    const std::function<bool()>* pred;
    const char* what;
    uint32_t prio;
    int64_t horizon;
    bool started;
};

static Thr* T[MAXT];
static int NT = 0;
static Thr* cur = nullptr;
static thread_local Thr* self __attribute__((tls_model("initial-exec"))) = nullptr;
static bool g_active = false;
static int nohook = 0;
static int64_t vnow = 0;
static uint64_t nsteps = 0, nacc = 0;
static uint64_t g_fences = 0;
static uint64_t same_run = 0, spin_run = 0;
static uint64_t io_epoch = 1;
static uint64_t idle_adv = 0;
static uint64_t sched_hash = 0;
static uint64_t nswitch = 0;
static VC fdclk;

bool active() { return g_active; }
uint64_t steps() { return nsteps; }
int64_t now_ns() { return vnow; }
int tid() { return self ? self->id : -1; }

// ---------------------------------------------------------------- choice streams
static bool replaying = false, replaying_s = false;
static mvec<uint32_t> rP; static mvec<uint8_t> rS;
static uint64_t prng_p, prng_s;
static uint64_t rnd(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint32_t rndn(uint64_t& s, uint32_t n) { return n <= 1 ? 0 : (uint32_t)((rnd(s) >> 16) % n); }

static void recP(uint32_t v) { if (shm->np >= MAXP) { shm->overflow = 1; fail("harness: program choice overflow"); } shm->P[shm->np++] = v; }
static void recS(uint8_t v) { if (shm->ns >= MAXS) { fail("livelock: schedule did not finish within %u decisions", (unsigned)MAXS); } shm->S[shm->ns++] = v; }

static uint32_t drawP(uint32_t n, uint32_t gen)
{
    uint32_t v;
    if (replaying) { size_t i = shm->np; v = i < rP.size() ? rP[i] : 0; if (v >= n) v = n - 1; }
    else v = gen;
    recP(v);
    return v;
}
static uint32_t drawS(uint32_t n, uint32_t gen)
{
    if (n > 255) n = 255;
    if (gen >= n) gen = n - 1;
    uint32_t v;
    if (replaying_s) { size_t i = shm->ns; v = i < rS.size() ? rS[i] : 0; if (v >= n) v = n - 1; }
    else v = gen;
    recS((uint8_t)v);
    return v;
}
uint32_t choose(uint32_t n) { if (n <= 1) return 0; return drawP(n, rndn(prng_p, n)); }
bool chance(uint32_t num, uint32_t den) { return drawP(2, rndn(prng_p, den) < num ? 1 : 0) != 0; }
uint32_t weighted(std::initializer_list<uint32_t> w)
{
    uint32_t tot = 0; for (auto x : w) tot += x;
    uint32_t r = rndn(prng_p, tot), i = 0;
    for (auto x : w) { if (r < x) break; r -= x; ++i; }
    i = drawP((uint32_t)w.size(), i);
    if (w.begin()[i] == 0) for (i = 0; w.begin()[i] == 0;) ++i; // a shrunk choice never takes a forbidden alternative
    return i;
}
uint32_t schoose(uint32_t n, uint32_t num, uint32_t den)
{
    uint32_t g = rndn(prng_s, den) < num ? 1 + rndn(prng_s, n - 1) : 0;
    return drawS(n, g);
}

// ---------------------------------------------------------------- reporting
static void vapp(char* buf, size_t cap, uint32_t& len, const char* fmt, va_list ap)
{
    if (len + 2 >= cap) return;
    int n = vsnprintf(buf + len, cap - len, fmt, ap);
    if (n > 0) len = std::min<size_t>(cap - 1, len + n);
}
static uintptr_t exe_base = 0;
extern "C" char __executable_start;

[[noreturn]] static void die(int code)
{
    g_active = false;
    shm->steps = nsteps;
    shm->vnow = vnow;
    _exit(code);
}
static void dump_threads()
{
    uint32_t l = strlen(shm->msg);
    auto app = [&](const char* fmt, ...) { va_list ap; va_start(ap, fmt); vapp(shm->msg, sizeof shm->msg, l, fmt, ap); va_end(ap); };
    app(" | t=%lldns threads:", (long long)vnow);
    for (int i = 0; i < NT; ++i)
        if (T[i]->st != DONE) app(" T%d=%s%s%s", i, stname[T[i]->st], T[i]->what ? ":" : "", T[i]->what ? T[i]->what : "");
}
void fail(const char* fmt, ...)
{
    if (!shm) { fprintf(stderr, "fail before init: %s\n", fmt); _exit(99); }
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    va_end(ap);
    if (NT > 1) dump_threads();
    shm->failed = 1;
    die(42);
}
void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vapp(shm->note, sizeof shm->note, shm->note_len, fmt, ap); va_end(ap); }
void trace(const char* fmt, ...)
{
    if (shm->trace_len + 256 >= sizeof shm->trace) return;
    shm->trace_len += snprintf(shm->trace + shm->trace_len, 64, "[%d T%d %lldus] ", (int)nsteps, tid(), (long long)(vnow / 1000));
    va_list ap; va_start(ap, fmt);
    vapp(shm->trace, sizeof shm->trace - 2, shm->trace_len, fmt, ap);
    va_end(ap);
    shm->trace[shm->trace_len++] = '\n'; shm->trace[shm->trace_len] = 0;
}
void nontrivial() { shm->nontrivial = 1; }
void label(const char* name)
{
    for (uint32_t i = 0; i < shm->nlabels; ++i)
        if (!strcmp(shm->labels[i].name, name)) { if (shm->labels[i].lastcase != shm->caseno) { shm->labels[i].n++; shm->labels[i].lastcase = shm->caseno; } return; }
    if (shm->nlabels < MAXLAB)
    {
        auto& l = shm->labels[shm->nlabels];
        snprintf(l.name, sizeof l.name, "%s", name);
        l.n = 1; l.lastcase = shm->caseno;
        shm->nlabels++;
    }
}
void discard() { shm->discarded = 1; die(43); }

no_instr::no_instr() { ++nohook; }
no_instr::~no_instr() { --nohook; }

// ---------------------------------------------------------------- heap arena
static constexpr uintptr_t ABASE = 0x200000000000ull;
static constexpr size_t ASIZE = 256ull << 20;
static uint8_t* shadow;    // per 16-byte granule: 0 none 1 live 2 freed 3 runtime
static uint32_t* bsize;    // per granule (block start): size
static uint32_t* bpc;      // per granule (block start): allocation pc
static uint32_t* fpc;      // per granule (block start): free pc
struct Cell { uint32_t wclk; uint8_t wtid, wmask; uint16_t pad; uint32_t wpc; uint32_t rclk[CT]; uint8_t rmask[CT]; uint16_t pad2; };
static_assert(sizeof(Cell) == 64);
static Cell* cells;
static uintptr_t abump = ABASE;
static size_t nlive = 0;
static uintptr_t case_start = ABASE;

static uint32_t rpc(void* p) { return (uint32_t)((uintptr_t)p - exe_base); }

static void init_arena()
{
    auto mm = [](void* at, size_t n) {
        void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
        return p;
    };
    mm((void*)ABASE, ASIZE);
    shadow = (uint8_t*)mm(nullptr, ASIZE / 16);
    bsize = (uint32_t*)mm(nullptr, ASIZE / 4);
    bpc = (uint32_t*)mm(nullptr, ASIZE / 4);
    fpc = (uint32_t*)mm(nullptr, ASIZE / 4);
    cells = (Cell*)mm(nullptr, ASIZE * 8);
}
static inline bool in_arena(uintptr_t a) { return a - ABASE < ASIZE; }
static inline size_t gran(uintptr_t a) { return (a - ABASE) >> 4; }

static uintptr_t block_start(uintptr_t a)
{
    size_t g = gran(a);
    for (size_t i = 0; i < 65536 && g > 0; ++i, --g) if (bsize[g]) return ABASE + (g << 4);
    return 0;
}
[[noreturn]] static void bad_access(const char* kind, uintptr_t a, unsigned sz, void* pc)
{
    uintptr_t b = block_start(a);
    uint32_t s = b ? bsize[gran(b)] : 0;
    fail("memory: %s of %u bytes, %s, at +%ld in a block of %u pc=0x%x alloc=0x%x free=0x%x", kind, sz,
         b && shadow[gran(b)] == 2 && a < b + s ? "after free" : "outside any live block",
         (long)(b ? a - b : 0), s, rpc(pc), b ? bpc[gran(b)] : 0, b ? fpc[gran(b)] : 0);
}
bool is_live(const void* p)
{
    uintptr_t a = (uintptr_t)p;
    return !in_arena(a) || shadow[gran(a)] == 1;
}
size_t live_allocs() { return nlive; }

static void race(const char* kind, uintptr_t a, const char* other, int ot, uint32_t opc, void* pc)
{
    uintptr_t b = block_start(a);
    fail("race: %s by T%d unordered with %s by T%d at +%ld in block of %u pc=0x%x prev=0x%x alloc=0x%x", kind, self ? self->id : -1, other, ot,
         (long)(b ? a - b : 0), b ? bsize[gran(b)] : 0, rpc(pc), opc, b ? bpc[gran(b)] : 0);
}
static inline uint8_t cmask(uintptr_t a, unsigned sz)
{
    unsigned o = a & 7;
    unsigned e = std::min(8u, o + sz);
    return (uint8_t)(((1u << e) - 1) & ~((1u << o) - 1));
}
static void hb_read(uintptr_t a, unsigned sz, void* pc, bool atomic)
{
    int t = self->id;
    if (t >= CT) return;
    while (sz)
    {
        unsigned n = std::min(sz, 8 - (unsigned)(a & 7));
        Cell& c = cells[(a - ABASE) >> 3];
        uint8_t m = cmask(a, n);
        if (c.wclk && c.wtid != t && (c.wmask & m) && c.wclk > self->vc.c[c.wtid]) race(atomic ? "atomic access" : "read", a, "write", c.wtid, c.wpc, pc);
        clk now = self->vc.c[t];
        if (c.rclk[t] == now) c.rmask[t] |= m; else { c.rclk[t] = now; c.rmask[t] = m; }
        a += n; sz -= n;
    }
}
static void hb_write(uintptr_t a, unsigned sz, void* pc, const char* kind)
{
    int t = self->id;
    while (sz)
    {
        unsigned n = std::min(sz, 8 - (unsigned)(a & 7));
        Cell& c = cells[(a - ABASE) >> 3];
        uint8_t m = cmask(a, n);
        clk now = self->vc.c[t];
        if (c.wclk == now && c.wtid == t && (c.wmask & m) == m && 0) {}
        if (c.wclk && c.wtid != t && (c.wmask & m) && c.wclk > self->vc.c[c.wtid]) race(kind, a, "write", c.wtid, c.wpc, pc);
        for (int u = 0; u < NT && u < CT; ++u)
            if (u != t && c.rclk[u] && (c.rmask[u] & m) && c.rclk[u] > self->vc.c[u]) race(kind, a, "access", u, 0, pc);
        if (t < CT)
        {
            if (c.wclk == now && c.wtid == t) c.wmask |= m; else { c.wclk = now; c.wtid = t; c.wmask = m; }
            c.wpc = rpc(pc);
        }
        a += n; sz -= n;
    }
}
// foreign stack check
static void stack_check(uintptr_t a, unsigned sz, const char* kind, void* pc)
{
    if (a >= self->stk_lo && a < self->stk_hi) return;
    for (int i = 0; i < NT; ++i)
    {
        Thr* t = T[i];
        if (t == self || !t->stk_hi) continue;
        if (a >= t->stk_lo && a < t->stk_hi)
        {
            if (t->st == DONE || a + sz <= t->sp - 0)
                fail("memory: %s of %u bytes in a dead stack frame of T%d pc=0x%x", kind, sz, i, rpc(pc));
            return;
        }
    }
}
static inline void access(uintptr_t a, unsigned sz, bool wr, void* pc)
{
    if (!g_active || nohook || !self) return;
    if (++nacc > 300000000ull) fail("livelock: unbounded computation");
    if (in_arena(a))
    {
        if (shadow[gran(a)] != 1 || shadow[gran(a + sz - 1)] != 1) bad_access(wr ? "write" : "read", a, sz, pc);
        if (cfg.race && NT > 1) { if (wr) hb_write(a, sz, pc, "write"); else hb_read(a, sz, pc, false); }
    }
    else if (NT > 1) stack_check(a, sz, wr ? "write" : "read", pc);
    if (a < 4096) fail("memory: null dereference (0x%lx) pc=0x%x", (unsigned long)a, rpc(pc));
}
// liveness of a synchronisation object
static void live_obj(const void* p, const char* kind, void* pc)
{
    uintptr_t a = (uintptr_t)p;
    if (!self) return;
    if (in_arena(a)) { if (shadow[gran(a)] != 1) bad_access(kind, a, 1, pc); }
    else if (NT > 1) stack_check(a, 1, kind, pc);
}

static void* arena_alloc(size_t n, size_t al, void* pc)
{
    if (n == 0) n = 1;
    uintptr_t p = abump + 16;
    p = (p + al - 1) & ~(al - 1);
    if (p + n + 64 > ABASE + ASIZE) fail("memory: arena exhausted (unbounded allocation)");
    size_t g0 = gran(p), g1 = gran(p + n - 1);
    memset(shadow + g0, 1, g1 - g0 + 1);
    bsize[g0] = (uint32_t)n; bpc[g0] = rpc(pc);
    abump = (p + n + 15) & ~15ull;
    memset((void*)p, 0xCD, n);
    ++nlive;
    return (void*)p;
}
static void purge_sync(uintptr_t lo, uintptr_t hi);
static void arena_free(void* vp, void* pc)
{
    uintptr_t p = (uintptr_t)vp;
    size_t g = gran(p);
    if (shadow[g] != 1 || !bsize[g]) bad_access(shadow[g] == 2 ? "double delete" : "bad delete", p, 1, pc);
    uint32_t n = bsize[g];
    if (g_active && self && cfg.race && NT > 1 && !nohook) hb_write(p, n, pc, "delete");
    memset(shadow + g, 2, gran(p + n - 1) - g + 1);
    fpc[g] = rpc(pc);
    memset(vp, 0xEB, n);
    if (g_active) purge_sync(p, p + n);
    --nlive;
}
static void arena_rewind()
{
    size_t g0 = gran(case_start), g1 = gran(abump) + 2;
    memset(shadow + g0, 0, g1 - g0);
    memset(bsize + g0, 0, (g1 - g0) * 4);
    memset(bpc + g0, 0, (g1 - g0) * 4);
    memset(fpc + g0, 0, (g1 - g0) * 4);
    size_t cb = (abump - case_start + 64) * 8;
    if (cb > (16u << 20)) madvise((void*)((((uintptr_t)cells + (case_start - ABASE) * 8) + 4095) & ~4095ull), cb & ~4095ull, MADV_DONTNEED);
    memset((char*)cells + (case_start - ABASE) * 8, 0, cb);
    abump = case_start;
}

// ---------------------------------------------------------------- sync objects
struct SyncVar { VC vc; };
static umap<uintptr_t, SyncVar>* syncs;
struct Mtx { int owner{-1}; int depth{0}; VC vc{}; };
static umap<uintptr_t, Mtx>* mtxs;
struct Cond { mvec<int> waiters; };
static umap<uintptr_t, Cond>* conds;
struct Rw { int writer{-1}; int readers{0}; VC vc{}; };
static umap<uintptr_t, Rw>* rws;
struct Once { int state{0}; VC vc{}; };
static umap<uintptr_t, Once>* onces;
struct Tfd { int64_t deadline{-1}; int64_t interval{0}; };
static std::map<int, Tfd, std::less<int>, MA<std::pair<const int, Tfd>>>* tfds;
static std::map<int, int, std::less<int>, MA<std::pair<const int, int>>>* ofds; // fds opened in this case

static void purge_sync(uintptr_t lo, uintptr_t hi)
{
    if (hi - lo > 100000) return;
    for (uintptr_t a = lo; a < hi; a += 1)
    {
        if ((a & 7) == 0)
        {
            auto it = mtxs->find(a);
            if (it != mtxs->end())
            {
                if (it->second.owner >= 0) fail("memory: mutex destroyed while locked by T%d", it->second.owner);
                mtxs->erase(it);
            }
            auto ic = conds->find(a);
            if (ic != conds->end())
            {
                if (!ic->second.waiters.empty()) fail("memory: condition variable destroyed with a thread waiting");
                conds->erase(ic);
            }
        }
        syncs->erase(a);
    }
}

// ---------------------------------------------------------------- scheduler core
static long futex(std::atomic<int>* a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }

enum PolK { P_RW, P_PCT };
static struct { PolK kind; uint32_t den; uint64_t cp[8]; int ncp; uint32_t low; bool tj; bool spur; uint32_t jit; } pol;

static void init_policy()
{
    uint64_t& s = prng_s;
    switch (rndn(s, 6))
    {
        case 0: pol.kind = P_RW; pol.den = 2; break;
        case 1: pol.kind = P_RW; pol.den = 5; break;
        case 2: pol.kind = P_RW; pol.den = 16; break;
        case 3: pol.kind = P_RW; pol.den = 50; break;
        default:
        {
            pol.kind = P_PCT;
            pol.ncp = 1 + rndn(s, 6);
            static const uint32_t L[] = {60, 150, 400, 1000};
            uint32_t l = L[rndn(s, 4)];
            for (int i = 0; i < pol.ncp; ++i) pol.cp[i] = 1 + rndn(s, l);
        }
    }
    pol.low = 1000;
    pol.tj = drawS(2, rndn(s, 3) == 0);
    pol.spur = drawS(2, rndn(s, 3) == 0);
    pol.jit = drawS(2, rndn(s, 3) == 0);
}

#include "emu.hpp"
static bool ep_ready(Thr* t)
{
    if (!cfg.net && t->ep_epoch == io_epoch) return t->ep_last;
    struct pollfd p{t->epfd, POLLIN, 0};
    t->ep_last = syscall(SYS_poll, &p, 1, 0) > 0;
    t->ep_epoch = io_epoch;
    return t->ep_last;
}
static bool runnable(Thr* t)
{
    switch (t->st)
    {
        case READY: return true;
        case DONE: return false;
        case B_QUIESCE: return false;
        default: break;
    }
    if (t->deadline >= 0 && t->deadline <= vnow) return true;
    switch (t->st)
    {
        case B_MUTEX: { auto it = mtxs->find((uintptr_t)t->obj); return it == mtxs->end() || it->second.owner < 0; }
        case B_RW: { auto& r = (*rws)[(uintptr_t)t->obj]; return t->signalled ? r.writer < 0 && r.readers == 0 : r.writer < 0; }
        case B_COND: return t->signalled;
        case B_JOIN: return t->join_target->st == DONE;
        case B_EPOLL: return ep_ready(t);
        case B_GUARD: return t->signalled;
        case B_PRED: { ++nohook; bool r = (*t->pred)(); --nohook; return r; }
        default: return false;
    }
}
static void fire_timers()
{
    for (auto& [fd, t] : *tfds)
        if (t.deadline >= 0 && t.deadline <= vnow)
        {
            uint64_t one = 1;
            syscall(SYS_write, fd, &one, 8);
            t.deadline = t.interval > 0 ? vnow + t.interval : -1;
            ++io_epoch;
        }
}
static int64_t next_deadline()
{
    int64_t d = -1;
    for (int i = 0; i < NT; ++i)
        if (T[i]->st != DONE && T[i]->st != READY && T[i]->st != B_QUIESCE && T[i]->deadline > vnow && (d < 0 || T[i]->deadline < d)) d = T[i]->deadline;
    for (auto& [fd, t] : *tfds) if (t.deadline > vnow && (d < 0 || t.deadline < d)) d = t.deadline;
    return d;
}
static void real_sleep_us(long us) { struct timespec ts{0, us * 1000}; syscall(SYS_nanosleep, &ts, nullptr); }
static bool kernel_settle(bool hard)
{
    // real sockets: give the kernel a chance to deliver before concluding that nothing is ready
    int rounds = hard ? 30 : 2;
    for (int r = 0; r < rounds; ++r)
    {
        struct pollfd p[MAXT]; int n = 0;
        for (int i = 0; i < NT; ++i) if (T[i]->st == B_EPOLL) p[n++] = {T[i]->epfd, POLLIN, 0};
        if (!n) return false;
        if (syscall(SYS_poll, p, n, hard ? 10 : 1) > 0) return true;
    }
    return false;
}

static Thr* pick(bool exclude_cur)
{
    for (;;)
    {
        fire_timers();
        Thr* cand[MAXT + 1]; int n = 0;
        bool cur_ok = cur && !exclude_cur && runnable(cur);
        if (cur_ok) cand[n++] = cur;
        int c0 = cur ? cur->id : 0;
        for (int k = 1; k <= NT; ++k)
        {
            Thr* t = T[(c0 + k) % NT];
            if (t == cur) continue;
            if (runnable(t)) cand[n++] = t;
        }
        if (n == 0 && exclude_cur && cur && runnable(cur)) cand[n++] = cur;
        if (n == 0)
        {
            if (cfg.net && kernel_settle(false)) { ++io_epoch; continue; }
            int64_t d = next_deadline();
            Thr* q = nullptr;
            for (int i = 0; i < NT; ++i) if (T[i]->st == B_QUIESCE) q = T[i];
            if (q && (d < 0 || d > q->horizon))
            {
                if (cfg.net && kernel_settle(true)) { ++io_epoch; continue; }
                if (q->horizon > vnow) { vnow = q->horizon; }
                q->st = READY; return q;
            }
            if (d >= 0)
            {
                if (d > cfg.hang_ns) fail("hang: no completion by virtual time limit (nothing can make progress)");
                if (++idle_adv > 200000) fail("hang: time advances without completion");
                vnow = d;
                if (cfg.timejump && pol.jit)
                {
                    // late wake-up: everything due may be observed late
                    uint32_t j = drawS(4, rndn(prng_s, 4) == 0 ? 1 + rndn(prng_s, 3) : 0);
                    static const int64_t J[] = {0, 1, 400000, 3000000};
                    vnow += J[j];
                }
                continue;
            }
            if (cfg.net && kernel_settle(true)) { ++io_epoch; continue; }
            fail("deadlock: every thread is blocked and no timer is pending");
        }
        bool tjp = cfg.timejump && pol.tj;
        int64_t d = -1;
        if (tjp) { d = next_deadline(); if (d < 0 || d > cfg.hang_ns / 2) tjp = false; }
        uint32_t total = n + (tjp ? 1 : 0);
        if (total == 1) return cand[0];
        uint32_t g = 0;
        if (!replaying_s)
        {
            if (tjp && rndn(prng_s, 40) == 0) g = n;
            else if (pol.kind == P_RW)
            {
                if (cur_ok) g = (n > 1 && rndn(prng_s, pol.den) == 0) ? 1 + rndn(prng_s, n - 1) : 0;
                else g = rndn(prng_s, n);
            }
            else
            {
                if (cur_ok) for (int i = 0; i < pol.ncp; ++i) if (pol.cp[i] == nsteps) { cur->prio = --pol.low; break; }
                for (int i = 1; i < n; ++i) if (cand[i]->prio > cand[g]->prio) g = i;
            }
        }
        uint32_t v = drawS(total, g);
        if ((int)v == n) { vnow = d; continue; }
        return cand[v];
    }
}
static void wait_turn(Thr* me)
{
    while (me->go.load(std::memory_order_acquire) == 0) futex(&me->go, FUTEX_WAIT_PRIVATE, 0);
    me->go.store(0, std::memory_order_relaxed);
}
static void switch_to(Thr* t)
{
    Thr* me = self;
    if (t == me) { t->started = true; return; }
    ++nswitch;
    same_run = 0; spin_run = 0;
    sched_hash = (sched_hash ^ (nsteps * 64 + t->id)) * 0x100000001b3ull;
    cur = t;
    t->started = true;
    t->go.store(1, std::memory_order_release);
    futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
    if (me->st != DONE) wait_turn(me);
}
static void step_check()
{
    ++nsteps;
    shm->steps = nsteps;
    if (nsteps > cfg.step_limit) fail("livelock: no completion within %llu steps", (unsigned long long)cfg.step_limit);
}
#define ENTER() do { if (self) self->sp = (uintptr_t)__builtin_frame_address(0); } while (0)

// a schedule point for a thread that stays runnable
static void spoint(bool yielding = false)
{
    step_check();
    if (NT == 1 && !yielding) return;
    if (!yielding && ++same_run <= 400) { switch_to(pick(false)); return; }
    same_run = 0;
    cur->prio = --pol.low;
    fire_timers();
    bool other = false;
    for (int i = 0; i < NT; ++i) if (T[i] != cur && runnable(T[i])) { other = true; break; }
    if (other) { switch_to(pick(true)); return; }
    // nobody else can run: let time move so that spinning on a deadline terminates
    spin_run += yielding ? 8 : 1;
    if (spin_run > 30)
    {
        int64_t d = next_deadline();
        if (d >= 0)
        {
            if (d > cfg.hang_ns) fail("hang: a thread spins and nothing else can make progress");
            vnow = d; spin_run = 0;
        }
        else if (yielding && spin_run > 20000) fail("livelock: a thread spins and nothing else can make progress");
    }
}
// block the current thread in state s until runnable() says otherwise
static void block(St s, void* obj, int64_t deadline, const char* what = nullptr)
{
    step_check();
    Thr* me = self;
    me->st = s; me->obj = obj; me->deadline = deadline; me->what = what;
    me->ep_epoch = 0;
    Thr* t = pick(false);
    switch_to(t);
    me->st = READY; me->deadline = -1; me->what = nullptr;
}

static bool on() { return g_active && self && !nohook; }

void point() { if (on()) { ENTER(); spoint(); } }
void yield() { if (on()) { ENTER(); spoint(true); } }
void quiesce(int64_t horizon)
{
    ENTER();
    step_check();
    self->st = B_QUIESCE; self->horizon = vnow + horizon; self->deadline = -1; self->what = "quiesce";
    Thr* t = pick(false);
    switch_to(t);
    self->st = READY; self->what = nullptr;
    // everything that happened is ordered before the observer's checks
    for (int i = 0; i < NT; ++i) if (T[i] != self) self->vc.join(T[i]->vc, NT);
}
void advance(int64_t ns) { ENTER(); block(B_SLEEP, nullptr, vnow + ns, "sleep"); }
void wait_until(const std::function<bool()>& pred, const char* what)
{
    ENTER();
    self->pred = &pred;
    block(B_PRED, nullptr, -1, what);
    for (int i = 0; i < NT; ++i) if (T[i] != self) self->vc.join(T[i]->vc, NT);
}

// ---------------------------------------------------------------- happens-before helpers
static VC& syncvc(uintptr_t a) { return (*syncs)[a].vc; }
static void acquire(const VC& v) { self->vc.join(v, NT); }
static void tick() { self->vc.c[self->id]++; }
static void release_join(VC& v) { v.join(self->vc, NT); tick(); }
static void fd_release() { if (self) release_join(fdclk); }
static void fd_acquire() { if (self) acquire(fdclk); }

static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void at_load(uintptr_t a, int mo)
{
    auto it = syncs->find(a);
    if (it == syncs->end()) return;
    if (is_acq(mo)) acquire(it->second.vc); else self->acqf.join(it->second.vc, NT);
}
static void at_store(uintptr_t a, int mo)
{
    if (is_rel(mo)) { syncvc(a) = self->vc; tick(); }
    else if (self->has_relf) syncvc(a) = self->relf;
    else { auto it = syncs->find(a); if (it != syncs->end()) it->second.vc.clear(); }
}
static void at_rmw(uintptr_t a, int mo)
{
    at_load(a, mo);
    if (is_rel(mo)) release_join(syncvc(a));
    else if (self->has_relf) syncvc(a).join(self->relf, NT);
}
static void at_pre(uintptr_t a, unsigned sz, bool wr, void* pc)
{
    if (in_arena(a)) { if (shadow[gran(a)] != 1) bad_access(wr ? "atomic update" : "atomic load", a, sz, pc); }
    else if (NT > 1) stack_check(a, sz, wr ? "atomic update" : "atomic load", pc);
    if (a < 4096) fail("memory: null dereference (0x%lx) pc=0x%x", (unsigned long)a, rpc(pc));
}
static void at_hb(uintptr_t a, unsigned sz, void* pc) { if (cfg.race && NT > 1 && in_arena(a)) hb_read(a, sz, pc, true); }

// ---------------------------------------------------------------- case lifecycle
static void stack_bounds(Thr* t)
{
    pthread_attr_t at; void* lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    t->stk_lo = (uintptr_t)lo; t->stk_hi = (uintptr_t)lo + sz;
}
static Thr* new_thr()
{
    if (NT >= MAXT) fail("harness: too many threads");
    Thr* t = (Thr*)calloc(1, sizeof(Thr));
    new (&t->go) std::atomic<int>(0);
    t->id = NT; t->deadline = -1; t->st = READY;
    t->vc.c[t->id] = 1;
    t->prio = 2000 + rndn(prng_s, 100000);
    T[NT++] = t;
    return t;
}
static void crash_handler(int sig, siginfo_t* si, void* uc)
{
    if (shm && !shm->failed)
    {
        uintptr_t pc = (uintptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
        snprintf(shm->msg, sizeof shm->msg, "crash: signal %d (%s) at address 0x%lx pc=0x%x", sig, strsignal(sig), (unsigned long)si->si_addr, (uint32_t)(pc - exe_base));
        shm->failed = 1;
    }
    _exit(42);
}
void process_init(Shm* s)
{
    shm = s;
    exe_base = (uintptr_t)&__executable_start;
    init_arena();
    syncs = new (malloc(sizeof *syncs)) std::remove_pointer_t<decltype(syncs)>;
    mtxs = new (malloc(sizeof *mtxs)) std::remove_pointer_t<decltype(mtxs)>;
    conds = new (malloc(sizeof *conds)) std::remove_pointer_t<decltype(conds)>;
    rws = new (malloc(sizeof *rws)) std::remove_pointer_t<decltype(rws)>;
    onces = new (malloc(sizeof *onces)) std::remove_pointer_t<decltype(onces)>;
    tfds = new (malloc(sizeof *tfds)) std::remove_pointer_t<decltype(tfds)>;
    ofds = new (malloc(sizeof *ofds)) std::remove_pointer_t<decltype(ofds)>;
    static char alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int sg : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(sg, &sa, nullptr);
}
void run_case(uint64_t seed, const Replay* rp)
{
    shm->np = shm->ns = 0; shm->note_len = shm->trace_len = 0; shm->note[0] = shm->trace[0] = shm->msg[0] = 0;
    shm->nontrivial = 0; shm->discarded = 0; shm->failed = 0;
    cfg = config{};
    emu_reset(); io_hook = nullptr; fd_hook = nullptr; sys_hook = nullptr; sockopt_hook = nullptr;
    replaying = rp != nullptr; replaying_s = rp && !rp->gen_s;
    if (rp) { rP.assign(rp->P.begin(), rp->P.end()); rS.assign(rp->S.begin(), rp->S.end()); }
    prng_p = seed; prng_s = seed ^ 0x5bd1e995a5a5a5a5ull; rnd(prng_p); rnd(prng_s);
    init_policy();
    for (int i = 0; i < NT; ++i) free(T[i]);
    NT = 0;
    syncs->clear(); mtxs->clear(); conds->clear(); rws->clear(); tfds->clear(); ofds->clear();
    fdclk.clear();
    g_fences = 0; vnow = 1000000000; nsteps = nacc = 0; same_run = spin_run = 0; idle_adv = 0; sched_hash = 0; nswitch = 0; ++io_epoch;
    nohook = 0;
    case_start = abump;
    memset((void*)cells, 0, (abump - ABASE + 64) * 8);
    size_t live0 = nlive;
    Thr* t = new_thr();
    stack_bounds(t); t->started = true; t->pt = pthread_self();
    self = t; cur = t;
    g_active = true;
    harness_case();
    if (NT > 1)
    {
        for (int i = 1; i < NT; ++i) if (T[i]->st != DONE) fail("hang: thread T%d still running at the end of the case", i);
    }
    g_active = false;
    if (cfg.leak && nlive != live0)
    {
        g_active = true;
        for (size_t g = gran(case_start); g < gran(abump); ++g)
            if (bsize[g] && shadow[g] == 1) fail("leak: %zu heap block(s) never freed, first of %u bytes alloc=0x%x", nlive - live0, bsize[g], bpc[g]);
        fail("leak: live block count %zu -> %zu", live0, nlive);
    }
    if (cfg.fdleak && !ofds->empty()) { g_active = true; fail("fdleak: %zu descriptor(s) never closed, first fd %d", ofds->size(), ofds->begin()->first); }
    for (auto& [fd, k] : *ofds) syscall(SYS_close, fd);
    ofds->clear(); emu_reset();
    self = nullptr;
    if (nlive == live0) arena_rewind();
    shm->sched_hash = sched_hash;
    shm->steps = nsteps;
    shm->nswitch = nswitch;
}
std::vector<int> open_fds() { std::vector<int> v; for (auto& [f, k] : *ofds) v.push_back(f); return v; }

// ---------------------------------------------------------------- threads
static void* tramp(void* p)
{
    Thr* t = (Thr*)p;
    self = t;
    stack_bounds(t);
    t->sp = (uintptr_t)__builtin_frame_address(0);
    wait_turn(t);
    t->ret = t->fn(t->arg);
    // hand over
    step_check();
    t->st = DONE;
    VC v = t->vc; (void)v;
    bool alldone = false;
    (void)alldone;
    Thr* n = pick(true);
    self = t;
    switch_to(n);
    self = nullptr;
    return t->ret;
}
} // namespace rt
using namespace rt;

extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept
{
    if (!on()) return REALCALL(pthread_create, th, at, fn, arg);
    ENTER();
    spoint();
    Thr* t = new_thr();
    t->fn = fn; t->arg = arg;
    t->vc.join(self->vc, NT); t->vc.c[t->id] = 1;
    tick();
    int r = REALCALL(pthread_create, &t->pt, at, tramp, t);
    if (r) { NT--; free(t); return r; }
    *th = t->pt;
    spoint();
    return 0;
}
int pthread_join(pthread_t th, void** ret)
{
    if (!on()) return REALCALL(pthread_join, th, ret);
    ENTER();
    spoint();
    Thr* t = nullptr;
    for (int i = 0; i < NT; ++i) if (pthread_equal(T[i]->pt, th)) t = T[i];
    if (!t) return REALCALL(pthread_join, th, ret);
    if (t->st != DONE) { self->join_target = t; block(B_JOIN, t, -1); }
    acquire(t->vc);
    int r = REALCALL(pthread_join, th, ret);
    memset(&t->pt, 0xff, sizeof t->pt);
    t->stk_hi = t->stk_lo = 0;
    return r;
}
// ---------------------------------------------------------------- mutex / cond
static void mx_lock(pthread_mutex_t* m, void* pc)
{
    live_obj(m, "lock of a mutex", pc);
    Mtx* x = &(*mtxs)[(uintptr_t)m];
    if (x->owner == self->id)
    {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x->depth++; return; }
        fail("deadlock: thread relocks a mutex it holds pc=0x%x", rpc(pc));
    }
    while (x->owner >= 0)
    {
        block(B_MUTEX, m, -1);
        live_obj(m, "lock of a mutex", pc);
        x = &(*mtxs)[(uintptr_t)m];
    }
    x->owner = self->id; x->depth = 1;
    acquire(x->vc);
}
static void mx_unlock(pthread_mutex_t* m, void* pc)
{
    live_obj(m, "unlock of a mutex", pc);
    Mtx& x = (*mtxs)[(uintptr_t)m];
    if (x.owner != self->id) fail("memory: unlock of a mutex not held by the thread pc=0x%x", rpc(pc));
    if (--x.depth > 0) return;
    release_join(x.vc);
    x.owner = -1;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!on()) return REALCALL(pthread_mutex_lock, m);
    ENTER(); spoint();
    mx_lock(m, __builtin_return_address(0));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!on()) return REALCALL(pthread_mutex_trylock, m);
    ENTER(); spoint();
    live_obj(m, "trylock of a mutex", __builtin_return_address(0));
    Mtx& x = (*mtxs)[(uintptr_t)m];
    if (x.owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; }
    if (x.owner >= 0) return EBUSY;
    x.owner = self->id; x.depth = 1;
    acquire(x.vc);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!on()) return REALCALL(pthread_mutex_unlock, m);
    ENTER();
    mx_unlock(m, __builtin_return_address(0));
    spoint();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    if (!on()) return REALCALL(pthread_mutex_destroy, m);
    mtxs->erase((uintptr_t)m);
    return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, void* pc)
{
    live_obj(c, "wait on a condvar", pc);
    spoint();
    if (cfg.spurious && pol.spur)
    {
        if (drawS(2, (!replaying_s && rndn(prng_s, 8) == 0) ? 1 : 0))
        {
            mx_unlock(m, pc); spoint(); mx_lock(m, pc);
            return 0; // spurious wake-up
        }
    }
    mx_unlock(m, pc);
    (*conds)[(uintptr_t)c].waiters.push_back(self->id);
    self->signalled = false;
    block(B_COND, c, deadline);
    bool sig = self->signalled;
    if (!sig)
    {
        auto it = conds->find((uintptr_t)c);
        if (it != conds->end()) { auto& w = it->second.waiters; w.erase(std::remove(w.begin(), w.end(), self->id), w.end()); }
    }
    self->signalled = false;
    mx_lock(m, pc);
    return sig ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on()) return REALCALL(pthread_cond_wait, c, m);
    ENTER();
    return cwait(c, m, -1, __builtin_return_address(0));
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!on()) return REALCALL(pthread_cond_timedwait, c, m, ts);
    ENTER();
    return cwait(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec, __builtin_return_address(0));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts)
{
    if (!on()) return REALCALL(pthread_cond_clockwait, c, m, ck, ts);
    ENTER();
    return cwait(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec, __builtin_return_address(0));
}
static int csignal(pthread_cond_t* c, bool all, void* pc)
{
    live_obj(c, "notify of a condvar", pc);
    spoint();
    live_obj(c, "notify of a condvar", pc);
    auto it = conds->find((uintptr_t)c);
    if (it != conds->end())
    {
        auto& w = it->second.waiters;
        if (all) { for (int i : w) T[i]->signalled = true; w.clear(); }
        else if (!w.empty())
        {
            uint32_t k = w.size() > 1 ? drawS(w.size(), replaying_s ? 0 : rndn(prng_s, w.size())) : 0;
            T[w[k]]->signalled = true;
            w.erase(w.begin() + k);
        }
    }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!on()) return REALCALL(pthread_cond_signal, c);
    ENTER();
    csignal(c, false, __builtin_return_address(0)); spoint(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (!on()) return REALCALL(pthread_cond_broadcast, c);
    ENTER();
    csignal(c, true, __builtin_return_address(0)); spoint(); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if (!on()) return REALCALL(pthread_cond_destroy, c);
    auto it = conds->find((uintptr_t)c);
    if (it != conds->end())
    {
        if (!it->second.waiters.empty()) fail("memory: condition variable destroyed with a thread waiting");
        conds->erase(it);
    }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
    if (!on()) return REALCALL(pthread_rwlock_rdlock, l);
    for (;;) { Rw& r = (*rws)[(uintptr_t)l]; if (r.writer < 0) { r.readers++; acquire(r.vc); return 0; } self->signalled = false; block(B_RW, l, -1); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
    if (!on()) return REALCALL(pthread_rwlock_wrlock, l);
    for (;;) { Rw& r = (*rws)[(uintptr_t)l]; if (r.writer < 0 && !r.readers) { r.writer = self->id; acquire(r.vc); return 0; } self->signalled = true; block(B_RW, l, -1); self->signalled = false; }
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if (!on()) return REALCALL(pthread_rwlock_unlock, l);
    Rw& r = (*rws)[(uintptr_t)l];
    release_join(r.vc);
    if (r.writer == self->id) r.writer = -1; else if (r.readers) r.readers--;
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (!on()) return REALCALL(pthread_once, o, f);
    ENTER();
    // completed outside of a case: the real control word says so (glibc: 2 = done)
    if (*(int*)o == 2) return 0;
    for (;;)
    {
        Once& x = (*onces)[(uintptr_t)o];
        if (x.state == 2) { acquire(x.vc); return 0; }
        if (x.state == 0)
        {
            x.state = 1;
            f();
            Once& y = (*onces)[(uintptr_t)o];
            y.state = 2; release_join(y.vc);
            *(int*)o = 2;
            for (int i = 0; i < NT; ++i) if (T[i]->st == B_GUARD && T[i]->obj == o) T[i]->signalled = true;
            return 0;
        }
        self->signalled = false;
        block(B_GUARD, o, -1);
    }
}
// function-local statics
int __cxa_guard_acquire(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    if (b[0]) return 0;
    if (!on()) { b[1] = 1; return 1; }
    for (;;)
    {
        if (b[0]) { at_load((uintptr_t)g, 2); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        self->signalled = false;
        block(B_GUARD, g, -1);
    }
}
void __cxa_guard_release(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    b[0] = 1; b[1] = 0;
    if (!on()) return;
    release_join(syncvc((uintptr_t)g));
    for (int i = 0; i < NT; ++i) if (T[i]->st == B_GUARD && T[i]->obj == g) T[i]->signalled = true;
}
void __cxa_guard_abort(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    b[1] = 0;
    if (!on()) return;
    for (int i = 0; i < NT; ++i) if (T[i]->st == B_GUARD && T[i]->obj == g) T[i]->signalled = true;
}
// ---------------------------------------------------------------- time
int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!on() || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME && id != CLOCK_BOOTTIME && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_REALTIME_COARSE)) return syscall(SYS_clock_gettime, id, ts);
    ENTER();
    spoint();
    ts->tv_sec = vnow / 1000000000; ts->tv_nsec = vnow % 1000000000;
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    if (!on()) return syscall(SYS_nanosleep, a, b);
    ENTER();
    block(B_SLEEP, nullptr, vnow + a->tv_sec * 1000000000ll + a->tv_nsec, "sleep");
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* a, struct timespec* b)
{
    if (!on()) return syscall(SYS_clock_nanosleep, id, flags, a, b) ? errno : 0;
    ENTER();
    int64_t v = a->tv_sec * 1000000000ll + a->tv_nsec;
    block(B_SLEEP, nullptr, (flags & TIMER_ABSTIME) ? std::max(v, vnow) : vnow + v, "sleep");
    return 0;
}
int usleep(unsigned us) { struct timespec t{us / 1000000, (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int sched_yield() noexcept
{
    if (!on()) return syscall(SYS_sched_yield);
    ENTER();
    spoint(true);
    return 0;
}
// ---------------------------------------------------------------- descriptors
static void opened(const char* op, int fd)
{
    if (fd < 0 || !g_active || !self) return;
    (*ofds)[fd] = 1;
    if (fd_hook) { ++nohook; fd_hook(op, fd); --nohook; }
}
static bool inject(const char* op)
{
    if (!on() || !sys_hook) return false;
    ++nohook; int e = sys_hook(op); --nohook;
    if (e > 0) { errno = e; return true; }
    return false;
}
static bool inet_type(int d, int t) { t &= ~(SOCK_NONBLOCK | SOCK_CLOEXEC); return (d == AF_INET || d == AF_INET6) && (t == SOCK_STREAM || t == SOCK_DGRAM); }
int socket(int d, int t, int p) noexcept { if (inject("socket")) return -1; int r = on() && !cfg.net && inet_type(d, t) ? emu_socket(d, t, p) : syscall(SYS_socket, d, t, p); if (on()) opened("socket", r); return r; }
int pipe(int* f) noexcept { if (inject("pipe")) return -1; int r = syscall(SYS_pipe2, f, 0); if (!r && on()) { opened("pipe", f[0]); opened("pipe", f[1]); } return r; }
int pipe2(int* f, int fl) noexcept { if (inject("pipe")) return -1; int r = syscall(SYS_pipe2, f, fl); if (!r && on()) { opened("pipe", f[0]); opened("pipe", f[1]); } return r; }
int socketpair(int d, int t, int p, int* f) noexcept { int r = syscall(SYS_socketpair, d, t, p, f); if (!r && on()) { opened("socketpair", f[0]); opened("socketpair", f[1]); } return r; }
int dup(int fd) noexcept { if (inject("dup")) return -1; int r = syscall(SYS_dup, fd); if (on()) { opened("dup", r); emu_dup(fd, r); } return r; }
int dup2(int a, int b) noexcept { int r = syscall(SYS_dup2, a, b); if (on()) opened("dup", r); return r; }
int dup3(int a, int b, int f) noexcept { int r = syscall(SYS_dup3, a, b, f); if (on()) opened("dup", r); return r; }
int eventfd(unsigned v, int f) noexcept { if (inject("eventfd")) return -1; int r = syscall(SYS_eventfd2, v, f); if (on()) opened("eventfd", r); return r; }
int epoll_create1(int f) noexcept { if (inject("epoll_create1")) return -1; int r = syscall(SYS_epoll_create1, f); if (on()) opened("epoll", r); return r; }
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { if (inject("dup")) return -1; int r = syscall(SYS_fcntl, fd, cmd, arg); if (on()) { opened("dup", r); emu_dup(fd, r); } return r; }
    if (cmd == F_SETFL && inject("fcntl")) return -1;
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    return fcntl(fd, cmd, arg);
}
int close(int fd)
{
    if (!on()) return syscall(SYS_close, fd);
    ENTER();
    spoint();
    auto it = ofds->find(fd);
    if (cfg.trace_fds)
    {
        if (it == ofds->end() && fd != -1) fail("fd: close(%d) of a descriptor this program did not open or already closed pc=0x%x", fd, rpc(__builtin_return_address(0)));
    }
    if (it != ofds->end()) ofds->erase(it);
    tfds->erase(fd); emu_close(fd);
    if (fd_hook) { ++nohook; fd_hook("close", fd); --nohook; }
    ++io_epoch;
    int r = syscall(SYS_close, fd);
    fd_release();
    spoint();
    return r;
}
int shutdown(int fd, int how) noexcept
{
    if (!on()) return syscall(SYS_shutdown, fd, how);
    ENTER(); spoint();
    Sock* k = emu(fd); int r, e;
    if (k && !k->connected && !k->listening) { r = -1; e = ENOTCONN; if (k->type == SOCK_DGRAM) { syscall(SYS_shutdown, fd, how); k->down = true; } }
    else { if (k && (k->listening || k->type == SOCK_DGRAM)) k->down = true; r = syscall(SYS_shutdown, fd, how); e = errno; }
    ++io_epoch; fd_release();
    spoint(); errno = e; return r;
}
int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) noexcept
{
    if (!on()) return syscall(SYS_epoll_ctl, ep, op, fd, ev);
    ENTER(); spoint();
    if (op == EPOLL_CTL_ADD && (sys_fd = fd, inject("epoll_ctl"))) return -1;
    fd_release();
    ++io_epoch;
    int r = syscall(SYS_epoll_ctl, ep, op, fd, ev); int e = errno;
    if (r == 0 && op == EPOLL_CTL_ADD) same_run = spin_run = 0; // progress, not spinning
    spoint(); errno = e;
    return r;
}
int epoll_wait(int ep, struct epoll_event* evs, int max, int timeout)
{
    if (!on()) return syscall(SYS_epoll_wait, ep, evs, max, timeout);
    ENTER(); spoint();
    fire_timers();
    int r = syscall(SYS_epoll_wait, ep, evs, max, 0);
    if (r == 0 && cfg.net && timeout == 0) { }
    if (r == 0 && timeout != 0)
    {
        int64_t dl = timeout < 0 ? -1 : vnow + timeout * 1000000ll;
        for (;;)
        {
            self->epfd = ep;
            block(B_EPOLL, nullptr, dl, nullptr);
            r = syscall(SYS_epoll_wait, ep, evs, max, 0);
            if (r != 0 || (dl >= 0 && vnow >= dl)) break;
        }
    }
    if (r > 0) fd_acquire();
    if (r > 1)
    {
        // the kernel's order is unspecified to the caller: rotate by choice
        uint32_t k = drawS(r, replaying_s ? 0 : (rndn(prng_s, 2) ? rndn(prng_s, r) : 0));
        std::rotate(evs, evs + k, evs + r);
    }
    ++io_epoch;
    return r;
}
int epoll_pwait(int ep, struct epoll_event* evs, int max, int timeout, const sigset_t*) { return epoll_wait(ep, evs, max, timeout); }
int timerfd_create(int ck, int fl) noexcept
{
    if (!on()) return syscall(SYS_timerfd_create, ck, fl);
    if (inject("timerfd_create")) return -1;
    int r = syscall(SYS_eventfd2, 0, EFD_NONBLOCK | EFD_CLOEXEC);
    if (r >= 0) { (*tfds)[r] = Tfd{}; opened("timerfd", r); }
    return r;
}
int timerfd_settime(int fd, int fl, const struct itimerspec* n, struct itimerspec* o) noexcept
{
    if (!on()) return syscall(SYS_timerfd_settime, fd, fl, n, o);
    ENTER(); spoint();
    auto it = tfds->find(fd);
    if (it == tfds->end()) { errno = EINVAL; return -1; }
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 || n->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    uint64_t x;
    (void)!syscall(SYS_read, fd, &x, 8);
    int64_t v = (int64_t)n->it_value.tv_sec * 1000000000ll + n->it_value.tv_nsec;
    if (n->it_value.tv_sec > 4000000000ll) v = INT64_MAX / 2;
    it->second.interval = n->it_interval.tv_sec * 1000000000ll + n->it_interval.tv_nsec;
    it->second.deadline = v == 0 ? -1 : ((fl & TFD_TIMER_ABSTIME) ? v : vnow + v);
    ++io_epoch; fd_release();
    spoint();
    return 0;
}
// transfers
static int io_pre(const char* op, int fd, size_t* len)
{
    if (!io_hook) return 0;
    ++nohook; int e = io_hook(op, fd, len); --nohook;
    return e;
}
#define XFER(op, isw, call)                                                    \
    ENTER(); spoint();                                                         \
    { int e_ = io_pre(op, fd, &n); if (e_ > 0) { errno = e_; return -1; } }    \
    if (isw) fd_release();                                                     \
    ssize_t r = call; int e = errno;                                           \
    if (!isw && r >= 0) fd_acquire();                                          \
    if (r > 0) same_run = spin_run = 0;                                        \
    ++io_epoch; spoint(); errno = e; return r;
ssize_t read(int fd, void* b, size_t n)
{
    if (!on()) return syscall(SYS_read, fd, b, n);
    Sock* k = emu(fd);
    XFER("read", false, emu_dgram(k) ? emu_recvfrom(fd, k, b, n, 0, nullptr, nullptr) : (errno = emu_stream_err(k, false)) ? -1 : syscall(SYS_read, fd, b, n))
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n)
{
    if (!on()) return syscall(SYS_write, fd, b, n);
    Sock* k = emu(fd);
    XFER("write", true, emu_dgram(k) ? emu_sendto(k, b, n, nullptr, 0) : (errno = emu_stream_err(k, true)) ? -1 : syscall(SYS_write, fd, b, n))
}
ssize_t send(int fd, const void* b, size_t n, int f)
{
    if (!on()) return syscall(SYS_sendto, fd, b, n, f, nullptr, 0);
    f |= MSG_NOSIGNAL * 0;
    Sock* k = emu(fd);
    XFER("send", true, emu_dgram(k) ? emu_sendto(k, b, n, nullptr, 0) : (errno = emu_stream_err(k, true)) ? -1 : syscall(SYS_sendto, fd, b, n, f, nullptr, 0))
}
ssize_t recv(int fd, void* b, size_t n, int f)
{
    if (!on()) return syscall(SYS_recvfrom, fd, b, n, f, nullptr, nullptr);
    Sock* k = emu(fd);
    XFER("recv", false, emu_dgram(k) ? emu_recvfrom(fd, k, b, n, f, nullptr, nullptr) : (errno = emu_stream_err(k, false)) ? -1 : syscall(SYS_recvfrom, fd, b, n, f, nullptr, nullptr))
}
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int f) { return recv(fd, b, n, f); }
ssize_t sendto(int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t al)
{
    if (!on()) return syscall(SYS_sendto, fd, b, n, f, a, al);
    Sock* k = emu(fd);
    XFER("sendto", true, emu_dgram(k) ? emu_sendto(k, b, n, a, al) : (errno = emu_stream_err(k, true)) ? -1 : syscall(SYS_sendto, fd, b, n, f, k ? nullptr : a, k ? 0 : al))
}
ssize_t recvfrom(int fd, void* b, size_t n, int f, struct sockaddr* a, socklen_t* al)
{
    if (!on()) return syscall(SYS_recvfrom, fd, b, n, f, a, al);
    Sock* k = emu(fd);
    XFER("recvfrom", false, emu_dgram(k) ? emu_recvfrom(fd, k, b, n, f, a, al) : (errno = emu_stream_err(k, false)) ? -1 : syscall(SYS_recvfrom, fd, b, n, f, k ? nullptr : a, k ? nullptr : al))
}
ssize_t __recvfrom_chk(int fd, void* b, size_t n, size_t, int f, struct sockaddr* a, socklen_t* al) { return recvfrom(fd, b, n, f, a, al); }
ssize_t sendmsg(int fd, const struct msghdr* m, int f)
{
    if (!on()) return syscall(SYS_sendmsg, fd, m, f);
    size_t n = 0;
    XFER("sendmsg", true, syscall(SYS_sendmsg, fd, m, f))
}
ssize_t recvmsg(int fd, struct msghdr* m, int f)
{
    if (!on()) return syscall(SYS_recvmsg, fd, m, f);
    size_t n = 0;
    XFER("recvmsg", false, syscall(SYS_recvmsg, fd, m, f))
}
int accept(int fd, struct sockaddr* a, socklen_t* l)
{
    if (inject("accept")) return -1;
    if (on()) { ENTER(); spoint(); }
    Sock* k = on() ? emu(fd) : nullptr; int r = k ? emu_accept(fd, k, a, l, 0) : syscall(SYS_accept, fd, a, l);
    if (on()) { int e = errno; if (r >= 0) { opened("accept", r); fd_acquire(); } ++io_epoch; errno = e; }
    return r;
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int f)
{
    if (inject("accept")) return -1;
    if (on()) { ENTER(); spoint(); }
    Sock* k = on() ? emu(fd) : nullptr; int r = k ? emu_accept(fd, k, a, l, f) : syscall(SYS_accept4, fd, a, l, f);
    if (on()) { int e = errno; if (r >= 0) { opened("accept", r); fd_acquire(); } ++io_epoch; errno = e; }
    return r;
}
int connect(int fd, const struct sockaddr* a, socklen_t l)
{
    if (!on()) return syscall(SYS_connect, fd, a, l);
    ENTER(); spoint();
    if (inject("connect")) return -1;
    fd_release();
    Sock* k = emu(fd); int r, e; if (k) { e = emu_connect(fd, k, a, l); r = e ? -1 : 0; } else { r = syscall(SYS_connect, fd, a, l); e = errno; }
    ++io_epoch; spoint(); errno = e;
    return r;
}
int bind(int fd, const struct sockaddr* a, socklen_t l) noexcept
{
    if (inject("bind")) return -1;
    Sock* k = on() ? emu(fd) : nullptr; if (!k) return syscall(SYS_bind, fd, a, l);
    Addr x; int e = take(x, k->dom, a, l); if (!e) e = emu_bind(k, x); errno = e; return e ? -1 : 0;
}
int listen(int fd, int n) noexcept
{
    if (inject("listen")) return -1;
    Sock* k = on() ? emu(fd) : nullptr; if (!k) return syscall(SYS_listen, fd, n);
    if (k->type != SOCK_STREAM) { errno = EOPNOTSUPP; return -1; } autobind(k); k->listening = true; return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) noexcept
{
    Sock* k = on() ? emu(fd) : nullptr; if (!k) return syscall(SYS_getsockname, fd, a, l);
    if (!k->bound && !k->connected) { Addr z = loop(k->dom, 0); memset(&z.s, 0, sizeof z.s); z.s.ss_family = k->dom; give(z, a, l); } else give(k->self, a, l); return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l) noexcept
{
    Sock* k = on() ? emu(fd) : nullptr; if (!k) return syscall(SYS_getpeername, fd, a, l);
    if (!k->connected) { errno = ENOTCONN; return -1; } give(k->peer, a, l); return 0;
}
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) noexcept
{
    if (inject("setsockopt")) return -1;
    Sock* k = on() ? emu(fd) : nullptr; if (!k) return syscall(SYS_setsockopt, fd, lv, o, v, l);
    if (lv != SOL_SOCKET) return 0; if (o == SO_REUSEPORT || (o == SO_REUSEADDR && k->type == SOCK_DGRAM)) { k->reuse = *(const int*)v; return 0; } if (o == SO_BINDTODEVICE) return 0;
    return syscall(SYS_setsockopt, fd, lv, o, v, l);
}
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) noexcept
{
    Sock* k = on() ? emu(fd) : nullptr; if (!k) return syscall(SYS_getsockopt, fd, lv, o, v, l);
    if (lv == SOL_SOCKET && o == SO_ERROR && !k->connected && v && l && *l >= sizeof(int)) { *(int*)v = k->so_error; k->so_error = 0; *l = sizeof(int); return 0; }
    return syscall(SYS_getsockopt, fd, lv, o, v, l);
}
// ---------------------------------------------------------------- __tsan ABI
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, RA); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, RA); }
void __tsan_read_range(void* p, unsigned long n) { if (n) access((uintptr_t)p, n, false, RA); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access((uintptr_t)p, n, true, RA); }
#define RW(n)                                                                              \
    void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, RA); }                   \
    void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, RA); }                   \
    void __tsan_read##n##_pc(void* p, void* pc) { access((uintptr_t)p, n, false, pc); }    \
    void __tsan_write##n##_pc(void* p, void* pc) { access((uintptr_t)p, n, true, pc); }    \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, RA); }         \
    void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, RA); }         \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, RA); }          \
    void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)

#define AT_BEGIN(sz, wr)                                        \
    bool o_ = on();                                             \
    if (o_) { ENTER(); at_pre((uintptr_t)a, sz, wr, RA); spoint(); at_pre((uintptr_t)a, sz, wr, RA); at_hb((uintptr_t)a, sz, RA); }
#define ATOMICS(bits, ty)                                                                                   \
    ty __tsan_atomic##bits##_load(const volatile ty* a, int mo)                                             \
    { AT_BEGIN(bits / 8, false) ty v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (o_) at_load((uintptr_t)a, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile ty* a, ty v, int mo)                                          \
    { AT_BEGIN(bits / 8, true) __atomic_store_n(a, v, __ATOMIC_SEQ_CST); if (o_) { at_store((uintptr_t)a, mo); spoint(); } } \
    ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int mo)                                         \
    { AT_BEGIN(bits / 8, true) ty r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); if (o_) { at_rmw((uintptr_t)a, mo); spoint(); } return r; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int mo)                                        \
    { AT_BEGIN(bits / 8, true) ty r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); if (o_) { at_rmw((uintptr_t)a, mo); spoint(); } return r; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int mo)                                        \
    { AT_BEGIN(bits / 8, true) ty r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); if (o_) { at_rmw((uintptr_t)a, mo); spoint(); } return r; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int mo)                                        \
    { AT_BEGIN(bits / 8, true) ty r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); if (o_) { at_rmw((uintptr_t)a, mo); spoint(); } return r; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int mo)                                         \
    { AT_BEGIN(bits / 8, true) ty r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); if (o_) { at_rmw((uintptr_t)a, mo); spoint(); } return r; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int mo)                                        \
    { AT_BEGIN(bits / 8, true) ty r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); if (o_) { at_rmw((uintptr_t)a, mo); spoint(); } return r; } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int mo)                                       \
    { AT_BEGIN(bits / 8, true) ty r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); if (o_) { at_rmw((uintptr_t)a, mo); spoint(); } return r; } \
    static int cas##bits(volatile ty* a, ty* e, ty d, int mo, int fmo, bool weak, void* pc)                 \
    {                                                                                                       \
        bool o_ = on();                                                                                     \
        if (o_) { at_pre((uintptr_t)a, bits / 8, true, pc); spoint(); at_pre((uintptr_t)a, bits / 8, true, pc); at_hb((uintptr_t)a, bits / 8, pc); \
            if (weak && cfg.spurious && pol.spur && drawS(2, (!replaying_s && rndn(prng_s, 12) == 0) ? 1 : 0)) \
            { *e = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load((uintptr_t)a, fmo); return 0; } }          \
        bool ok = __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
        if (o_) { if (ok) at_rmw((uintptr_t)a, mo); else at_load((uintptr_t)a, fmo); spoint(); }            \
        return ok;                                                                                          \
    }                                                                                                       \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* e, ty d, int mo, int fmo) { ENTER(); return cas##bits(a, e, d, mo, fmo, false, RA); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* e, ty d, int mo, int fmo) { ENTER(); return cas##bits(a, e, d, mo, fmo, true, RA); } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty e, ty d, int mo, int fmo) { ENTER(); cas##bits(a, &e, d, mo, fmo, false, RA); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo)
{
    if (!on()) return;
    ENTER();
    if (is_acq(mo)) acquire(self->acqf);
    if (is_rel(mo)) { self->relf = self->vc; self->has_relf = true; tick(); }
    // a fence is what spin loops on plain data are made of: let others run
    if (++g_fences % 8 == 0) spoint(true); else spoint();
}
void __tsan_atomic_signal_fence(int) {}
} // extern C

// the number of processors doesn't depend on the machine
unsigned int std::thread::hardware_concurrency() noexcept { return 3; }

// ---------------------------------------------------------------- operator new/delete
static void* do_new(size_t n, size_t al, void* pc)
{
    if (on() && rt::active()) return arena_alloc(n, al, pc);
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
static void do_del(void* p, void* pc)
{
    if (!p) return;
    if (in_arena((uintptr_t)p)) arena_free(p, pc); else free(p);
}
void* operator new(size_t n) { return do_new(n, 16, RA); }
void* operator new[](size_t n) { return do_new(n, 16, RA); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, RA); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, RA); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, RA); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, RA); }
void operator delete(void* p) noexcept { do_del(p, RA); }
void operator delete[](void* p) noexcept { do_del(p, RA); }
void operator delete(void* p, size_t) noexcept { do_del(p, RA); }
void operator delete[](void* p, size_t) noexcept { do_del(p, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_del(p, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_del(p, RA); }
void operator delete(void* p, std::align_val_t) noexcept { do_del(p, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { do_del(p, RA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_del(p, RA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_del(p, RA); }
