// Shared helpers for the harnesses.
#pragma once
#include "rt.hpp"
#include <atomic>
#include <coroutine>
#include <cstdlib>
#include <exception>
#include <memory>
#include <thread>
#include <utility>
#include <vector>

// containers for bookkeeping: not in the checked heap, so the harness' own records never raise race reports
template<class T> struct raw_alloc
{
    using value_type = T;
    raw_alloc() = default;
    template<class U> raw_alloc(const raw_alloc<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { free(p); }
    template<class U> bool operator==(const raw_alloc<U>&) const { return true; }
};
template<class T> using hvec = std::vector<T, raw_alloc<T>>;

// detached, eagerly started coroutine whose frame destroys itself
struct fire
{
    struct promise_type
    {
        fire get_return_object() { return {}; }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_never final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() { rt::fail("exception: an exception escaped a detached coroutine"); }
    };
};

// threads of a case
struct threads
{
    hvec<std::thread*> v;
    template<class F> void go(F&& f) { std::thread* t; { t = new std::thread(std::forward<F>(f)); } v.push_back(t); }
    void join() { for (auto* t : v) { t->join(); delete t; } v.clear(); }
    ~threads() { if (!v.empty()) rt::fail("harness: threads not joined"); }
};

// monotone history stamps
struct stamp_t { uint64_t n{0}; };
inline uint64_t g_stamp = 0;
inline uint64_t stamp() { return ++g_stamp; }

struct boom { int id; };

// an awaitable that parks the coroutine until the harness resumes it (release() does nothing if nobody is parked)
struct gate
{
    std::atomic<void*> h{nullptr};
    gate() = default;
    gate(const gate&) {}
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> x) { h.store(x.address(), std::memory_order_release); }
    void await_resume() {}
    bool parked() const { return h.load(std::memory_order_relaxed) != nullptr; }
    bool release() { void* x = h.exchange(nullptr, std::memory_order_acq_rel); if (x) { std::coroutine_handle<>::from_address(x).resume(); return true; } return false; }
};

// threads that resume coroutines handed to them: co_await hop(k) continues on thread k (k < 0: no suspension at all)
struct hoppers
{
    static constexpr int CAP = 256;
    struct box { std::atomic<void*> slot[CAP]; std::atomic<int> n{0}; };
    hvec<box*> boxes; std::atomic<bool> stop{false}; threads ths; int done{0}; void (*after)(){nullptr};
    void start(int n)
    {
        for (int i = 0; i < n; ++i) { auto* b = (box*)calloc(1, sizeof(box)); boxes.push_back(b); }
        for (int i = 0; i < n; ++i) ths.go([this, i] {
            box* b = boxes[i];
            for (int k = 0; k < CAP; ++k)
            {
                rt::wait_until([&] { return b->slot[k].load(std::memory_order_relaxed) || stop.load(std::memory_order_relaxed); }, "hopper");
                void* h = b->slot[k].load(std::memory_order_acquire);
                if (!h) return;
                std::coroutine_handle<>::from_address(h).resume();
                if (after) after();
            }
        });
    }
    void finish() { stop = true; ths.join(); for (auto* b : boxes) free(b); boxes.clear(); stop = false; }
    struct awaiter
    {
        hoppers* p; int k;
        bool await_ready() const { return k < 0 || p->boxes.empty(); }
        void await_suspend(std::coroutine_handle<> h) { auto* b = p->boxes[k % p->boxes.size()]; int i = b->n.fetch_add(1); if (i >= CAP) rt::fail("harness: too many hops"); b->slot[i].store(h.address(), std::memory_order_release); }
        void await_resume() const {}
    };
    awaiter hop(int k) { return {this, k}; }
};

// counted payloads: construction and destruction balance, contents live on the heap
struct counted
{
    static inline std::atomic<int> live{0};
    int* p;
    explicit counted(int v) : p(new int(v)) { live.fetch_add(1, std::memory_order_relaxed); }
    counted(const counted& o) : p(new int(o.get())) { live.fetch_add(1, std::memory_order_relaxed); }
    counted(counted&& o) noexcept : p(std::exchange(o.p, nullptr)) { live.fetch_add(1, std::memory_order_relaxed); }
    counted& operator=(const counted& o) { if (this != &o) { delete p; p = new int(o.get()); } return *this; }
    counted& operator=(counted&& o) noexcept { if (this != &o) { delete p; p = std::exchange(o.p, nullptr); } return *this; }
    ~counted() { delete p; p = nullptr; live.fetch_sub(1, std::memory_order_relaxed); }
    int get() const { return p ? *p : -1; }
};
struct move_only : counted
{
    using counted::counted;
    move_only(move_only&&) = default; move_only& operator=(move_only&&) = default; move_only(const move_only&) = delete;
};
struct copy_only : counted
{
    using counted::counted;
    copy_only(const copy_only& o) : counted(o) {} copy_only(copy_only&&) = delete; copy_only& operator=(const copy_only&) = default;
};

// Number 0 is a descriptor like any other: for the lifetime of this object the process has no standard input, so what is opened next gets it.
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
struct free_zero
{
    bool on; explicit free_zero(bool b) : on(b) { if (on) { rt::note("descriptor 0 is free\n"); syscall(SYS_close, 0); } }
    ~free_zero() { if (!on) return; int d = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR); if (d > 0) { syscall(SYS_dup3, d, 0, 0); syscall(SYS_close, d); } }
};
