FIRE = r'''
#include <coro/coro.hpp>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
struct fire { struct promise_type { fire get_return_object() { return {}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::abort(); } }; };
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s\n", #c); std::fflush(stderr); _exit(1); } } while (0)
'''
SEEDS = [
dict(id="S06-reset-waiters", prop="C06", edits=[("src/event.cpp", "    void* old_value = this;\n    m_state.compare_exchange_strong(old_value, nullptr, std::memory_order::acquire);", "    m_state.exchange(nullptr, std::memory_order::acq_rel);")],
 needs="reset() called on an event that is not set while coroutines wait on it", breaks="the waiters are dropped and never resumed by a later set()",
 demo=FIRE + r'''
static fire waiter(coro::event& e, int& n) { co_await e; ++n; }
int main() { coro::event e; int n = 0; waiter(e, n); waiter(e, n); e.reset(); waiter(e, n); e.set(); CHECK(n == 3); _exit(0); }
'''),
dict(id="S06-lost-push", prop="C06", edits=[("src/event.cpp", "    m_awaiting_coroutine = awaiting_coroutine;\n", "    m_awaiting_coroutine = awaiting_coroutine;\n    m_next               = nullptr;\n"),
  ("src/event.cpp", "        m_next = static_cast<awaiter*>(old_value);\n    } while", "        if (m_next == nullptr)\n        {\n            m_next = static_cast<awaiter*>(old_value);\n        }\n    } while")],
 needs="three or more coroutines: one waits, and while a second is adding itself a third one gets in between its read and its compare exchange", breaks="the one that got in between is unlinked and never resumed",
 timeout=120, demo=FIRE + r'''
#include <thread>
static std::atomic<int> n{0};
static fire waiter(coro::event& e) { co_await e; n.fetch_add(1); }
int main() {
  for (int r = 0; r < 4000; ++r) {
    coro::event e; n = 0; std::atomic<int> go{0};
    auto f = [&] { go.fetch_add(1); while (go.load() < 4) {} for (int i = 0; i < 8; ++i) waiter(e); };
    std::thread a(f), b(f), c(f), d(f); a.join(); b.join(); c.join(); d.join();
    e.set(); CHECK(n == 32);
  }
  _exit(0); }
'''),
dict(id="S07-overshoot", prop="C07", edits=[("include/coro/latch.hpp", "    auto count_down(std::unique_ptr<executor_type>& executor, std::int64_t n = 1) noexcept -> void\n    {\n        if (m_count.fetch_sub(n, std::memory_order::acq_rel) <= n)", "    auto count_down(std::unique_ptr<executor_type>& executor, std::int64_t n = 1) noexcept -> void\n    {\n        if (m_count.fetch_sub(n, std::memory_order::acq_rel) == n)")],
 needs="a count_down(executor, n) that takes the count below zero without landing on it", breaks="the latch never becomes ready and its waiters are never resumed",
 demo=FIRE + r"""
static fire waiter(coro::latch& l, std::atomic<int>& n) { co_await l; ++n; }
int main() { auto tp = coro::thread_pool::make_unique({.thread_count = 1}); coro::latch l{3}; std::atomic<int> n = 0; waiter(l, n); l.count_down(tp, 2); CHECK(n == 0); l.count_down(tp, 2); CHECK(l.is_ready()); for (int i = 0; i < 1000 && n == 0; ++i) usleep(1000); CHECK(n == 1); _exit(0); }
"""),
dict(id="S08-trylock-order", prop="C08", edits=[("src/mutex.cpp", "compare_exchange_strong(expected, nullptr, std::memory_order::acq_rel, std::memory_order::relaxed)", "compare_exchange_strong(expected, nullptr, std::memory_order::release, std::memory_order::relaxed)")],
 needs="a lock taken without waiting right after another thread unlocked, on a machine or compiler that uses the declared ordering (thread sanitizer shows it)", breaks="writes made under the lock are not visible to the next holder", tsan="src/mutex.cpp src/detail/task_self_deleting.cpp",
 demo=r"""
#include <coro/mutex.hpp>
#include <thread>
#include <cstdio>
static long value = 0;
int main() { coro::mutex m; auto f = [&] { for (int i = 0; i < 2000;) if (m.try_lock()) { ++value; ++i; m.unlock(); } }; std::thread a(f), b(f); a.join(); b.join(); return value == 4000 ? 0 : 1; }
"""),
dict(id="S09-move-ctor", prop="C09", edits=[("include/coro/mutex.hpp", "        : m_mutex(std::exchange(other.m_mutex, nullptr)) {}", "        : m_mutex(other.m_mutex) {}")],
 needs="a scoped_lock is moved into another one and both are destroyed", breaks="two scoped locks own the same mutex, the second release unlocks a mutex that somebody else may hold by then",
 demo=FIRE + r'''
static coro::task<void> t(coro::mutex& m) {
  { auto a = co_await m.scoped_lock(); { coro::scoped_lock b{std::move(a)}; } CHECK(m.try_lock()); /* somebody else holds it now */ }
  CHECK(!m.try_lock()); m.unlock(); }
int main() { coro::mutex m; coro::sync_wait(t(m)); _exit(0); }
'''),
dict(id="S10-last-exclusive", prop="C10", edits=[("include/coro/shared_mutex.hpp", "                m_head_waiter.store(head_waiter->m_next, std::memory_order::release);\n            }\n\n            m_exclusive_waiters.fetch_sub(1, std::memory_order::release);", "                m_head_waiter.store(head_waiter->m_next, std::memory_order::release);\n                m_exclusive_waiters.fetch_sub(1, std::memory_order::release);\n            }\n")],
 needs="an exclusive locker had to wait and was the last in line; afterwards the lock is used by readers", breaks="the mutex believes that an exclusive locker still waits: readers no longer share the lock",
 demo=FIRE + r'''
using sm = coro::shared_mutex<coro::thread_pool>;
static fire ex(sm& m, bool& got) { co_await m.lock(); got = true; co_await m.unlock(); }
static fire sh(sm& m, bool& got) { co_await m.lock_shared(); got = true; }
int main() { auto tp = coro::thread_pool::make_unique({.thread_count = 1}); sm m{tp}; bool e = false, a = false, b = false;
  CHECK(m.try_lock()); ex(m, e); CHECK(!e); coro::sync_wait(m.unlock()); CHECK(e);
  sh(m, a); CHECK(a); sh(m, b); CHECK(b); CHECK(m.try_lock_shared()); _exit(0); }
'''),
dict(id="S10-reader-passes-writer", prop="C10", edits=[("include/coro/shared_mutex.hpp", "        else if (m_state == state::locked_shared && m_exclusive_waiters == 0)", "        else if (m_state == state::locked_shared && (m_exclusive_waiters == 0 || m_shared_users > 1))")],
 needs="two or more readers hold the lock when a writer starts to wait, then more readers come", breaks="readers are let in past the waiting writer, which can starve",
 demo=FIRE + r'''
using sm = coro::shared_mutex<coro::thread_pool>;
static fire ex(sm& m, bool& got) { co_await m.lock(); got = true; }
int main() { auto tp = coro::thread_pool::make_unique({.thread_count = 1}); sm m{tp}; bool e = false;
  CHECK(m.try_lock_shared()); CHECK(m.try_lock_shared()); ex(m, e); CHECK(!e); CHECK(!m.try_lock_shared());
  coro::sync_wait(m.unlock_shared()); CHECK(!e); coro::sync_wait(m.unlock_shared()); CHECK(e); _exit(0); }
'''),
dict(id="S11-release-late-count", prop="C11", edits=[("include/coro/semaphore.hpp", "            m_counter.fetch_add(1, std::memory_order::release);\n            m_mutex.unlock();\n        }", "            m_mutex.unlock();\n            m_counter.fetch_add(1, std::memory_order::release);\n        }")],
 needs="an acquirer is waiting for the semaphore's internal mutex while a release finds no waiter", breaks="the acquirer goes to sleep although a resource is available: lost wake-up",
 timeout=120, demo=FIRE + r'''
#include <thread>
static std::atomic<int> got{0};
static fire acq(coro::semaphore<4>& s) { (void)co_await s.acquire(); got.fetch_add(1); }
int main() {
  for (int r = 0; r < 60000; ++r) {
    auto* s = new coro::semaphore<4>{0}; got = 0; std::atomic<int> go{0};
    std::thread a([&] { go.fetch_add(1); while (go.load() < 2) {} acq(*s); });
    go.fetch_add(1); while (go.load() < 2) {}
    coro::sync_wait(s->release()); a.join();
    CHECK(got == 1); delete s;
  }
  _exit(0); }
'''),
dict(id="S11-shutdown-takes", prop="C11", edits=[("include/coro/semaphore.hpp", "        if (shutdown || m_semaphore.try_acquire())", "        if (m_semaphore.try_acquire() || shutdown)")],
 needs="acquire() on a semaphore that was shut down while it still had resources", breaks="the acquire that reports shutdown takes a resource with it: the count is off by one",
 demo=FIRE + r'''
static coro::task<void> t(coro::semaphore<3>& s) { co_await s.shutdown(); auto r = co_await s.acquire(); CHECK(r == coro::semaphore_acquire_result::shutdown); CHECK(s.value() == 2); }
int main() { coro::semaphore<3> s{2}; coro::sync_wait(t(s)); _exit(0); }
'''),
dict(id="S12-try-pop-draining", prop="C12", edits=[("include/coro/queue.hpp", """            if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
            {
                return unexpected<queue_consume_result>(queue_consume_result::stopped);""", """            if (m_running_state.load(std::memory_order::acquire) != running_state_t::running)
            {
                return unexpected<queue_consume_result>(queue_consume_result::stopped);""")],
 needs="try_pop() while shutdown_drain() waits for the remaining elements", breaks="the elements that are being drained can't be taken with try_pop(), which claims that the queue is stopped",
 demo=FIRE + r'''
int main() { auto tp = coro::thread_pool::make_unique({.thread_count = 1}); coro::queue<int> q; coro::sync_wait(q.push(7));
  auto d = [](coro::queue<int>& qq, std::unique_ptr<coro::thread_pool>& p) -> fire { co_await p->schedule(); co_await qq.shutdown_drain(p); };
  d(q, tp); while (!q.is_shutdown()) {}
  for (int i = 0; i < 100000; ++i) { auto e = q.try_pop(); if (e) { CHECK(*e == 7); _exit(0); } CHECK(e.error() != coro::queue_consume_result::stopped); }
  _exit(2); }
'''),
dict(id="S12-emplace-draining", prop="C12", edits=[("include/coro/queue.hpp", """    auto emplace(args_type&&... args) -> coro::task<queue_produce_result>
    {
        auto lock = co_await m_mutex.scoped_lock();

        if (m_running_state.load(std::memory_order::acquire) != running_state_t::running)""", """    auto emplace(args_type&&... args) -> coro::task<queue_produce_result>
    {
        auto lock = co_await m_mutex.scoped_lock();

        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)""")],
 needs="emplace() while shutdown_drain() waits for the remaining elements", breaks="the queue accepts elements after its shutdown began",
 demo=FIRE + r'''
int main() { auto tp = coro::thread_pool::make_unique({.thread_count = 1}); coro::queue<int> q; coro::sync_wait(q.push(7));
  auto d = [](coro::queue<int>& qq, std::unique_ptr<coro::thread_pool>& p) -> fire { co_await p->schedule(); co_await qq.shutdown_drain(p); };
  d(q, tp); while (!q.is_shutdown()) {}
  CHECK(coro::sync_wait(q.emplace(8)) == coro::queue_produce_result::stopped); _exit(0); }
'''),
dict(id="S13-produce-draining", prop="C13", edits=[("include/coro/ring_buffer.hpp", "            if (m_rb.m_running_state.load(std::memory_order::acquire) != running_state_t::running)\n            {\n                m_result = ring_buffer_result::produce::stopped;", "            if (m_rb.m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)\n            {\n                m_result = ring_buffer_result::produce::stopped;")],
 needs="produce() while shutdown_drain() waits for the remaining elements", breaks="elements are accepted after the shutdown began",
 demo=FIRE + r'''
using rb = coro::ring_buffer<int, 4>;
int main() { auto tp = coro::thread_pool::make_unique({.thread_count = 1}); rb r; (void)coro::sync_wait(r.produce(1));
  auto d = [](rb& q, std::unique_ptr<coro::thread_pool>& p) -> fire { co_await p->schedule(); co_await q.shutdown_drain(p); };
  d(r, tp); while (!r.is_shutdown()) {}
  CHECK(coro::sync_wait(r.produce(2)) == coro::ring_buffer_result::produce::stopped); _exit(0); }
'''),
dict(id="S14-push-after-unlock", prop="C14", edits=[("src/condition_variable.cpp", """auto condition_variable::awaiter_with_predicate::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
{
    m_awaiting_coroutine = awaiting_coroutine;
    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
    m_lock.m_mutex->unlock();
    return true;""", """auto condition_variable::awaiter_with_predicate::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
{
    m_awaiting_coroutine = awaiting_coroutine;
    m_lock.m_mutex->unlock();
    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
    return true;""")],
 needs="the notifier is already waiting for the lock when a predicate wait gives it up", breaks="the notification that follows the change is missed, the waiter sleeps forever",
 demo=FIRE + r'''
static fire wait(coro::mutex& m, coro::condition_variable& cv, coro::event& e, bool& v, bool& done) { auto lk = co_await m.scoped_lock(); co_await e; co_await cv.wait(lk, [&] { return v; }); done = true; }
static fire note(coro::mutex& m, coro::condition_variable& cv, bool& v) { { auto lk = co_await m.scoped_lock(); v = true; } co_await cv.notify_one(); }
int main() { coro::mutex m; coro::condition_variable cv; coro::event e; bool v = false, done = false; wait(m, cv, e, v, done); note(m, cv, v); e.set(); CHECK(v); CHECK(done); _exit(0); }
'''),
dict(id="S14-notify-all-next", prop="C14", edits=[("src/condition_variable.cpp", """        switch (co_await waiter->on_notify())
        {
            case notify_status_t::not_ready:
                // The waiter has re-enqueued itself since the predicate isn't ready.
            case notify_status_t::ready:
            case notify_status_t::awaiter_dead:
                // Nothing to do for awaiters that are ready or dead.
                break;
        }

        waiter = next;""", """        if (co_await waiter->on_notify() == notify_status_t::not_ready)
        {
            // Its back at the head of the list, the ones behind it are still to be notified.
            next = waiter->m_next;
        }

        waiter = next;""")],
 needs="notify_all with several predicate waiters where the most recent one isn't ready but an earlier one is", breaks="notify_all stops at the first waiter that isn't ready, waiters whose predicate holds stay asleep",
 demo=FIRE + r'''
static fire wait(coro::mutex& m, coro::condition_variable& cv, int& v, int th, int& done) { auto lk = co_await m.scoped_lock(); co_await cv.wait(lk, [&v, th] { return v >= th; }); ++done; }
int main() { coro::mutex m; coro::condition_variable cv; int v = 0, done = 0; wait(m, cv, v, 1, done); wait(m, cv, v, 2, done); v = 1; coro::sync_wait(cv.notify_all()); CHECK(done == 1); _exit(0); }
'''),
dict(id="S15-timeout-result", prop="C15", edits=[("include/coro/condition_variable.hpp", "                m_predicate_result = data.m_predicate.has_value() ? data.m_predicate.value()() : true;\n", "                m_predicate_result = m_predicate_result || !data.m_predicate.has_value();\n")],
 needs="the predicate becomes true during a timed wait without a notification", breaks="the wait that ends by its timeout returns the predicate's old value",
 demo=FIRE + r'''
#include <chrono>
using namespace std::chrono_literals;
int main() { auto s = coro::scheduler::make_unique({.pool = {.thread_count = 1}}); coro::mutex m; coro::condition_variable cv; std::atomic<bool> v{false};
  auto t = [&]() -> coro::task<bool> { co_await s->schedule(); auto lk = co_await m.scoped_lock(); co_return co_await cv.wait_for(s, lk, 300ms, [&] { return v.load(); }); };
  auto u = [&]() -> coro::task<bool> { co_await s->schedule_after(50ms); v = true; co_return true; };
  auto r = coro::sync_wait(coro::when_all(t(), u())); CHECK(std::get<0>(r).return_value()); s->shutdown(); _exit(0); }
'''),
dict(id="S15-timeout-lock", prop="C15", edits=[("include/coro/condition_variable.hpp", "                co_await m_lock.m_mutex->lock();\n                m_predicate_result", "                if (data.m_predicate.has_value() || !m_lock.m_mutex->try_lock())\n                {\n                    co_await m_lock.m_mutex->lock();\n                }\n                else if (m_wait_for < std::chrono::milliseconds{1})\n                {\n                    m_lock.m_mutex->unlock();\n                }\n                m_predicate_result")],
 needs="a timed wait without a predicate and with a timeout below one millisecond ends by its timeout while the lock is free", breaks="the waiter is resumed without holding the lock",
 demo=FIRE + r'''
#include <chrono>
using namespace std::chrono_literals;
int main() { auto s = coro::scheduler::make_unique({.pool = {.thread_count = 1}}); coro::mutex m; coro::condition_variable cv;
  auto t = [&]() -> coro::task<void> { co_await s->schedule(); { auto lk = co_await m.scoped_lock(); auto r = co_await cv.wait_for(s, lk, 500us); CHECK(r == std::cv_status::timeout); CHECK(!m.try_lock()); } };
  coro::sync_wait(t()); s->shutdown(); _exit(0); }
'''),
]
