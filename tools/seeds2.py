FIRE = r'''
#include <coro/coro.hpp>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <unistd.h>
struct fire { struct promise_type { fire get_return_object() { return {}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::abort(); } }; };
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED: %s\n", #c); std::fflush(stderr); _exit(1); } } while (0)
using namespace std::chrono_literals;
[[maybe_unused]] static std::unique_ptr<coro::scheduler> inline_scheduler() { return coro::scheduler::make_unique({.execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline}); }
'''
SEEDS = [
dict(id="S01-nested-resume", opt="-O2", prop="C01", edits=[("include/coro/task.hpp", "                return promise.m_continuation;\n", "                promise.m_continuation.resume();\n                return std::noop_coroutine();\n")],
 needs="a long run of awaits that complete one after another without suspending in between", breaks="each of them leaves frames on the stack until it overflows",
 demo=FIRE + r'''
static coro::task<int> one(int i) { co_return i & 1; }
static coro::task<long> many(long n) { long s = 0; for (long i = 0; i < n; ++i) s += co_await one((int)i); co_return s; }
int main() { CHECK(coro::sync_wait(many(3000000)) == 1500000); _exit(0); }
'''),
dict(id="S02-assign-leak", prop="C02", edits=[("include/coro/generator.hpp", "            if (m_coroutine)\n            {\n                m_coroutine.destroy();\n            }\n            m_coroutine = std::exchange", "            if (m_coroutine && m_coroutine.done())\n            {\n                m_coroutine.destroy();\n            }\n            m_coroutine = std::exchange")],
 needs="a generator that is still part way is overwritten by move assignment", breaks="the abandoned body's locals are never destroyed",
 demo=FIRE + r'''
static int live = 0; struct obj { obj() { ++live; } ~obj() { --live; } };
static coro::generator<int> gen(int n) { obj o; for (int i = 0; i < n; ++i) co_yield i; }
int main() { { auto g = gen(5); auto it = g.begin(); CHECK(*it == 0); CHECK(live == 1); g = gen(3); CHECK(live == 0); for (int v : g) (void)v; } CHECK(live == 0); _exit(0); }
'''),
dict(id="S03-set-unlocked", prop="C03", edits=[("src/sync_wait.cpp", "    {\n        std::unique_lock<std::mutex> lk{m_mutex};\n        m_set.exchange(true, std::memory_order::seq_cst);\n        m_cv.notify_all();\n    }", "    m_set.exchange(true, std::memory_order::seq_cst);\n    std::unique_lock<std::mutex> lk{m_mutex};\n    m_cv.notify_all();")],
 needs="the waiting thread looks at the flag between the completing thread's store and its taking of the mutex", breaks="the wait returns and destroys the event while the completing thread is about to lock it: memory of the finished wait is touched",
 timeout=150, demo=FIRE + r'''
// The wait's event lives on the waiting thread's stack; after the wait that memory gets other contents.
#include <cstring>
static std::atomic<std::coroutine_handle<>> slot{nullptr}; static std::atomic<bool> stop{false};
struct hop { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { slot.store(h.address() ? h : nullptr); } int await_resume() { return 7; } };
static coro::task<int> work() { co_return co_await hop{}; }
__attribute__((noinline)) static int wait_once() { return coro::sync_wait(work()); }
static std::atomic<long> progress{0};
static std::atomic<long> returned{0};
__attribute__((noinline)) static void scribble(long r) { char b[4096]; std::memset(b, 0x5a, sizeof b); asm volatile("" : : "r"(b) : "memory"); while (returned.load() < r) { asm volatile("" : : "r"(b) : "memory"); } std::memset(b, 0, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
int main() {
  std::thread other([] { unsigned n = 0; while (!stop) { if (auto h = slot.exchange(nullptr)) { for (volatile unsigned i = 0; i < n % 300; i = i + 1) {} n += 7; h.resume(); returned.fetch_add(1); } } });
  std::thread dog([] { long last = -1; for (;;) { sleep(5); long p = progress; if (p == last) { std::fprintf(stderr, "FAILED: stuck after %ld waits\n", p); _exit(1); } last = p; } });
  auto end = std::chrono::steady_clock::now() + 20s;
  for (long r = 1; std::chrono::steady_clock::now() < end; ++r) { CHECK(wait_once() == 7); scribble(r); ++progress; }
  _exit(0); }
'''),
dict(id="S04-relaxed", prop="C04", edits=[("include/coro/when_all.hpp", "        if (m_count.fetch_sub(1, std::memory_order::acq_rel) == 1)", "        if (m_count.fetch_sub(1, std::memory_order::relaxed) == 1)")],
 needs="children that complete on different threads, on a machine or compiler that uses the declared ordering (thread sanitizer shows it)", breaks="what a child on another thread wrote, its result included, is not visible to whoever awaits the group", tsan="",
 demo=r'''
#include <coro/task.hpp>
#include <coro/when_all.hpp>
#include <thread>
#include <cstdio>
struct fire { struct promise_type { fire get_return_object() { return {}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() {} }; };
static std::thread ths[3];
struct hop { int i; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { ths[i] = std::thread([h] { h.resume(); }); } void await_resume() {} };
static long out[3];
static coro::task<long> child(int i) { co_await hop{i}; out[i] = i + 1; co_return i + 10; }
static long sum = 0;
static fire run() { auto r = co_await coro::when_all(child(0), child(1), child(2)); sum = std::get<0>(r).return_value() + std::get<1>(r).return_value() + std::get<2>(r).return_value() + out[0] + out[1] + out[2]; }
int main() { for (int k = 0; k < 200; ++k) { sum = 0; run(); for (auto& t : ths) t.join(); if (sum != 39) return 1; } return 0; }
'''),
dict(id="S05-void-stop", prop="C05", edits=[("include/coro/when_any.hpp", "        co_await notify;\n        stop_source.request_stop();\n        if (exception != nullptr)\n        {\n            std::rethrow_exception(exception);\n        }\n        co_return;\n", "        co_await notify;\n        if (exception != nullptr)\n        {\n            stop_source.request_stop();\n            std::rethrow_exception(exception);\n        }\n        co_return;\n")],
 needs="waiting for the first of a range of tasks without results, with a stop source", breaks="the stop source isn't signalled, the losing tasks never learn that they may stop",
 demo=FIRE + r'''
static coro::task<void> now() { co_return; }
static coro::task<void> run() { std::stop_source s; std::vector<coro::task<void>> v; v.push_back(now()); v.push_back(now()); co_await coro::when_any(s, std::move(v)); CHECK(s.stop_requested()); }
int main() { coro::sync_wait(run()); _exit(0); }
'''),
dict(id="S05-two-winners", prop="C05", edits=[("include/coro/when_any.hpp", "    if (first_completed.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))\n    {\n        return_value = std::move(result);", "    if (first_completed.load(std::memory_order::acquire) == expected)\n    {\n        first_completed.store(true, std::memory_order::release);\n        return_value = std::move(result);")],
 needs="two tasks of a range finish at the same moment on two threads", breaks="both believe to be the first: both write the result, the second possibly after the wait is over and its memory gone",
 timeout=200, demo=FIRE + r'''
static std::atomic<std::coroutine_handle<>> slots[2];
struct hop { int i; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { slots[i].store(h); } void await_resume() {} };
static std::atomic<int> consumed{0};
struct mark { int id{-1}; mark() = default; explicit mark(int i) : id(i) {} mark(mark&& o) noexcept : id(std::exchange(o.id, -1)) {} mark& operator=(mark&& o) noexcept { id = std::exchange(o.id, -1); return *this; } ~mark() { if (id >= 0) consumed.fetch_add(1); } };
static coro::task<mark> racer(int i) { co_await hop{i}; co_return mark{i}; }
static std::atomic<int> finished{0};
static fire go_once() { std::vector<coro::task<mark>> v; v.push_back(racer(0)); v.push_back(racer(1)); mark m = co_await coro::when_any(std::move(v)); CHECK(m.id == 0 || m.id == 1); finished.fetch_add(1); }
int main() {
  std::atomic<long> round{0}; std::atomic<int> idle{0};
  auto worker = [&](int i) { unsigned d = 0; for (long r = 1;; ++r) { while (round.load() < r) {} if (i) { for (volatile unsigned k = 0; k < d % 60; k = k + 1) {} ++d; } slots[i].load().resume(); idle.fetch_add(1); } };
  std::thread a(worker, 0), b(worker, 1);
  auto end = std::chrono::steady_clock::now() + 20s;
  for (long r = 1; std::chrono::steady_clock::now() < end; ++r) { idle = 0; go_once(); round.store(r); while (idle.load() < 2) {} CHECK(finished.load() == r); CHECK(consumed.load() == 2 * r); }
  _exit(0); }
'''),
dict(id="S16-notify-first", prop="C16", edits=[("src/thread_pool.cpp", "    m_queue.emplace_back(handle);\n    m_wait_cv.notify_one();\n    return true;", "    m_queue.emplace_back(handle);\n    if (m_queue.size() == 1)\n    {\n        m_wait_cv.notify_one();\n    }\n    return true;")],
 needs="two coroutines accepted one right after the other, before the woken thread takes the first, which then keeps its thread busy until the second has run", breaks="the second accepted coroutine isn't run although another thread of the pool is idle",
 timeout=100, demo=FIRE + r'''
static std::atomic<int> ran{0};
int main() {
  for (int r = 0; r < 3000; ++r) {
    auto tp = coro::thread_pool::make_unique({.thread_count = 2}); ran = 0; usleep(300);
    auto first = []() -> coro::task<void> { auto end = std::chrono::steady_clock::now() + 5s; while (ran.load() == 0) { CHECK(std::chrono::steady_clock::now() < end); std::this_thread::yield(); } co_return; };
    auto second = []() -> coro::task<void> { ran = 1; co_return; };
    (void)tp->spawn_detached(first()); (void)tp->spawn_detached(second());
    while (!tp->empty()) { std::this_thread::yield(); }
    tp->shutdown();
  }
  _exit(0); }
'''),
dict(id="S17-refused-waiter", prop="C17", edits=[("include/coro/task_group.hpp", "            count_down();\n            return false;", "            m_size.fetch_sub(1, std::memory_order::acq_rel);\n            return false;")],
 needs="a task that cannot be started because the executor has been shut down, and somebody who awaits the group afterwards", breaks="the group is empty but whoever awaits it is never resumed",
 timeout=20, demo=FIRE + r'''
static coro::task<void> noop() { co_return; }
static fire wait(coro::task_group<coro::thread_pool>& g, bool& done) { co_await g; done = true; }
int main() { auto tp = coro::thread_pool::make_unique({.thread_count = 1}); auto* g = new coro::task_group<coro::thread_pool>{tp.get()}; tp->shutdown(); CHECK(!g->start(noop())); CHECK(g->empty()); bool done = false; wait(*g, done); CHECK(done); _exit(0); }
'''),
dict(id="S18-flag-order", prop="C18", edits=[("src/scheduler.cpp", "    m_schedule_pipe_triggered.exchange(false, std::memory_order::release);\n\n    // Now it is safe to acquire all scheduled ops.\n    auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops);\n", "    auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops);\n\n    // All scheduled ops are acquired.\n    m_schedule_pipe_triggered.exchange(false, std::memory_order::release);\n")],
 needs="a coroutine is scheduled from another thread just between the event loop's taking the list and its clearing the flag", breaks="nobody wakes the event loop for it: the coroutine stays unscheduled until somebody else schedules",
 timeout=200, demo=FIRE + r'''
int main() {
  auto s = inline_scheduler(); std::atomic<long> ran{0}; std::atomic<long> sent{0};
  auto one = [](std::atomic<long>& ran) -> coro::task<void> { ran.fetch_add(1); co_return; };
  auto end = std::chrono::steady_clock::now() + 20s; unsigned d = 0;
  while (std::chrono::steady_clock::now() < end) {
    // one wakes the loop, the next one comes at about the time at which the loop takes the first
    (void)s->spawn_detached(one(ran)); for (volatile unsigned i = 0; i < (d * 7) % 9000; i = i + 1) {} ++d;
    (void)s->spawn_detached(one(ran)); sent += 2;
    auto t = std::chrono::steady_clock::now() + 5s; while (ran.load() != sent.load()) CHECK(std::chrono::steady_clock::now() < t);
  }
  _exit(0); }
'''),
dict(id="S19-early", prop="C19", edits=[("src/scheduler.cpp", "            if (tp <= now)\n            {\n                m_timed_events.erase(first);", "            if (tp <= now + 500us)\n            {\n                m_timed_events.erase(first);")],
 needs="two timers less than half a millisecond apart", breaks="the second one fires together with the first, before its time",
 demo=FIRE + r'''
static coro::task<void> at(coro::scheduler& s, coro::time_point t, bool& early) { co_await s.yield_until(t); if (coro::clock::now() < t) early = true; }
int main() { auto s = inline_scheduler(); bool early = false;
  for (int r = 0; r < 200; ++r) { auto t = coro::clock::now() + 3ms; coro::sync_wait(coro::when_all(at(*s, t, early), at(*s, t + 400us, early))); CHECK(!early); }
  _exit(0); }
'''),
dict(id="S20-cancel-residue", prop="C20", edits=[("src/scheduler.cpp", "        if (pi->m_fd != -1)\n        {\n            m_io_notifier.unwatch(*pi);\n        }\n\n        // Since this event triggered", "        if (pi->m_fd != -1 && status != poll_status::cancelled)\n        {\n            m_io_notifier.unwatch(*pi);\n        }\n\n        // Since this event triggered")],
 needs="a poll that is cancelled by its stop token, and the descriptor becoming ready or polled later", breaks="the descriptor stays registered for the finished poll: a later event is delivered to memory that is gone",
 demo=FIRE + r'''
#include <fcntl.h>
#include <dirent.h>
#include <fstream>
#include <string>
static int registrations(int fd) { int n = 0; DIR* d = opendir("/proc/self/fdinfo"); while (auto* e = readdir(d)) { std::ifstream f(std::string("/proc/self/fdinfo/") + e->d_name); std::string w; while (f >> w) if (w == "tfd:") { int t; f >> t; if (t == fd) ++n; } } closedir(d); return n; }
int main() { auto s = inline_scheduler(); int p[2]; CHECK(pipe2(p, O_NONBLOCK) == 0); coro::poll_stop_source src;
  std::thread t([&] { usleep(50000); src.signal_stop(); });
  auto st = coro::sync_wait(s->poll(p[0], coro::poll_op::read, 0ms, src.get_token())); t.join();
  CHECK(st == coro::poll_status::cancelled); CHECK(registrations(p[0]) == 0); _exit(0); }
'''),
dict(id="S21-trunc", prop="C21", edits=[("include/coro/scheduler.hpp", "        co_await schedule_after(timeout);\n        co_return timeout_status::timeout;", "        co_await schedule_after(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));\n        co_return timeout_status::timeout;")],
 needs="a timeout that isn't a whole number of milliseconds", breaks="the timeout is reported before the duration has elapsed",
 demo=FIRE + r'''
static coro::task<int> slow(coro::scheduler& s) { co_await s.yield_for(300us); co_return 1; }
static coro::task<int> never(coro::scheduler& s) { co_await s.yield_for(20ms); co_return 1; }
int main() { auto s = inline_scheduler(); for (int i = 0; i < 20; ++i) { auto b = coro::clock::now(); auto r = coro::sync_wait(s->schedule(never(*s), 1900us)); auto d = coro::clock::now() - b; CHECK(r || d >= 1900us); (void)slow; } _exit(0); }
'''),
dict(id="S22-partial-lost", prop="C22", edits=[("include/coro/net/tcp/client.hpp", "                co_return {status, buffer.subspan(0, buffer.size() - remaining.size())};", "                co_return {status, status.is_closed() ? remaining.first(0) : buffer.subspan(0, buffer.size() - remaining.size())};")],
 needs="the peer closes in the middle of a message that is read as a whole", breaks="the bytes that did arrive are not reported, the receiver's count is wrong",
 demo=FIRE + r'''
int main() { auto s = inline_scheduler(); coro::net::tcp::server srv{s, {"127.0.0.1", 0}}; sockaddr_in a{}; socklen_t l = sizeof a; getsockname(srv.accept_socket().native_handle(), (sockaddr*)&a, &l);
  auto peer = [&]() -> coro::task<void> { coro::net::tcp::client c{s, {"127.0.0.1", ntohs(a.sin_port)}}; CHECK(co_await c.connect(2s) == coro::net::connect_status::connected); std::string m = "hello"; auto op = c.write_all(m); (void)co_await op; };
  auto mine = [&]() -> coro::task<void> { auto c = co_await srv.accept(2s); CHECK(c); std::string b(20, 0); auto op = c->read_exact(b, 2s); auto [st, got] = co_await op; CHECK(st.is_closed()); CHECK(got.size() == 5); };
  coro::sync_wait(coro::when_all(peer(), mine())); _exit(0); }
'''),
dict(id="S23-empty", prop="C23", edits=[("include/coro/net/udp/peer.hpp", "        if (bytes_read < 0)\n", "        if (bytes_read <= 0)\n")],
 needs="a datagram without any data", breaks="it is reported as a failure with a meaningless status instead of as the datagram it is, without its sender",
 demo=FIRE + r'''
int main() { auto s = inline_scheduler(); coro::net::udp::peer p{s, coro::net::socket_address{"127.0.0.1", 0}}; sockaddr_in a{}; socklen_t l = sizeof a; getsockname(p.socket().native_handle(), (sockaddr*)&a, &l);
  int fd = ::socket(AF_INET, SOCK_DGRAM, 0); CHECK(::sendto(fd, "", 0, 0, (sockaddr*)&a, l) == 0);
  auto run = [&]() -> coro::task<void> { std::string b(20, 0); auto op = p.read_from(b, 2s); auto [st, from, got] = co_await op; CHECK(st.is_ok()); CHECK(got.empty()); CHECK(from.ip().to_string() == "127.0.0.1"); };
  coro::sync_wait(run()); _exit(0); }
'''),
dict(id="S24-connect-timeout", prop="C24", edits=[("src/net/tls/client.cpp", "            auto pstatus = co_await m_scheduler->poll(m_socket, poll_op::write, timeout);", "            auto pstatus = co_await m_scheduler->poll(m_socket, poll_op::write);")],
 needs="a server that doesn't answer the connection request at all", breaks="connect with a timeout doesn't return when it elapses",
 timeout=60, demo=FIRE + r'''
#include <fcntl.h>
int main() {
  // A listener whose queue is full: further connection requests are not answered.
  int ls = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a; CHECK(bind(ls, (sockaddr*)&a, l) == 0); CHECK(listen(ls, 0) == 0); getsockname(ls, (sockaddr*)&a, &l);
  for (int i = 0; i < 8; ++i) { int f = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); (void)::connect(f, (sockaddr*)&a, l); } usleep(100000);
  auto s = inline_scheduler(); auto ctx = std::make_shared<coro::net::tls::context>(coro::net::tls::verify_peer_t::no); coro::net::tls::client c{s, ctx, coro::net::socket_address{"127.0.0.1", ntohs(a.sin_port)}};
  std::thread dog([] { sleep(20); std::fprintf(stderr, "FAILED: connect doesn't time out\n"); _exit(1); });
  CHECK(coro::sync_wait(c.connect(500ms)) == coro::net::tls::connection_status::timeout); _exit(0); }
'''),
dict(id="S25-longest", prop="C25", edits=[("include/coro/net/ip_address.hpp", "            output.resize(INET6_ADDRSTRLEN, '\\0');", "            output.resize(8 * 4 + 7, '\\0');")],
 needs="an IPv6 address whose text has eight groups of four digits", breaks="it cannot be formatted",
 demo=FIRE + r'''
int main() { for (std::string t : {"::1", "2001:1db8:1234:5678:9abc:def0:1234:5678", "fe80::1"}) { auto a = coro::net::ip_address::from_string(t, coro::net::domain_t::ipv6); CHECK(a.to_string() == t); } _exit(0); }
'''),
dict(id="S26-fd-zero", prop="C26", edits=[("src/net/socket.cpp", "auto socket::close() -> void\n{\n    if (m_fd != -1)", "auto socket::close() -> void\n{\n    if (m_fd > 0)")],
 needs="a process whose standard input is closed, so that a socket gets descriptor 0", breaks="that descriptor is never closed",
 demo=FIRE + r'''
#include <fcntl.h>
int main() { ::close(0); { auto s = coro::net::make_socket({coro::net::socket::type_t::udp, coro::net::socket::blocking_t::no}, coro::net::domain_t::ipv4); CHECK(s.native_handle() == 0); } CHECK(fcntl(0, F_GETFD) == -1); _exit(0); }
'''),
dict(id="S27-copies", prop="C27", edits=[("include/coro/invoke.hpp", "    auto user_task = functor(std::forward<args_types>(args)...);", "    auto user_task = functor(static_cast<std::remove_reference_t<args_types>&>(args)...);")],
 needs="an argument that is given as a temporary and taken by value", breaks="the callable gets a copy, the original stays alive with the caller: a sole owner is no longer the sole owner",
 demo=FIRE + r'''
int main() { auto f = [](std::shared_ptr<int> p) -> coro::task<long> { co_return p.use_count(); }; CHECK(coro::sync_wait(coro::invoke(f, std::make_shared<int>(1))) == 1); _exit(0); }
'''),
dict(id="S28-two-drivers", prop="C28", edits=[("src/scheduler.cpp", "    bool expected{false};\n    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))\n    {\n        process_events_execute(timeout);", "    if (!m_io_processing.load(std::memory_order::acquire))\n    {\n        m_io_processing.exchange(true, std::memory_order::acq_rel);\n        process_events_execute(timeout);")],
 needs="two threads call process_events at the same moment", breaks="both process events with the same bookkeeping: tasks are run twice or lost",
 timeout=200, demo=FIRE + r'''
int main() {
  auto end = std::chrono::steady_clock::now() + 20s;
  auto s = coro::scheduler::make_unique({.thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
  std::atomic<bool> stop{false}; std::atomic<long> ran{0}, sent{0}; std::atomic<int> gate{0};
  auto one = [](coro::scheduler& s, std::atomic<long>& ran) -> coro::task<void> { co_await s.yield(); ran.fetch_add(1); };
  std::vector<std::thread> drivers; for (int i = 0; i < 4; ++i) drivers.emplace_back([&] { while (!stop) s->process_events(0ms); });
  while (std::chrono::steady_clock::now() < end) {
    for (int i = 0; i < 20; ++i) { (void)s->spawn_detached(one(*s, ran)); ++sent; }
    auto t = std::chrono::steady_clock::now() + 5s; while (ran.load() < sent.load()) CHECK(std::chrono::steady_clock::now() < t);
    CHECK(ran.load() == sent.load()); t = std::chrono::steady_clock::now() + 5s; while (s->size() != 0) CHECK(std::chrono::steady_clock::now() < t);
  }
  _exit(0); }
'''),
dict(id="S30-twice", prop="C30", edits=[("src/default_executor.cpp", "    if (s_default_executor_init.exchange(true) == false)\n", "    if (!s_default_executor_init.load())\n"), ("src/default_executor.cpp", "        s_default_executor = coro::thread_pool::make_unique(s_default_executor_options);\n", "        s_default_executor_init.store(true);\n        s_default_executor = coro::thread_pool::make_unique(s_default_executor_options);\n")],
 needs="the very first requests for the default executor come from several threads at the same moment", breaks="more than one is created, one of them is destroyed while somebody uses it",
 timeout=250, demo=FIRE + r'''
#include <sys/wait.h>
int main() {
  auto end = std::chrono::steady_clock::now() + 20s;
  for (int r = 0; r < 4000 && std::chrono::steady_clock::now() < end; ++r) {
    pid_t p = fork();
    if (p == 0) {
      static std::atomic<int> created{0}, go{0}; alarm(20);
      coro::default_executor::set_executor_options({.thread_count = 1, .on_thread_start_functor = [](std::size_t) { created.fetch_add(1); }});
      std::vector<std::thread> v; std::atomic<coro::thread_pool*> got[6];
      for (int i = 0; i < 6; ++i) v.emplace_back([&, i] { go.fetch_add(1); while (go.load() < 6) {} got[i] = coro::default_executor::executor().get(); });
      for (auto& t : v) t.join(); bool same = true; for (auto& g : got) same = same && g.load() == got[0].load();
      usleep(300); _exit(same && created.load() <= 1 ? 0 : 1);
    }
    int st = 0; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  }
  _exit(0); }
'''),
]
