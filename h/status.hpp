#pragma once
// what a status says about itself agrees with what it is
#include <cstring>
static std::string told(const coro::net::io_status& s)
{
    using k = coro::net::io_status::kind; auto t = s.type; std::string m = s.message();
    if (m.empty()) rt::fail("status: no message");
    if (s.is_ok() != (t == k::ok) || bool(s) != (t == k::ok)) rt::fail("status: '%s' as a truth value", m.c_str());
    if (s.is_timeout() != (t == k::timeout) || s.is_closed() != (t == k::closed) || s.is_native() != (t == k::native)) rt::fail("status: '%s' misdescribes itself", m.c_str());
    if (s.would_block() != (t == k::would_block_or_try_again) || s.try_again() != s.would_block()) rt::fail("status: '%s' misdescribes whether it would block", m.c_str());
    if (t == k::native && s.native_code && m.find(strerror(s.native_code)) == std::string::npos) rt::fail("status: errno %d is called '%s'", s.native_code, m.c_str());
    return m;
}
// a generated error: kept apart from all others, and described
static void statuses()
{
    using coro::net::io_status; using k = io_status::kind;
    static const int es[] = {0, EPIPE, ECONNRESET, ECONNREFUSED, EAGAIN, EMSGSIZE, EBADF, ENOTCONN, ETIMEDOUT, ECONNABORTED, EHOSTUNREACH, ENETDOWN, ENOBUFS, EINTR, EIO, EINVAL, EISCONN, EADDRINUSE, EACCES, ENOMEM};
    int e = rt::chance(1, 2) ? es[rt::choose(20)] : (int)rt::choose(134); auto s = coro::net::make_io_status_from_native(e); auto m = told(s);
    bool good = e == 0 ? s.is_ok() : e == ECONNRESET ? s.type == k::connection_reset : e == ECONNREFUSED ? s.type == k::connection_refused : e == EMSGSIZE ? s.type == k::message_too_big : e == EAGAIN ? s.would_block() : s.is_native() && s.native_code == e;
    if (!good) rt::fail("status: errno %d became '%s'", e, m.c_str());
    k a = (k)rt::choose(12), b = (k)rt::choose(12); std::string x = told(io_status{a, 0}), y = told(io_status{b, 0});
    if (a != b && a != k::native && b != k::native && x == y) rt::fail("status: kinds %d and %d are both called '%s'", (int)a, (int)b, x.c_str());
    static const coro::poll_status ps[] = {coro::poll_status::read, coro::poll_status::write, coro::poll_status::timeout, coro::poll_status::error, coro::poll_status::closed, coro::poll_status::cancelled};
    static const k want[] = {k::ok, k::ok, k::timeout, k::polling_error, k::closed, k::cancelled};
    int p = rt::choose(6); auto t = coro::net::make_io_status_from_poll_status(ps[p]); told(t); if (t.type != want[p]) rt::fail("status: poll status %d became '%s'", p, t.message().c_str());
}
