// C25: IP and socket addresses round-trip and reject everything invalid. The oracle for texts is the operating system's own conversion of exactly the text given.
#include "common.hpp"
#include <arpa/inet.h>
#include <compare>
#include <cstring>
#include <netinet/in.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <coro/net/hostname.hpp>
#include <coro/net/ip_address.hpp>
#include <coro/net/socket_address.hpp>
const char* const harness_property = "C25";
const char* const harness_rule =
    "a case = texts generated from the grammar of IPv4 / IPv6 literals (every compression, embedded IPv4, every digit count and case) and edits of them (characters inserted, deleted, replaced, repeated, truncated, NUL and junk), each given as part of a longer buffer and parsed for both families; byte arrays of length 0 to 20; "
    "socket addresses of them with any port, written and read as the operating system does; pairs differing in as little as one bit; non-trivial = a text was accepted, or rejected though it is one edit from an accepted one";
using namespace coro::net;
struct val { int dom; unsigned char b[16]; bool operator==(const val& o) const { return dom == o.dom && !memcmp(b, o.b, 16); } };
static size_t len(int dom) { return dom == AF_INET ? 4 : 16; }
static std::string show(const std::string& s) { std::string o; char t[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) o += c; else { snprintf(t, sizeof t, "\\x%02x", c); o += t; } } return o; }
static std::string octet() { switch (rt::weighted({4, 2, 1, 1, 1})) { case 0: return std::to_string(rt::choose(256)); case 1: { static const char* v[] = {"0", "255", "256", "00", "01", "007", "1000", "999", "", "0x1", " 1", "-1", "+1", "1e1"}; return v[rt::choose(14)]; } case 2: return std::to_string(rt::choose(300)); case 3: return "0"; default: return std::to_string(250 + rt::choose(8)); } }
static std::string v4() { int n = rt::weighted({8, 1, 1, 1}); n = n == 0 ? 4 : n == 1 ? 3 : n == 2 ? 5 : 1; bool plain = rt::chance(1, 2); std::string s; for (int i = 0; i < n; ++i) s += (i ? "." : "") + (plain ? std::to_string(rt::choose(256)) : octet()); return s; }
static std::string hexgroup() { int n = rt::weighted({3, 2, 2, 3, 1}); n = n == 4 ? 5 : n + 1; const char* d = rt::chance(1, 2) ? "0123456789abcdef" : "0123456789ABCDEF"; std::string s; for (int i = 0; i < n; ++i) s += rt::chance(1, 3) ? '0' : d[rt::choose(16)]; return s; }
static std::string v6()
{
    int groups = rt::weighted({4, 3, 1}); bool compress = rt::chance(2, 3), tail4 = rt::chance(1, 4);
    int n = groups == 0 ? 8 : groups == 1 ? (int)rt::choose(9) : (int)rt::choose(11); if (compress && groups == 0) n = rt::choose(8); if (tail4) n = n >= 2 ? n - 2 : 0;
    int at = compress ? (int)rt::choose(n + 1) : -1; std::string s;
    for (int i = 0; i <= n; ++i)
    {
        if (i == at) s += "::"; else if (i > 0 && i < n + (tail4 ? 1 : 0)) s += ":";
        if (i < n) { s += hexgroup(); }
    }
    if (tail4) s += v4();
    if (rt::chance(1, 12)) s += "%lo"; return s;
}
static std::string gen_text(bool* edited)
{
    std::string s; *edited = false;
    switch (rt::weighted({5, 6, 1}))
    {
        case 0: s = v4(); break;
        case 1: s = v6(); break;
        default: for (int n = rt::choose(20); n > 0; --n) s += (char)rt::choose(256); return s;
    }
    for (int n = rt::weighted({5, 3, 1}); n > 0; --n)
    {
        *edited = true; static const char al[] = "0123456789abcdefABCDEFgGxX.:%/[] -+\n\t"; char c = rt::chance(1, 10) ? (char)rt::choose(256) : al[rt::choose(sizeof al - 1)]; size_t p = s.empty() ? 0 : rt::choose(s.size() + 1);
        switch (rt::choose(6))
        {
            case 0: s.insert(p, 1, c); break;
            case 1: if (p < s.size()) s.erase(p, 1); break;
            case 2: if (p < s.size()) s[p] = c; break;
            case 3: s = s.substr(0, p); break;
            case 4: s.insert(p, s.substr(p, 1 + rt::choose(4))); break;
            case 5: s.insert(p, 1, '\0'); break;
        }
    }
    return s;
}
// what the operating system makes of exactly this text
static bool os_parse(const std::string& s, int dom, val& v) { memset(&v, 0, sizeof v); v.dom = dom; if (s.find('\0') != s.npos) return false; unsigned char b[16] = {}; if (inet_pton(dom, s.c_str(), b) != 1) return false; memcpy(v.b, b, 16); return true; }
static std::string os_text(const val& v) { char t[INET6_ADDRSTRLEN + 1] = {}; inet_ntop(v.dom, v.b, t, sizeof t); return t; }
static void same(const ip_address& a, const val& v, const char* how)
{
    if ((int)a.domain() != v.dom) rt::fail("domain: an address %s has family %d, not %d", how, (int)a.domain(), v.dom);
    auto d = a.data(); if (d.size() != len(v.dom) || memcmp(d.data(), v.b, d.size())) rt::fail("bytes: an address %s is %s, not %s", how, [&] { std::string s; char t[4]; for (auto c : d) { snprintf(t, 4, "%02x", c); s += t; } return s; }().c_str(), os_text(v).c_str());
}
static ip_address bin(const val& v) { return ip_address{std::span<const uint8_t>{v.b, len(v.dom)}, (domain_t)v.dom}; }
static void formats(const ip_address& a, const val& v)
{
    std::string t = a.to_string(); if (t != os_text(v)) rt::fail("format: to_string is '%s', not '%s'", show(t).c_str(), os_text(v).c_str());
    auto b = ip_address::from_string(t, a.domain()); if (!(a == b) || a != b) rt::fail("round trip: '%s' formatted and parsed isn't equal", t.c_str()); same(b, v, "formatted and parsed");
    ip_address c{a}, d; d = c; ip_address e{std::move(c)}; same(d, v, "copied"); same(e, v, "moved");
}
static void sock(const ip_address& a, const val& v, uint16_t port)
{
    socket_address s{a, port}; auto [p, n] = s.data(); const socket_address& sc = s;
    if (v.dom == AF_INET)
    {
        sockaddr_in q{}; if (n != sizeof q) rt::fail("os: length %u of an IPv4 socket address", (unsigned)n); memcpy(&q, p, n);
        if (q.sin_family != AF_INET || ntohs(q.sin_port) != port || memcmp(&q.sin_addr, v.b, 4)) rt::fail("os: the socket address of %s port %u is wrong", os_text(v).c_str(), port);
    }
    else
    {
        sockaddr_in6 q{}; if (n != sizeof q) rt::fail("os: length %u of an IPv6 socket address", (unsigned)n); memcpy(&q, p, n);
        if (q.sin6_family != AF_INET6 || ntohs(q.sin6_port) != port || memcmp(&q.sin6_addr, v.b, 16) || q.sin6_scope_id || q.sin6_flowinfo) rt::fail("os: the socket address of %s port %u is wrong", os_text(v).c_str(), port);
    }
    if ((int)sc.domain() != v.dom || sc.port() != port) rt::fail("socket: family %d port %u, not %d %u", (int)sc.domain(), sc.port(), v.dom, port);
    same(sc.ip(), v, "taken from a socket address"); if (!(sc.ip() == a)) rt::fail("socket: ip() isn't the address given");
    std::string want = os_text(v) + ":" + std::to_string(port); std::ostringstream os; os << s; if (s.to_string() != want || os.str() != want) rt::fail("format: a socket address is '%s', not '%s'", s.to_string().c_str(), want.c_str());
    // as the operating system would fill it in
    auto u = socket_address::make_uninitialised(); auto [mp, mn] = u.native_mutable_data(); if (*mn < sizeof(sockaddr_in6)) rt::fail("os: only %u bytes for an address", (unsigned)*mn);
    if (v.dom == AF_INET) { sockaddr_in q; memset(&q, rt::chance(1, 2) ? 0 : 0xa5, sizeof q); q.sin_family = AF_INET; q.sin_port = htons(port); memcpy(&q.sin_addr, v.b, 4); memcpy(mp, &q, sizeof q); *mn = sizeof q; }
    else { sockaddr_in6 q; memset(&q, 0, sizeof q); q.sin6_family = AF_INET6; q.sin6_port = htons(port); memcpy(&q.sin6_addr, v.b, 16); memcpy(mp, &q, sizeof q); *mn = sizeof q; }
    if ((int)u.domain() != v.dom || u.port() != port) rt::fail("socket: filled in by the system, family %d port %u, not %d %u", (int)u.domain(), u.port(), v.dom, port);
    same(u.ip(), v, "filled in by the system"); if (!(u == s) || u != s) rt::fail("equality: the same socket address filled in by the system isn't equal");
    socket_address w{os_text(v), port, (domain_t)v.dom}; if (!(w == s)) rt::fail("equality: a socket address made from text isn't equal"); socket_address x{w}; x = s; if (!(x == w)) rt::fail("equality: a copied socket address isn't equal");
}
static val gen_val() { val v; memset(&v, 0, sizeof v); v.dom = rt::chance(1, 2) ? AF_INET6 : AF_INET; for (size_t i = 0; i < len(v.dom); ++i) switch (rt::weighted({3, 2, 1})) { case 0: break; case 1: v.b[i] = rt::choose(256); break; case 2: v.b[i] = 255; break; } return v; }
static uint16_t gen_port() { static const uint16_t ps[] = {0, 1, 80, 255, 256, 0x1234, 0x7fff, 0x8000, 0xffff}; return rt::chance(1, 2) ? ps[rt::choose(9)] : rt::choose(65536); }
void harness_case()
{
    for (int n = rt::range(1, 6); n > 0; --n)
    {
        switch (rt::weighted({6, 2, 2, 3, 1}))
        {
            case 0:
            {
                bool edited; std::string t = gen_text(&edited); rt::note("text '%s'\n", show(t).c_str());
                // the text is part of a longer buffer: what precedes and follows it belongs to somebody else
                static const char* after[] = {"", "1", ".1", ":1", "0", "::", " ", "/24", "ff", ".0.0.1", "%eth0"}; std::string buf = std::string(rt::choose(3), '1') , tail = after[rt::choose(11)]; size_t off = buf.size(); buf += t; buf += tail; bool shared = rt::chance(1, 2);
                for (int dom : {AF_INET, AF_INET6})
                {
                    val v; bool want = os_parse(t, dom, v); bool got = true; ip_address a; std::string_view view = shared ? std::string_view{buf}.substr(off, t.size()) : std::string_view{t};
                    try { a = dom == AF_INET && rt::chance(1, 2) ? ip_address::from_string(view) : ip_address::from_string(view, (domain_t)dom); } catch (const std::runtime_error&) { got = false; }
                    if (want && !got) rt::fail("rejected: the valid IPv%d address '%s'%s", dom == AF_INET ? 4 : 6, show(t).c_str(), shared ? " within a longer text" : "");
                    if (!want && got) rt::fail("accepted: '%s'%s as IPv%d address", show(t).c_str(), shared ? " within a longer text" : "", dom == AF_INET ? 4 : 6);
                    bool sgot = true; try { socket_address s{view, 80, (domain_t)dom}; if (want) same(s.ip(), v, "parsed by a socket address"); } catch (const std::runtime_error&) { sgot = false; }
                    if (sgot != want) rt::fail("%s: '%s' by a socket address for IPv%d", sgot ? "accepted" : "rejected", show(t).c_str(), dom == AF_INET ? 4 : 6);
                    if (want) { same(a, v, "parsed"); formats(a, v); sock(a, v, gen_port()); rt::nontrivial(); rt::label(edited ? "accepted, edited" : "accepted"); }
                    else if (edited) rt::nontrivial();
                }
                break;
            }
            case 1:
            {
                unsigned char b[24]; int l = rt::choose(21), dom = rt::chance(1, 2) ? AF_INET6 : AF_INET; for (auto& c : b) c = rt::choose(256);
                rt::note("%d bytes for family %d\n", l, dom); bool ok = true; ip_address a;
                try { a = ip_address{std::span<const uint8_t>{b, (size_t)l}, (domain_t)dom}; } catch (const std::runtime_error&) { ok = false; }
                if (ok && l > (int)len(dom)) rt::fail("accepted: %d bytes as IPv%d address", l, dom == AF_INET ? 4 : 6);
                if (!ok && l == (int)len(dom)) rt::fail("rejected: %d bytes as IPv%d address", l, dom == AF_INET ? 4 : 6);
                if (ok) { val v; memset(&v, 0, sizeof v); v.dom = dom; memcpy(v.b, b, l); same(a, v, "made from bytes"); formats(a, v); }
                break;
            }
            case 2: { val v = gen_val(); rt::note("value %s\n", os_text(v).c_str()); auto a = bin(v); same(a, v, "made from bytes"); formats(a, v); sock(a, v, gen_port()); rt::nontrivial(); break; }
            case 3:
            {
                val a = gen_val(), b = a; uint16_t p = gen_port(), q = p;
                switch (rt::choose(6))
                {
                    case 0: break;
                    case 1: b.b[rt::choose(len(b.dom))] ^= 1u << rt::choose(8); break;
                    case 2: b = gen_val(); break;
                    case 3: b.dom = a.dom == AF_INET ? AF_INET6 : AF_INET; if (b.dom == AF_INET) memset(b.b + 4, 0, 12); break;
                    case 4: q ^= 1u << rt::choose(16); break;
                    case 5: { int i = rt::choose(len(b.dom)); b.b[i] ^= 0x80; if (i + 1 < (int)len(b.dom)) b.b[i + 1] ^= 0x81; break; }
                }
                rt::note("compare %s port %u with %s port %u\n", os_text(a).c_str(), p, os_text(b).c_str(), q); rt::nontrivial();
                auto x = bin(a), y = bin(b); bool eq = a == b; int c = a.dom != b.dom ? (a.dom < b.dom ? -1 : 1) : memcmp(a.b, b.b, 16); auto o = x <=> y;
                if ((x == y) != eq || (x != y) == eq || (y == x) != eq) rt::fail("equality: of %s and %s", os_text(a).c_str(), os_text(b).c_str());
                if ((o == 0) != eq || (o < 0) != (c < 0) || (x < y) != (c < 0) || (x > y) != (c > 0) || (x <= y) != (c <= 0) || (x >= y) != (c >= 0) || ((y <=> x) < 0) != (c > 0)) rt::fail("order: of %s and %s", os_text(a).c_str(), os_text(b).c_str());
                socket_address s{x, p}, t{y, q}; bool seq = eq && p == q; if ((s == t) != seq || (t == s) != seq || (s != t) == seq) rt::fail("equality: of socket addresses %s and %s", s.to_string().c_str(), t.to_string().c_str());
                break;
            }
            case 4:
            {
                if (to_string(domain_t::ipv4) != "ipv4" || to_string(domain_t::ipv6) != "ipv6") rt::fail("name: of a domain");
                auto u = socket_address::make_uninitialised(); int fam = rt::choose(3); auto [mp, mn] = u.native_mutable_data(); if (fam) mp->sa_family = fam == 1 ? AF_UNIX : 99; int th = 0;
                try { u.domain(); } catch (const std::runtime_error&) { ++th; } try { u.port(); } catch (const std::runtime_error&) { ++th; } try { u.ip(); } catch (const std::runtime_error&) { ++th; }
                if (th != 3) rt::fail("accepted: a socket address of family %d", mp->sa_family);
                std::string a, b; for (int n = rt::choose(4); n > 0; --n) a += (char)('a' + rt::choose(3)); b = a; if (rt::chance(1, 2)) b += (char)('a' + rt::choose(3)); if (rt::chance(1, 3) && !b.empty()) b[rt::choose(b.size())] = 'b';
                hostname x{a}, y{b}, z{x}; z = y; if (x.data() != a || z.data() != b || ((x <=> y) < 0) != (a < b) || ((x <=> y) == 0) != (a == b)) rt::fail("hostname: '%s' and '%s'", a.c_str(), b.c_str());
                break;
            }
        }
    }
}
