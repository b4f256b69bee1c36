// C24: TLS transfers deliver exactly the bytes sent, without stalling; statuses and timeouts are true.
#include "common.hpp"
#include <csignal>
#include <cstring>
#include <span>
#include <string>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <coro/net/tls/client.hpp>
#include <sys/mman.h>
#include <functional>
#include <coro/net/tls/context.hpp>
#include <coro/net/tls/server.hpp>
#include <coro/scheduler.hpp>
#include <coro/task.hpp>
const char* const harness_property = "C24";
const char* const harness_rule =
    "a case = a scheduler (inline or 1-3 pool threads), one connection between a tls::client and a tls::server or between one of them and an independent OpenSSL peer (TLS 1.2 or 1.3, key updates, renegotiation), made at once, in progress, late, refused, untrusted, with garbage, stalled or cut during the handshake, then 0-5 phases of sends and receives of 1 to 70000 bytes in several buffer "
    "types with and without timeouts (both directions at once on an inline scheduler), small socket buffers, short transfers, would-block, interrupts and errors injected at any call, ends shut down, destroyed or cut, and every scheduling decision; non-trivial = a record was taken in several receives, something would block or failed, the handshake failed or an operation timed out";
using namespace std::chrono_literals; namespace tls = coro::net::tls; using tls::connection_status; using tls::recv_status; using tls::send_status;
using tclient = tls::client;
// ---------------------------------------------------------------- keys, contexts, a repeatable random source
static uint64_t rnd_state = 1; static int live_ssl, ssl_idx;
static int rnd_bytes(unsigned char* b, int n) { for (int i = 0; i < n; ++i) { rnd_state += 0x9E3779B97F4A7C15ull; uint64_t z = rnd_state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; b[i] = (z ^ (z >> 31)) >> 24; } return 1; }
static int rnd_status() { return 1; }
static RAND_METHOD rnd_method = {nullptr, rnd_bytes, nullptr, nullptr, rnd_bytes, rnd_status};
static std::shared_ptr<tls::context>*ctx_server, *ctx_bare, *ctx_client, *ctx_verify; static SSL_CTX *raw_srv, *raw_cli;
static void on_new(void*, void*, CRYPTO_EX_DATA*, int, long, void*) { ++live_ssl; }
static void on_free(void*, void*, CRYPTO_EX_DATA*, int, long, void*) { --live_ssl; }
// contexts made from files, right and wrong; live_ctx counts what OpenSSL holds of them
static int live_ctx, files[5]; static void on_new_ctx(void*, void*, CRYPTO_EX_DATA*, int, long, void*) { ++live_ctx; } static void on_free_ctx(void*, void*, CRYPTO_EX_DATA*, int, long, void*) { --live_ctx; }
static int memfile(const std::function<void(BIO*)>& fill) { BIO* b = BIO_new(BIO_s_mem()); fill(b); char* p; long n = BIO_get_mem_data(b, &p); int fd = memfd_create("f", 0); if (fd < 0 || write(fd, p, n) != n) abort(); BIO_free(b); return fd; }
static void make_files(X509* x, EVP_PKEY* k)
{
    EVP_PKEY* o = EVP_EC_gen("P-256"); SSL_CTX_get_ex_new_index(0, nullptr, on_new_ctx, nullptr, on_free_ctx);
    files[0] = memfile([&](BIO* b) { PEM_write_bio_X509(b, x); }); files[1] = memfile([&](BIO* b) { PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr); }); files[2] = memfile([&](BIO* b) { PEM_write_bio_PrivateKey(b, o, nullptr, nullptr, 0, nullptr, nullptr); }); files[3] = memfile([&](BIO* b) { BIO_puts(b, "-----BEGIN CERTIFICATE-----\nno\n"); }); files[4] = memfile([&](BIO* b) { i2d_X509_bio(b, x); }); EVP_PKEY_free(o);
}
static void contexts()
{
    live_ctx = 0; ERR_clear_error(); hvec<std::unique_ptr<tls::context>> kept; int n = 1 + rt::choose(6); static const char* names[] = {"the certificate", "its key", "another key", "garbage", "the certificate in ASN.1", "no file"};
    for (int i = 0; i < n; ++i)
    {
        int c = rt::choose(6), k = rt::choose(6); bool ca = rt::chance(1, 4), ka = rt::chance(1, 8); if (rt::chance(1, 2)) { c = ca ? 4 : 0; k = 1; ka = false; } auto name = [](int f) { return f == 5 ? std::string("/proc/self/fd/none") : "/proc/self/fd/" + std::to_string(files[f]); }; bool ok = (ca ? c == 4 : c == 0) && k == 1 && !ka, got = true;
        rt::note("a context of %s and %s (%s, %s)\n", names[c], names[k], ca ? "asn1" : "pem", ka ? "asn1" : "pem"); std::unique_ptr<tls::context> x;
        try { x = std::make_unique<tls::context>(name(c), ca ? tls::tls_file_type::asn1 : tls::tls_file_type::pem, name(k), ka ? tls::tls_file_type::asn1 : tls::tls_file_type::pem, rt::chance(1, 2) ? tls::verify_peer_t::yes : tls::verify_peer_t::no); } catch (const std::exception&) { got = false; }
        if (ok != got) rt::fail("context: of %s and %s was %s", names[c], names[k], got ? "made" : "refused"); if (x) kept.push_back(std::move(x)); if (!got) rt::nontrivial();
        if (live_ctx != (int)kept.size()) rt::fail("leak: %d contexts live in OpenSSL, %zu were made", live_ctx, kept.size()); if (kept.size() && rt::chance(1, 3)) kept.erase(kept.begin() + rt::choose(kept.size()));
    }
    kept.clear(); ERR_clear_error(); if (live_ctx) rt::fail("leak: %d contexts are left in OpenSSL", live_ctx); rt::label("contexts of files");
    // every status has a name of its own
    hvec<std::string> seen; auto one = [&](const std::string& s) { if (s.empty() || s.find("unknown") != std::string::npos) rt::fail("status: a status is called '%s'", s.c_str()); for (auto& x : seen) if (x == s) rt::fail("status: two are called '%s'", s.c_str()); seen.push_back(s); };
    for (int i = (int)connection_status::connected; i <= (int)connection_status::error; ++i) one(tls::to_string((connection_status)i)); for (auto& x : seen) x.clear(), x.shrink_to_fit(); seen.clear();
    for (auto r : {recv_status::ok, recv_status::closed, recv_status::timeout, recv_status::error, recv_status::cancelled, recv_status::buffer_is_empty, recv_status::want_read, recv_status::want_write, recv_status::want_connect, recv_status::want_accept, recv_status::want_x509_lookup, recv_status::error_syscall}) one(tls::to_string(r)); seen.clear();
    for (auto r : {send_status::ok, send_status::closed, send_status::timeout, send_status::error, send_status::cancelled, send_status::buffer_is_empty, send_status::want_read, send_status::want_write, send_status::want_connect, send_status::want_accept, send_status::want_x509_lookup, send_status::error_syscall}) one(tls::to_string(r));
}
void harness_warmup()
{
    signal(SIGPIPE, SIG_IGN); OPENSSL_init_ssl(0, nullptr); RAND_set_rand_method(&rnd_method); ssl_idx = SSL_get_ex_new_index(0, nullptr, on_new, nullptr, on_free);
    EVP_PKEY* k = EVP_EC_gen("P-256"); X509* x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 7); ASN1_TIME_set_string_X509(X509_getm_notBefore(x), "20200101000000Z"); ASN1_TIME_set_string_X509(X509_getm_notAfter(x), "20990101000000Z"); X509_set_pubkey(x, k);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char*)"localhost", -1, -1, 0); X509_set_issuer_name(x, X509_get_subject_name(x)); X509_sign(x, k, EVP_sha256());
    char dir[] = "/tmp/vtlsXXXXXX"; if (!mkdtemp(dir)) abort(); std::string cf = std::string(dir) + "/cert.pem", kf = std::string(dir) + "/key.pem";
    FILE* f = fopen(cf.c_str(), "w"); PEM_write_X509(f, x); fclose(f); f = fopen(kf.c_str(), "w"); PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr); fclose(f);
    ctx_server = new std::shared_ptr<tls::context>(std::make_shared<tls::context>(cf, tls::tls_file_type::pem, kf, tls::tls_file_type::pem, tls::verify_peer_t::no)); ctx_bare = new std::shared_ptr<tls::context>(std::make_shared<tls::context>(tls::verify_peer_t::no));
    ctx_client = new std::shared_ptr<tls::context>(std::make_shared<tls::context>(tls::verify_peer_t::no)); ctx_verify = new std::shared_ptr<tls::context>(std::make_shared<tls::context>(tls::verify_peer_t::yes));
    unlink(cf.c_str()); unlink(kf.c_str()); rmdir(dir); make_files(x, k);
    raw_srv = SSL_CTX_new(TLS_method()); SSL_CTX_use_certificate(raw_srv, x); SSL_CTX_use_PrivateKey(raw_srv, k); raw_cli = SSL_CTX_new(TLS_method()); X509_free(x); EVP_PKEY_free(k);
    { SSL *a = SSL_new(raw_srv), *b = SSL_new(raw_cli); BIO *p, *q; BIO_new_bio_pair(&p, 0, &q, 0); SSL_set_bio(a, p, p); SSL_set_bio(b, q, q); SSL_set_accept_state(a); SSL_set_connect_state(b); for (int i = 0; i < 20; ++i) { SSL_do_handshake(b); SSL_do_handshake(a); } if (!SSL_is_init_finished(a) || !SSL_is_init_finished(b)) abort(); char c = 1; SSL_write(a, &c, 1); SSL_read(b, &c, 1); SSL_free(a); SSL_free(b); ERR_clear_error(); }
    live_ssl = 0;
}
// ---------------------------------------------------------------- model
static unsigned char pat(int d, uint64_t o) { uint64_t x = (o + 1) * 0x9E3779B97F4A7C15ull + d * 0xD1B54A32D192ED03ull; return x >> 53; }
struct dirn { uint64_t sent{0}, recvd{0}, attempt{0}; bool trying{false}, closing{false}, fin{false}; };
struct endp
{
    std::unique_ptr<tclient> c; SSL* raw{nullptr}; int rawfd{-1}, side; bool is_raw{false}; std::atomic<int> users{0}; bool up{false}, dead{false}, cut{false}, hurt{false}, stuck{false}; // cut: gone without a notification; hurt: an error was injected; stuck: a send was given up
    int rop{0}, wop{0}, sop{0}; int64_t fto{0}, rt0{0}, rto{0}, wt0{0}, wto{0}, st0{0}, sto{0}; size_t runit{1}; int fd() { return is_raw ? rawfd : c ? c->socket().native_handle() : -1; }
};
struct phase { int dir; uint64_t n; };
static std::unique_ptr<coro::scheduler> S; static dirn D[2]; static endp* E[2]; static phase ph[8]; static int nph; static int dom, running, port; static bool g_jump, duplex, f_short, f_again, f_err, g_small, g_wide, g_torn, g_trickle, v12, keyupd, reneg; static int faults; static uint64_t maxlen; static int closer, close_how[2];
static int hs_err; static int inj_r[2], inj_w[2]; static const int errs[] = {ECONNRESET, ENOBUFS, ETIMEDOUT, ENOMEM};
static int cfd, hs_fd[2]; // descriptors being handshaken
static int side_of(int fd) { for (int s = 0; s < 2; ++s) if (E[s] && !E[s]->is_raw && (E[s]->fd() == fd || hs_fd[s] == fd)) return s; return -1; }
static int hook(const char* op, int fd, size_t* len)
{
    if (!rt::net::is_socket(fd)) return 0; bool w = strstr(op, "send") || strstr(op, "write"); int s = side_of(fd); if (s < 0) return 0;
    if (f_short && *len > 1 && rt::chance(1, 4)) { *len = 1 + rt::choose(std::min<size_t>(*len - 1, 4000)); }
    if (faults <= 0) return 0;
    if (f_again && rt::chance(1, 5)) { --faults; int x = rt::chance(1, 4) ? EINTR : EAGAIN; rt::trace("end %d: %s would block (injected)", s, op); rt::nontrivial(); return x; }
    if (f_err && rt::chance(1, 12)) { --faults; int x = errs[rt::choose(4)]; rt::trace("end %d: %s: errno %d (injected)", s, op, x); rt::nontrivial(); (w ? inj_w : inj_r)[s] = x; E[s]->hurt = true; return x; }
    return 0;
}
static coro::task<void> breath() { if (g_trickle) { if (rt::chance(1, 2)) co_await S->yield_for(1ms); else if (rt::chance(1, 2)) co_await S->yield_for(4ms); co_return; } switch (rt::weighted({4, 4, 3, 3, 2, 1})) { case 0: break; case 1: co_await S->schedule(); break; case 2: co_await S->yield_for(1ms); break; case 3: rt::point(); break; case 4: co_await S->yield_for(4ms); break; case 5: co_await S->yield_for(60ms); break; } }
// no timeout, or one that is centuries away
static bool g_eternal; static std::chrono::milliseconds ms(int64_t to) { if (to || !g_eternal) return std::chrono::milliseconds(to); rt::label("eternal timeout"); return std::chrono::milliseconds::max() - std::chrono::milliseconds(rt::choose(3)); }
// a timeout isn't given at all
static bool unsaid(int64_t to) { return !to && rt::chance(1, 4); }
static int64_t gen_timeout() { if (g_trickle) return 1 + rt::choose(5); static const int64_t ts[] = {0, 0, 0, 1, 5, 50}; return ts[rt::choose(6)]; }
static size_t gen_size() { if (g_trickle) return 1 + rt::choose(4) * rt::choose(4); switch (rt::weighted({4, 3, 2, 2})) { case 0: return 1 + rt::choose(4); case 1: return 1 + rt::choose(100); case 2: return 1 + rt::choose(3000); default: return 1 + rt::choose(maxlen); } }
static void timing(const char* what, int64_t t0, int64_t to, bool timed_out)
{
    int64_t el = rt::now_ns() - t0; if (to > 0 && !g_jump && el > (to + 2) * 1000000) rt::fail("late: %s with a timeout of %lld ms ended after %lld ns", what, (long long)to, (long long)el);
    if (!timed_out) return; if (to <= 0) rt::fail("timeout: %s without a timeout timed out", what); if (el < to * 1000000) rt::fail("timeout: %s with a timeout of %lld ms timed out after %lld ns", what, (long long)to, (long long)el);
    rt::nontrivial(); rt::label("timed out");
}
static int64_t hto[2]; // how long each handshake may take
static bool broken(endp* e) { endp* o = E[1 - e->side]; return (!o->up && hto[o->side] > 0) || e->cut || e->hurt || o->cut || o->hurt || o->stuck || e->stuck || (o->dead && !D[1 - e->side].closing); }
// ---------------------------------------------------------------- operations of library ends
static bool g_stale; static void stale() { if (g_stale && rt::chance(1, 3)) { ERR_raise(ERR_LIB_USER, 42); rt::trace("an error of somebody else lies in OpenSSL's queue"); rt::label("foreign error in the queue"); } }
template<class B> static coro::task<bool> send_op(endp* e, size_t n) // the whole of n bytes, or false
{
    dirn& d = D[e->side]; using V = typename B::value_type; size_t u = sizeof(V); B b((n + u - 1) / u, V{}); n = b.size() * u; unsigned char* p = (unsigned char*)b.data(); for (size_t i = 0; i < n; ++i) p[i] = pat(e->side, d.sent + i);
    d.trying = true; d.attempt = n;
    for (int tries = 0;; ++tries)
    {
        int64_t to = gen_timeout(); if (tries > 5) to = 0; e->wt0 = rt::now_ns(); e->wto = to; inj_w[e->side] = inj_r[e->side] = 0; e->wop = 1; rt::trace("end %d: send of %zu bytes, timeout %lld ms", e->side, n, (long long)to); stale();
        auto op = to || rt::chance(1, 2) ? e->c->send(b, ms(to)) : e->c->send(b); auto [st, un] = co_await op; e->wop = 0; rt::trace("end %d: send: %s, %zu unsent", e->side, tls::to_string(st).c_str(), un.size()); if (tls::to_string(st).empty()) rt::fail("status: no name");
        timing("send", e->wt0, to, st == send_status::timeout);
        if (!un.empty() && (un.size() > b.size() || (const void*)(un.data() + un.size()) != (const void*)(b.data() + b.size()))) rt::fail("span: the unsent part isn't the end of the buffer");
        if (n == 0) { if (st != send_status::buffer_is_empty) rt::fail("status: sending nothing ended as %s", tls::to_string(st).c_str()); d.trying = false; co_return true; }
        if (st == send_status::ok) { if (inj_w[e->side]) rt::fail("status: an error %d was reported as success", inj_w[e->side]); if (!un.empty()) rt::fail("count: %zu elements unsent though the connection sends everything", un.size()); d.sent += n; d.trying = false; co_return true; }
        if (st == send_status::timeout) { if (tries < 6 && rt::chance(9, 10)) { co_await breath(); continue; } e->stuck = true; co_return false; } // what was begun has to be repeated
        if (!broken(e) && !(E[1 - e->side]->dead)) rt::fail("status: send ended as %s on a healthy connection", tls::to_string(st).c_str());
        e->hurt = true; co_return false;
    }
}
static int bufkind;
template<class B> static coro::task<int> recv_op(endp* e, size_t cap) // 1 go on, 0 closed, -1 broken
{
    dirn& d = D[1 - e->side]; using V = typename B::value_type; size_t u = sizeof(V); B b((cap + u - 1) / u, V{}); cap = b.size() * u; memset((void*)b.data(), 0xEE, cap); int64_t to = e->fto ? e->fto : g_torn ? 0 : gen_timeout();
    e->rt0 = rt::now_ns(); e->rto = to; e->runit = u; inj_w[e->side] = inj_r[e->side] = 0; e->rop = 1; rt::trace("end %d: recv of up to %zu bytes, timeout %lld ms", e->side, cap, (long long)to); stale();
    auto op = to || rt::chance(1, 2) ? e->c->recv(b, ms(to)) : e->c->recv(b); auto [st, sp] = co_await op; e->rop = 0; rt::trace("end %d: recv: %s, %zu bytes", e->side, tls::to_string(st).c_str(), sp.size() * u); if (tls::to_string(st).empty()) rt::fail("status: no name");
    timing("recv", e->rt0, to, st == recv_status::timeout);
    if (!sp.empty() && (sp.size() > b.size() || (const void*)sp.data() != (const void*)b.data())) rt::fail("span: the part received isn't the beginning of the buffer (%zu elements of %zu)", sp.size(), b.size());
    size_t got = sp.size() * u; const unsigned char* p = (const unsigned char*)b.data();
    for (size_t i = 0; i < got; ++i) if (p[i] != pat(1 - e->side, d.recvd + i)) rt::fail("bytes: byte %llu of the stream arrived as %02x, not %02x", (unsigned long long)(d.recvd + i), p[i], pat(1 - e->side, d.recvd + i));
    if (u == 1) for (size_t i = got; i < cap; ++i) if (p[i] != 0xEE) rt::fail("count: recv reported %zu bytes but wrote further into the buffer", got);
    d.recvd += got; if (d.recvd > d.sent + (d.trying ? d.attempt : 0)) rt::fail("invented: %llu bytes arrived of %llu sent", (unsigned long long)d.recvd, (unsigned long long)d.sent);
    if (!cap) { if (st != recv_status::buffer_is_empty) rt::fail("status: receiving nothing ended as %s", tls::to_string(st).c_str()); co_return 1; }
    if (st == recv_status::ok) { if (!got) rt::fail("count: recv reported success with no byte"); if (inj_r[e->side]) rt::fail("status: an error %d was reported as success", inj_r[e->side]); if (d.sent > d.recvd) { rt::nontrivial(); rt::label("part of what was there"); } co_return 1; }
    if (got) rt::fail("count: a failed recv returned %zu bytes", got);
    if (st == recv_status::timeout) co_return 1;
    if (st == recv_status::closed)
    {
        if (!broken(e)) { if (!d.closing) rt::fail("closed: reported before the other end closed"); if (d.recvd != d.sent) rt::fail("closed: reported after %llu of %llu bytes", (unsigned long long)d.recvd, (unsigned long long)d.sent); }
        rt::label("closed"); co_return 0;
    }
    if (!broken(e)) rt::fail("status: recv ended as %s on a healthy connection", tls::to_string(st).c_str());
    rt::label("broken"); co_return -1;
}
// ---------------------------------------------------------------- operations of the independent peer
static coro::task<bool> raw_wait(endp* e, int r) { int x = SSL_get_error(e->raw, r); if (x == SSL_ERROR_WANT_READ) { co_await S->poll(e->rawfd, coro::poll_op::read); co_return true; } if (x == SSL_ERROR_WANT_WRITE) { co_await S->poll(e->rawfd, coro::poll_op::write); co_return true; } if (!g_stale) ERR_clear_error(); co_return false; }
static coro::task<bool> raw_send(endp* e, size_t n)
{
    dirn& d = D[e->side]; hvec<unsigned char> b; b.resize(n ? n : 1); for (size_t i = 0; i < n; ++i) b[i] = pat(e->side, d.sent + i); if (!n) co_return true;
    if (keyupd && rt::chance(1, 3)) { SSL_key_update(e->raw, rt::chance(1, 2) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); rt::label("key update"); }
    if (reneg && e->side == 1 && !SSL_renegotiate_pending(e->raw) && rt::chance(1, 3)) { SSL_renegotiate(e->raw); rt::label("renegotiation"); }
    d.trying = true; d.attempt = n; e->wop = 1; for (;;) { ERR_clear_error(); int r = SSL_write(e->raw, b.data(), n); if (r > 0) break; bool w = co_await raw_wait(e, r); if (!w) { e->wop = 0; if (!broken(e) && !E[1 - e->side]->dead) rt::fail("status: the connection broke under the peer's sending"); e->hurt = true; co_return false; } }
    e->wop = 0; d.sent += n; d.trying = false;
    for (char c; reneg && e->side == 1 && SSL_renegotiate_pending(e->raw);) { ERR_clear_error(); int r = SSL_peek(e->raw, &c, 1); if (r > 0 || SSL_get_error(e->raw, r) == SSL_ERROR_ZERO_RETURN || !SSL_renegotiate_pending(e->raw)) break; bool w = co_await raw_wait(e, r); if (!w) { if (!broken(e)) rt::fail("status: the renegotiation failed"); e->hurt = true; co_return false; } }
    rt::trace("peer %d sent %zu bytes", e->side, n); co_return true;
}
static coro::task<int> raw_recv(endp* e, size_t n)
{
    dirn& d = D[1 - e->side]; hvec<unsigned char> b; b.resize(n ? n : 1); e->rop = 1; int r; e->rto = 0;
    for (;;) { ERR_clear_error(); r = SSL_read(e->raw, b.data(), b.size()); if (r > 0) break; if (SSL_get_error(e->raw, r) == SSL_ERROR_ZERO_RETURN) { e->rop = 0; if (!broken(e) && !d.closing) rt::fail("closed: the peer was notified though the end didn't shut down"); if (!broken(e) && d.recvd != d.sent) rt::fail("closed: the peer was notified after %llu of %llu bytes", (unsigned long long)d.recvd, (unsigned long long)d.sent); rt::trace("peer %d notified", e->side); co_return 0; } bool w = co_await raw_wait(e, r); if (!w) { e->rop = 0; rt::trace("peer %d broken", e->side); if (!broken(e)) rt::fail("status: the connection broke under the peer's receiving (%s)", D[1 - e->side].closing ? "after the shutdown" : "before a shutdown"); co_return -1; } }
    e->rop = 0; for (int i = 0; i < r; ++i) if (b[i] != pat(1 - e->side, d.recvd + i)) rt::fail("bytes: byte %llu of the stream arrived at the peer as %02x, not %02x", (unsigned long long)(d.recvd + i), b[i], pat(1 - e->side, d.recvd + i));
    d.recvd += r; if (d.recvd > d.sent + (d.trying ? d.attempt : 0)) rt::fail("invented: %llu bytes arrived of %llu sent", (unsigned long long)d.recvd, (unsigned long long)d.sent); rt::trace("peer %d received %d bytes", e->side, r); co_return 1;
}
// ---------------------------------------------------------------- both
static coro::task<bool> send_any(endp* e, size_t n)
{
    if (e->is_raw) { bool r = co_await raw_send(e, n); co_return r; } bool r;
    if (g_wide && (!g_torn || n % 4 == 0)) r = co_await send_op<std::vector<uint32_t>>(e, n); else switch (rt::choose(3)) { case 0: r = co_await send_op<std::string>(e, n); break; case 1: r = co_await send_op<std::vector<std::byte>>(e, n); break; default: r = co_await send_op<std::vector<char>>(e, n); break; }
    co_return r;
}
static coro::task<int> recv_any(endp* e, size_t n, bool wide)
{
    if (e->is_raw) { int r = co_await raw_recv(e, n); co_return r; } int r;
    if (wide) r = co_await recv_op<std::vector<uint32_t>>(e, n); else switch (rt::choose(3)) { case 0: r = co_await recv_op<std::string>(e, n); break; case 1: r = co_await recv_op<std::vector<std::byte>>(e, n); break; default: r = co_await recv_op<std::vector<unsigned char>>(e, n); break; }
    co_return r;
}
static bool f_moves; static hvec<endp*> graveyard; static std::atomic<int> graves;
static coro::task<void> close_end(endp* e)
{
    int& how = close_how[e->side]; // 0 shut down, 1 shut down with a timeout, 2 destroyed without (by the main thread), 3 cut
    if (e->hurt || e->stuck) { if (how == 2) how = 0; }
    if (how == 3) { e->cut = true; rt::trace("end %d is cut", e->side); rt::nontrivial(); ::shutdown(e->fd(), SHUT_RDWR); if (!e->is_raw) co_await e->c->shutdown(); }
    else if (e->is_raw) { how = 0; D[e->side].closing = true; e->sop = 1; for (;;) { ERR_clear_error(); int r = SSL_shutdown(e->raw); if (r >= 0) break; if (SSL_get_error(e->raw, r) != SSL_ERROR_WANT_WRITE) break; co_await S->poll(e->rawfd, coro::poll_op::write); } e->sop = 0; D[e->side].fin = true; rt::trace("peer %d shut down", e->side); for (char c; !e->hurt;) { ERR_clear_error(); int r = SSL_read(e->raw, &c, 1); if (r > 0) continue; bool w = co_await raw_wait(e, r); if (!w) break; } }
    else if (how == 2) { rt::label("destroyed without shutdown"); D[e->side].closing = true; graveyard.push_back(e); ++graves; co_return; }
    else
    {
        int64_t to = how == 1 ? 1 + rt::choose(20) : 30000; e->st0 = rt::now_ns(); e->sto = to; inj_w[e->side] = 0; D[e->side].closing = true; e->sop = 1; rt::trace("end %d: shutdown, timeout %lld ms", e->side, (long long)to);
        stale(); if (how == 0) co_await e->c->shutdown(); else co_await e->c->shutdown(std::chrono::milliseconds(to)); e->sop = 0; int64_t el = rt::now_ns() - e->st0; rt::trace("end %d: shut down", e->side); if (!g_jump && el > (to + 2) * 1000000) rt::fail("late: shutdown with a timeout of %lld ms ended after %lld ns", (long long)to, (long long)el);
        if (el >= to * 1000000) { e->stuck = true; rt::label("shutdown timed out"); } D[e->side].fin = true; if (rt::chance(1, 4)) co_await e->c->shutdown();
    }
}
static void drop(endp* e) { e->dead = true; if (e->is_raw) { SSL_free(e->raw); e->raw = nullptr; if (e->rawfd >= 0) close(e->rawfd); e->rawfd = -1; } else e->c.reset(); rt::trace("end %d gone", e->side); }
static coro::task<void> leave(endp* e) { if (--e->users == 0) { co_await breath(); co_await close_end(e); if (close_how[e->side] == 2) co_return; if (rt::chance(1, 3)) co_await breath(); drop(e); } }
static void maybe_move(endp* e) { if (!f_moves || e->is_raw || e->users != 1 || !rt::chance(1, 3)) return; rt::label("moved"); if (rt::chance(1, 2)) e->c = std::make_unique<tclient>(std::move(*e->c)); else { tclient t{std::move(*e->c)}; *e->c = std::move(t); } }
static coro::task<void> until_closed(endp* e)
{
    for (int n = 0; n < 60; ++n) { size_t cap = 1 + rt::choose(300); int r = co_await recv_any(e, cap, false); if (r <= 0) co_return; if (D[1 - e->side].sent == D[1 - e->side].recvd && n > 50) co_return; }
}
// one direction at a time
static fire talk(endp* e)
{
    co_await S->schedule(); bool ok = true;
    for (int i = 0; i < nph && ok; ++i)
    {
        uint64_t done = 0; phase& p = ph[i]; bool turn = reneg && i > 0 && ph[i - 1].dir == 1 && p.dir == 0 && (i + 1 < nph || closer == 1);
        if (turn && e->is_raw && !SSL_renegotiate_pending(e->raw)) { if (rt::chance(3, 4)) { ERR_clear_error(); SSL_renegotiate(e->raw); (void)SSL_do_handshake(e->raw); rt::trace("peer asks for a renegotiation before it receives"); rt::label("renegotiation before a send"); co_await S->yield_for(std::chrono::milliseconds(rt::choose(10))); } }
        if (turn && !e->is_raw && rt::chance(3, 4)) { e->fto = 1 + rt::choose(6); int r = co_await recv_any(e, 20, false); e->fto = 0; if (r <= 0) { ok = false; break; } }
        if (p.dir == e->side) while (done < p.n && ok) { co_await breath(); maybe_move(e); size_t n = std::min<uint64_t>(gen_size(), p.n - done); if (g_wide && !g_torn) n = (n + 3) / 4 * 4; n = std::min<uint64_t>(n, p.n - done); if (rt::chance(1, 20)) n = 0; ok = co_await send_any(e, n); if (ok) done += n; }
        else { uint64_t want = D[1 - e->side].recvd + p.n; int it = 0; while (D[1 - e->side].recvd < want && ok) { if (it++ < 10) co_await breath(); maybe_move(e); size_t cap = it > 40 ? 5000 : gen_size(); if (rt::chance(1, 20)) cap = 0; int r = co_await recv_any(e, cap, g_wide); if (r <= 0) ok = false; } }
    }
    if (ok && closer != e->side) co_await until_closed(e);
    co_await leave(e); --running;
}
// both directions at once
static void give_up(endp* e) { e->cut = true; rt::trace("end %d gives up", e->side); if (e->fd() >= 0) ::shutdown(e->fd(), SHUT_RDWR); }
static fire talk_w(endp* e) { co_await S->schedule(); bool ok = true; for (int i = 0; i < nph && ok; ++i) if (ph[i].dir == e->side) { uint64_t done = 0; while (done < ph[i].n && ok) { co_await breath(); size_t n = std::min<uint64_t>(gen_size(), ph[i].n - done); ok = co_await send_any(e, n); if (ok) done += n; } } if (!ok) give_up(e); co_await leave(e); --running; }
static fire talk_r(endp* e)
{
    co_await S->schedule(); bool ok = true; uint64_t want = 0; for (int i = 0; i < nph; ++i) if (ph[i].dir != e->side) want += ph[i].n; int it = 0; dirn& d = D[1 - e->side];
    while (d.recvd < want && ok) { if (it++ < 10) co_await breath(); size_t cap = it > 40 ? 5000 : gen_size(); int r = co_await recv_any(e, cap, false); if (r < 0) give_up(e); if (r <= 0) ok = false; }
    if (ok && closer != e->side) co_await until_closed(e);
    co_await leave(e); --running;
}
static void begin(endp* e) { e->up = true; if (g_small) { int v = 1; setsockopt(e->fd(), SOL_SOCKET, SO_SNDBUF, &v, sizeof v); } if (duplex) { e->users = 2; running += 2; talk_w(e); talk_r(e); } else { e->users = 1; ++running; talk(e); } }
static void failed(endp* e) { e->hurt = true; drop(e); }
// ---------------------------------------------------------------- the handshake
static std::unique_ptr<tls::server> V; static int mode; /* 0 both library, 1 raw server, 2 raw client */ static int cmode, how_bad; /* 0 fine, 1 untrusted, 2 no certificate, 3 garbage, 4 cut after some steps, 5 stalls */ static int hop[2]; static int64_t ht0[2]; static int hres[2]; static bool cest, raw_done, raw_spoke, stopping; static int lfd;
static fire connector()
{
    endp* e = E[0]; co_await S->schedule(); co_await breath(); e->c = std::make_unique<tclient>(S, how_bad == 1 ? *ctx_verify : *ctx_client, coro::net::socket_address{dom == AF_INET ? "127.0.0.1" : "::1", (uint16_t)port, (coro::net::domain_t)dom}); if (g_small) { int v = 1; setsockopt(e->fd(), SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
    if (rt::chance(1, 4)) { auto t = std::make_unique<tclient>(std::move(*e->c)); e->c = std::move(t); }
    int64_t to = gen_timeout(); ht0[0] = rt::now_ns(); hto[0] = to; hop[0] = 1; rt::trace("connect, timeout %lld ms", (long long)to); stale(); auto pending_connect = unsaid(to) ? e->c->connect() : e->c->connect(ms(to)); auto st = co_await pending_connect; hop[0] = 0; hres[0] = 1 + (int)st; rt::trace("connect: %s", tls::to_string(st).c_str()); timing("connect", ht0[0], to, st == connection_status::timeout);
    bool ok = st == connection_status::connected;
    if (ok && (cmode >= 3 || (cmode == 2 && !cest))) rt::fail("status: connected without a connection");
    if (ok && (how_bad == 1 || how_bad == 2 || how_bad == 3)) rt::fail("status: connected though the handshake cannot succeed (%d)", how_bad); if (ok && mode == 1 && !raw_spoke) rt::fail("status: connected though the peer said nothing");
    if (!ok && st != connection_status::timeout && !how_bad && cmode < 3 && !e->hurt && !E[1]->hurt && !E[1]->dead && !(mode == 0 && hto[1] > 0)) rt::fail("status: connect ended as %s though nothing is wrong", tls::to_string(st).c_str());
    { auto again = co_await e->c->connect(); if (again != st) rt::fail("status: a second connect() reported something else"); }
    if (!ok) { rt::nontrivial(); rt::label("handshake failed"); if (rt::chance(1, 3)) { std::string b(4, 'x'); auto op = e->c->recv(b, 1ms); auto [rs, sp] = co_await op; if (rs == recv_status::ok) rt::fail("status: received without a connection"); auto op2 = e->c->send(b, 1ms); auto [ss, sp2] = co_await op2; if (ss == send_status::ok) rt::fail("status: sent without a connection"); } co_await e->c->shutdown(); failed(e); }
    else begin(e);
    --running;
}
static bool raw_finished() { if (!E[0]->raw) return true; switch (SSL_get_state(E[0]->raw)) { case TLS_ST_CW_FINISHED: case TLS_ST_CR_SESSION_TICKET: case TLS_ST_CR_CHANGE: case TLS_ST_CR_FINISHED: case TLS_ST_OK: return true; default: return false; } } // a 1.2 client is done only after the server
static fire acceptor()
{
    endp* e = E[1]; co_await S->schedule();
    for (;;)
    {
        int64_t to = gen_timeout(); int64_t t0 = rt::now_ns(); auto pending_poll = unsaid(to) ? V->poll() : V->poll(ms(to)); auto ps = co_await pending_poll; if (stopping) break; timing("poll", t0, to, ps == coro::poll_status::timeout); if (ps == coro::poll_status::timeout) continue; if (ps != coro::poll_status::read) rt::fail("status: poll of the server ended as %s", coro::to_string(ps).c_str());
        to = gen_timeout(); ht0[1] = rt::now_ns(); hto[1] = to; hop[1] = 1; rt::trace("accept, timeout %lld ms", (long long)to); stale(); tclient c = co_await V->accept(ms(to)); hop[1] = 0; auto st = co_await c.connect(); hres[1] = 1 + (int)st; rt::trace("accept: %s", tls::to_string(st).c_str()); timing("accept", ht0[1], to, st == connection_status::timeout);
        bool ok = st == connection_status::connected;
        if (ok != c.socket().is_ok()) rt::fail("status: accepting ended as %s but the socket is %s", tls::to_string(st).c_str(), c.socket().is_ok() ? "valid" : "invalid");
        if (ok && (how_bad == 1 || how_bad == 2 || how_bad == 3)) rt::fail("status: accepted though the handshake cannot succeed (%d)", how_bad);
        if (ok && mode == 2 && !raw_done && !raw_finished()) rt::fail("status: accepted though the peer never finished the handshake"); if (ok && mode == 0 && !(hop[0] || hres[0] == 1 + (int)connection_status::connected)) { if (!E[0]->hurt) rt::fail("status: accepted though the client's handshake failed"); }
        if (!ok && st != connection_status::timeout && !how_bad && !e->hurt && !E[0]->hurt && !E[0]->dead && !(mode == 0 && hto[0] > 0)) rt::fail("status: accept ended as %s though nothing is wrong", tls::to_string(st).c_str());
        co_await breath();
        if (!ok) { rt::nontrivial(); rt::label("handshake failed"); e->hurt = true; e->dead = true; rt::trace("not accepted"); } else { e->c = std::make_unique<tclient>(std::move(c)); begin(e); }
        break;
    }
    --running;
}
static coro::task<void> raw_handshake(endp* e)
{
    e->raw = SSL_new(e->side ? raw_srv : raw_cli); SSL_set_fd(e->raw, e->rawfd); if (v12) SSL_set_max_proto_version(e->raw, TLS1_2_VERSION); if (e->side) SSL_set_accept_state(e->raw); else SSL_set_connect_state(e->raw); int steps = how_bad == 4 ? rt::choose(5) : 1000000; hop[e->side] = 1; hto[e->side] = 0;
    if (how_bad == 5) { co_await S->yield_for(std::chrono::milliseconds(1 + rt::choose(100))); e->cut = true; drop(e); hop[e->side] = 0; co_return; }
    if (how_bad == 3) { char junk[600]; int n = 1 + rt::choose(600); memset(junk, 'x', sizeof junk); (void)!send(e->rawfd, junk, n, MSG_NOSIGNAL); rt::trace("peer sends %d bytes of garbage", n); if (rt::chance(1, 2)) co_await S->yield_for(10ms); e->cut = true; drop(e); hop[e->side] = 0; co_return; }
    for (int i = 0;; ++i)
    {
        if (i >= steps) { rt::trace("peer cuts the handshake"); e->cut = true; ::shutdown(e->rawfd, SHUT_RDWR); drop(e); break; }
        raw_spoke = true; ERR_clear_error(); int r = SSL_do_handshake(e->raw); if (r == 1) { raw_done = true; rt::trace("peer's handshake is done"); begin(e); break; } bool w = co_await raw_wait(e, r); if (!w) { rt::trace("peer's handshake failed"); if (!how_bad && !E[1 - e->side]->hurt && !E[1 - e->side]->dead && !(hto[1 - e->side] > 0)) rt::fail("status: the peer's handshake failed though nothing is wrong"); failed(e); break; }
    }
    hop[e->side] = 0;
}
static fire raw_server()
{
    endp* e = E[1]; co_await S->schedule(); for (;;) { auto ps = co_await S->poll(lfd, coro::poll_op::read, 20ms); (void)ps; if (stopping) break; int fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK); if (fd < 0) continue; e->rawfd = fd; if (g_small) { int v = 1; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); } co_await breath(); co_await raw_handshake(e); break; }
    --running;
}
static fire raw_client()
{
    endp* e = E[0]; co_await S->schedule(); co_await breath(); e->rawfd = socket(dom, SOCK_STREAM | SOCK_NONBLOCK, 0); auto a = coro::net::socket_address{dom == AF_INET ? "127.0.0.1" : "::1", (uint16_t)port, (coro::net::domain_t)dom}; auto [sa, sl] = a.data(); if (connect(e->rawfd, sa, sl)) rt::fail("harness: connect"); co_await breath(); co_await raw_handshake(e); --running;
}
static int chook(int fd) { cfd = fd; if (mode == 2) return 0; return cmode == 3 ? ECONNREFUSED : cmode == 4 ? 2 : cmode; }
// ---------------------------------------------------------------- checks at rest
static void at_rest(bool exactly)
{
    for (int s = 0; s < 2; ++s)
    {
        endp *e = E[s], *o = E[1 - s]; dirn& in = D[1 - s]; auto late = [&](const char* what, int on, int64_t t0, int64_t to) { if (exactly && on && to > 0 && rt::now_ns() - t0 > (to + 2) * 1000000) rt::fail("late: a %s with a timeout of %lld ms waits for %lld ns", what, (long long)to, (long long)(rt::now_ns() - t0)); };
        if (!e->is_raw) { late("handshake", hop[s], ht0[s], hto[s]); late("recv", e->rop, e->rt0, e->rto); late("send", e->wop, e->wt0, e->wto); late("shutdown", e->sop, e->st0, e->sto); }
        if (e->is_raw || !e->up) continue;
        if (o->is_raw && (keyupd || reneg) && !o->rop && !o->dead) continue; // the answer to a key update may have to wait for a peer that doesn't read
        if (e->rop && in.sent > in.recvd && in.sent % e->runit == 0 && !e->hurt) rt::fail("stalled: a recv waits though %llu bytes are there", (unsigned long long)(in.sent - in.recvd));
        if (e->rop && in.fin && !o->hurt && !o->stuck && !o->cut) rt::fail("stalled: a recv waits though the other end has shut down"); if (e->rop && (o->dead || o->cut)) rt::fail("stalled: a recv waits though the other end has gone");
        if (e->wop && o->rop && o->up) rt::fail("stalled: a send waits though the other end waits for data"); if (e->wop && (o->dead || o->cut)) rt::fail("stalled: a send waits though the other end has gone");
        if (e->sop && (o->dead || o->cut)) rt::fail("stalled: a shutdown waits though the other end has gone");
    }
    if (hop[0] && hop[1] && !(mode && how_bad >= 3)) rt::fail("stalled: both ends wait in the handshake");
    for (int s = 0; s < 2; ++s) if (hop[s] && !E[s]->is_raw && E[1 - s]->dead) rt::fail("stalled: a handshake waits though the other end has gone");
}
static void bury() { while (graves > 0) { endp* e = graveyard.back(); graveyard.pop_back(); --graves; rt::trace("end %d: destroyed by the main thread", e->side); e->c.reset(); D[e->side].fin = true; e->dead = true; } }
void harness_case()
{
    if (rt::chance(1, 40)) { contexts(); return; }
    free_zero zero(rt::chance(1, 10));
    rnd_state = 12345; for (int s = 0; s < 2; ++s) { D[s] = dirn{}; E[s] = new (malloc(sizeof(endp))) endp{}; E[s]->side = s; hto[s] = hop[s] = hres[s] = inj_r[s] = inj_w[s] = 0; hs_fd[s] = -1; close_how[s] = rt::weighted({5, 2, 2, 1}); }
    live_ssl = 0; graveyard.clear(); graves = 0; running = 0; cest = raw_done = raw_spoke = stopping = false; cfd = lfd = -1; dom = rt::chance(1, 3) ? AF_INET6 : AF_INET; port = 1000 + rt::choose(3);
    bool inl = rt::chance(1, 2); int nt = 1 + rt::choose(3); g_jump = rt::chance(1, 5); g_eternal = !g_jump && rt::chance(1, 8); g_small = rt::chance(1, 2); g_trickle = rt::chance(1, 6); f_short = rt::chance(1, 3); f_again = rt::chance(1, 2); f_err = rt::chance(1, 5); faults = rt::choose(16); f_moves = rt::chance(1, 3); g_stale = rt::chance(1, 3); mode = rt::weighted({4, 2, 2});
    how_bad = 0; cmode = 0; if (rt::chance(1, 5)) { how_bad = mode == 0 ? 1 + rt::choose(2) : 3 + rt::choose(3); if (mode == 1 && rt::chance(1, 4)) how_bad = 1; } if (mode != 2) { cmode = rt::chance(1, 8) ? 2 + rt::choose(3) : rt::choose(2); }
    v12 = mode && rt::chance(1, 3); keyupd = mode && !v12 && rt::chance(1, 2); reneg = mode == 1 && v12 && rt::chance(1, 2); if (keyupd || reneg) g_small = false; duplex = inl && !reneg && !keyupd && rt::chance(1, 3); g_wide = !duplex && rt::chance(1, 8); g_torn = g_wide && rt::chance(1, 2); maxlen = rt::chance(1, 4) ? 70000 : 6000; if (f_short) maxlen = std::min<uint64_t>(maxlen, 20000);
    nph = rt::choose(5); int d0 = rt::choose(2); for (int i = 0; i < nph; ++i) { ph[i].dir = (d0 + i) & 1; ph[i].n = 0; for (int k = 1 + rt::choose(3); k > 0; --k) ph[i].n += gen_size(); ph[i].n = (ph[i].n + 3) / 4 * 4; } closer = nph ? ph[nph - 1].dir : rt::choose(2);
    if (duplex) closer = rt::choose(2);
    E[0]->is_raw = mode == 2; E[1]->is_raw = mode == 1;
    rt::note("tls: %s threads=%d %s %s connect=%d bad=%d%s%s%s%s%s%s%s%s%s%s faults=%d close=%d,%d first=%d\n", inl ? "inline" : "pooled", nt, mode == 0 ? "both" : mode == 1 ? "client only" : "server only", v12 ? "1.2" : "1.3", cmode, how_bad, duplex ? " duplex" : "", g_small ? " small" : "", g_torn ? " torn" : g_wide ? " wide" : "", g_trickle ? " trickle" : "", f_short ? " short" : "", f_again ? " would-block" : "", f_err ? " errors" : "", keyupd ? " keyupdate" : "", reneg ? " reneg" : "", f_moves ? " moves" : "", faults, close_how[0], close_how[1], closer);
    for (int i = 0; i < nph; ++i) rt::note("phase: %llu bytes from %d\n", (unsigned long long)ph[i].n, ph[i].dir);
    rt::cfg.timejump = g_jump; rt::cfg.hang_ns = 4000000000000ll; rt::io_hook = hook; rt::net::connect_hook = chook;
    coro::scheduler::options o; o.pool.thread_count = nt; o.execution_strategy = inl ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool; S = coro::scheduler::make_unique(std::move(o));
    coro::net::socket_address at{dom == AF_INET ? "127.0.0.1" : "::1", (uint16_t)port, (coro::net::domain_t)dom};
    if (mode == 1) { lfd = socket(dom, SOCK_STREAM | SOCK_NONBLOCK, 0); auto [sa, sl] = at.data(); if (bind(lfd, sa, sl) || listen(lfd, 5)) rt::fail("harness: listen"); }
    else { V = std::make_unique<tls::server>(S, how_bad == 2 ? *ctx_bare : *ctx_server, at); if (rt::chance(1, 4)) { auto t = std::make_unique<tls::server>(std::move(*V)); if (rt::chance(1, 2)) *V = std::move(*t); else V = std::move(t); } }
    running = 2; if (mode == 1) raw_server(); else acceptor(); if (mode == 2) raw_client(); else connector();
    int64_t wait[] = {0, 1000000, 5000000, 60000000};
    for (int i = rt::choose(4); i > 0; --i) { rt::quiesce(); at_rest(!g_jump); bury(); rt::advance(wait[rt::choose(4)]); rt::point(); }
    rt::cfg.timejump = false; rt::quiesce(); at_rest(!g_jump); bury();
    for (int i = 0; i < 600 && running; ++i)
    {
        rt::quiesce(); at_rest(!g_jump); bury(); if (!running) break;
        if (int h = (cmode == 2 || cmode == 4) && cfd >= 0 && hop[0] ? rt::net::held_index(cfd) : -1; h >= 0 && rt::chance(1, 2)) { if (cmode == 4) rt::net::refuse(h, ECONNREFUSED); else { cest = true; rt::net::establish(h); } rt::trace("the held connection is %s", cmode == 4 ? "refused" : "established"); rt::quiesce(); if (cmode == 4 && hop[0]) rt::fail("stalled: connect still waits after the connection was refused"); }
        rt::advance(i > 200 ? 1000000000 : 20000000);
        if (!stopping && (cmode >= 2) && hres[0] && !cest) { stopping = true; rt::quiesce(); if (V) V->shutdown(); rt::quiesce(); }
        if (!stopping && hres[0] && E[0]->dead && i > 100 && !hop[1] && !E[1]->up) { stopping = true; if (V) V->shutdown(); rt::quiesce(); }
    }
    if (running) rt::fail("stalled: the transfers don't end");
    rt::quiesce(); bury();
    for (int s = 0; s < 2; ++s) { dirn& d = D[s]; if (E[0]->up && E[1]->up && !broken(E[0]) && !broken(E[1]) && d.recvd != d.sent) rt::fail("lost: %llu of %llu bytes arrived", (unsigned long long)d.recvd, (unsigned long long)d.sent); if (E[s]->c) rt::fail("harness: end left"); }
    V.reset(); if (lfd >= 0) close(lfd); S->shutdown(); S.reset();
    if (live_ssl) rt::fail("leak: %d TLS connections left", live_ssl);
    for (auto*& e : E) { e->~endp(); free(e); e = nullptr; }
}
