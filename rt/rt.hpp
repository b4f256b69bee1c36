// Deterministic execution runtime: public interface for harnesses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

struct sockaddr;
namespace rt
{
// ---- program choices (recorded, shrinkable; 0 is the simplest value) -------------------------------
uint32_t choose(uint32_t n);                        // uniform in [0,n)
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
bool     chance(uint32_t num, uint32_t den);        // true with probability num/den; shrinks to false
uint32_t weighted(std::initializer_list<uint32_t> w); // index by weight; shrinks to 0
// ---- schedule-side choices (recorded in the schedule stream) ----------------------------------------
uint32_t schoose(uint32_t n, uint32_t num, uint32_t den); // non-zero with probability num/den

// ---- verdicts and reporting -------------------------------------------------------------------------
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // appended to the case description
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // history line (kept in replay output)
void nontrivial();                                  // this case is non-trivial by the harness' rule
void label(const char* name);                       // classify (counted)
[[noreturn]] void discard();                        // case not applicable (counted as discarded)

// ---- schedule / time control ------------------------------------------------------------------------
struct config
{
    bool     race{true};          // happens-before race detection on heap objects
    bool     leak{true};          // require no live heap blocks at the end of the case
    bool     fdleak{true};        // require no open descriptors at the end of the case
    bool     spurious{true};      // allow spurious condvar wakes / weak CAS failures
    bool     timejump{true};      // allow time to advance while threads are runnable
    bool     trace_fds{true};     // fail on close of a descriptor that is not open
    bool     net{false};          // real sockets in use: wait for the kernel before advancing time
    int64_t  hang_ns{300LL * 1000000000};  // virtual time after which a case that has not ended is hung
    uint64_t step_limit{400000};
};
extern config cfg;                // reset to defaults before every case

void     point();                 // explicit schedule point
void     yield();                 // give others a turn
void     quiesce(int64_t horizon_ns = 0); // run others until they are all blocked (advancing time at most this far)
int64_t  now_ns();                // virtual monotonic clock
void     advance(int64_t ns);     // main thread: sleep in virtual time
int      tid();                   // 0 = case main thread
size_t   live_allocs();
uint64_t steps();
bool     active();
void     wait_until(const std::function<bool()>& pred, const char* what); // block this thread on a predicate
bool     is_live(const void* p);  // address belongs to a live heap block (or is not heap)
struct no_instr { no_instr(); ~no_instr(); }; // suspend access checking/schedule points on this scope (runtime-internal data)

// happens-before check on a harness variable: plain read/write is instrumented anyway when on the heap.

// ---- descriptors and faults -------------------------------------------------------------------------
std::vector<int> open_fds();      // descriptors opened since the case began and not closed
// called for every intercepted transfer before it happens; may shrink *len or return an errno (>0) to inject
extern int (*io_hook)(const char* op, int fd, size_t* len);
extern void (*fd_hook)(const char* op, int fd);     // observe opens / closes
extern int sys_fd; // the descriptor an epoll_ctl asked about by sys_hook adds
extern int (*sys_hook)(const char* op);            // may return an errno for fd-creating calls
extern void (*sockopt_hook)(int fd);
// IPv4/IPv6 sockets are emulated (unless cfg.net): see emu.hpp
namespace net
{
extern int (*connect_hook)(int fd);             // 0 connected (or refused) at once, 1 the same but reported as in progress, 2 held until established or refused, >= 10 this errno
extern int (*drop_hook)(int port, size_t len);  // the network loses this datagram
extern void (*sent_hook)(const void* by, const void* to, const sockaddr* from, const sockaddr* dest, const void* data, size_t n); // a datagram has left; to: the id of the socket that will receive it, or null
const void* id(int fd); void block_writes(const void* id, bool on); // datagram sockets: the send buffer is full
void error(const void* id); // a datagram socket: raises a connection error (ECONNRESET) on it, once
bool is_socket(int fd); int port(int fd); int held(); int held_index(int fd); void establish(int i); void refuse(int i, int err); // connections being held, oldest first
}
} // namespace rt

#define RT_CHECK(cond, ...)            \
    do                                 \
    {                                  \
        if (!(cond)) rt::fail(__VA_ARGS__); \
    } while (0)

// supplied by each harness
void        harness_case();
extern const char* const harness_rule;
extern const char* const harness_property;
void        harness_warmup() __attribute__((weak));
