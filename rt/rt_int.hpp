#pragma once
#include <cstdint>
#include <vector>
namespace rt
{
static constexpr uint32_t MAXP = 1u << 16, MAXS = 1u << 21, MAXLAB = 64;
struct Shm
{
    volatile uint64_t caseno, heartbeat, steps, nswitch, vnow, sched_hash;
    volatile uint32_t failed, discarded, nontrivial, overflow;
    uint32_t np, ns, note_len, trace_len, nlabels;
    struct { char name[40]; uint64_t n, lastcase; } labels[MAXLAB];
    uint64_t cases, discards, nontriv, tot_steps, tot_switch, max_steps;
    uint64_t nhash;
    char msg[4096];
    char note[16384];
    char trace[262144];
    uint32_t P[MAXP];
    uint8_t S[MAXS];
};
struct Replay { std::vector<uint32_t> P; std::vector<uint8_t> S; bool gen_s{false}; };
extern Shm* shm;
void process_init(Shm* s);
void run_case(uint64_t seed, const Replay* rp);
} // namespace rt
