// Case driver: explores cases in forked workers, shrinks and re-verifies failures.
#include "rt.hpp"
#include "rt_int.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <string>
#include <vector>
using namespace rt;
static double rnow() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void rsleep(double s) { struct timespec t{(time_t)s, (long)((s - (time_t)s) * 1e9)}; syscall(SYS_nanosleep, &t, nullptr); }
template<class T> static T* share(size_t n) { return (T*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xd1b54a32d192ed03ull + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static constexpr size_t MAXH = 1u << 21;
struct Failure { std::vector<uint32_t> P; std::vector<uint8_t> S; std::string msg, note, trace; uint64_t caseno{}; };
static Failure grab(Shm* s)
{
    Failure f;
    f.P.assign(s->P, s->P + std::min(s->np, MAXP)); f.S.assign(s->S, s->S + std::min(s->ns, MAXS));
    f.msg = s->msg; f.note = s->note; f.trace = s->trace; f.caseno = s->caseno;
    return f;
}
static std::string kind(const std::string& m) { return m.substr(0, m.find(':')); }
static Shm* probe;
static bool verbose = false;
static void child_setup()
{
    if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); if (n > 2) syscall(SYS_close, n); }
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    setpriority(PRIO_PROCESS, 0, 0);
}
// run one case in a fresh child; returns 1 fail, 0 pass, 2 discard
static int run_one(const Replay* rp, uint64_t seed, double tmo = 30)
{
    probe->failed = 0; probe->msg[0] = 0; probe->np = probe->ns = 0; probe->discarded = 0;
    pid_t p = fork();
    if (p == 0)
    {
        child_setup();
        process_init(probe);
        if (harness_warmup) harness_warmup();
        run_case(seed, rp);
        _exit(0);
    }
    double t0 = rnow(); int st = 0;
    int spins = 0;
    for (;;)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (rnow() - t0 > tmo) { kill(p, SIGKILL); waitpid(p, &st, 0); snprintf(probe->msg, sizeof probe->msg, "hang: the case does not terminate"); return 1; }
        rsleep(++spins < 100 ? 0.0001 : 0.002);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 43) return 2;
    if (WIFSIGNALED(st) && !probe->failed) snprintf(probe->msg, sizeof probe->msg, "crash: killed by signal %d", WTERMSIG(st));
    else if (!probe->failed) snprintf(probe->msg, sizeof probe->msg, "crash: exit status %d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    return 1;
}
static void trim(std::vector<uint8_t>& s) { while (!s.empty() && s.back() == 0) s.pop_back(); }
static size_t nz(const std::vector<uint8_t>& s) { return s.size() - std::count(s.begin(), s.end(), 0); }
static uint64_t wt(const std::vector<uint32_t>& p) { uint64_t w = 0; for (auto x : p) w += x; return w; }
static bool better(const Failure& a, const Failure& b)
{
    if (a.P.size() != b.P.size()) return a.P.size() < b.P.size();
    if (wt(a.P) != wt(b.P)) return wt(a.P) < wt(b.P);
    return nz(a.S) < nz(b.S);
}
static Failure shrink(Failure best, double budget)
{
    std::string k = kind(best.msg);
    double t0 = rnow();
    auto attempt = [&](std::vector<uint32_t> P, std::vector<uint8_t> S, int extra) {
        if (rnow() - t0 > budget) return false;
        Replay r{P, S};
        if (run_one(&r, 0) == 1 && kind(probe->msg) == k) { Failure f = grab(probe); trim(f.S); if (better(f, best)) { best = f; return true; } return false; }
        for (int e = 0; e < extra && rnow() - t0 < budget; ++e)
        {
            Replay q{P, {}, true};
            if (run_one(&q, mix(777, e + P.size() * 131)) == 1 && kind(probe->msg) == k) { Failure f = grab(probe); trim(f.S); if (better(f, best)) { best = f; return true; } }
        }
        return false;
    };
    trim(best.S);
    bool prog = true;
    while (prog && rnow() - t0 < budget)
    {
        prog = false;
        // schedule: zero chunks
        for (size_t c = std::max<size_t>(1, best.S.size()); c >= 1 && nz(best.S) > 0; c /= 2)
        {
            for (size_t i = 0; i < best.S.size();)
            {
                auto S = best.S; bool any = false;
                for (size_t j = i; j < std::min(S.size(), i + c); ++j) { any |= S[j] != 0; S[j] = 0; }
                if (any && attempt(best.P, S, 0)) prog = true; else i += c;
                if (rnow() - t0 > budget) break;
            }
            if (c == 1) break;
        }
        // program: delete chunks
        for (size_t c = std::min<size_t>(16, best.P.size()); c >= 1; c /= 2)
        {
            for (size_t i = 0; i + c <= best.P.size();)
            {
                auto P = best.P; P.erase(P.begin() + i, P.begin() + i + c);
                if (attempt(P, best.S, c > 1 ? 12 : 6)) prog = true; else ++i;
                if (rnow() - t0 > budget) break;
            }
            if (c == 1) break;
        }
        for (size_t i = 0; i < best.P.size(); ++i)
        {
            for (uint32_t v : {0u, best.P[i] / 2, best.P[i] ? best.P[i] - 1 : 0})
            {
                if (i >= best.P.size() || v >= best.P[i]) continue;
                auto P = best.P; P[i] = v;
                if (attempt(P, best.S, 6)) { prog = true; break; }
            }
            if (rnow() - t0 > budget) break;
        }
    }
    return best;
}
static void save(const char* path, const Failure& f)
{
    FILE* o = fopen(path, "w");
    if (!o) return;
    fprintf(o, "property %s\nP %zu", harness_property, f.P.size());
    for (auto v : f.P) fprintf(o, " %u", v);
    fprintf(o, "\nS %zu", f.S.size());
    for (size_t i = 0; i < f.S.size();) { size_t j = i; while (j < f.S.size() && f.S[j] == f.S[i]) ++j; fprintf(o, " %u*%zu", f.S[i], j - i); i = j; }
    fprintf(o, "\n# %s\n# case: ", f.msg.c_str());
    for (char c : f.note) { fputc(c, o); if (c == '\n') fputs("#   ", o); }
    fprintf(o, "\n# history:\n# ");
    for (char c : f.trace) { fputc(c, o); if (c == '\n') fputs("# ", o); }
    fputc('\n', o);
    fclose(o);
}
static bool load(const char* path, Replay& r)
{
    FILE* f = fopen(path, "r"); if (!f) return false;
    char prop[64]; size_t n;
    if (fscanf(f, "property %63s\nP %zu", prop, &n) != 2) { fclose(f); return false; }
    r.P.resize(n); for (auto& v : r.P) if (fscanf(f, "%u", &v) != 1) { fclose(f); return false; }
    if (fscanf(f, "\nS %zu", &n) != 1) { fclose(f); return false; }
    while (r.S.size() < n) { unsigned v; size_t c; if (fscanf(f, " %u*%zu", &v, &c) != 2) { fclose(f); return false; } r.S.insert(r.S.end(), c, (uint8_t)v); }
    fclose(f); return true;
}
static std::string js(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
int main(int argc, char** argv)
{
    uint64_t seed = 1, cases = 1000; int workers = 8, batch = 25; double cap = 120, shrink_s = 25;
    const char *out = nullptr, *replay = nullptr, *replay_out = nullptr; int64_t only = -1;
    std::vector<std::string> ignore;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto nx = [&] { return argv[++i]; };
        if (a == "--seed") seed = strtoull(nx(), 0, 10);
        else if (a == "--cases") cases = strtoull(nx(), 0, 10);
        else if (a == "--workers") workers = atoi(nx());
        else if (a == "--batch") batch = atoi(nx());
        else if (a == "--cap") cap = atof(nx());
        else if (a == "--shrink") shrink_s = atof(nx());
        else if (a == "--out") out = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--replay-out") replay_out = nx();
        else if (a == "--ignore") ignore.push_back(nx());
        else if (a == "--case") only = atoll(nx());
        else if (a == "-v") verbose = true;
    }
    probe = share<Shm>(sizeof(Shm));
    if (replay || only >= 0)
    {
        Replay r;
        if (replay && !load(replay, r)) { printf("cannot read %s\n", replay); return 2; }
        int x = run_one(replay ? &r : nullptr, only >= 0 ? mix(seed, only) : 0, 60);
        printf("%s\n%s\ncase: %s\nhistory:\n%s\n", x == 1 ? "FAIL" : x == 2 ? "DISCARD" : "PASS", probe->msg, probe->note, probe->trace);
        printf("steps=%lu np=%u ns=%u\n", probe->steps, probe->np, probe->ns);
        return x == 1 ? 1 : 0;
    }
    cpu_set_t all; sched_getaffinity(0, sizeof all, &all);
    std::vector<int> cpus; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all)) cpus.push_back(i);
    struct Slot { Shm* s; uint64_t* h; pid_t pid{0}; uint64_t hb{0}, hs{0}; double t{0}; };
    std::vector<Slot> sl(workers);
    for (auto& s : sl) { s.s = share<Shm>(sizeof(Shm)); s.h = share<uint64_t>(MAXH * 8); }
    std::unordered_set<uint64_t> distinct;
    uint64_t next = 0, flaky = 0, known = 0; double t0 = rnow();
    std::vector<std::string> flakymsg, knownmsg;
    std::vector<std::pair<uint64_t, std::string>> samples;
    bool found = false; Failure F; bool stop = false; bool capped = false;
    int running = 0;
    auto killall = [&] { for (auto& s : sl) if (s.pid) { kill(s.pid, SIGKILL); int st; waitpid(s.pid, &st, 0); s.pid = 0; } running = 0; };
    std::vector<std::string> rep_samples;
    for (;;)
    {
        for (int w = 0; w < workers && !stop; ++w)
        {
            Slot& s = sl[w];
            if (s.pid || next >= cases) continue;
            if (rnow() - t0 > cap) { capped = true; stop = true; break; }
            uint64_t lo = next, hi = std::min<uint64_t>(cases, next + batch); next = hi;
            s.s->failed = 0;
            pid_t p = fork();
            if (p == 0)
            {
                child_setup();
                if (!cpus.empty()) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(cpus[w % cpus.size()], &c); sched_setaffinity(0, sizeof c, &c); }
                process_init(s.s);
                if (harness_warmup) harness_warmup();
                for (uint64_t c = lo; c < hi; ++c)
                {
                    s.s->caseno = c; s.s->heartbeat++;
                    run_case(mix(seed, c), nullptr);
                    s.s->cases++; s.s->tot_steps += s.s->steps; s.s->tot_switch += s.s->nswitch; if (s.s->steps > s.s->max_steps) s.s->max_steps = s.s->steps;
                    if (s.s->nontrivial)
                    {
                        s.s->nontriv++;
                        uint64_t h = s.s->sched_hash;
                        for (uint32_t i = 0; i < s.s->np; ++i) h = (h ^ s.s->P[i]) * 0x100000001b3ull + 7;
                        if (s.s->nhash < MAXH) s.h[s.s->nhash++] = h;
                    }
                }
                _exit(0);
            }
            s.pid = p; s.t = rnow(); s.hb = s.s->heartbeat; s.hs = s.s->steps; ++running;
        }
        if (running == 0) break;
        bool idle = true;
        for (auto& s : sl)
        {
            if (!s.pid) continue;
            int st; pid_t r = waitpid(s.pid, &st, WNOHANG);
            bool bad = false;
            if (r == s.pid)
            {
                idle = false; s.pid = 0; --running;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                {
                    if (rep_samples.size() < 4 && s.s->nontrivial && s.s->note_len) rep_samples.push_back(s.s->note);
                    continue;
                }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 43) { s.s->discards++; continue; }
                bad = true;
                if (!s.s->failed) snprintf(s.s->msg, sizeof s.s->msg, "crash: child status 0x%x", st);
            }
            else
            {
                if (s.s->heartbeat != s.hb || s.s->steps != s.hs) { s.hb = s.s->heartbeat; s.hs = s.s->steps; s.t = rnow(); }
                else if (rnow() - s.t > 40) { kill(s.pid, SIGKILL); waitpid(s.pid, &st, 0); s.pid = 0; --running; bad = true; snprintf(s.s->msg, sizeof s.s->msg, "hang: the case does not terminate"); }
            }
            if (bad)
            {
                s.s->cases++;
                Failure f = grab(s.s);
                bool ign = false;
                for (auto& g : ignore) if (f.msg.find(g) != std::string::npos) { ign = true; ++known; if (std::find(knownmsg.begin(), knownmsg.end(), g) == knownmsg.end()) knownmsg.push_back(g); }
                if (ign) continue;
                Replay rp{f.P, f.S};
                if (run_one(&rp, 0) == 1) { f.msg = probe->msg; f.note = probe->note; f.trace = probe->trace; F = f; found = true; break; }
                ++flaky; if (flakymsg.size() < 8) flakymsg.push_back(f.msg);
            }
        }
        if (found) break;
        if (idle) rsleep(0.001);
    }
    killall();
    double explore = rnow() - t0;
    bool reported = false;
    if (found)
    {
        Failure G = shrink(F, shrink_s);
        auto again = [&](const Failure& f) { Replay r{f.P, f.S}; for (int i = 0; i < 3; ++i) if (run_one(&r, 0) != 1) return false; return true; };
        if (again(G)) { F = G; reported = true; }
        else if (again(F)) reported = true;
        else { ++flaky; flakymsg.push_back(F.msg); }
        if (reported) { Replay r{F.P, F.S}; run_one(&r, 0); F.msg = probe->msg; F.note = probe->note; F.trace = probe->trace; if (replay_out) save(replay_out, F); }
    }
    uint64_t tot = 0, nt = 0, st = 0, sw = 0, mx = 0, dc = 0;
    struct L { std::string n; uint64_t c; }; std::vector<L> labs;
    for (auto& s : sl)
    {
        tot += s.s->cases; nt += s.s->nontriv; st += s.s->tot_steps; sw += s.s->tot_switch; dc += s.s->discards; mx = std::max(mx, s.s->max_steps);
        for (uint64_t i = 0; i < s.s->nhash; ++i) distinct.insert(s.h[i]);
        for (uint32_t i = 0; i < s.s->nlabels; ++i)
        {
            bool f = false; for (auto& l : labs) if (l.n == s.s->labels[i].name) { l.c += s.s->labels[i].n; f = true; }
            if (!f) labs.push_back({s.s->labels[i].name, s.s->labels[i].n});
        }
    }
    std::sort(labs.begin(), labs.end(), [](auto& a, auto& b) { return a.n < b.n; });
    FILE* o = out ? fopen(out, "w") : stdout;
    fprintf(o, "{\"cases\":%lu,\"requested\":%lu,\"nontrivial\":%lu,\"distinct_nontrivial\":%zu,\"discarded\":%lu,\"schedule_points\":%lu,\"context_switches\":%lu,\"max_steps\":%lu,\"explore_s\":%.2f,\"capped\":%s,\"flaky\":%lu,\"known\":%lu,\n\"rule\":%s,\n\"labels\":{",
            tot, cases, nt, distinct.size(), dc, st, sw, mx, explore, capped ? "true" : "false", flaky, known, js(harness_rule).c_str());
    for (size_t i = 0; i < labs.size(); ++i) fprintf(o, "%s%s:%lu", i ? "," : "", js(labs[i].n).c_str(), labs[i].c);
    fprintf(o, "},\n\"samples\":[");
    for (size_t i = 0; i < rep_samples.size(); ++i) fprintf(o, "%s%s", i ? "," : "", js(rep_samples[i]).c_str());
    fprintf(o, "],\n\"flaky_messages\":[");
    for (size_t i = 0; i < flakymsg.size(); ++i) fprintf(o, "%s%s", i ? "," : "", js(flakymsg[i]).c_str());
    fprintf(o, "],\n\"known_messages\":[");
    for (size_t i = 0; i < knownmsg.size(); ++i) fprintf(o, "%s%s", i ? "," : "", js(knownmsg[i]).c_str());
    fprintf(o, "],\n\"violation\":%s", reported ? "{" : "null");
    if (reported) fprintf(o, "\"msg\":%s,\"case\":%s,\"history\":%s}", js(F.msg).c_str(), js(F.note).c_str(), js(F.trace.substr(0, 20000)).c_str());
    fprintf(o, "}\n");
    if (out) fclose(o);
    return reported ? 1 : 0;
}
