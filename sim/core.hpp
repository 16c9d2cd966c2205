// Deterministic simulator core: one choice source decides everything, every run is a pure function of its choices.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <queue>
#include <memory>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <cerrno>
#include <gmpxx.h>

namespace sim
{
typedef uint64_t u64;

struct Violation { std::string cls, msg; };

const int MAXCTR = 192;
const u64 MAXCH = 1u << 17;

struct Shared                      // lives in shared memory so that a crashed run still reports what it did
{
    uint32_t state;                // 0 running, 1 finished, 2 violation
    u64 nchoices, loghash, sig, steps, simtime, evals, simdone;
    char cls[128];
    char msg[2048];
    uint32_t nctr;
    char ctrname[MAXCTR][56];
    u64 ctr[MAXCTR];
    u64 choices[MAXCH];
};

// expansion generator: seeds come from the choice source, the stream itself is not recorded
struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    mpz_class bits(unsigned b)
    {
        std::vector<u64> w((b + 63) / 64);
        for (auto& x : w) x = next();
        mpz_class r = 0;
        if (!w.empty()) mpz_import(r.get_mpz_t(), w.size(), 1, 8, 0, 0, w.data());
        mpz_class m;
        mpz_fdiv_r_2exp(m.get_mpz_t(), r.get_mpz_t(), b);
        return m;
    }
};

class Run
{
public:
    Shared* sh;
    bool replay;
    const u64* given;
    u64 ngiven;
    Rng gen;
    FILE* trace;
    std::set<std::string> known;
    bool thorough;
    Run(Shared* s, u64 seed) : sh(s), replay(false), given(0), ngiven(0), gen(seed), trace(0), thorough(false) {}

    // ---- the only source of nondeterminism; 0 is always the simplest answer
    u64 pick(u64 n)                // in [0,n); n == 0 means 2^64
    {
        u64 v;
        u64 i = sh->nchoices;
        if (replay)
            v = i < ngiven ? given[i] : 0;
        else
            v = gen.next();
        if (n)
            v = replay ? (v < n ? v : n - 1) : v % n;
        if (i < MAXCH)
        {
            sh->choices[i] = v;
            sh->nchoices = i + 1;
        }
        else
            throw Violation{"harness:too-many-choices", "choice buffer exhausted"};
        return v;
    }
    u64 range(u64 a, u64 b) { return a + pick(b - a + 1); }
    bool chance(unsigned permille) { return permille && pick(1000) >= 1000 - std::min(permille, 1000u); }
    u64 seed() { return pick(0); }
    template <class T> const T& of(const std::vector<T>& v) { return v[pick(v.size())]; }

    // ---- logging never draws and never reads a clock
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void sched(const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // also part of the schedule signature
    void count(const std::string& name, u64 by = 1);
    void probe(const std::string& name) { count("probe." + name); }
    void fault(const std::string& name) { count("fault." + name); }

    // ---- oracles
    void check(bool ok, const std::string& cls, const std::string& msg)
    {
        sh->evals++;
        if (ok) return;
        if (known.count(cls))
        {
            count("known." + cls);
            return;
        }
        throw Violation{cls, msg};
    }
};

void mix(u64& h, const void* p, size_t n);
std::string hex(const mpz_class& v);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- discrete-event world
struct Sim
{
    struct Ev { u64 at, seq; std::function<void()> fn; };
    struct Cmp { bool operator()(const Ev& a, const Ev& b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };
    Run& r;
    u64 now, seq, steps, maxsteps;
    std::priority_queue<Ev, std::vector<Ev>, Cmp> q;
    explicit Sim(Run& run) : r(run), now(0), seq(0), steps(0), maxsteps(200000) {}
    void at(u64 delay, std::function<void()> f) { q.push(Ev{now + delay, seq++, f}); }
    void run(std::function<bool()> done, u64 until = ~0ull)
    {
        while (!q.empty() && !done())
        {
            Ev e = q.top();
            if (e.at > until) break;
            q.pop();
            now = e.at;
            clock() = now;
            if (++steps > maxsteps) throw Violation{"no-progress", "the system is still busy after the bounded number of steps in which it has to finish"};
            e.fn();
            r.sh->steps++;
        }
        r.sh->simtime = now;
    }
    static u64& clock() { static u64 c = 0; return c; }     // microseconds, read by the time seam
};

typedef void (*scenario_fn)(Run&);
struct Reg { Reg(const char* id, scenario_fn f, unsigned cpu_s); };
#define SCENARIO(id, fn, cpu) static sim::Reg reg_##id(#id, fn, cpu)

// ---- seams (seams.cpp)
namespace seam
{
void rng_setup(u64 seed, unsigned shape_permille);   // seed generators on first use; sometimes shorten a draw
void rng_off();                                      // leave the generators exactly as shipped
u64 draws();
void record(std::vector<mpz_class>* v);              // note every long integer drawn from now on; 0 stops
u64 shaped();
void script(const std::vector<mpz_class>* v);        // serve the next draws from this list; 0 stops
void evp_fail_at(long k);                            // fail the k-th (0-based) cipher library call from now; -1 off
long evp_calls();
bool evp_fired();
const char* evp_last();
void new_fail_at(long k);                            // throw bad_alloc from the k-th operator new from now; -1 off
bool new_fired();
void evp_reset();
void evp_persistent(bool on);                        // once failed, keep failing
void entropy_fail(long after, long times);           // the entropy source fails so often after so many good answers; after < 0: never
u64 entropy_failures();
void other_process(int number, u64 entropy);         // after a fork: the operating system's answers are not those of the parent
u64 heap_in_use();
}
} // namespace sim
