// Deterministic simulation core: every nondeterministic decision of a run is a
// "choice".  In search mode choices come from a PRNG seeded by (property, seed);
// in replay mode they come from a list.  One choice list is one exact execution.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

constexpr unsigned MAXC = 1u << 15;      // choices kept per run
constexpr unsigned MAXLOG = 1u << 18;    // bytes of readable event log per run
constexpr unsigned MAXCNT = 160;

struct Counter { char name[48]; uint64_t n; };

struct Shared {                          // one run's outcome, in shared memory
    volatile uint32_t status;            // 0 running 1 ok 2 violation 4 harness error
    uint32_t nchoices;
    uint64_t hash;                       // full history hash (values bit for bit)
    uint64_t shape;                      // hash of the operation/fault/schedule skeleton
    uint32_t nontrivial;                 // run exercised what the property is about
    uint64_t steps;                      // simulated steps (callbacks, I/O calls, operations)
    double simtime;                      // simulated physical time, if the scenario has one (s)
    char key[128];
    char msg[2048];
    char scenario[64];
    uint32_t nknown;
    char known[16][128];
    uint32_t ncnt;
    Counter cnt[MAXCNT];
    uint32_t loglen;
    char log[MAXLOG];
    uint64_t choices[MAXC];
};

struct Violation { std::string key, msg; };
struct Overrun {};                       // step bound exceeded

class Sim {
public:
    Shared* sh;
    bool replay = false;
    bool verbose = true;
    int tier = 0;                        // 0 quick 1 thorough
    uint64_t seed = 0;
    const uint64_t* list = nullptr;
    uint32_t nlist = 0, pos = 0;
    uint64_t st[2];
    std::vector<std::string> suppressed; // keys listed as known findings

    void begin(uint64_t s, const char* prop);
    uint64_t next();
    uint64_t pick(uint64_t n);           // 0 .. n-1; 0 is the simplest alternative
    int range(int a, int b) { return a + (int)pick((uint64_t)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return pick(den) >= den - num; }
    double unit() { return (double)pick(1ull << 53) / 9007199254740992.0; }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    double loguniform(double a, double b);
    template <class T> const T& of(const std::vector<T>& v) { return v[pick(v.size())]; }

    void scenario(const char* n) { snprintf(sh->scenario, sizeof sh->scenario, "%s", n); op(n); }
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // enters shape + history + log
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // history + log only
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))); // log only
    void val(double x);                  // history hash only
    void val(uint64_t x);
    void count(const char* name, uint64_t n = 1);
    void fault(const char* kind);        // a fault actually fired: counter "fault.<kind>" + shape + log
    void step(uint64_t n = 1) { sh->steps += n; }
    void nontrivial() { sh->nontrivial = 1; }
    [[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    // like fail(), but returns when the key is a listed known finding
    void fail_known(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
private:
    void vlog(bool shape, bool hash, const char* fmt, va_list ap);
};

extern Sim S;

inline uint64_t mix(uint64_t h, uint64_t x)
{
    h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline bool same(double a, double b) { return bits(a) == bits(b) || (a != a && b != b) || a == b; }

// small PRNG used for streams derived from one choice
struct Prng {
    uint64_t s;
    explicit Prng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
};

// ---------------------------------------------------------------- fault plane
struct AllocFault { bool armed = false; long countdown = -1; long seen = 0; bool fired = false; };
extern AllocFault alloc_fault;
struct AllocScope {                      // arms the allocator for the enclosed region
    explicit AllocScope(long nth) { alloc_fault = {true, nth, 0, false}; }
    ~AllocScope() { alloc_fault.armed = false; }
    bool fired() const { return alloc_fault.fired; }
};

enum DiskKind { DK_NONE, DK_ENOSPC, DK_EIO, DK_SHORT, DK_EINTR, DK_CLOSE };
struct DiskPlan {
    bool active = false;
    // writes
    long write_budget = -1;              // bytes that still fit; -1 unlimited
    int write_err = 28;                  // ENOSPC / EIO once the budget is used up
    bool short_writes = false;           // accept only part of each request
    bool eintr_writes = false;           // every other write is interrupted first
    bool close_fails = false;
    long open_fail_at = -1;              // fail the n-th open
    // reads
    long read_budget = -1;               // bytes readable before EIO
    bool short_reads = false;
    bool eintr_reads = false;
    // statistics of this plan
    long wrote = 0, nread = 0, opens = 0, closes = 0, fired_write = 0, fired_short = 0, fired_eintr = 0,
         fired_close = 0, fired_read = 0, fired_open = 0, flip = 0;
    uint64_t rng = 1;
};
extern DiskPlan disk;
struct DiskScope {
    explicit DiskScope(const DiskPlan& p) { disk = p; disk.active = true; }
    ~DiskScope() { disk.active = false; }
};
extern std::string scratch;              // all simulated-disk files live here
std::string slurp(const std::string& path);              // bypasses the fault plane
void spew(const std::string& path, const std::string& data);
bool exists(const std::string& path);
void unlink_scratch(const std::string& path);

// ---------------------------------------------------------------- registration
typedef void (*ScenarioFn)(Sim&);
struct Reg { Reg(const char* prop, ScenarioFn f, int weight = 1); };
#define DST_CAT2(a, b) a##b
#define DST_CAT(a, b) DST_CAT2(a, b)
#define DST_SCENARIO(prop, fn) static ::sim::Reg DST_CAT(reg_, __COUNTER__)(prop, fn)
#define DST_SCENARIO_W(prop, fn, w) static ::sim::Reg DST_CAT(reg_, __COUNTER__)(prop, fn, w)

} // namespace sim
using sim::S;
using sim::Sim;
