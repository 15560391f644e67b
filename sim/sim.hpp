// Core types of the simulator: PRNG, plans, verdicts, statistics.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim {

using u8 = std::uint8_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;
using Bytes = std::vector<u8>;

// ---- PRNG (splitmix64): every choice of a run comes from one integer --------
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s{seed} {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64) below((u64) (hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
};
inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

// ---- plans -------------------------------------------------------------------
// A fault is attached to the operation it hits.
//   P       next transfer/open behaves normally
//   S<n>    next transfer is cut to n bytes        I  interrupted (EINTR)
//   E       EIO      N  ENOSPC      A  EAGAIN      M  EMFILE (open)  D EACCES (open)
//   X<n>    process dies before the n-th system call of the operation
//   T<n>    process dies after n bytes of the next write were stored
//   K<n>    n-th allocation of the operation fails
struct Fault { char kind; i64 n; };
struct Step {
    std::string op;
    std::vector<i64> a;
    std::vector<Fault> f;
    i64 arg(std::size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
    std::string prop;
    u64 seed = 0;
    std::vector<Step> steps;
};
std::string to_text(const Step&);
std::string to_text(const Plan&);
bool parse(const std::string& text, Plan& out, std::string& err);

// ---- verdict -----------------------------------------------------------------
struct Violation {
    std::string cls;   // short stable class name, kept by minimisation
    std::string msg;
};
[[noreturn]] void fail(const std::string& cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));

// ---- statistics ----------------------------------------------------------------
struct Stats {
    u64 runs = 0, ops = 0, syscalls = 0, allocs = 0, blocks = 0, switches = 0;
    u64 sim_time_us = 0;
    std::map<std::string, u64> faults;   // actually fired
    std::map<std::string, u64> probes;   // rare conditions hit
    std::map<std::string, u64> opcount;
};
extern Stats& stats;
inline void probe(const char* name) { ++stats.probes[name]; }

// ---- a scenario: pure functions seed -> plan and plan -> verdict ---------------
struct Scenario {
    virtual ~Scenario() = default;
    virtual void generate(Rng&, Plan&) = 0;
    virtual void execute(const Plan&) = 0;   // throws Violation
};
// Each scenario file registers the properties it decides; a property decided by
// several files gets plans that start with "part <k>".
struct Part {
    const char* file;
    const char* props;             // space separated
    Scenario* (*make)(const std::string& prop);
    const char* real;              // for the evidence: what ran real code,
    const char* stub;              // and what was simulated
    Part(const char* f, const char* p, Scenario* (*m)(const std::string&), const char* r, const char* s);
};
Scenario* scenario_for(const std::string& prop);
std::string real_components(const std::string& prop);
std::string stub_components(const std::string& prop);

std::string hex(const Bytes& b, std::size_t max = 48);
inline std::string hex(const u8* p, std::size_t n) { return hex(Bytes(p, p + n)); }

// unique, attributable data: byte i of pattern p
inline u8 pat(u64 p, u64 i) { return (u8) (mix(p * 0x9E37 + 77, i) >> 17); }
inline Bytes pattern(u64 p, std::size_t n) {
    Bytes b(n);
    for (std::size_t i = 0; i < n; ++i) b[i] = pat(p, i);
    return b;
}

} // namespace sim
