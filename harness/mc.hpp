// Stateless explicit-state explorer: every harness family is a deterministic function of the answers to
// mc::choose(n). The engine enumerates ALL answer sequences depth first (no sampling), executing the real
// code of /repo once per sequence. See DESIGN.md "Engine".
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
#include <cmath>

namespace mc {

struct Pruned {};      // thrown by prune(): this path is equivalent to / subsumed by an explored one
struct Failed {};      // thrown by fail()

// ---- exploration interface -------------------------------------------------------------------------------------
// Nondeterministic choice in [0, n). Every value is explored.
int choose(int n, const char* label = "");
template<typename T> const T& pick(const std::vector<T>& v, const char* label = "") {
    return v[static_cast<size_t>(choose(static_cast<int>(v.size()), label))];
}
inline bool flip(const char* label = "") { return choose(2, label) == 1; }

// Abandon this path (not a violation).
[[noreturn]] void prune();

// Report a violation. `key` identifies the specific failing call site/input class/history (used to match the
// known-findings file), `msg` is for humans.
[[noreturn]] void fail(const std::string& key, const std::string& msg);

// Count a transition (an operation of the system under test executed on this path).
void transition(uint64_t n = 1);
// Record a state (hash of the observable state of the system under test). Returns true when it is new (in this worker).
bool state(uint64_t h);
// Count an oracle evaluation.
void evaluated(uint64_t n = 1);
// Record a distinct non-trivial case.
void nontrivial(uint64_t h);

bool thorough();
bool replaying();              // tracing is on
void note(const std::string& s);   // appended to the trace when tracing
// Free text kept for crash reports (cheap).
void where(const char* s);

// ---- hashing -----------------------------------------------------------------------------------------------------
struct Hash {
    uint64_t h = 1469598103934665603ull;
    void bytes(const void* p, size_t n) {
        const unsigned char* c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
        h ^= h >> 29;
    }
    Hash& add(uint64_t v) { bytes(&v, sizeof v); return *this; }
    Hash& add(int v) { return add(static_cast<uint64_t>(static_cast<int64_t>(v))); }
    Hash& add(double v) { if (v == 0) v = 0; bytes(&v, sizeof v); return *this; }
    Hash& add(const std::string& s) { bytes(s.data(), s.size()); return add(static_cast<uint64_t>(s.size())); }
};

// ---- registration ------------------------------------------------------------------------------------------------
struct Family {
    const char* name;
    void (*fn)();
    bool quick;       // part of the quick tier
    double hang_s;    // per-execution time limit
};
std::vector<Family>& families();
struct Register {
    Register(const char* name, void (*fn)(), bool quick = true, double hang_s = 30) {
        families().push_back(Family{name, fn, quick, hang_s});
    }
};
#define MC_FAMILY(name) \
    static void mc_fam_##name(); \
    static ::mc::Register mc_reg_##name(#name, mc_fam_##name); \
    static void mc_fam_##name()
#define MC_FAMILY_THOROUGH(name) \
    static void mc_fam_##name(); \
    static ::mc::Register mc_reg_##name(#name, mc_fam_##name, false); \
    static void mc_fam_##name()

#define MC_CHECK(cond, key, streamed) \
    do { \
        ::mc::evaluated(); \
        if (!(cond)) { \
            std::ostringstream mc_os_; \
            mc_os_ << streamed; \
            ::mc::fail(key, mc_os_.str()); \
        } \
    } while (0)

template<typename F> bool throws(F&& f) {
    try { f(); } catch (const Pruned&) { throw; } catch (const Failed&) { throw; } catch (...) { return true; }
    return false;
}

inline bool close(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b));
}

}
