// Bounded exhaustive explorer for C++ code: every sequence of answers that a
// scenario can obtain from choose() is enumerated, each on a fresh run of the
// real implementation.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <sstream>
#include <functional>

namespace mc {

struct Violation {
    std::string key, msg;
};
struct Skip {};

// One choice point with n alternatives (0..n-1).  n==1 is not recorded.
int choose(int n);
// A choice whose non-zero answers cost one deviation from the budget of the scenario.
int deviate(int n);
int deviationsLeft();
// Abandon this execution without judging it (not counted as an execution).
[[noreturn]] void skip();
// Count a transition, and describe it when a trace is being recorded.
bool tracing();
void step();
void op(const char *fmt, ...) __attribute__((format(printf,1,2)));
void note(const char *fmt, ...) __attribute__((format(printf,1,2)));
// Record an observed state (hash) / a class of observed outcome.
void state(uint64_t h);
void outcome(const std::string& s);
// Report a violation: 'key' identifies the failing call site/input class.
[[noreturn]] void fail(const std::string& key, const char *fmt, ...) __attribute__((format(printf,2,3)));
int tier(); // 0 quick, 1 thorough

inline uint64_t hmix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2);
    h *= 0xff51afd7ed558ccdull; h ^= h>>32;
    return h;
}
uint64_t hbytes(const void *p, size_t n, uint64_t h=1469598103934665603ull);
inline uint64_t hstr(const std::string& s, uint64_t h=1469598103934665603ull) { return hbytes(s.data(), s.size(), h); }

struct Opts {
    bool fork;      // run every execution in its own process
    bool leak;      // check that an execution returns all memory it allocated
    int devs[2];    // deviation budget, quick/thorough
    int splitDepth; // number of leading choices which are used to split the work
    Opts() :fork(false), leak(true), splitDepth(3) {devs[0]=1<<20; devs[1]=1<<20;}
    Opts& F() {fork=true; leak=false; return *this;}
    Opts& NL() {leak=false; return *this;}
    Opts& D(int q, int t) {devs[0]=q; devs[1]=t; return *this;}
    Opts& S(int s) {splitDepth=s; return *this;}
};

struct Reg {
    Reg(const char *name, void (*fn)(), const Opts& o=Opts(), int onlyTier=0);
    Reg(const std::string& name, const std::function<void()>& fn, const Opts& o=Opts(), int onlyTier=0);
};

// set by a scenario which does its own crash reporting
void heartbeat();

template<typename T> std::string str(const T& v) { std::ostringstream s; s<<v; return s.str(); }
std::string hex(const void *p, size_t n);
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }

} // namespace mc

#define MC_CAT2(A,B) A##B
#define MC_CAT(A,B) MC_CAT2(A,B)
#define SCENARIO(NAME, ...) static void NAME(); static mc::Reg MC_CAT(reg_,NAME)(#NAME, NAME, ##__VA_ARGS__); static void NAME()
#define CHECK(COND, KEY, ...) do { if(!(COND)) mc::fail(KEY, __VA_ARGS__); } while(0)

#endif
