// Controlled scheduler: the threads of the code under test run as fibers of one
// process.  Every synchronisation operation is a point where the explorer
// decides which thread continues; time is virtual.  Every memory access of the
// instrumented code is checked against a happens-before relation.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "mc.h"
#include <functional>
#include <string>
#include <stdint.h>

namespace sched {
struct Opt { bool atomics, punctual, relaxed; int maxPoints; Opt() :atomics(false), punctual(false), relaxed(false), maxPoints(20000) {}
    Opt& A() { atomics=true; return *this; }    // atomic operations are points, too
    Opt& R() { relaxed=true; return *this; }    // a relaxed load synchronises, too (shared_ptr::use_count() in libstdc++)
    Opt& P() { punctual=true; return *this; } };// time passes only when no thread can go on
// run body as thread 0, with every thread it starts, to the end of all of them
void run(const std::function<void()>& body, const Opt& o=Opt());
bool active();
// threads made by the scenario itself
int spawn(const std::function<void()>& fn, const char *name="client");
void join(int id);
int self();
void sleep(double seconds);             // virtual
uint64_t now();                         // virtual nanoseconds since the start of the run
void yieldPoint(const char *what="yield");
bool waitFor(const std::function<bool()>& pred, double timeout=-1, const char *what="wait"); // block until pred() or timeout
// While one exists, the current thread is neither interrupted nor are its accesses recorded
// (bookkeeping of the scenario).
struct Quiet { int was; Quiet(); ~Quiet(); };
// ... except during calls of the code under test
struct Loud { int was; Loud(); ~Loud(); };

// for the model of the primitives
struct VC { uint32_t c[8]; VC() { for(int i=0;i<8;i++) c[i]=0; } };
void acquire(const VC& v);
void release(VC& v);                    // and starts a new epoch
void point(const char *what, const void *obj);
bool block(const std::function<bool()>& pred, const char *what, const void *obj, double timeout=-1);
int start(const std::function<void()>& fn, const char *name);
bool ended(int id); void joinVC(int id);
void violation(const std::string& key, const char *fmt, ...) __attribute__((format(printf,2,3)));
const char *nameOf(int id);
}
#endif
