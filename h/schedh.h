// Threads and time for scenarios which run on the controlled scheduler (SCHED)
// or, for the conformance check, on the real primitives.
#ifndef SCHEDH_H
#define SCHEDH_H
#include "mc.h"
#include <functional>
#ifdef SCHED
#include "csched.h"
inline void runAll(const std::function<void()>& f) { sched::run(f,sched::Opt().P()); }
struct Cl { int id; Cl(const std::function<void()>& f, const char *n) { id=sched::spawn(f,n); } void join() { sched::join(id); } };
inline void pause(double s) { sched::sleep(s); }
#else
#include <thread>
#include <chrono>
inline void runAll(const std::function<void()>& f) { f(); }
struct Cl { std::thread t; Cl(const std::function<void()>& f, const char*) :t(f) {} void join() { t.join(); } };
inline void pause(double s) { std::this_thread::sleep_for(std::chrono::duration<double>(s)); }
#endif
#endif
