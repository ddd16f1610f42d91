// The EPICS primitives on the controlled scheduler.  What they do is checked
// against the real libCom by the scenarios of h/primitives.cpp, which run on both.
#define private public
#include <epicsThread.h>
#undef private
#include <epicsMutex.h>
#include <epicsEvent.h>
#include <epicsTime.h>
#include "csched.h"
#include <map>
#include <vector>
#include <string>
#include <string.h>
#include <stdio.h>
using sched::VC;

struct Mtx { int owner; int depth; VC vc; bool dead; Mtx() :owner(-1), depth(0), dead(false) {} };
struct Evt { bool full; VC vc; int waiters; bool dead; Evt() :full(false), waiters(0), dead(false) {} };
static int me() { return sched::active()?sched::self():0; }
static void mlock(Mtx *m, bool *got=0) {
    if(m->dead) sched::violation("mutex-after-destroy","lock of a destroyed mutex");
    if(m->owner==me()) { m->depth++; if(got) *got=true; return; }
    if(got) { sched::point("mutex tryLock",m); if(m->dead) sched::violation("mutex-after-destroy","lock of a destroyed mutex"); if(m->owner>=0) { *got=false; return; } *got=true; }
    else sched::block([m]{ return m->owner<0; },"mutex lock",m);
    if(m->dead) sched::violation("mutex-after-destroy","a mutex was destroyed while a thread waits for it");
    m->owner=me(); m->depth=1; sched::acquire(m->vc);
}
static void munlock(Mtx *m) { if(m->dead) sched::violation("mutex-after-destroy","unlock of a destroyed mutex"); if(m->owner!=me()) sched::violation("unlock-not-owner","a mutex is unlocked by a thread which does not hold it"); if(--m->depth==0) { m->owner=-1; sched::release(m->vc); } }
static void mdestroy(Mtx *m) { if(m->owner>=0) sched::violation("destroy-locked","a mutex is destroyed while it is held by %s",sched::nameOf(m->owner)); m->dead=true; }

epicsMutex::epicsMutex(const char*, int) :id((epicsMutexId)new Mtx) {}
epicsMutex::~epicsMutex() { mdestroy((Mtx*)id); }
void epicsMutex::lock() { mlock((Mtx*)id); }
void epicsMutex::unlock() { munlock((Mtx*)id); }
bool epicsMutex::tryLock() { bool g; mlock((Mtx*)id,&g); return g; }
void epicsMutex::show(unsigned) const {}

static bool ewait(Evt *e, double timeout) {
    if(e->dead) sched::violation("event-after-destroy","wait for a destroyed event");
    e->waiters++; if(timeout!=timeout||timeout<0) timeout=timeout<0?0:-1; bool ok=sched::block([e]{ return e->full||e->dead; },"event wait",e,timeout); e->waiters--;
    if(e->dead) sched::violation("event-after-destroy","an event was destroyed while a thread waits for it");
    if(ok) { e->full=false; sched::acquire(e->vc); } return ok;
}
static bool ewaitf(Evt *e) { if(e->dead) sched::violation("event-after-destroy","wait for a destroyed event"); e->waiters++; sched::block([e]{ return e->full||e->dead; },"event wait",e,-1); e->waiters--; if(e->dead) sched::violation("event-after-destroy","an event was destroyed while a thread waits for it"); e->full=false; sched::acquire(e->vc); return true; }
static void etrigger(Evt *e) { sched::point("event signal",e); if(e->dead) sched::violation("event-after-destroy","signal of a destroyed event"); sched::release(e->vc); e->full=true; }
epicsEvent::epicsEvent(epicsEventInitialState s) { Evt *e=new Evt; e->full=s==epicsEventFull; id=(epicsEventId)e; }
epicsEvent::~epicsEvent() { ((Evt*)id)->dead=true; }
void epicsEvent::trigger() { etrigger((Evt*)id); }
void epicsEvent::wait() { ewaitf((Evt*)id); }
bool epicsEvent::wait(double t) { return ewait((Evt*)id,t); }
bool epicsEvent::tryWait() { return ewait((Evt*)id,0); }
void epicsEvent::show(unsigned) const {}

extern "C" {
epicsMutexId epicsMutexOsiCreate(const char*, int) { return (epicsMutexId)new Mtx; }
epicsMutexId epicsMutexOsiMustCreate(const char*, int) { return (epicsMutexId)new Mtx; }
void epicsMutexDestroy(epicsMutexId m) { mdestroy((Mtx*)m); }
void epicsMutexUnlock(epicsMutexId m) { munlock((Mtx*)m); }
epicsMutexLockStatus epicsMutexLock(epicsMutexId m) { mlock((Mtx*)m); return epicsMutexLockOK; }
epicsMutexLockStatus epicsMutexTryLock(epicsMutexId m) { bool g; mlock((Mtx*)m,&g); return g?epicsMutexLockOK:epicsMutexLockTimeout; }
epicsEventId epicsEventCreate(epicsEventInitialState s) { Evt *e=new Evt; e->full=s==epicsEventFull; return (epicsEventId)e; }
epicsEventId epicsEventMustCreate(epicsEventInitialState s) { return epicsEventCreate(s); }
void epicsEventDestroy(epicsEventId e) { ((Evt*)e)->dead=true; }
epicsEventStatus epicsEventTrigger(epicsEventId e) { etrigger((Evt*)e); return epicsEventOK; }
void epicsEventMustTrigger(epicsEventId e) { etrigger((Evt*)e); }
epicsEventStatus epicsEventWait(epicsEventId e) { ewaitf((Evt*)e); return epicsEventOK; }
void epicsEventMustWait(epicsEventId e) { ewaitf((Evt*)e); }
epicsEventStatus epicsEventWaitWithTimeout(epicsEventId e, double t) { return ewait((Evt*)e,t)?epicsEventOK:epicsEventWaitTimeout; }
epicsEventStatus epicsEventTryWait(epicsEventId e) { return ewait((Evt*)e,0)?epicsEventOK:epicsEventWaitTimeout; }

// 0 not done, 1 done, else the state of a call which is going on
struct Once { bool busy; VC vc; Once() :busy(false) {} };
static std::map<void*,Once>& onces() { static std::map<void*,Once> *m=new std::map<void*,Once>; return *m; }
void epicsThreadOnce(epicsThreadOnceId *id, void (*f)(void*), void *arg) {
    if(!sched::active()) { if(*id==EPICS_THREAD_ONCE_INIT) { f(arg); *id=(epicsThreadOnceId)1; } return; }
    Once& o=onces()[id]; if(*id!=EPICS_THREAD_ONCE_INIT&&!o.busy) { sched::acquire(o.vc); return; } // what is done stays done: no point
    sched::block([&o]{ return !o.busy; },"epicsThreadOnce",id);
    if(*id==EPICS_THREAD_ONCE_INIT) { o.busy=true; f(arg); *id=(epicsThreadOnceId)1; o.busy=false; sched::release(o.vc); } else sched::acquire(o.vc);
}
unsigned int epicsThreadGetStackSize(epicsThreadStackSizeClass) { return 65536; }
void epicsThreadSleep(double s) { sched::sleep(s<0?0:s); }
double epicsThreadSleepQuantum() { return 0.01; }
void epicsAssert(const char *file, unsigned line, const char *expr, const char*) { const char *b=strrchr(file,'/'); sched::violation(std::string("assert:")+(b?b+1:file)+":"+expr,"assertion %s fails at %s:%u",expr,file,line); }

int epicsTimeGetCurrent(epicsTimeStamp *t) { uint64_t n=sched::now()+1000000000ull*1000000000ull; t->secPastEpoch=n/1000000000ull; t->nsec=n%1000000000ull; return 0; }
}
epicsTime epicsTime::getCurrent() { epicsTimeStamp t; epicsTimeGetCurrent(&t); return epicsTime(t); }

// threads: created at once, run when started, given up if joined before that
struct Th { int fiber; std::string name; unsigned prio; epicsThread *t; };
static std::vector<Th*>& ths() { static std::vector<Th*> *v=new std::vector<Th*>; return *v; }
epicsThread::epicsThread(epicsThreadRunable& r, const char *name, unsigned int, unsigned int prio) :runable(r), id(0), pThreadDestroyed(0), begin(false), cancel(false), terminated(false), joined(false) {
    Th *th=new Th; th->name=name; th->prio=prio; th->t=this; id=(epicsThreadId)th; epicsThread *self=this;
    th->fiber=sched::start([self]{
        bool destroyed=false; self->pThreadDestroyed=&destroyed; bool go; { sched::Quiet q; (void)q; }
        self->mutex.lock(); while(!self->begin&&!self->cancel) { self->mutex.unlock(); self->event.wait(); self->mutex.lock(); } go=self->begin&&!self->cancel; self->mutex.unlock();
        if(go) self->runable.run();
        if(!destroyed) { self->mutex.lock(); self->terminated=true; self->exitEvent.trigger(); self->mutex.unlock(); } },name&&*name?name:"thread");
    ths().push_back(th); sched::point("thread create",this);
}
epicsThread::~epicsThread() throw() { while(!exitWait(10.0)) {} }
void epicsThread::start() throw() { mutex.lock(); begin=true; mutex.unlock(); event.trigger(); }
bool epicsThread::isCurrentThread() const throw() { return ((Th*)id)->fiber==sched::self(); }
void epicsThread::exitWait() throw() { exitWait(1e300); }
bool epicsThread::exitWait(const double delay) throw() {
    if(isCurrentThread()) { if(pThreadDestroyed) *pThreadDestroyed=true; return true; }
    mutex.lock(); cancel=true; mutex.unlock(); event.trigger();
    int f=((Th*)id)->fiber; epicsThread *t=this; bool ok=sched::block([t,f]{ return t->joined||sched::ended(f); },"thread exitWait",this,delay>1e6?-1:delay); if(ok) { sched::joinVC(f); joined=true; } return ok;
}
unsigned int epicsThread::getPriority() const throw() { return ((Th*)id)->prio; }
void epicsThread::setPriority(unsigned int p) throw() { ((Th*)id)->prio=p; }
void epicsThread::getName(char *n, size_t s) const throw() { snprintf(n,s,"%s",((Th*)id)->name.c_str()); }
epicsThreadId epicsThread::getId() const throw() { return id; }
void epicsThread::sleep(double s) throw() { sched::sleep(s<0?0:s); }
const char *epicsThread::getNameSelf() throw() { return sched::nameOf(sched::self()); }
