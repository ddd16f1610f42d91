// Conformance of mc/epicsmodel.cpp: the same histories with the same expected
// results run on the real libCom (variant asan) and on the model (variant sched).
#include "schedh.h"
#include <epicsMutex.h>
#include <epicsEvent.h>
#include <epicsThread.h>
#include <epicsTime.h>
#include <epicsGuard.h>
#include <memory>
#include <vector>
#include <string.h>
#define X(c,k,...) CHECK(c,k,__VA_ARGS__)
static const double TICK=0.02;
#ifdef SCHED
static const bool exact=true; // virtual time
#else
static const bool exact=false; // a loaded machine may take any time
#endif
// give the others time to get there
static void within(const std::function<bool()>& f) { if(exact) pause(TICK*2); else for(int i=0;i<6000&&!f();i++) pause(0.01); }


// one thread, every sequence of operations on an event
SCENARIO(eventSequence, mc::Opts().F().D(1,2)) {
    int init=mc::choose(2), len=mc::tier()?6:4; std::vector<int> ops; for(int i=0;i<len;i++) ops.push_back(mc::choose(6));
    bool m=init; 
    for(int o: ops) { if(o==2&&!m) mc::skip(); if(o==0) m=true; else m=false; }
    runAll([&]{
        epicsEvent e(init?epicsEventFull:epicsEventEmpty); bool full=init;
        for(int o: ops) switch(o) {
        case 0: mc::op("trigger"); e.trigger(); full=true; break;
        case 1: { mc::op("tryWait"); bool r=e.tryWait(); X(r==full,"tryWait","tryWait gives %d with a %s event",r,full?"full":"empty"); full=false; break; }
        case 2: mc::op("wait"); e.wait(); full=false; break;
        case 3: { mc::op("wait(short)"); bool r=e.wait(0.001); X(r==full,"waitTime","wait(t) gives %d with a %s event",r,full?"full":"empty"); full=false; break; }
        case 4: { mc::op("wait(-1)"); bool r=e.wait(-1.0); X(r==full,"waitNeg","wait(-1) gives %d with a %s event",r,full?"full":"empty"); full=false; break; }
        case 5: { mc::op("wait(0) elsewhere, twice"); bool a=false,b=false; Cl t([&]{ a=e.wait(0.0); b=e.wait(0.0); },"t"); t.join(); X(a==full&&!b,"wait0","wait(0) in another thread gives %d %d with a %s event",a,b,full?"full":"empty"); full=false; break; }
        }
        mc::outcome(full?"full":"empty");
    });
}
// a mutex seen by its owner and by another thread
SCENARIO(mutexSequence, mc::Opts().F().D(1,2)) {
    int len=mc::tier()?5:4; std::vector<int> ops; int d=0; for(int i=0;i<len;i++) { int o=mc::choose(4); ops.push_back(o); if(o<2) d++; else if(o==2) { if(!d) mc::skip(); d--; } }
    runAll([&]{
        epicsMutex m; int depth=0;
        for(int o: ops) switch(o) {
        case 0: mc::op("lock"); m.lock(); depth++; break;
        case 1: { mc::op("tryLock"); bool r=m.tryLock(); X(r,"tryOwn","tryLock fails for the owner"); depth++; break; }
        case 2: mc::op("unlock"); m.unlock(); depth--; break;
        case 3: { mc::op("tryLock elsewhere"); bool r=false; Cl t([&]{ r=m.tryLock(); if(r) m.unlock(); },"t"); t.join(); X(r==(depth==0),"tryOther","tryLock in another thread gives %d at depth %d",r,depth); break; }
        }
        while(depth--) m.unlock();
        mc::outcome("ok");
    });
}
// a blocked thread gets the lock when it is given up, a waiting one the signal, only one
SCENARIO(blocking, mc::Opts().F().D(2,3)) {
    int what=mc::choose(4), depth=1+mc::choose(2), nw=1+mc::choose(2), signals=mc::choose(4);
    runAll([&]{
        if(what<2) {
            epicsMutex m; volatile int in=0, got=0; epicsMutex *pm=&m; for(int i=0;i<depth;i++) m.lock();
            std::vector<std::shared_ptr<Cl> > t; for(int i=0;i<nw;i++) t.push_back(std::shared_ptr<Cl>(new Cl([&]{ pm->lock(); { got=got+1; } pm->unlock(); },"w")));
            pause(TICK); 
            X(got==0,"mutex","a second thread gets a held mutex"); in=1;
            for(int i=0;i<depth;i++) { if(what==1&&i==depth-1&&depth>1) { pause(TICK); X(got==0,"mutexDepth","a mutex locked twice is free after one unlock"); } m.unlock(); }
            for(auto& x: t) x->join(); X(got==nw,"mutexEnd","%d of %d threads got the mutex",(int)got,nw);
        } else {
            epicsEvent e, done; epicsMutex lk; int got=0; std::vector<std::shared_ptr<Cl> > t; double to=nw==1&&signals?60:what==2?TICK*8:TICK*4; int res=0;
            for(int i=0;i<nw;i++) t.push_back(std::shared_ptr<Cl>(new Cl([&]{ bool r=e.wait(to); lk.lock(); if(r) got++; res++; lk.unlock(); },"w")));
            for(int i=0;i<signals;i++) { pause(TICK*0.5); e.trigger(); }
            for(auto& x: t) x->join(); int want=std::min(nw,signals);
            X(got<=want,"eventOnce","%d threads pass with %d signals",got,signals); if(nw==1) X(got==want,"eventGot","%d threads pass with %d signals",got,signals);
            mc::outcome(std::to_string(got));
        }
    });
}
// life of a thread
struct Body : public epicsThreadRunable { epicsEvent go; bool wait; epicsMutex lk; int b_, e_; int begun() { epicsGuard<epicsMutex> g(lk); return b_; } int ended() { epicsGuard<epicsMutex> g(lk); return e_; } volatile bool cur; epicsThread *self; bool del; Body() :wait(false), b_(0), e_(0), cur(false), self(0), del(false) {}
    void run() { { epicsGuard<epicsMutex> g(lk); b_++; } cur=self&&self->isCurrentThread(); if(wait) go.wait(); if(del) delete self; { epicsGuard<epicsMutex> g(lk); e_++; } } };
SCENARIO(threadLife, mc::Opts().F().D(2,3)) {
    int wait=mc::choose(2), seq=mc::choose(8);
    static const char *names[]={"start,join","start,start,join","join","start,wait,join","start,timed join,release,join","start,join twice","destroy","start,deleted by itself"};
    mc::op("%s wait=%d",names[seq],wait);
    if(wait&&seq!=4) mc::skip(); if(!wait&&seq==4) mc::skip();
    runAll([&]{
        Body b; b.wait=wait; epicsThread *t=new epicsThread(b,"life",epicsThreadGetStackSize(epicsThreadStackSmall),epicsThreadPriorityMedium); b.self=t;
        X(!t->isCurrentThread(),"isCurrent","isCurrentThread for another thread"); char n[40]; t->getName(n,sizeof n); X(!strcmp(n,"life"),"name","name %s",n);
        X(t->getPriority()==(unsigned)epicsThreadPriorityMedium,"priority","priority %u",t->getPriority());
        int want=1; bool del=true;
        switch(seq) {
        case 0: t->start(); within([&]{ return b.begun()>0; }); t->exitWait(); break;
        case 1: t->start(); within([&]{ return b.begun()>0; }); t->start(); t->exitWait(); break;
        case 2: t->exitWait(); want=0; t->start(); pause(TICK); break;
        case 3: t->start(); within([&]{ return b.ended()==1; }); X(b.ended()==1,"runs","a started thread has not run (%d)",(int)b.ended()); t->exitWait(); break;
        case 4: { t->start(); within([&]{ return b.begun()>0; }); bool r=t->exitWait(TICK); X(!r,"timedJoin","exitWait(t) says that a waiting thread has ended"); X(b.begun()==1&&b.ended()==0,"begun","begun %d ended %d",(int)b.begun(),(int)b.ended()); b.go.trigger(); r=t->exitWait(60.0); X(r,"timedJoin2","exitWait(t) says that the thread has not ended"); break; }
        case 5: { t->start(); within([&]{ return b.begun()>0; }); t->exitWait(); bool r=t->exitWait(0.0); X(r,"joinAgain","exitWait after the end gives 0"); break; }
        case 6: want=0; break;
        case 7: b.del=true; b.wait=true; del=false; t->start(); b.go.trigger(); within([&]{ return b.ended()==1; }); break;
        }
        if(del) delete t; X(b.begun()==want&&b.ended()==want,"count","the body ran %d/%d times, not %d",(int)b.begun(),(int)b.ended(),want); if(want) X(b.cur,"isCurrent2","isCurrentThread is false in the thread");
        mc::outcome(names[seq]);
    });
}
SCENARIO(onceAndTime, mc::Opts().F().D(1,2)) {
    int n=1+mc::choose(3);
    runAll([&]{
        static epicsThreadOnceId id=EPICS_THREAD_ONCE_INIT; static int ran=0; static int seen=0; static epicsMutex *lk=new epicsMutex; static auto fn=[](void*) { pause(TICK); ran++; };
        std::vector<std::shared_ptr<Cl> > t; for(int i=0;i<n;i++) t.push_back(std::shared_ptr<Cl>(new Cl([]{ epicsThreadOnce(&id,[](void*p){ fn(p); },0); lk->lock(); seen+=ran; lk->unlock(); },"o")));
        for(auto& x: t) x->join(); X(ran==1&&seen==n,"once","ran %d times, seen by %d of %d",ran,seen,n);
        epicsTime a=epicsTime::getCurrent(); pause(TICK); epicsTime b=epicsTime::getCurrent(); double d=b-a; X(d>=TICK*0.9&&(!exact||d<TICK*50),"time","%g s pass during a pause of %g",d,TICK);
        epicsEvent e; bool r=e.wait(TICK); double w=epicsTime::getCurrent()-b; X(!r&&w>=TICK*0.9&&(!exact||w<TICK*50),"waitTime","a wait of %g s takes %g",TICK,w);
        mc::outcome("once");
    });
}
