// C25: Thread, Lock and Event under every schedule within the preemption bound.
#include "schedh.h"
#include <pv/thread.h>
#include <pv/lock.h>
#include <pv/event.h>
#include <epicsGuard.h>
#include <set>
#include <tuple>
#include <vector>
#include <string>
#include <string.h>
#include <memory>
#include <stdexcept>
using namespace epics::pvData;
using std::string;

namespace {
// ---- threads
struct Track { int begun, ended, destroyed; bool begunDead; Event done; bool sleeps, waits; Event go; bool isCur; Thread *self; int copies; string name;
    Track() :begun(0), ended(0), destroyed(0), begunDead(false), sleeps(false), waits(false), isCur(false), self(0), copies(0) {}
    void body() { sched::Quiet q; mc::op("body begins"); if(destroyed) mc::fail("destroyed-before","the body runs after its object was destroyed"); begun++; if(self) isCur=self->isCurrentThread(); name=epicsThread::getNameSelf();
        if(sleeps) pause(1); if(waits) { sched::Loud l; go.wait(); } { sched::Loud l; sched::yieldPoint("body"); } if(destroyed) mc::fail("destroyed-during","the object of the thread was destroyed while its body runs"); ended++; mc::op("body ends"); { sched::Loud l; done.signal(); } }
};
struct Run : public Runnable { Track& t; int pad[8]; Run(Track& t_) :t(t_) { for(int& p: pad) p=7; } ~Run() { for(int& p: pad) p=0; sched::Quiet q; t.destroyed++; } void run() { for(int i=0;i<8;i++) if(pad[i]!=7) mc::fail("object","the runnable is not alive"); t.body(); for(int i=0;i<8;i++) if(pad[i]!=7) mc::fail("object","the runnable is not alive when its body ends"); } };
struct Obj { Track& t; Obj(Track& t_) :t(t_) {} void meth() { t.body(); } };
void cfn(void *p) { ((Track*)p)->body(); }
struct Fun { Track *t; std::shared_ptr<int> hold; Fun(Track *t_) :t(t_), hold(new int(5)) { t->copies++; } Fun(const Fun& o) :t(o.t), hold(o.hold) { sched::Quiet q; t->copies++; } Fun(Fun&& o) :t(o.t), hold(o.hold) { sched::Quiet q; t->copies++; } ~Fun() { sched::Quiet q; if(--t->copies==0) t->destroyed++; } void operator()() { int v=*hold; t->body(); if(v!=*hold) mc::fail("functor","the functor is not alive when its body ends"); } };
}

SCENARIO(threadLives, mc::Opts().F().D(2,3)) {
    int how=mc::choose(7), autost=mc::choose(2), naming=mc::choose(3), body=mc::choose(3), finish=mc::choose(7), start=mc::choose(3);
    if(how>=5&&(!autost||naming)) mc::skip(); if(autost&&start) mc::skip(); if(body==2&&finish!=4) mc::skip(); if(body!=2&&finish==4) mc::skip();
    if(mc::tier()==0&&naming&&(how!=2||body||finish>1)) mc::skip();
    static const char *hows[]={"Config(Runnable)","Config.run(Runnable)","Config(function)","Config(object,method)","Config(functor)","Thread(name,..)","Thread(runnable,name,..)"};
    mc::op("%s autostart=%d naming=%d body=%d finish=%d start=%d",hows[how],autost,naming,body,finish,start);
    sched::run([&]{
        sched::Quiet quiet; Track t; t.sleeps=body==1; t.waits=body==2; std::unique_ptr<Run> r; std::unique_ptr<Obj> o; size_t n0=Thread::num_instances; unsigned prio=how&1?epicsThreadPriorityHigh:epicsThreadPriorityMedium;
        std::unique_ptr<Thread> th; string name="thr";
        { sched::Loud l;
          if(how<5) {
            std::unique_ptr<Thread::Config> c;
            if(how==0) { r.reset(new Run(t)); c.reset(new Thread::Config(r.get())); } else if(how==1) { r.reset(new Run(t)); c.reset(new Thread::Config); c->run(r.get()); }
            else if(how==2) c.reset(new Thread::Config(&cfn,&t)); else if(how==3) { o.reset(new Obj(t)); c.reset(new Thread::Config(o.get(),&Obj::meth)); } else { std::function<void()> f{Fun(&t)}; c.reset(new Thread::Config(std::move(f))); }
            c->prio(prio); if(how==1) c->stack(epicsThreadStackSmall); if(naming==0) c->name("thr"); else if(naming==1) { *c<<"thr"<<12; name="thr12"; } else { c->name("x"); *c<<""; c->name("thr"); }
            c->autostart(autost); th.reset(new Thread(*c)); c.reset();
          } else { r.reset(new Run(t)); if(how==5) th.reset(new Thread("thr",(ThreadPriority)prio,r.get())); else th.reset(new Thread(*r,"thr",epicsThreadGetStackSize(epicsThreadStackSmall),prio)); }
        }
        if(Thread::num_instances!=n0+1) mc::fail("instances","%zu instances are counted, not one more than %zu",Thread::num_instances,n0);
        char nm[64]; th->getName(nm,sizeof nm); if(name!=nm) mc::fail("name","the name is '%s', not '%s'",nm,name.c_str()); if(th->getPriority()!=prio) mc::fail("priority","the priority is %u, not %u",th->getPriority(),prio);
        if(!autost) { pause(1); if(t.begun) mc::fail("autostart","a thread runs before it was started"); if(start!=2) { sched::Loud l; th->start(); if(start==1) th->start(); } }
        bool started=autost||start!=2, must=false; double limit=50;
        switch(finish) {
        case 0: { mc::op("destroy"); sched::Loud l; th.reset(); break; }
        case 1: { mc::op("exitWait"); sched::Loud l; th->exitWait(); break; }
        case 2: { must=started; if(started) { sched::Loud l; mc::op("wait for the body"); t.done.wait(); } { mc::op("exitWait"); sched::Loud l; th->exitWait(); } break; }
        case 3: { mc::op("pause"); pause(3); must=started; if(started&&t.ended!=1) mc::fail("not-run","a started thread has not run"); { sched::Loud l; th->exitWait(); } break; }
        case 4: { if(started) { pause(2); if(t.begun!=1||t.ended) mc::fail("not-run","begun %d ended %d",t.begun,t.ended); must=true; bool r; { mc::op("exitWait(1)"); sched::Loud l; r=th->exitWait(1.0); } if(r) mc::fail("joined-early","exitWait says that the thread has ended while its body waits"); { sched::Loud l; t.go.signal(); } } mc::op("destroy"); sched::Loud l; th.reset(); break; }
        case 5: { pause(3); must=started; { mc::op("exitWait twice"); sched::Loud l; th->exitWait(); th->exitWait(); } break; }
        case 6: { mc::op("exitWait elsewhere"); int c=sched::spawn([&]{ sched::Loud l; th->exitWait(); },"joiner"); sched::join(c); break; }
        }
        if(t.begun!=t.ended) mc::fail("joined-early","joined while the body runs"); if(t.begun>1) mc::fail("twice","the body has run %d times",t.begun); if(!started&&t.begun) mc::fail("not-started","a thread which was not started has run"); if(must&&!t.begun) mc::fail("not-run","the body has not run");
        { sched::Loud l; th.reset(); }
        if(t.begun!=t.ended) mc::fail("joined-early","destroyed while the body runs"); if(Thread::num_instances!=n0) mc::fail("instances","%zu instances are counted, not %zu",Thread::num_instances,n0);
        if(how==4&&(t.copies!=0||t.destroyed!=1)) mc::fail("functor-kept","the functor was not destroyed with the thread"); if(how<2&&t.destroyed) mc::fail("runnable-destroyed","the runnable of the user was destroyed");
        if(t.begun&&name!=t.name) mc::fail("name-self","the name in the thread is '%s'",t.name.c_str()); mc::outcome(string(hows[how])+(t.begun?" runs":" given up"));
    },sched::Opt().P());
}
SCENARIO(threadMissing, mc::Opts().F().D(1,1)) {
    int how=mc::choose(2);
    sched::run([&]{ bool thrown=false; size_t n=Thread::num_instances; try { Thread::Config c; if(how) c.name("x").prio(epicsThreadPriorityHigh).autostart(false); Thread t(c); } catch(std::logic_error&) { thrown=true; } if(!thrown) mc::fail("missing","a thread without body is created"); if(n!=Thread::num_instances) mc::fail("missing-count","a failed creation is counted"); mc::outcome("refused"); },sched::Opt().P());
}

// ---- locks: every pair of scripts; what the objects say is compared with who is in
namespace {
struct LW { Mutex m; int owner, depth; int data; LW() :owner(-1), depth(0), data(0) {} };
struct LS { std::unique_ptr<Lock> l[2]; bool held[2]; LS() { held[0]=held[1]=false; } };
void in(LW& w, int by) { if(w.owner>=0&&w.owner!=by) mc::fail("exclusion","two threads hold the lock"); w.owner=by; w.depth++; }
void out(LW& w) { if(--w.depth==0) w.owner=-1; }
void lockOp(LW& w, LS& s, int me, int o) {
    int k=o%2; o/=2;
    switch(o) {
    case 0: mc::op("%d: Lock %d constructed",me,k); { std::unique_ptr<Lock> n; { sched::Loud l; n.reset(new Lock(w.m)); } s.l[k]=std::move(n); } in(w,me); s.held[k]=true; break;
    case 1: { mc::op("%d: lock %d",me,k); { sched::Loud l; s.l[k]->lock(); } if(!s.held[k]) { in(w,me); s.held[k]=true; } break; }
    case 2: { mc::op("%d: unlock %d",me,k); if(s.held[k]) { out(w); s.held[k]=false; } sched::Loud l; s.l[k]->unlock(); break; }
    case 3: { mc::op("%d: tryLock %d",me,k); bool mine=w.owner==me; bool r; { sched::Loud l; r=s.l[k]->tryLock(); } if(r) { if(!s.held[k]) { in(w,me); s.held[k]=true; } } else if(mine) mc::fail("tryLock-own","tryLock fails although the thread holds the mutex"); mc::note(r?"got":"busy"); break; }
    case 4: { mc::op("%d: destroy %d",me,k); if(s.held[k]) { out(w); s.held[k]=false; } sched::Loud l; s.l[k].reset(); break; }
    }
    if(s.l[k]&&s.l[k]->ownsLock()!=s.held[k]) mc::fail("ownsLock","ownsLock is %d, but the lock is %s",s.l[k]->ownsLock(),s.held[k]?"held":"not held");
    if(s.held[0]||s.held[1]) { sched::Loud l; w.data++; }   // a race unless the mutex is really held
}
bool script(std::vector<int>& v, int len, int kinds) { bool ex[2]={false,false}; for(int i=0;i<len;i++) { int o=mc::choose(kinds); if(kinds==5) o=o*2; int k=o%2; if(o/2==0) { if(ex[k]) return false; ex[k]=true; } else { if(!ex[k]) return false; if(o/2==4) ex[k]=false; } v.push_back(o); } return true; }
}
SCENARIO(lockScripts, mc::Opts().F().D(2,3)) {
    std::vector<int> a,b; int n=mc::tier()?5:4; if(!script(a,n,5)||!script(b,3,5)) mc::skip();
    LW *w=new LW; sched::run([&]{ sched::Quiet q; int c=sched::spawn([&]{ sched::Quiet q; LS s; for(int o: b) lockOp(*w,s,1,o); for(int k=0;k<2;k++) if(s.l[k]) lockOp(*w,s,1,8+k); },"other"); { LS s; for(int o: a) lockOp(*w,s,0,o); for(int k=0;k<2;k++) if(s.l[k]) lockOp(*w,s,0,8+k); } sched::join(c);
        if(w->depth) mc::fail("depth","model"); bool free=false; int d=sched::spawn([&]{ free=w->m.tryLock(); if(free) w->m.unlock(); },"last"); sched::join(d); if(!free) mc::fail("kept","the mutex is still held although every Lock object is gone"); mc::outcome("ok"); },sched::Opt().P());
}
SCENARIO(lockNested, mc::Opts().F().D(0,1)) {
    std::vector<int> a; if(!script(a,mc::tier()?5:4,10)) mc::skip();
    LW *w=new LW; sched::run([&]{ sched::Quiet q; LS s; for(int o: a) { lockOp(*w,s,0,o); bool free=false; int d=sched::spawn([&]{ sched::Quiet q; free=w->m.tryLock(); if(free) w->m.unlock(); },"probe"); sched::join(d); if(free!=(w->depth==0)) mc::fail(free?"not-held":"kept",free?"the mutex is free although a Lock object says that it holds it":"the mutex is held although no Lock object says so"); } mc::outcome("ok"); },sched::Opt().P());
}

// ---- events
namespace {
struct EOp { int id, kind, res; double t; bool operator<(const EOp& o) const { return std::tie(id,kind,res,t)<std::tie(o.id,o.kind,o.res,o.t); } };
struct ESt { bool full; std::vector<EOp> ops; bool operator<(const ESt& o) const { return std::tie(full,ops)<std::tie(o.full,o.ops); } };
struct ESpec {
    std::set<ESt> s; int ids; ESpec(bool full) :ids(0) { ESt x; x.full=full; s.insert(x); }
    void grow(double now) { std::vector<ESt> work(s.begin(),s.end()); while(work.size()) { ESt x=work.back(); work.pop_back(); for(size_t i=0;i<x.ops.size();i++) if(x.ops[i].res==-1) { EOp o=x.ops[i]; ESt y=x; int r=-1; if(o.kind==0) { y.full=true; r=1; } else if(x.full) { y.full=false; r=1; } else if(o.kind==2||(o.kind==3&&now>=o.t-1e-9)) r=0; if(r<0) continue; y.ops[i].res=r; if(s.insert(y).second) work.push_back(y); } } }
    int call(int kind, double now, double t=0) { grow(now); std::set<ESt> q; EOp o={++ids,kind,-1,now+t}; for(ESt x: s) { x.ops.push_back(o); q.insert(x); } s.swap(q); return o.id; }
    bool ret(int id, int r, double now) { grow(now); std::set<ESt> q; for(ESt x: s) for(size_t i=0;i<x.ops.size();i++) if(x.ops[i].id==id&&x.ops[i].res==r) { x.ops.erase(x.ops.begin()+i); q.insert(x); break; } s.swap(q); return s.size(); }
    // everybody waits: a state in which nothing can go on must be possible
    bool quiet(double now) { grow(now); std::set<ESt> q; for(const ESt& x: s) { bool ok=true; for(const EOp& o: x.ops) if(o.res!=-1||x.full||o.kind==0||o.kind==2) ok=false; if(ok) q.insert(x); } bool r=q.size(); s.swap(q); return r; }
};
double secs() { return sched::now()*1e-9; }
void eventOp(Event& e, ESpec& sp, int o, string& log) {
    static const char *n[]={"signal","wait","tryWait","wait(1)","wait(0)"}; mc::op("%s: %s",sched::nameOf(sched::self()),n[o]); int id=sp.call(o==4?2:o,secs(),o==3?1:0); bool r=true;
    { sched::Loud l; switch(o) { case 0: e.signal(); break; case 1: r=e.wait(); break; case 2: r=e.tryWait(); break; case 3: r=e.wait(1.0); break; case 4: r=e.wait(0.0); } }
    log+=r?"+":"-"; if(!sp.ret(id,r,secs())) mc::fail(r?"event-wakes":"event-timeout","%s gives %d",n[o],r);
}
}
SCENARIO(events, mc::Opts().F().D(1,2)) {
    int full=mc::choose(2), n=2; std::vector<std::vector<int> > t; for(int i=0;i<3;i++) { std::vector<int> v; int len=i==2?1:n; for(int k=0;k<len;k++) v.push_back(mc::choose(mc::tier()||i==0?5:i==1?4:2)); t.push_back(v); }
    Event *e=0; string log; sched::run([&]{ sched::Quiet q; { sched::Loud l; e=new Event(full); } ESpec sp(full); std::vector<int> ids; int done=0; for(int i=0;i<3;i++) ids.push_back(sched::spawn([&,i]{ sched::Quiet q; for(int o: t[i]) eventOp(*e,sp,o,log); done++; },("t"+std::to_string(i)).c_str()));
        for(int k=0;k<12&&done<3;k++) { pause(5); if(done==3) break; if(!sp.quiet(secs())) mc::fail("lost","a thread still waits although the event was signalled"); eventOp(*e,sp,0,log); }
        if(done<3) mc::fail("stuck","threads still wait after many signals"); for(int i: ids) sched::join(i); { sched::Loud l; delete e; } mc::outcome(log); },sched::Opt().P());
}
