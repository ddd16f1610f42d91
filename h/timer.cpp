// C24: the Timer under every schedule of its thread, its clients and its callbacks
// within the preemption bound, in virtual time.
#include "schedh.h"
#include <pv/timer.h>
#include <set>
#include <tuple>
#include <vector>
#include <string>
#include <sstream>
#include <stdexcept>
#include <memory>
#include <math.h>
using namespace epics::pvData;
using std::string;

namespace {
// ---- what a timer is: all states it may be in after the calls and callbacks seen so far
enum Kind { K_SCHED, K_CANCEL, K_QUERY, K_CLOSE };
enum { THROWN=-1, PENDING=-2, STOPPING=-3, CLOSING=-4 };
struct InFlight { int id, kind, cb; double due, period; int res; bool operator<(const InFlight& o) const { return std::tie(id,kind,cb,due,period,res)<std::tie(o.id,o.kind,o.cb,o.due,o.period,o.res); } };
struct St {
    struct C { bool queued; double due, period; C() :queued(false), due(0), period(0) {} bool operator<(const C& o) const { return std::tie(queued,due,period)<std::tie(o.queued,o.due,o.period); } };
    C c[2]; enum { Idle, Popped, In, Post, Ended }; int th, cb; double due, period; bool touched, alive; unsigned stops; std::vector<InFlight> ops;
    St() :th(Idle), cb(0), due(0), period(0), touched(false), alive(true), stops(0) {}
    bool operator<(const St& o) const { return std::tie(c[0],c[1],th,cb,due,period,touched,alive,stops,ops)<std::tie(o.c[0],o.c[1],o.th,o.cb,o.due,o.period,o.touched,o.alive,o.stops,o.ops); }
};
struct Spec {
    std::set<St> s; bool punctual; double last;
    Spec() :punctual(true), last(0) { s.insert(St()); }
    void grow(double now) {
        std::vector<St> work(s.begin(),s.end());
        while(work.size()) { St x=work.back(); work.pop_back(); std::vector<St> next;
            for(size_t i=0;i<x.ops.size();i++) { InFlight o=x.ops[i]; St y=x; InFlight& p=y.ops[i]; St::C& c=y.c[o.cb];
                if(o.res==PENDING) {
                    if(o.kind==K_SCHED) { if(c.queued) p.res=THROWN; else if(!y.alive) p.res=STOPPING; else { c.queued=true; c.due=o.due; c.period=o.period; if(y.th!=St::Idle&&y.th!=St::Ended&&y.cb==o.cb) y.touched=true; p.res=0; } }
                    else if(o.kind==K_CANCEL) { p.res=c.queued; c.queued=false; }
                    else if(o.kind==K_QUERY) p.res=c.queued;
                    else { if(!y.alive) p.res=0; else { y.alive=false; p.res=CLOSING; } }
                    next.push_back(y);
                } else if(o.res==CLOSING&&y.th==St::Ended) { for(int k=0;k<2;k++) if(y.c[k].queued) { y.c[k].queued=false; y.stops|=1<<k; } p.res=0; next.push_back(y); }
            }
            if(x.th==St::Idle) {
                if(!x.alive) { St y=x; y.th=St::Ended; next.push_back(y); }
                else for(int k=0;k<2;k++) if(x.c[k].queued&&x.c[k].due<=now+1e-6&&!(punctual&&x.c[1-k].queued&&x.c[1-k].due<x.c[k].due-1e-6)) { St y=x; y.th=St::Popped; y.cb=k; y.due=x.c[k].due; y.period=x.c[k].period; y.c[k]=St::C(); y.touched=false; next.push_back(y); }
            } else if(x.th==St::Post) { St y=x; if(x.period>0&&x.alive&&!x.touched) { y.c[x.cb].queued=true; y.c[x.cb].due=x.due+x.period; y.c[x.cb].period=x.period; } y.th=St::Idle; y.cb=0; y.due=y.period=0; y.touched=false; next.push_back(y); }
            for(St& y: next) { for(St::C& c: y.c) if(!c.queued) c=St::C(); if(s.insert(y).second) work.push_back(y); }
        }
    }
    // every state from which the event is possible, after it
    string at(double now, const std::function<bool(St&)>& f) {
        if(punctual&&now>last+1e-9) { // time passes only while every thread waits: nothing may be due
            std::set<St> q; for(const St& x: s) { bool ok=x.th!=St::Popped&&x.th!=St::Post&&!(x.th==St::Idle&&!x.alive); if(x.th==St::Idle) for(int k=0;k<2;k++) if(x.c[k].queued&&x.c[k].due<now-1e-6) ok=false; for(const InFlight& o: x.ops) if(o.res==PENDING||o.res==STOPPING) ok=false; if(ok) q.insert(x); }
            if(q.empty()) return "late"; s.swap(q);
        }
        last=now; grow(now); std::set<St> q; for(const St& x: s) { St y=x; if(f(y)) q.insert(y); } if(q.empty()) return "no"; s.swap(q); grow(now); return "";
    }
};
struct World;
struct Cb : public TimerCallback {
    World *w; int no; int acts, action, stopAction; std::tr1::shared_ptr<Cb> self;
    Cb(World *w_, int n) :w(w_), no(n), acts(0), action(0), stopAction(0) {}
    void callback(); void timerStopped();
};
typedef std::tr1::shared_ptr<Cb> CbP;
struct World {
    Timer *t; std::vector<CbP> cb; Spec spec; int busy, ids; string log;
    World() :t(0), busy(0), ids(0) {}
    double now() { return sched::now()*1e-9; }
    void see(const char *key, const string& m, const std::function<bool(St&)>& f) {
        string r=spec.at(now(),f); if(r=="late") { key="late"; } if(r.size()) mc::fail(key,"%s (time %g, in thread %s)",r=="late"?"a callback which is due has not run while every thread waited":m.c_str(),now(),sched::nameOf(sched::self()));
    }
    int call(int kind, int n, double delay=0, double period=0) { int id=++ids; InFlight o={id,kind,n,now()+delay,period,PENDING}; see("call","call",[&](St& x) { x.ops.push_back(o); return true; }); return id; }
    void ret(int id, int res, const char *key, const string& m) { see(key,m,[&](St& x) { for(size_t i=0;i<x.ops.size();i++) if(x.ops[i].id==id&&x.ops[i].res==res&&!(x.ops[i].kind==K_CLOSE&&x.stops)) { x.ops.erase(x.ops.begin()+i); return true; } return false; }); }
    void schedule(int n, double delay, double period) {
        Cb& c=*cb[n]; mc::op("%s: schedule %d delay %g period %g",sched::nameOf(sched::self()),n,delay,period); int id=call(K_SCHED,n,delay,period); bool thrown=false;
        try { sched::Loud l; if(period>0) t->schedulePeriodic(c.self,delay,period); else t->scheduleAfterDelay(c.self,delay); } catch(std::logic_error&) { thrown=true; }
        if(thrown) { mc::note("already queued"); log+="x"; ret(id,THROWN,"refused","a callback is refused as queued although it is not scheduled"); } else ret(id,0,"accepted","a callback is accepted although it is scheduled (or the timer is closed, and timerStopped was not called)");
    }
    void cancel(int n) {
        Cb& c=*cb[n]; mc::op("%s: cancel %d",sched::nameOf(sched::self()),n); int id=call(K_CANCEL,n);
        bool r; { sched::Loud l; r=t->cancel(c.self); }
        mc::note(r?"cancelled":"not cancelled"); log+=r?"c":"n"; ret(id,r,r?"cancel-idle":"cancel-fails",r?"a callback is said to be cancelled although it is not scheduled":"a callback is not cancelled although it is scheduled");
    }
    void query(int n) {
        Cb& c=*cb[n]; mc::op("%s: isScheduled %d",sched::nameOf(sched::self()),n); int id=call(K_QUERY,n);
        bool r; { sched::Loud l; r=t->isScheduled(c.self); } log+=r?"t":"f"; ret(id,r,r?"query-idle":"query",r?"isScheduled is true although the callback is not scheduled":"isScheduled is false although the callback is scheduled");
    }
    void dump() { std::ostringstream s; mc::op("dump"); sched::Loud l; t->dump(s); }
    void close(bool destroy=false) {
        mc::op("%s: %s",sched::nameOf(sched::self()),destroy?"destroy":"close"); int id=call(K_CLOSE,0);
        { sched::Loud l; if(destroy) delete t; else t->close(); } ret(id,0,"close","the timer is said to be closed while its thread works, or a scheduled callback was not told that it has stopped");
    }
};
void act(World& w, Cb& c) {
    int other=(c.no+1)%w.cb.size(); int n=c.acts++;
    switch(c.action) {
    case 1: pause(1.5); break;
    case 2: if(n<2) w.schedule(c.no,1,0); break;
    case 3: w.cancel(c.no); break;
    case 4: w.cancel(other); break;
    case 5: if(n<2) w.schedule(other,0,0); break;
    case 6: w.query(c.no); w.query(other); w.dump(); break;
    case 7: if(n<2) w.schedule(c.no,1,1); break;
    case 8: if(n<2) { w.schedule(c.no,1,0); w.cancel(c.no); } break;
    case 9: if(n<2) { w.schedule(c.no,1,1); w.cancel(c.no); } break;
    }
}
void Cb::callback() {
    sched::Quiet quiet;
    World& W=*w; int n=no; mc::op("callback %d runs at %g",no,W.now()); W.log+=char('0'+no); if(W.busy++) mc::fail("parallel","two callbacks run at the same time");
    W.see("run","a callback runs although it is not scheduled, before it is due, out of order, or after the timer was closed",[n](St& x) { if(x.th!=St::Popped||x.cb!=n) return false; x.th=St::In; return true; });
    act(W,*this);
    W.busy--; mc::op("callback %d ends",no); W.see("end","end of callback",[n](St& x) { if(x.th!=St::In||x.cb!=n) return false; x.th=St::Post; return true; });
}
void Cb::timerStopped() {
    sched::Quiet quiet;
    int n=no; mc::op("callback %d: timer stopped",no); w->log+="s";
    w->see("stopped","a callback is told that the timer has stopped although it is not closed or the callback was not scheduled (any more)",[n](St& x) { if(x.stops&(1<<n)) { x.stops&=~(1<<n); return true; } for(InFlight& o: x.ops) if(o.res==STOPPING&&o.cb==n) { o.res=0; return true; } return false; });
    if(stopAction==1) { w->query(no); w->cancel(no); }
}
void init(World& w, int n) { for(int i=0;i<n;i++) { w.cb.push_back(CbP(new Cb(&w,i))); w.cb.back()->self=w.cb.back(); } sched::Loud l; w.t=new Timer("timer",middlePriority); }
void end(World& w, int how) { // 0: everything may run before, 1 at once; 2: destroyed without close, 3: closed twice, 4: used when it is closed
    if(how==0) { pause(3.25); w.cancel(0); w.cancel(1); pause(10); w.query(0); w.query(1); w.close(); }
    if(how==1||how>=3) w.close(); if(how==3) w.close();
    if(how==4) { w.schedule(0,1,1); w.cancel(0); w.query(0); w.dump(); w.schedule(0,0,0); }
    w.close(true); mc::outcome(w.log); for(auto& c: w.cb) c->self.reset();
}
void op(World& w, int o) {
    switch(o) {
    case 0: w.schedule(0,1,0); break;  case 1: w.schedule(1,0,0); break;  case 2: w.schedule(0,1,1); break;
    case 3: w.cancel(0); break; case 4: w.query(0); break; case 5: pause(1); break; case 6: w.schedule(1,2,0); break;
    case 7: w.cancel(1); break; case 8: w.schedule(0,0,0); break; case 9: pause(1.75); break; case 10: w.schedule(1,1,1); break; case 11: w.schedule(1,1,0); break; case 12: w.dump(); w.query(1); break;
    }
}
const int NOP=13;
}

// one client makes every sequence of calls, callbacks act, too
SCENARIO(oneClient, mc::Opts().F().D(0,1)) {
    int len=2+mc::tier(); std::vector<int> s; for(int i=0;i<len;i++) s.push_back(mc::choose(NOP)); int a0=mc::choose(10), a1=mc::choose(2), how=mc::choose(5);
    World w; sched::run([&]{ sched::Quiet quiet; init(w,2); w.cb[0]->action=a0; w.cb[1]->action=a1; w.cb[1]->stopAction=1; for(int o: s) op(w,o); end(w,how); },sched::Opt().P());
}
// one client, every schedule of two threads, time may be late
SCENARIO(interleaved, mc::Opts().F().D(1,2)) {
    static const int acts[]={0,2,7,8,9}; int len=2; std::vector<int> s; for(int i=0;i<len;i++) s.push_back(mc::choose(NOP)); int a0=acts[mc::choose(5)], how=mc::choose(4), slow=mc::choose(2);
    World w; w.spec.punctual=!slow; sched::Opt o; if(!slow) o.P(); sched::run([&]{ sched::Quiet quiet; init(w,2); w.cb[0]->action=a0; for(int x: s) op(w,x); end(w,how); },o);
}
// two clients
static void two(const std::vector<int>& first, const std::vector<int>& ops, int hows) {
    int p=first[mc::choose(first.size())], q=ops[mc::choose(ops.size())], r=ops[mc::choose(ops.size())], how=mc::choose(hows), a0=mc::choose(2)?7:0;
    World w; sched::run([&]{ sched::Quiet quiet; init(w,2); w.cb[0]->action=a0; op(w,p); int c=sched::spawn([&]{ sched::Quiet quiet; op(w,q); if(how==0) w.close(); },"client"); op(w,r); if(how==2) pause(1); if(how==0) w.close(); sched::join(c); end(w,how==2?0:1); },sched::Opt().P());
}
SCENARIO(twoClients, mc::Opts().F().D(1,2)) {
    static const std::vector<int> f={0,1,2,8}, o=mc::tier()?std::vector<int>{0,1,2,3,4,6,7,8,10,11,12}:std::vector<int>{0,2,3,4,8,12}; two(f,o,3);
}
// the calls which meet at one callback, with more preemptions
SCENARIO(conflicts, mc::Opts().F().D(2,3)) { static const std::vector<int> f={2,8}, o={3,8}; two(f,o,2); }
