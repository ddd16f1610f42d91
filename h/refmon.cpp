// C26, concurrent part: the monitor, the registry and the counters under every schedule.
#include "schedh.h"
#include <pv/reftrack.h>
#include <pv/pvData.h>
#include <set>
#include <tuple>
#include <vector>
#include <string>
#include <memory>
#include <string.h>
#include <stdlib.h>
#include <math.h>
using std::string;
namespace pvd=epics::pvData;

namespace {
size_t *mine;
struct Mon : public epics::RefMonitor {
    int shows, currents, inside; size_t last; bool check;
    Mon() :shows(0), currents(0), inside(0), last(0), check(false) {}
    ~Mon() { stop(); }
    void show(const epics::RefSnapshot& s, bool complete) {
        sched::Quiet q; inside++; mc::op("%s: show%s at %g",sched::nameOf(sched::self()),complete?" (complete)":"",sched::now()*1e-9); epics::RefSnapshot::Count c=s["mine"];
        if(check) { if(c.current!=*mine||c.delta!=long(*mine)-long(last)) mc::fail("show-values","the monitor shows %zu (delta %ld), the counter is %zu and was %zu",c.current,c.delta,*mine,last); }
        if(complete) currents++; else { shows++; last=c.current; }
        { sched::Loud l; sched::yieldPoint("show"); } inside--;
    }
};
struct Op { int id, kind, res; bool operator<(const Op& o) const { return std::tie(id,kind,res)<std::tie(o.id,o.kind,o.res); } };
struct St { bool run; std::vector<Op> ops; bool operator<(const St& o) const { return std::tie(run,ops)<std::tie(o.run,o.ops); } };
struct Spec {
    std::set<St> s; int ids; Spec() :ids(0) { St x; x.run=false; s.insert(x); }
    void grow() { std::vector<St> work(s.begin(),s.end()); while(work.size()) { St x=work.back(); work.pop_back(); for(size_t i=0;i<x.ops.size();i++) if(x.ops[i].res<0) { St y=x; if(x.ops[i].kind==0) { y.run=true; y.ops[i].res=0; } else if(x.ops[i].kind==1) { y.run=false; y.ops[i].res=0; } else y.ops[i].res=x.run; if(s.insert(y).second) work.push_back(y); } } }
    int call(int k) { std::set<St> q; Op o={++ids,k,-1}; for(St x: s) { x.ops.push_back(o); q.insert(x); } s.swap(q); return o.id; }
    bool ret(int id, int r) { grow(); std::set<St> q; for(St x: s) for(size_t i=0;i<x.ops.size();i++) if(x.ops[i].id==id&&x.ops[i].res==r) { x.ops.erase(x.ops.begin()+i); q.insert(x); break; } s.swap(q); return s.size(); }
};
struct World { Mon *m; Spec sp; int starts, startsInFlight; World() :m(0), starts(0), startsInFlight(0) {} };
void act(World& w, int o) {
    static const char *n[]={"start(1)","stop","running","current","start(3)"}; mc::op("%s: %s",sched::nameOf(sched::self()),n[o]);
    int st0=w.starts, fl0=w.startsInFlight, id=o==3?0:w.sp.call(o==4?0:o), r=0; if(o==0||o==4) { w.starts++; w.startsInFlight++; }
    { sched::Loud l; switch(o) { case 0: w.m->start(1.0); break; case 1: w.m->stop(); break; case 2: r=w.m->running(); break; case 3: w.m->current(); break; case 4: w.m->start(3.0); break; } }
    if(o==0||o==4) w.startsInFlight--; if(id&&!w.sp.ret(id,r)) mc::fail("running","running says %d",r); 
    (void)st0; (void)fl0;
}
}
SCENARIO(monitorOneClient, mc::Opts().F().D(1,2)) {
    std::vector<int> s; int len=mc::tier()?5:4; for(int i=0;i<len;i++) s.push_back(mc::choose(7)); if(s[0]>4||s[0]==1) mc::skip(); int preset=mc::choose(2);
    sched::run([&]{ sched::Quiet quiet; mine=new size_t(7); epics::registerRefCounter("mine",mine); World w; { sched::Loud l; w.m=new Mon; } Mon& m=*w.m; m.check=true; bool run=false; double t0=0, per=1; int before=0, fresh=0; int cur=0;
        for(int o: s) {
            if(o<5) { bool was=run; act(w,o); double now=sched::now()*1e-9; if((o==0||o==4)&&!was) { run=true; t0=now; per=o==0?1:3; before=m.shows; fresh=1; } if(o==1) { run=false; if(m.inside) mc::fail("stopped-shows","the monitor shows something when it was stopped"); } if(o==3) { cur++; if(m.currents!=cur) mc::fail("current","current() has shown %d times",m.currents-cur+1); } }
            else { if(o==6) { *mine+=preset?2:-1; } int sh=m.shows; pause(o==5?1.27:2.39); double now=sched::now()*1e-9; if(!run) { if(m.shows!=sh) mc::fail("stopped-shows","the monitor is stopped but shows something"); } else { int want=1+(int)floor((now-t0)/per); if(m.shows-before!=want) mc::fail("shows","%d reports in %g s with period %g, not %d",m.shows-before,now-t0,per,want); } }
            bool r; { sched::Loud l; r=m.running(); } if(r!=run) mc::fail("running","running is %d",r);
        }
        (void)fresh; { sched::Loud l; delete w.m; } mc::outcome("ok"); },sched::Opt().P());
}
static void clients(int n0, int n1, int n2, int kinds) {
    std::vector<int> a[3]; int n[3]={n0,n1,n2}; for(int i=0;i<3;i++) for(int k=0;k<n[i];k++) a[i].push_back(mc::choose(kinds)); int first=mc::choose(2);
    sched::Opt o; o.P(); o.maxPoints=4000;
    sched::run([&]{ sched::Quiet quiet; mine=new size_t(7); epics::registerRefCounter("mine",mine); World w; { sched::Loud l; w.m=new Mon; } if(first) { act(w,0); pause(0.5); }
        std::vector<int> t; for(int i=1;i<3;i++) if(n[i]) t.push_back(sched::spawn([&,i]{ sched::Quiet q; for(int x: a[i]) act(w,x); },i==1?"client":"client2")); for(int x: a[0]) act(w,x); for(int x: t) sched::join(x);
        bool r; int id=w.sp.call(2); { sched::Loud l; r=w.m->running(); } if(!w.sp.ret(id,r)) mc::fail("running","running says %d in the end",r);
        int sh=w.m->shows; if(!r&&w.m->inside) mc::fail("stopped-shows","the monitor shows something although it was stopped"); pause(5.5); if(r&&w.m->shows==sh) mc::fail("silent","the monitor runs but shows nothing"); if(!r&&w.m->shows!=sh) mc::fail("left","the monitor is stopped but a thread goes on to show"); if(r&&w.m->shows>sh+7) mc::fail("twice","the monitor shows %d reports in 5.5 s",w.m->shows-sh);
        { sched::Loud l; delete w.m; } mc::outcome(r?"running":"stopped"); },o);
}
SCENARIO(monitorTwoClients, mc::Opts().F().D(2,2)) { clients(2,mc::tier()?2:1,0,mc::tier()?5:3); }
SCENARIO(monitorDeep, mc::Opts().F().D(2,4)) { clients(1,1,0,2); }
SCENARIO(monitorThreeClients, mc::Opts().F().D(1,2)) { clients(1,1,1,3); }

// counters come and go while others read them
SCENARIO(registryThreads, mc::Opts().F().D(2,3)) {
    int r1=mc::choose(4), r2=mc::choose(4), same=mc::choose(2), pre=mc::choose(2);
    sched::run([&]{ sched::Quiet quiet; if(pre) epics::readRefCounter("x");
        auto owner=[&](const char *name) { sched::Quiet q; mc::op("%s: new counter",sched::nameOf(sched::self())); sched::Loud l; size_t *c=new size_t(3); epics::registerRefCounter(name,c); epics::atomic::increment(*c); size_t v=epics::readRefCounter(name); if(!same&&v!=4) mc::fail("read","the counter is %zu, not 4",v); epics::unregisterRefCounter(name,c); delete c; };
        auto reader=[&](int k) { sched::Quiet q; mc::op("%s: reads %d",sched::nameOf(sched::self()),k); sched::Loud l; if(k==0) { size_t v=epics::readRefCounter("one"); if(v!=0&&v!=3&&v!=4) mc::fail("read","value %zu",v); } else if(k==1) { epics::RefSnapshot s; s.update(); size_t v=s["one"].current; if(v!=0&&v!=3&&v!=4) mc::fail("snapshot","value %zu",v); } else if(k==2) free(epicsRefSnapshotCurrent()); };
        int a=sched::spawn([&]{ owner("one"); },"owner"), b=sched::spawn([&]{ if(r2==3) owner(same?"one":"two"); else reader(r2); },"second"); reader(r1); sched::join(a); sched::join(b); mc::outcome("ok"); },sched::Opt().P());
}
// instance counts are exact when objects come and go in several threads
SCENARIO(instanceThreads, mc::Opts().F().D(1,2)) {
    int k1=mc::choose(3), k2=mc::choose(3);
    sched::run([&]{ sched::Quiet quiet; pvd::PVDataCreatePtr pc=pvd::getPVDataCreate(); pvd::FieldConstPtr ty[3]; ty[0]=pvd::getFieldCreate()->createScalar(pvd::pvInt); { pvd::StringArray n; n.push_back("a"); pvd::FieldConstPtrArray f; f.push_back(ty[0]); ty[1]=pvd::getFieldCreate()->createStructure(n,f); } ty[2]=pvd::getFieldCreate()->createBoundedString(12);
        size_t p0=epics::readRefCounter("PVField");
        auto work=[&](int k) { sched::Loud l; pvd::PVFieldPtr x=pc->createPVField(ty[k]); pvd::PVFieldPtr y=pc->createPVField(ty[k]); x.reset(); };
        int a=sched::spawn([&]{ work(k1); },"a"), b=sched::spawn([&]{ work(k2); },"b"); sched::join(a); sched::join(b); size_t p=epics::readRefCounter("PVField"); if(p!=p0) mc::fail("pvfields","%zu PVField instances are counted, not %zu",p,p0); mc::outcome("ok"); },sched::Opt().P().A());
}
