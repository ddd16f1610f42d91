// C27, concurrent part: threads which own tracking pointers to the same object, under every schedule.
#include "schedh.h"
#include <pv/debugPtr.h>
#include <sstream>
#include <set>
#include <memory>
namespace {
int dead;
struct B { virtual ~B() { sched::Quiet q; dead++; } };
struct D : B, epics::debug::enable_shared_from_this<D> {};
typedef epics::debug::shared_ptr<B> SP; typedef epics::debug::weak_ptr<B> WP; typedef epics::debug::ptr_base::ref_set_t Refs;
enum { N=10 };
const char *NAME[]={"nothing","copy and drop","drop","swap of two","assign from another","weak, lock","look","shared_from_this, cast","new object","a copy on the heap"};
struct Own { SP a, b; std::unique_ptr<SP> h; };
void look(const SP& p, bool mine) { Refs r; p.spy_refs(r); std::ostringstream o; p.show_refs(o); sched::Quiet q; if(mine&&!r.count(&p)) mc::fail("missing","the list lacks the pointer which gives it"); if(o.str().empty()) mc::fail("show","nothing shown"); }
void act(Own& x, int op) {
    switch(op) {
    case 0: break;
    case 1: { SP t(x.a); look(t,true); break; }
    case 2: x.a.reset(); break;
    case 3: x.a.swap(x.b); break;
    case 4: x.b=x.a; break;
    case 5: { WP w(x.a); x.b=w.lock(); break; }
    case 6: look(x.a,true); break;
    case 7: { epics::debug::shared_ptr<D> d(epics::debug::dynamic_pointer_cast<D>(x.a)); x.b=d->shared_from_this(); break; }
    case 8: x.a.reset(new D); break;
    case 9: x.h.reset(new SP(x.a)); x.a.reset(); break;
    }
}
void live(std::set<const void*>& s, const Own& o, const SP& p) { for(const SP *q: {&o.a,&o.b,(const SP*)o.h.get()}) if(q&&*q&&q->get()==p.get()) s.insert(static_cast<const epics::debug::shared_ptr_base*>(q)); }
void run(int o1, int o2, int o3, bool keep, bool atom) {
    sched::run([&]{ sched::Quiet quiet; dead=0; int made=1+(o1==8)+(o2==8)+(o3==8); { Own x,y,z; { SP p(new D); x.a=p; y.a=p; z.a=p; }
        mc::op("%s | %s | %s",NAME[o1],NAME[o2],NAME[o3]);
        int a=sched::spawn([&]{ sched::Loud l; act(x,o1); },"first"), b=sched::spawn([&]{ sched::Loud l; act(y,o2); },"second");
        { sched::Loud l; act(z,o3); if(!keep) { z.a.reset(); z.b.reset(); z.h.reset(); } } sched::join(a); sched::join(b);
        for(Own *o: {&x,&y,&z}) for(SP *p: {&o->a,&o->b,o->h.get()}) if(p&&*p) { std::set<const void*> want; for(Own *q: {&x,&y,&z}) live(want,*q,*p); Refs r; p->spy_refs(r); std::set<const void*> got(r.begin(),r.end()); if(got!=want) mc::fail("owners","%zu owners are listed, there are %zu",got.size(),want.size()); if(p->use_count()!=(long)want.size()) mc::fail("count","use_count() %ld of %zu",p->use_count(),want.size()); }
        int c=sched::spawn([&]{ sched::Loud l; x.a.reset(); x.b.reset(); x.h.reset(); },"first drops"); { sched::Loud l; y.a.reset(); y.b.reset(); y.h.reset(); } sched::join(c); }
        if(dead!=made) mc::fail("dead","%d of %d objects were deleted",dead,made); mc::outcome("ok");
    },atom?sched::Opt().P().A():sched::Opt().P());
}
}
SCENARIO(twoOwners, mc::Opts().F().D(2,3)) { int o1=mc::choose(N), o2=mc::choose(N); if(o2<o1) mc::skip(); run(o1,o2,0,mc::choose(2),false); }
SCENARIO(lookers, mc::Opts().F().D(2,2)) { int o1=mc::choose(N), o2=mc::choose(N); if(o2<o1) mc::skip(); run(o1,o2,6,mc::tier()?mc::choose(2):0,false); }
SCENARIO(atomicSteps, mc::Opts().F().D(1,2)) { int o1=mc::choose(N), o2=mc::choose(N); if(o2<o1) mc::skip(); run(o1,o2,mc::tier()?2:0,false,true); }
