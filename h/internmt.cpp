// C05, concurrent part: type descriptions created, used and released in several threads, under every schedule.
#include "schedh.h"
#include "model.h"
#include <pv/reftrack.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/convert.h>
#include <pv/createRequest.h>
#include <pv/alarm.h>
#include <set>
#include <memory>
using std::string;

namespace {
enum { NT=8 };
TP type(int k) { TP s=tStruct({"a"},{tBString(3)}); switch(k) { case 0: return tBString(3); case 1: return s; case 2: return tBArray(pvd::pvInt,3); case 3: return tUnion({"b"},{tBString(3)}); case 4: return tStructArr(s); case 5: return tFArray(pvd::pvInt,3); case 6: return tUnionArr(tUnion({"b"},{tBString(3)})); default: return tStruct({"c","d"},{s,tFArray(pvd::pvInt,3)}); } }
struct Held { pvd::FieldConstPtr f; int k; };
struct World {
    TP t[NT]; bytes enc[NT]; std::vector<Held> got; // every description which is in use (also what is in use by a call in progress)
    World() { for(int k=0;k<NT;k++) { t[k]=type(k); Enc e(true); encType(t[k],e); enc[k]=e.b; } }
};
// create, checks in Quiet
pvd::FieldConstPtr create(World& w, int k, int route) {
    sched::Quiet q; mc::op("%s: %s %s",sched::nameOf(sched::self()),route==1?"decode":route==2?"value of":"create",tstr(w.t[k]).c_str()); pvd::FieldConstPtr f;
    { sched::Loud l; if(route==1) { FragDes d(w.enc[k],true,std::vector<size_t>(),false); f=pvd::getFieldCreate()->deserialize(&d.buf,&d); } else if(route==2) { pvd::PVFieldPtr p=pvd::getPVDataCreate()->createPVField(build(w.t[k])); f=p->getField(); } else f=build(w.t[k]); }
    string e=tcheck(f.get(),w.t[k]); if(!e.empty()) mc::fail("content","%s",e.c_str());
    return f;
}
void same(const pvd::FieldConstPtr& a, const pvd::FieldConstPtr& b, bool eq, const char *what) { if((a==b)!=eq) mc::fail(eq?"two":"confused","%s: %s",what,eq?"two objects for one type are in use":"one object for two types"); }
struct Quick { size_t base; Quick() { base=epics::readRefCounter("Field"); } void end() { size_t n=epics::readRefCounter("Field"); if(n!=base) mc::fail("released","%zu type descriptions are left",n-base); } };
void finish(World& w, int k) { pvd::FieldConstPtr a=create(w,k,0), b=create(w,k,1); same(a,b,true,"afterwards"); }
}
// each thread creates a type, keeps it for a while and drops it
SCENARIO(createDrop, mc::Opts().F().D(2,3)) {
    static const int Q[][2]={{0,0},{5,5},{4,4},{0,1},{3,6},{1,4},{1,1},{2,2},{3,3},{6,6},{4,7},{7,7}}; int p=mc::choose(mc::tier()?12:5), k1=Q[p][0], k2=Q[p][1], held=mc::choose(3), route=mc::tier()?mc::choose(2):p&1;
    sched::run([&]{ sched::Quiet quiet; World w; Quick z; { pvd::FieldConstPtr keep=held?create(w,k1,0):pvd::FieldConstPtr(), before=keep; const pvd::Field *kp=keep.get(); pvd::FieldConstPtr x,y; before.reset();
        int a=sched::spawn([&]{ sched::Quiet q; x=create(w,k1,0); if(held==1&&x.get()!=kp) mc::fail("two","a type in use was created again as another object"); }, "first");
        int b=sched::spawn([&]{ sched::Quiet q; y=create(w,k2,route); if(held==1&&k1==k2&&y.get()!=kp) mc::fail("two","a type in use was created again as another object"); }, "second");
        if(held==2) { sched::Loud l; keep.reset(); } sched::join(a); sched::join(b); same(x,y,k1==k2,"both threads"); 
        int c=sched::spawn([&]{ sched::Loud l; x.reset(); },"first drops"), d=sched::spawn([&]{ sched::Loud l; y.reset(); },"second drops"); pvd::FieldConstPtr v=create(w,k1,0); sched::join(c); sched::join(d); pvd::FieldConstPtr u=create(w,k1,0); same(u,v,true,"main"); u.reset(); v.reset(); keep.reset(); }
        finish(w,k1); z.end(); mc::outcome("ok"); },sched::Opt().P());
}
// create and drop in one go, in two or three threads, with a use before and after
SCENARIO(churn, mc::Opts().F().D(2,3)) {
    int k=mc::choose(mc::tier()?NT:5), r1=mc::choose(3), r2=mc::choose(2);
    sched::run([&]{ sched::Quiet quiet; World w; Quick z; {
        int a=sched::spawn([&]{ sched::Quiet q; pvd::FieldConstPtr f=create(w,k,r1); { sched::Loud l; f.reset(); } f=create(w,k,0); pvd::FieldConstPtr g=create(w,k,0); same(f,g,true,"first"); { sched::Loud l; g.reset(); f.reset(); } },"first");
        pvd::FieldConstPtr f=create(w,k,r2); { sched::Loud l; f.reset(); } f=create(w,k,0); { pvd::FieldConstPtr g=create(w,k,0); same(f,g,true,"main"); } { sched::Loud l; f.reset(); } sched::join(a); }
        finish(w,k); z.end(); mc::outcome("ok"); },sched::Opt().P());
}
// the same with every atomic operation a point where another thread may go on
SCENARIO(lastRelease, mc::Opts().F().D(2,3)) {
    int k=mc::choose(mc::tier()?4:3);
    sched::run([&]{ sched::Quiet quiet; World w; Quick z; pvd::FieldConstPtr f=create(w,k,0), x; int a=sched::spawn([&]{ sched::Quiet q; x=create(w,k,0); },"creator"); { sched::Loud l; f.reset(); } sched::join(a); { pvd::FieldConstPtr y=create(w,k,0); same(x,y,true,"afterwards"); } x.reset(); finish(w,k); z.end(); mc::outcome("ok"); },sched::Opt().P().A());
}
SCENARIO(threeThreads, mc::Opts().F().D(1,2)) {
    int k1=mc::choose(5), k2=mc::choose(5), k3=mc::choose(5); if(k2<k1) mc::skip();
    sched::run([&]{ sched::Quiet quiet; World w; Quick z; { pvd::FieldConstPtr f[3]; int k[3]={k1,k2,k3}; int id[2]; for(int i=0;i<2;i++) id[i]=sched::spawn([&,i]{ sched::Quiet q; f[i]=create(w,k[i],0); { sched::Loud l; f[i].reset(); } f[i]=create(w,k[i],1); },i?"second":"first"); f[2]=create(w,k[2],0); for(int i: id) sched::join(i); for(int i=0;i<3;i++) for(int j=0;j<i;j++) same(f[i],f[j],k[i]==k[j],"all threads"); } finish(w,k1); z.end(); mc::outcome("ok"); },sched::Opt().P());
}
// the first use of what is created on demand
namespace {
const char *UNAME[]={"getFieldCreate","getPVDataCreate","getStandardField","getStandardPVField","getConvert","severity names","status names","createRequest","variant union","readRefCounter"};
const void *use(int u) {
    switch(u) {
    case 0: { const pvd::FieldCreatePtr& c=pvd::getFieldCreate(); if(!c) mc::fail("null","getFieldCreate gives nothing"); return c.get(); }
    case 1: { const pvd::PVDataCreatePtr& c=pvd::getPVDataCreate(); if(!c) mc::fail("null","getPVDataCreate gives nothing"); return c.get(); }
    case 2: { pvd::StandardFieldPtr c=pvd::getStandardField(); if(!c) mc::fail("null","getStandardField gives nothing"); c->alarm(); return c.get(); }
    case 3: { pvd::StandardPVFieldPtr c=pvd::getStandardPVField(); if(!c) mc::fail("null","getStandardPVField gives nothing"); c->scalar(pvd::pvInt,"alarm"); return c.get(); }
    case 4: { pvd::ConvertPtr c=pvd::getConvert(); if(!c) mc::fail("null","getConvert gives nothing"); return c.get(); }
    case 5: { pvd::StringArrayPtr s=pvd::AlarmSeverityFunc::getSeverityNames(); if(s->size()!=5||(*s)[4]!="UNDEFINED") mc::fail("names","%zu names of severities",s->size()); return s.get(); }
    case 6: { pvd::StringArrayPtr s=pvd::AlarmStatusFunc::getStatusNames(); if(s->size()!=8||(*s)[7]!="CLIENT") mc::fail("names","%zu names of status",s->size()); return s.get(); }
    case 7: { pvd::CreateRequest::shared_pointer c=pvd::CreateRequest::create(); pvd::PVStructurePtr r=c->createRequest("record[a=b]field(x)"); if(!r||!r->getSubField("field.x")) mc::fail("request","no request"); return 0; }
    case 8: { pvd::UnionConstPtr c=pvd::getFieldCreate()->createVariantUnion(); if(!c||!c->isVariant()) mc::fail("variant","not a variant union"); pvd::getPVDataCreate()->createPVVariantUnion(); return c.get(); }
    default: epics::readRefCounter("Field"); return 0;
    }
}
}
SCENARIO(firstUse, mc::Opts().F().D(2,3)) {
    int u1=mc::choose(10), u2=mc::choose(10); if(u2<u1) mc::skip();
    sched::run([&]{ sched::Quiet quiet; mc::op("%s and %s",UNAME[u1],UNAME[u2]); const void *x=0,*y=0; int a=sched::spawn([&]{ sched::Loud l; x=use(u1); },"first"); { sched::Loud l; y=use(u2); } sched::join(a); if(u1==u2&&x!=y) mc::fail("two","%s gives two objects",UNAME[u1]); const void *z; { sched::Loud l; z=use(u1); } if(z!=x) mc::fail("changed","%s gives another object",UNAME[u1]); mc::outcome("ok"); },sched::Opt().P());
}
