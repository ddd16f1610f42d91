// C29: property helpers (PVAlarm, PVTimeStamp, PVControl, PVDisplay, PVEnumerated)
#include "model.h"
#include <pv/pvAlarm.h>
#include <pv/pvTimeStamp.h>
#include <pv/pvControl.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
using namespace epics::pvData;
// one description per helper: its members, and how to hand a tuple of values over
struct Mem { const char *name; TP t; };
static int posted; struct Post : PostHandler { void postPut() { posted++; } };
struct Helper {
    std::vector<Mem> m; virtual ~Helper() {}
    virtual bool attach(PVFieldPtr) =0; virtual void detach() =0; virtual bool attached() =0;
    virtual void get(std::vector<MS>&) =0; virtual bool set(const std::vector<MS>&) =0;
};
static double dbl(const MS& s) { double d; memcpy(&d,&s.u,8); return d; }
struct HAlarm : Helper { PVAlarm h; HAlarm() { m={{"severity",tScalar(pvInt)},{"status",tScalar(pvInt)},{"message",tScalar(pvString)}}; } bool attach(PVFieldPtr f) { return h.attach(f); } void detach() { h.detach(); } bool attached() { return h.isAttached(); }
    void get(std::vector<MS>& v) { Alarm a; a.setMessage("old"); a.setSeverity(majorAlarm); a.setStatus(dbStatus); h.get(a); v={MS((int64_t)a.getSeverity()),MS((int64_t)a.getStatus()),MS(a.getMessage())}; } bool set(const std::vector<MS>& v) { Alarm a; a.setSeverity(AlarmSeverityFunc::getSeverity(v[0].u)); a.setStatus(AlarmStatusFunc::getStatus(v[1].u)); a.setMessage(v[2].s); return h.set(a); } };
struct HTime : Helper { PVTimeStamp h; HTime() { m={{"secondsPastEpoch",tScalar(pvLong)},{"nanoseconds",tScalar(pvInt)},{"userTag",tScalar(pvInt)}}; } bool attach(PVFieldPtr f) { return h.attach(f); } void detach() { h.detach(); } bool attached() { return h.isAttached(); }
    void get(std::vector<MS>& v) { TimeStamp a(5,6,7); h.get(a); v={MS((int64_t)a.getSecondsPastEpoch()),MS((int64_t)a.getNanoseconds()),MS((int64_t)a.getUserTag())}; } bool set(const std::vector<MS>& v) { return h.set(TimeStamp(v[0].u,v[1].u,v[2].u)); } };
struct HControl : Helper { PVControl h; HControl() { m={{"limitLow",tScalar(pvDouble)},{"limitHigh",tScalar(pvDouble)},{"minStep",tScalar(pvDouble)}}; } bool attach(PVFieldPtr f) { return h.attach(f); } void detach() { h.detach(); } bool attached() { return h.isAttached(); }
    void get(std::vector<MS>& v) { Control a; a.setLow(-9); h.get(a); v={dbits(a.getLow()),dbits(a.getHigh()),dbits(a.getMinStep())}; } bool set(const std::vector<MS>& v) { Control a; a.setLow(dbl(v[0])); a.setHigh(dbl(v[1])); a.setMinStep(dbl(v[2])); return h.set(a); } };
struct HDisplay : Helper { PVDisplay h; HDisplay() { m={{"limitLow",tScalar(pvDouble)},{"limitHigh",tScalar(pvDouble)},{"description",tScalar(pvString)},{"format",tScalar(pvString)},{"units",tScalar(pvString)}}; } bool attach(PVFieldPtr f) { return h.attach(f); } void detach() { h.detach(); } bool attached() { return h.isAttached(); }
    void get(std::vector<MS>& v) { Display a; a.setUnits("old"); h.get(a); v={dbits(a.getLow()),dbits(a.getHigh()),MS(a.getDescription()),MS(a.getFormat()),MS(a.getUnits())}; } bool set(const std::vector<MS>& v) { Display a; a.setLow(dbl(v[0])); a.setHigh(dbl(v[1])); a.setDescription(v[2].s); a.setFormat(v[3].s); a.setUnits(v[4].s); return h.set(a); } };
static Helper *helper(int k) { switch(k) { case 0: return new HAlarm; case 1: return new HTime; case 2: return new HControl; default: return new HDisplay; } }
static MS someValue(int k, size_t i, const TP& t, int n) { if(t->s==pvString) { static const char *S[]={"","x","two words"}; return MS(S[n%3]); } if(t->s==pvDouble) { static const double D[]={0,1.5,-1e300}; return dbits(D[n%3]); } static const int64_t A[]={0,2,4}, B[]={0,7,1}, C[]={0,999999999,1700000000}; return MS(k==0?(i?B[n%3]:A[n%3]):C[(n+(i==1&&n==2?1:0))%3]); }
// a structure with the members of helper k, one of them perhaps missing or of another type, in some order, with others in between
static TP shape(Helper& h, int k, int defect, int order) { std::vector<std::string> n; std::vector<TP> t; for(size_t i=0;i<h.m.size();i++) { size_t j=order?h.m.size()-1-i:i; int d=defect/2==(int)j+1?defect%2+1:0; if(d==1) continue; n.push_back(h.m[j].name); t.push_back(d==2?(h.m[j].t->s==pvInt?tScalar(pvLong):h.m[j].t->s==pvLong?tScalar(pvInt):tScalar(pvInt)):h.m[j].t); if(order&&i==0) { n.push_back("extra"); t.push_back(tScalar(pvInt)); } } return tStruct(n,t); }
static PVFieldPtr child(const PVFieldPtr& s, const char *n) { return std::tr1::static_pointer_cast<PVStructure>(s)->getSubField(n); }
struct World { Helper& h; int k; PVFieldPtr at; std::vector<VP> pv; // what the helper is attached to
    World(Helper& h, int k) :h(h), k(k) {}
    std::vector<MS> fields() { std::vector<MS> v; for(auto& x: h.m) v.push_back(getScalar(child(at,x.name).get(),x.t->s)); return v; }
    void check(const char *what) {
        CHECK(h.attached()==!!at,"attached","after %s isAttached() is %d",what,h.attached());
        std::vector<MS> v; if(!at) { std::string e=thrown([&]{ h.get(v); }); CHECK(e!="","detached","get() of a detached helper succeeds"); e=thrown([&]{ std::vector<MS> z; for(size_t i=0;i<h.m.size();i++) z.push_back(someValue(k,i,h.m[i].t,0)); h.set(z); }); CHECK(e!="","detached","set() of a detached helper succeeds"); return; }
        std::vector<MS> f=fields(), w=f; std::string e=thrown([&]{ h.get(v); }); bool bad=false; if(k==0) bad=f[0].u>4||f[1].u>7; if(k==1) { __int128 t=(__int128)(int64_t)f[0].u*1000000000+(int64_t)f[1].u; int64_t s=t/1000000000, n=t%1000000000; if(n<0) { n+=1000000000; s--; } w[0]=MS((uint64_t)s); w[1]=MS((uint64_t)n); }
        CHECK((e!="")==bad,"get","after %s get(): %s",what,e.c_str()); if(!bad) CHECK(v==w,"get","after %s get() differs from the members",what); std::vector<MS> g=fields(); CHECK(g==f,"get","get() changes the members"); mc::step();
    }
};
static void show(const char *w, const std::vector<MS>& v, World& x) { std::string s; for(size_t i=0;i<v.size();i++) s+=(i?",":"")+msstr(x.h.m[i].t->s,v[i]); mc::op("%s %s",w,s.c_str()); }
SCENARIO(histories, mc::Opts().S(4)) {
    int k=mc::choose(4); std::unique_ptr<Helper> h(helper(k)); World w(*h,k); size_t nm=h->m.size(); std::vector<PVFieldPtr> f; int order=mc::tier()?mc::choose(2):k%2; f.push_back(make(shape(*h,k,0,order))); f.push_back(make(shape(*h,k,mc::tier()?2+mc::choose(2*nm):2+k+mc::choose(2)*3,order))); f.push_back(make(shape(*h,k,0,!order))); f.push_back(make(tScalar(pvInt)));
    // within a structure; PVTimeStamp looks for a time among the enclosing structures too
    VP outer=vdefault(tStruct({"q","in"},{tScalar(pvInt),shape(*h,k,0,0)})); TP sub=tStruct({"z","y"},{tScalar(pvInt),tStruct({"v"},{tScalar(pvInt)})}); TP with=shape(*h,k,0,0); { std::shared_ptr<MT> x(new MT(*with)); x->names.push_back("sub"); x->kids.push_back(sub); with=x; } PVFieldPtr encl=make(with); f.push_back(child(make(outer),"in")); PVFieldPtr keep=f.back(); std::vector<PVFieldPtr> roots; roots.push_back(make(outer)); f.back()=child(roots[0],"in"); f.push_back(child(child(encl,"sub"),"y"));
    std::vector<PVFieldPtr> target={f[0],PVFieldPtr(),f[2],PVFieldPtr(),f[4],k==1?encl:PVFieldPtr()}; posted=0; std::map<PVField*,bool> imm; w.check("start"); int n=mc::tier()?4:3;
    for(int i=0;i<n;i++) switch(mc::choose(5)) {
        case 0: { int c=mc::choose(6); mc::op("attach %d",c); bool r=h->attach(f[c]); CHECK(r==!!target[c],"attach","attach() to %s is %d",tstr(with).c_str(),r); if(r) w.at=target[c]; else { if(h->attached()) { CHECK(!!w.at,"attach","attached after a failing attach()"); } else w.at.reset(); } w.check("attach"); mc::outcome(r?"attached":"not a property"); break; }
        case 1: mc::op("detach"); h->detach(); w.at.reset(); w.check("detach"); mc::outcome("detached"); break;
        case 2: { std::vector<MS> v; int a=mc::choose(3), b=mc::choose(nm+1); for(size_t j=0;j<nm;j++) v.push_back(someValue(k,j,h->m[j].t,j==(size_t)b?(a+1)%3:a)); show("set",v,w); if(!w.at) { std::string e=thrown([&]{ h->set(v); }); CHECK(e!="","detached","set() of a detached helper succeeds"); break; } bool im=false; for(auto& x: h->m) im|=imm[child(w.at,x.name).get()]; std::vector<MS> old=w.fields(); posted=0; std::string e; bool r=false; e=thrown([&]{ r=h->set(v); }); CHECK(e=="","set","set() of a legal value fails: %s",e.c_str()); std::vector<MS> now=w.fields(); std::vector<MS> want=im?old:v; CHECK(now==want,im?"immutable":"set","set() leaves other members (%s)",im?"some were immutable":"all mutable"); CHECK(r==(now!=old),"changed","set() returns %d, the members %s",r,now!=old?"changed":"did not change"); w.check("set"); mc::outcome(im?"refused":r?"changed":"same"); break; }
        case 3: { if(!w.at) mc::skip(); size_t j=mc::choose(nm); PVFieldPtr c=child(w.at,h->m[j].name); mc::op("immutable %s",h->m[j].name); c->setImmutable(); imm[c.get()]=true; w.check("setImmutable"); break; }
        case 4: { if(!w.at) mc::skip(); size_t j=mc::choose(nm); PVFieldPtr c=child(w.at,h->m[j].name); if(imm[c.get()]) mc::skip(); static const int64_t X[]={-1,5,99,2000000000,-1500000000}; MS s=h->m[j].t->s==pvString?MS(std::string("direct")):h->m[j].t->s==pvDouble?dbits(7.5):MS(X[mc::choose(5)]); mc::op("%s becomes %s",h->m[j].name,msstr(h->m[j].t->s,s).c_str()); putScalar(c.get(),h->m[j].t->s,s); w.check("put"); break; }
    }
    mc::state(mc::hmix(k,w.at?mc::hstr(mc::str(*w.at)):0));
}
// every way in which members can be missing or of another type
SCENARIO(shapes, mc::Opts().S(2)) { int k=mc::choose(4); std::unique_ptr<Helper> h(helper(k)); std::vector<std::string> n; std::vector<TP> t; bool ok=true; for(auto& x: h->m) { int d=mc::choose(4); if(d==0) { ok=false; continue; } n.push_back(x.name); if(d==2) { ok=false; t.push_back(x.t->s==pvInt?tScalar(pvUInt):tScalar(pvInt)); } else if(d==3) { ok=false; t.push_back(tArray(x.t->s)); } else t.push_back(x.t); } PVFieldPtr f=make(tStruct(n,t)); mc::op("%s",tstr(tStruct(n,t)).c_str()); bool r=h->attach(f); CHECK(r==ok,"attach","attach() to %s is %d",tstr(tStruct(n,t)).c_str(),r); CHECK(h->attached()==ok,"attached","isAttached() is %d",h->attached()); mc::step(); mc::outcome(r?"attached":"refused"); }
// codes and names
SCENARIO(codes) { int i=mc::choose(40)-16; Alarm a; AlarmSeverity s; AlarmStatus t; std::string e=thrown([&]{ s=AlarmSeverityFunc::getSeverity(i); }); CHECK((e=="")==(i>=0&&i<5),"code","severity %d: %s",i,e.c_str()); if(e=="") { CHECK((int)s==i,"code","severity %d becomes %d",i,(int)s); a.setSeverity(s); CHECK(a.getSeverity()==s&&a.getStatus()==noStatus,"code","severity kept"); static const char *N[]={"NONE","MINOR","MAJOR","INVALID","UNDEFINED"}; StringArrayPtr n=AlarmSeverityFunc::getSeverityNames(); CHECK(n->size()==5&&(*n)[i]==N[i],"name","severity name %d",i); }
    e=thrown([&]{ t=AlarmStatusFunc::getStatus(i); }); CHECK((e=="")==(i>=0&&i<8),"code","status %d: %s",i,e.c_str()); if(e=="") { CHECK((int)t==i,"code","status %d becomes %d",i,(int)t); a.setStatus(t); CHECK(a.getStatus()==t,"code","status kept"); static const char *N[]={"NONE","DEVICE","DRIVER","RECORD","DB","CONF","UNDEFINED","CLIENT"}; StringArrayPtr n=AlarmStatusFunc::getStatusNames(); CHECK(n->size()==8&&(*n)[i]==N[i],"name","status name %d",i); } mc::step(); mc::outcome(i<0||i>7?"illegal":"legal"); }
// ---- enumerations
SCENARIO(enumerated, mc::Opts().S(4)) {
    PVEnumerated h; TP T=tStruct({"index","choices"},{tScalar(pvInt),tArray(pvString)},"enum_t"); TP good2=tStruct({"x","choices","index"},{tScalar(pvInt),tArray(pvString),tScalar(pvInt)}); std::vector<PVFieldPtr> f={make(T),make(good2),make(tStruct({"index","choices"},{tScalar(pvInt),tArray(pvInt)})),make(tStruct({"index","choices"},{tScalar(pvLong),tArray(pvString)})),make(tArray(pvInt))}; PVFieldPtr at; bool ii[2]={false,false}, ci[2]={false,false}; int cur=-1; std::map<int,std::pair<int32,std::vector<std::string> > > m; m[0]=m[1]=std::make_pair(0,std::vector<std::string>()); int n=mc::tier()?4:3;
    auto check=[&]{ mc::step(); CHECK(h.isAttached()==(cur>=0),"attached","isAttached() is %d",h.isAttached()); if(cur<0) { std::string e=thrown([&]{ h.getIndex(); }), e2=thrown([&]{ h.getChoice(); }), e3=thrown([&]{ h.setIndex(0); }), e4=thrown([&]{ h.getNumberChoices(); }), e5=thrown([&]{ h.choicesMutable(); }), e6=thrown([&]{ StringArray s; h.setChoices(s); }); CHECK(e!=""&&e2!=""&&e3!=""&&e4!=""&&e5!=""&&e6!="","detached","a detached helper answers"); return; }
        auto& x=m[cur]; CHECK(h.getIndex()==x.first,"index","index %d want %d",h.getIndex(),x.first); CHECK(h.getNumberChoices()==(int)x.second.size(),"choices","%d choices want %d",h.getNumberChoices(),(int)x.second.size()); std::string c=x.first>=0&&x.first<(int)x.second.size()?x.second[x.first]:""; CHECK(h.getChoice()==c,"choice","choice '%s' want '%s'",h.getChoice().c_str(),c.c_str()); CHECK(h.choicesMutable()==!ci[cur],"mutable","choicesMutable() is %d",h.choicesMutable()); VP v=vdefault(cur?good2:T); v->kids[cur?2:0]->s=MS((int64_t)x.first); for(auto& s: x.second) v->kids[1]->a.push_back(MS(s)); std::string r=vcheck(f[cur].get(),v); CHECK(r=="","members","%s",r.c_str()); mc::state(vhash(v)); };
    check(); for(int i=0;i<n;i++) { switch(mc::choose(5)) {
        case 0: { int c=mc::choose(5); mc::op("attach %d",c); bool r=h.attach(f[c]); CHECK(r==(c<2),"attach","attach %d is %d",c,r); if(r) cur=c; else if(!h.isAttached()) cur=-1; mc::outcome(r?"attached":"refused"); break; }
        case 1: mc::op("detach"); h.detach(); cur=-1; break;
        case 2: { int v=mc::choose(5)-1; if(cur<0) break; mc::op("index %d",v); bool r=h.setIndex(v); CHECK(r==!ii[cur],"immutable","setIndex() is %d",r); if(r) m[cur].first=v; mc::outcome(r?"set":"immutable"); break; }
        case 3: { int v=mc::choose(4); if(cur<0) break; StringArray s; for(int j=0;j<v;j++) s.push_back(std::string(j*7,'c')+mc::str(i)); mc::op("%d choices",v); bool r=h.setChoices(s); CHECK(r==!ci[cur],"immutable","setChoices() is %d",r); if(r) m[cur].second=s; mc::outcome(r?"set":"immutable"); break; }
        case 4: { if(cur<0) mc::skip(); bool c=mc::choose(2); mc::op("immutable %s",c?"choices":"index"); child(f[cur],c?"choices":"index")->setImmutable(); (c?ci:ii)[cur]=true; break; }
    } check(); }
}
