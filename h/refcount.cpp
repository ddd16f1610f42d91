// C26, sequential part: the registry of counters, snapshots, and the instance counts.
#include "valuesh.h"
#include <pv/reftrack.h>
#include <pv/thread.h>
#include <pv/standardField.h>
#include <pv/createRequest.h>
#include <pv/pvSubArrayCopy.h>
#include <map>
#include <set>
#include <memory>
using std::string;

namespace {
const char *RN[]={"cnt","cnt2","a"};
struct World {
    std::unique_ptr<size_t> c[3]; std::map<string,int> reg;  // name -> counter
    std::vector<std::map<string,std::pair<size_t,long> > > model; std::vector<epics::RefSnapshot> snaps;
    World() { for(int i=0;i<3;i++) c[i].reset(new size_t(i*5)); }
    ~World() { for(auto& r: reg) epics::unregisterRefCounter(r.first.c_str(),c[r.second].get()); }
    void checkSnap(const epics::RefSnapshot& s, const std::map<string,std::pair<size_t,long> >& m, const char *key) {
        size_t n=0, other=0; string text;
        for(epics::RefSnapshot::iterator it=s.begin();it!=s.end();++it) { bool ours=false; for(const char *x: RN) ours|=it->first==x; if(!ours) { other++; if(it->second.delta) { std::ostringstream o; o<<it->first<<":\t"<<it->second.current<<" (delta "<<it->second.delta<<")\n"; text+=o.str(); } continue; } n++;
            auto j=m.find(it->first); CHECK(j!=m.end(),string(key)+"-extra","a snapshot has '%s', which is not registered",it->first.c_str()); CHECK(it->second.current==j->second.first&&it->second.delta==j->second.second,string(key)+"-value","'%s' is %zu (delta %ld), not %zu (delta %ld)",it->first.c_str(),it->second.current,it->second.delta,j->second.first,j->second.second);
            if(it->second.delta) { std::ostringstream o; o<<it->first<<":\t"<<it->second.current<<" (delta "<<it->second.delta<<")\n"; text+=o.str(); } }
        CHECK(n==m.size(),string(key)+"-missing","a snapshot has %zu of %zu counters",n,m.size()); CHECK(s.size()==n+other,string(key)+"-size","size %zu",s.size());
        for(const char *x: RN) { auto j=m.find(x); epics::RefSnapshot::Count w=j==m.end()?epics::RefSnapshot::Count():epics::RefSnapshot::Count(j->second.first,j->second.second); CHECK(s[x]==w,string(key)+"-index","['%s'] is %zu,%ld",x,s[x].current,s[x].delta); }
        std::ostringstream o; o<<s; CHECK(o.str()==text,string(key)+"-print","printed:\n%s\nnot:\n%s",o.str().c_str(),text.c_str());
    }
    void read() { for(const char *x: RN) { size_t w=reg.count(x)?*c[reg[x]]:0, g=epics::readRefCounter(x); CHECK(g==w,"read","readRefCounter('%s') is %zu, not %zu",x,g,w); } }
    std::map<string,std::pair<size_t,long> > nowModel() { std::map<string,std::pair<size_t,long> > m; for(auto& r: reg) m[r.first]=std::make_pair(*c[r.second],0L); return m; }
    static std::map<string,std::pair<size_t,long> > diff(const std::map<string,std::pair<size_t,long> >& a, const std::map<string,std::pair<size_t,long> >& b) { std::map<string,std::pair<size_t,long> > r; for(auto& x: a) r[x.first]=std::make_pair(x.second.first,(long)x.second.first-(b.count(x.first)?(long)b.find(x.first)->second.first:0)); for(auto& x: b) if(!a.count(x.first)) r[x.first]=std::make_pair((size_t)0,-(long)x.second.first); return r; }
};
}
SCENARIO(registry) {
    World w; int len=mc::tier()?5:4; bool snap=false;
    for(int i=0;i<len;i++) {
        int o=mc::choose(8);
        switch(o) {
        case 0: case 1: { int n=mc::choose(i?3:2), k=o==0?n:(n+1)%3; mc::op("register %s as counter %d",RN[n],k); epics::registerRefCounter(RN[n],w.c[k].get()); w.reg[RN[n]]=k; break; }
        case 2: case 3: { int n=mc::choose(3), k=o==2?n:(n+1)%3; mc::op("unregister %s of counter %d",RN[n],k); epics::unregisterRefCounter(RN[n],w.c[k].get()); if(w.reg.count(RN[n])&&w.reg[RN[n]]==k) w.reg.erase(RN[n]); break; }
        case 4: { int k=mc::choose(3); mc::op("counter %d grows",k); ::epics::atomic::increment(*w.c[k]); break; }
        case 5: { int k=mc::choose(2); if(!*w.c[k]) mc::skip(); mc::op("counter %d shrinks",k); ::epics::atomic::decrement(*w.c[k]); break; }
        case 6: { mc::op("snapshot"); epics::RefSnapshot s; s.update(); w.snaps.push_back(s); w.model.push_back(w.nowModel()); snap=true; break; }
        case 7: { if(w.snaps.empty()) mc::skip(); mc::op("update a snapshot"); w.snaps[0].update(); w.model[0]=w.nowModel(); break; }
        }
        w.read(); epics::RefSnapshot s; s.update(); w.checkSnap(s,w.nowModel(),"snapshot");
        for(size_t k=0;k<w.snaps.size();k++) { w.checkSnap(w.snaps[k],w.model[k],"kept"); w.checkSnap(s-w.snaps[k],World::diff(w.nowModel(),w.model[k]),"difference"); w.checkSnap(w.snaps[k]-s,World::diff(w.model[k],w.nowModel()),"difference2"); epics::RefSnapshot t(w.snaps[k]-epics::RefSnapshot()), e; e.swap(t); CHECK(t.size()==0,"swap","swap"); w.checkSnap(e,World::diff(w.model[k],std::map<string,std::pair<size_t,long> >()),"whole"); }
    }
    char *t=epicsRefSnapshotCurrent(); string txt=t?t:"(null)"; free(t); for(auto& r: w.reg) { size_t v=*w.c[r.second]; string line=sfmt("%s:\t%zu",r.first.c_str(),v); CHECK(v==0||("\n"+txt).find("\n"+line+" ")!=string::npos,"text","epicsRefSnapshotCurrent gives '%s' without '%s'",txt.c_str(),line.c_str()); }
    for(const char *x: RN) if(!w.reg.count(x)) CHECK(("\n"+txt).find(string("\n")+x+":")==string::npos,"text-extra","epicsRefSnapshotCurrent gives '%s' with '%s'",txt.c_str(),x);
    mc::outcome(sfmt("%zu",w.reg.size()));
}

// every object is counted while it exists, and no longer
namespace {
size_t fieldsNow() { return epics::readRefCounter("Field"); }
size_t pvsNow() { return epics::readRefCounter("PVField"); }
// distinct type descriptions reachable
void collect(const pvd::Field *f, std::set<const pvd::Field*>& s) {
    if(!s.insert(f).second) return;
    switch(f->getType()) {
    case pvd::structure: { auto x=static_cast<const pvd::Structure*>(f); for(size_t i=0;i<x->getNumberFields();i++) collect(x->getField(i).get(),s); break; }
    case pvd::union_: { auto x=static_cast<const pvd::Union*>(f); for(size_t i=0;i<x->getNumberFields();i++) collect(x->getField(i).get(),s); break; }
    case pvd::structureArray: collect(static_cast<const pvd::StructureArray*>(f)->getStructure().get(),s); break;
    case pvd::unionArray: collect(static_cast<const pvd::UnionArray*>(f)->getUnion().get(),s); break; default:;
    }
}
size_t vnodes(const VP& v) { size_t n=1; if(v->t->k==KStruct) for(auto& k: v->kids) n+=vnodes(k); else if(v->t->k==KUnion||v->t->k==KAny) { if(v->v) n+=vnodes(v->v); } else for(auto& k: v->kids) if(k) n+=vnodes(k); return n; }
void globals() { pvd::getFieldCreate(); pvd::getPVDataCreate(); pvd::StandardField::getStandardField(); pvd::CreateRequest::create()->createRequest("record[x=y]field(a{b})"); pvd::getFieldCreate()->createVariantUnion(); pvd::getFieldCreate()->createVariantUnionArray(); 
    { std::vector<pvd::FieldConstPtr> f; std::vector<string> n; pvd::getFieldCreate()->createStructure(n,f); }
    for(int i=pvd::pvBoolean;i<=pvd::pvString;i++) { pvd::getFieldCreate()->createScalar((pvd::ScalarType)i); pvd::getFieldCreate()->createScalarArray((pvd::ScalarType)i); } }
struct Base { size_t f,p; std::map<string,size_t> others; Base() { globals(); f=fieldsNow(); p=pvsNow(); } void back(const char *what) { CHECK(pvsNow()==p,"pvfields-left","%s: %zu PVField instances are counted, not %zu",what,pvsNow(),p); CHECK(fieldsNow()==f,"fields-left","%s: %zu Field instances are counted, not %zu",what,fieldsNow(),f); } };
}
SCENARIO(instances) {
    Base b; int budget=mc::tier()?3:2; GenT g; g.leaves={tScalar(pvd::pvString),tArray(pvd::pvInt),tAny(),tBString(9),tFArray(pvd::pvShort,2),tBArray(pvd::pvDouble,3),tAnyArr()}; TP t=genT(g,budget); mc::op("type %s",tstr(t).c_str());
    {
        pvd::FieldConstPtr f; try { f=build(t); } catch(std::exception&) { mc::skip(); }
        std::set<const pvd::Field*> s; collect(f.get(),s); size_t n0=fieldsNow();
        { pvd::FieldConstPtr f2=build(t); CHECK(fieldsNow()==n0,"field-again","an equal type makes %zu Field instances out of %zu",fieldsNow(),n0); }
        VP v=vdefault(t); { pvd::PVFieldPtr p=make(v); CHECK(pvsNow()==b.p+vnodes(v),"pvfields","a value of %zu nodes makes %zu PVField instances",vnodes(v),pvsNow()-b.p);
            { pvd::PVFieldPtr q=pvd::getPVDataCreate()->createPVField(p); CHECK(pvsNow()==b.p+2*vnodes(v),"pvfields-clone","two values of %zu nodes make %zu PVField instances",vnodes(v),pvsNow()-b.p); }
            CHECK(pvsNow()==b.p+vnodes(v),"pvfields-after","PVField instances are left"); }
        CHECK(pvsNow()==b.p,"pvfields-left","%zu PVField instances are left",pvsNow()-b.p);
    }
    b.back("a type and its values"); mc::outcome("ok");
}
// values which change their content, and creations which fail
SCENARIO(failures) {
    Base b; int w=mc::choose(10); 
    {
        pvd::FieldCreatePtr fc=pvd::getFieldCreate(); pvd::PVDataCreatePtr pc=pvd::getPVDataCreate();
        switch(w) {
        case 0: try { fc->createBoundedString(0); CHECK(false,"accepted","a string bounded to 0"); } catch(std::exception&) {} break;
        case 1: { std::vector<pvd::FieldConstPtr> f(2,fc->createScalar(pvd::pvInt)); std::vector<string> n(2,"a"); try { fc->createStructure(n,f); } catch(std::exception&) {} break; }
        case 2: { std::vector<pvd::FieldConstPtr> f(1); std::vector<string> n(1,"a"); try { fc->createStructure(n,f); } catch(std::exception&) {} try { fc->createUnion(n,f); } catch(std::exception&) {} break; }
        case 3: { pvd::PVUnionPtr u=pc->createPVVariantUnion(); for(int i=0;i<4;i++) { u->set(pc->createPVField(build(tStruct({"a","b"},{tScalar(pvd::pvInt),i&1?tArray(pvd::pvInt):tStruct({"x"},{tScalar(pvd::pvLong)})})))); CHECK(pvsNow()==b.p+(i&1?4:5),"variant","%zu instances",pvsNow()-b.p); } u->set(pvd::PVFieldPtr()); CHECK(pvsNow()==b.p+1,"variant-null","%zu instances",pvsNow()-b.p); break; }
        case 4: { TP t=tUnion({"a","b"},{tScalar(pvd::pvInt),tStruct({"x","y"},{tScalar(pvd::pvInt),tScalar(pvd::pvInt)})}); pvd::PVUnionPtr u=std::tr1::static_pointer_cast<pvd::PVUnion>(make(t)); u->select(1); CHECK(pvsNow()==b.p+4,"union","%zu",pvsNow()-b.p); u->select(0); CHECK(pvsNow()==b.p+2,"union","%zu",pvsNow()-b.p); u->select(-1); CHECK(pvsNow()==b.p+1,"union","%zu",pvsNow()-b.p); try { u->select(7); } catch(std::exception&) {} try { u->set(0,pc->createPVScalar(pvd::pvString)); } catch(std::exception&) {} break; }
        case 5: { TP t=tStructArr(tStruct({"x"},{tScalar(pvd::pvInt)})); pvd::PVStructureArrayPtr a=std::tr1::static_pointer_cast<pvd::PVStructureArray>(make(t)); a->append(3); CHECK(pvsNow()==b.p+7,"array","%zu",pvsNow()-b.p); a->remove(0,1); a->setLength(1); a->append(2); a->remove(1,1); a->compress(); break; }
        case 6: case 7: { TP t=w==6?tStruct({"a","u","s"},{tArray(pvd::pvInt),tAny(),tStructArr(tStruct({"x"},{tScalar(pvd::pvInt)}))}):tUnionArr(tUnion({"a","b"},{tScalar(pvd::pvInt),tScalar(pvd::pvString)})); VP v=vdefault(t); 
            if(w==6) { v->kids[0]->a.push_back(MS(5)); v->kids[1]->v=vdefault(tStruct({"p"},{tScalar(pvd::pvString)})); v->kids[2]->kids.push_back(vdefault(tStruct({"x"},{tScalar(pvd::pvInt)}))); } else for(int i=0;i<2;i++) { VP u=vdefault(t->elem); u->sel=i; u->v=vdefault(t->elem->kids[i]); v->kids.push_back(u); }
            bytes e=encModel(v,true); size_t cut=mc::choose(e.size()+1); mc::op("decode %zu of %zu bytes",cut,e.size()); bytes part(e.begin(),e.begin()+cut); pvd::PVFieldPtr p=make(t); try { FragDes d(part,true,std::vector<size_t>(),false); p->deserialize(&d.buf,&d); } catch(std::exception&) {} if(cut==e.size()) CHECK(pvsNow()==b.p+vnodes(v),"decode","%zu instances, not %zu",pvsNow()-b.p,vnodes(v)); break; }
        case 8: { TP t=tStruct({"a","u","s"},{tBString(8),tUnion({"x","y"},{tScalar(pvd::pvInt),tFArray(pvd::pvInt,3)}),tStructArr(tStruct({"x"},{tBArray(pvd::pvInt,4)}))}); Enc e(true); encType(t,e); size_t cut=mc::choose(e.b.size()+1); mc::op("decode %zu of %zu bytes of a type",cut,e.b.size()); bytes part(e.b.begin(),e.b.begin()+cut); pvd::FieldConstPtr f; try { FragDes d(part,true,std::vector<size_t>(),false); f=fc->deserialize(&d.buf,&d); } catch(std::exception&) {} break; }
        case 9: { static const char *R[]={"field(a","field(a{b,c}","record[process=true]field(a,b[x=y])","field(a{b{c{d}})",""}; int k=mc::choose(5); mc::op("request %s",R[k]); pvd::CreateRequest::shared_pointer c=pvd::CreateRequest::create(); pvd::PVStructurePtr r=c->createRequest(R[k]); break; }
        }
    }
    b.back("after the failure"); mc::outcome(sfmt("%d",w));
}
