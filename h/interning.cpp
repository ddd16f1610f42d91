// C05, sequential part: equal type descriptions are one object, different ones are not, the unused are released.
#include "valuesh.h"
#include <pv/reftrack.h>
#include <epicsString.h>
#include <map>
#include <set>
#include <sstream>
#include <functional>
using std::string;

namespace {
// ways by which an application gets at a type description
pvd::FieldConstPtr decode(const TP& t, bool be) { Enc e(be); encType(t,e); FragDes d(e.b,be,std::vector<size_t>(),false); return pvd::getFieldCreate()->deserialize(&d.buf,&d); }
pvd::FieldConstPtr viaBuilder(const TP& t) {
    pvd::FieldCreatePtr fc=pvd::getFieldCreate(); pvd::FieldBuilderPtr b;
    if(t->k==KStruct||t->k==KUnion) {
        b=fc->createFieldBuilder(); if(t->id!=(t->k==KStruct?"structure":"union")) b->setId(t->id);
        for(size_t i=0;i<t->kids.size();i++) { const TP& k=t->kids[i]; switch(k->k) { case KScalar: b->add(t->names[i],k->s); break; case KBString: b->addBoundedString(t->names[i],k->n); break; case KArray: b->addArray(t->names[i],k->s); break; case KBArray: b->addBoundedArray(t->names[i],k->s,k->n); break; case KFArray: b->addFixedArray(t->names[i],k->s,k->n); break; case KStructArr: case KUnionArr: b->addArray(t->names[i],viaBuilder(k->elem)); break; default: b->add(t->names[i],viaBuilder(k)); } }
        if(t->k==KStruct) return b->createStructure(); return b->createUnion();
    }
    if(t->k==KStructArr) return fc->createStructureArray(std::tr1::static_pointer_cast<const pvd::Structure>(viaBuilder(t->elem)));
    if(t->k==KUnionArr) return fc->createUnionArray(std::tr1::static_pointer_cast<const pvd::Union>(viaBuilder(t->elem)));
    return build(t);
}
const char *RNAME[]={"create","build","decode","clone of a value"};
pvd::FieldConstPtr get(const TP& t, int route) { switch(route) { case 0: return build(t); case 1: return viaBuilder(t); case 2: return decode(t,true); default: { pvd::PVFieldPtr p=make(t); pvd::PVFieldPtr q=pvd::getPVDataCreate()->createPVField(p); return q->getField(); } } }
bool permanent(const TP& t) { return t->k==KScalar||t->k==KArray||t->k==KAny||t->k==KAnyArr; }
// every description reachable, by what it describes
void reach(const TP& t, const pvd::Field *f, std::map<string,const pvd::Field*>& m) {
    string s=tstr(t); auto r=m.insert(std::make_pair(s,f)); CHECK(r.first->second==f,"two","there are two objects for the type %s",s.c_str()); if(!r.second) return;
    switch(f->getType()) {
    case pvd::structure: for(size_t i=0;i<t->kids.size();i++) reach(t->kids[i],static_cast<const pvd::Structure*>(f)->getField(i).get(),m); break;
    case pvd::union_: if(t->k!=KAny) for(size_t i=0;i<t->kids.size();i++) reach(t->kids[i],static_cast<const pvd::Union*>(f)->getField(i).get(),m); break;
    case pvd::structureArray: reach(t->elem,static_cast<const pvd::StructureArray*>(f)->getStructure().get(),m); break;
    case pvd::unionArray: reach(t->elem,static_cast<const pvd::UnionArray*>(f)->getUnion().get(),m); break; default:; }
}
void distinct(const std::map<string,const pvd::Field*>& m) { std::map<const pvd::Field*,string> r; for(auto& x: m) { auto i=r.insert(std::make_pair(x.second,x.first)); CHECK(i.second,"confused","one object stands for the types %s and %s",x.first.c_str(),i.first->second.c_str()); } }
size_t counted() { return epics::readRefCounter("Field"); }
size_t transient(const std::map<string,const pvd::Field*>& m, const std::set<const pvd::Field*>& perm) { size_t n=0; for(auto& x: m) n+=!perm.count(x.second); return n; }
const std::set<const pvd::Field*>& perms() { static std::set<const pvd::Field*> s; if(s.empty()) { for(int i=pvd::pvBoolean;i<=pvd::pvString;i++) { s.insert(pvd::getFieldCreate()->createScalar((pvd::ScalarType)i).get()); s.insert(pvd::getFieldCreate()->createScalarArray((pvd::ScalarType)i).get()); } s.insert(pvd::getFieldCreate()->createVariantUnion().get()); s.insert(pvd::getFieldCreate()->createVariantUnionArray().get()); } return s; }
// a history of creations and releases over a set of types
struct Hist {
    struct Use { int type; pvd::FieldConstPtr f; pvd::PVFieldPtr v; }; std::vector<TP> types; std::vector<Use> uses; size_t base;
    Hist() { perms(); base=counted(); }
    void check() {
        std::map<string,const pvd::Field*> m; for(Use& u: uses) { const pvd::Field *f=u.f?u.f.get():u.v->getField().get(); string e=tcheck(f,types[u.type]); CHECK(e.empty(),"content","the description of %s: %s",tstr(types[u.type]).c_str(),e.c_str()); reach(types[u.type],f,m); }
        distinct(m); size_t n=transient(m,perms()); CHECK(counted()==base+n,"released","%zu descriptions exist, %zu are in use",counted()-base,n);
    }
    void create(int k, int route) { mc::op("%s %s",RNAME[route],tstr(types[k]).c_str()); Use u={k,get(types[k],route),pvd::PVFieldPtr()}; uses.push_back(u); check(); }
    void value(int k) { mc::op("value of %s",tstr(types[k]).c_str()); Use u={k,pvd::FieldConstPtr(),make(types[k])}; uses.push_back(u); check(); }
    void drop(int i) { mc::op("drop use %d",i); uses.erase(uses.begin()+i); check(); }
};
}
SCENARIO(pairs) {
    GenT g; g.leaves={tScalar(pvd::pvInt),tScalar(pvd::pvString),tArray(pvd::pvInt),tBString(3),tBString(4),tBArray(pvd::pvInt,3),tFArray(pvd::pvInt,3),tFArray(pvd::pvUInt,3),tAny()}; g.sids={"structure","id"}; g.uids={"union","uid"};
    int ba=1,bb=1; if(mc::tier()) { g.leaves={tScalar(pvd::pvInt),tBString(3),tFArray(pvd::pvInt,3),tAny()}; ba=2; bb=2; } TP a=genT(g,ba), b=genT(g,bb); int ra=mc::tier()?0:mc::choose(3), rb=mc::choose(3); mc::op("%s %s; %s %s",RNAME[ra],tstr(a).c_str(),RNAME[rb],tstr(b).c_str());
    pvd::FieldConstPtr x,y; try { x=get(a,ra); y=get(b,rb); } catch(std::exception& e) { if((a->k==KUnion&&a->kids.empty())||(b->k==KUnion&&b->kids.empty())) mc::skip(); throw; }
    bool same=tsame(a,b); CHECK((x==y)==same,same?"two":"confused","%s and %s are %s object",tstr(a).c_str(),tstr(b).c_str(),x==y?"one":"not one"); CHECK((*x==*y)==same,"compare","== of the descriptions says %d",*x==*y);
    std::map<string,const pvd::Field*> m; reach(a,x.get(),m); reach(b,y.get(),m); distinct(m); string e=tcheck(x.get(),a); if(e.empty()) e=tcheck(y.get(),b); CHECK(e.empty(),"content","%s",e.c_str());
    const pvd::Field *was=x.get(); x.reset(); e=tcheck(y.get(),b); CHECK(e.empty(),"content","after a release: %s",e.c_str()); x=get(a,rb); CHECK((x==y)==same,same?"two":"confused","created again, %s and %s are %s object",tstr(a).c_str(),tstr(b).c_str(),x==y?"one":"not one"); if(same||permanent(a)) CHECK(x.get()==was,"two","another object"); mc::outcome(same?"same":"different");
}
SCENARIO(histories) {
    Hist h; TP s=tStruct({"a"},{tBString(3)}), u=tUnion({"a","b"},{tBString(3),s}); h.types={tBString(3),s,tStructArr(s),u,tStruct({"x","y"},{u,tStructArr(s)}),tUnionArr(u)}; int len=mc::tier()?5:4; size_t kinds=6;
    for(int i=0;i<len;i++) { int o=mc::choose(2+(int)h.uses.size()); if(o>=2) { h.drop(o-2); continue; } int k=mc::choose(kinds); if(o==0) h.create(k,mc::tier()?mc::choose(3):(i&1)?2:1); else h.value(k); }
    while(h.uses.size()) h.drop(h.uses.size()-1); mc::outcome("ok");
}
// different types whose descriptions share a place in the table
namespace {
std::vector<std::pair<int,int> > collisions(const std::function<TP(int)>& mk, const std::function<void(std::ostream&,int)>& text, int n, size_t want) {
    (void)mk; std::map<unsigned,int> seen; std::vector<std::pair<int,int> > r; std::vector<std::pair<unsigned,int> > v;
    for(int i=1;i<=n;i++) { std::ostringstream o; text(o,i); v.push_back(std::make_pair(epicsStrHash(o.str().c_str(),0xbadc0de1),i)); }
    std::sort(v.begin(),v.end()); for(size_t i=1;i<v.size()&&r.size()<want;i++) if(v[i].first==v[i-1].first) r.push_back(std::make_pair(v[i-1].second,v[i].second)); return r;
}
TP coll(int kind, int i) { switch(kind) { case 0: return tBString(i); case 1: return tFArray(pvd::pvInt,i); default: return tStruct({"a"},{tScalar(pvd::pvInt)},sfmt("i%d",i)); } }
string dumped(int kind) { std::ostringstream o; o<<*build(coll(kind,12345)); return o.str(); }
std::vector<std::pair<int,int> > pairsOf(int kind) {
    static std::map<int,std::vector<std::pair<int,int> > > memo; if(memo.count(kind)) return memo[kind]; string d=dumped(kind); size_t p=d.find("12345"); std::vector<std::pair<int,int> > r;
    if(p!=string::npos) r=collisions([kind](int i){ return coll(kind,i); },[&](std::ostream& o, int i) { o<<d.substr(0,p)<<i<<d.substr(p+5); },300000,6); 
    return memo[kind]=r;
}
}
SCENARIO(collisions) {
    int kind=mc::choose(3); static bool once=false; if(!once) { once=true; for(int i=0;i<3;i++) pairsOf(i); } std::vector<std::pair<int,int> > p=pairsOf(kind); if(p.empty()) p.push_back(std::make_pair(3,4)); auto q=p[mc::choose(p.size())];
    Hist h; h.types={coll(kind,q.first),coll(kind,q.second)}; mc::op("types %d and %d of kind %d%s",q.first,q.second,kind,p.size()>1?"":" (no collision found)"); int len=mc::tier()?8:6;
    for(int i=0;i<len;i++) { int o=mc::choose(2+(int)h.uses.size()); if(o>=2) h.drop(o-2); else h.create(o,i%3); }
    mc::outcome(sfmt("%zu in use",h.uses.size()));
}
