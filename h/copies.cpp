// C13: copies are equal to their source and independent of it
#include "valuesh.h"
#include <functional>
using namespace epics::pvData;
typedef std::vector<int> Path; // member / element index, -1: into a union

static PVField *at(PVField *f, const Path& p) { for(int k: p) { if(k<0) f=dynamic_cast<PVUnion&>(*f).get().get(); else f=dynamic_cast<PVStructure&>(*f).getPVFields().at(k).get(); } return f; }
static VP at(VP v, const Path& p) { for(int k: p) v= k<0?v->v:v->kids[k]; return v; }
struct Mut { Path p; int kind; };
enum { MPut, MDecode, MReplace, MReuse, MLen, MSwap, MAppend, MSelect, MClear, MSetNew, NMut };
static const char *MN[]={"put","decode","replace","reuse","setLength","swap","append","select","clear","set"};
static void muts(const VP& v, std::vector<Mut>& out, const Path& p) {
    auto add=[&](int k){ Mut m; m.p=p; m.kind=k; out.push_back(m); };
    switch(v->t->k) {
    case KScalar: case KBString: add(MPut); add(MDecode); break;
    case KArray: case KBArray: case KFArray: add(MReplace); add(MDecode); if(v->a.size()) add(MReuse); if(v->t->k!=KFArray) { if(v->a.size()) add(MLen); add(MSwap); } break;
    case KStruct: add(MDecode); for(size_t i=0;i<v->kids.size();i++) { Path q(p); q.push_back(i); muts(v->kids[i],out,q); } break;
    case KUnion: case KAny: add(MDecode); add(MSelect); add(MClear); add(MSetNew); if(v->v) { Path q(p); q.push_back(-1); muts(v->v,out,q); } break;
    default: add(MDecode); add(MReplace); add(MLen); add(MAppend); if(v->kids.size()) add(MReuse);
    }
}
static MS other(ScalarType st, const MS& v) { return v==sval(st,1)?sval(st,2):sval(st,1); }
// a value of the same type which differs from v in every leaf
static VP changed(const VP& v) {
    VP r=vcopy(v);
    switch(v->t->k) {
    case KScalar: r->s=other(v->t->s,v->s); break;
    case KBString: r->s.s= v->s.s=="q"?"r":"q"; break;
    case KArray: case KBArray: case KFArray: for(auto& e: r->a) e=other(v->t->s,e); if(v->t->k!=KFArray&&r->a.empty()) r->a.push_back(sval(v->t->s,1)); break;
    case KStruct: for(auto& k: r->kids) k=changed(k); break;
    case KUnion: if(v->v) r->v=changed(v->v); else { r->sel=0; r->v=vdefault(v->t->kids[0]); } break;
    case KAny: if(v->v) r->v=changed(v->v); else r->v=vdefault(tScalar(pvInt)); break;
    default: for(auto& k: r->kids) k=k?changed(k):vdefault(v->t->elem); if(r->kids.empty()) r->kids.push_back(vdefault(v->t->elem));
    }
    return r;
}
static void arrMut(PVField *f, int kind, const VP& v) { // v: model after the change
    SDISPATCH(v->t->s, PVValueArray<T>& a=dynamic_cast<PVValueArray<T>&>(*f);
        if(kind==MReuse) { shared_vector<T> d(a.reuse()); for(size_t i=0;i<d.size();i++) d[i]=Conv<T>::to(v->a[i]); a.replace(freeze(d)); }
        else if(kind==MLen) a.setLength(v->a.size());
        else { shared_vector<T> d(v->a.size()); for(size_t i=0;i<d.size();i++) d[i]=Conv<T>::to(v->a[i]); shared_vector<const T> c(freeze(d)); a.swap(c); })
}
template<typename A> static void cmpMut(A& a, int kind, const VP& v) {
    typedef typename A::svector V; typedef typename A::value_type E;
    if(kind==MReuse) { V d(a.reuse()); for(size_t i=0;i<d.size();i++) d[i]=E(); a.replace(freeze(d)); }
    else if(kind==MLen) a.setLength(v->kids.size());
    else { size_t o=a.append(1); CHECK(o==v->kids.size(),"append","append() gave %zu",o); }
}
// apply to model and value
static void mutate(PVField *top, const VP& mtop, const Mut& m) {
    PVField *f=at(top,m.p); VP v=at(mtop,m.p);
    switch(m.kind) {
    case MPut: { VP c=changed(v); *v=*c; putScalar(f,v->t->s,v->s); break; }
    case MDecode: { VP c=changed(v); *v=*c; bytes b=encModel(v,true); Split s; s.minimal=true; decReal(f,b,true,s,false,b.size(),"decode","decoding a change"); break; }
    case MReplace: if(v->t->k<=KFArray) { *v=*changed(v); putArray(f,v->t->s,v->a); } else { VP c=changed(v); *v=*c; assign(f,v); } break;
    case MReuse: if(v->t->k<=KFArray) { *v=*changed(v); arrMut(f,MReuse,v); } else { for(auto& k: v->kids) k.reset(); if(v->t->k==KStructArr) cmpMut(dynamic_cast<PVStructureArray&>(*f),MReuse,v); else cmpMut(dynamic_cast<PVUnionArray&>(*f),MReuse,v); } break;
    case MLen: if(v->t->k<=KFArray) { v->a.pop_back(); arrMut(f,MLen,v); } else { if(v->kids.empty()) v->kids.push_back(VP()); else v->kids.pop_back(); if(v->t->k==KStructArr) cmpMut(dynamic_cast<PVStructureArray&>(*f),MLen,v); else cmpMut(dynamic_cast<PVUnionArray&>(*f),MLen,v); } break;
    case MSwap: { *v=*changed(v); arrMut(f,MSwap,v); break; }
    case MAppend: v->kids.push_back(vdefault(v->t->elem)); if(v->t->k==KStructArr) cmpMut(dynamic_cast<PVStructureArray&>(*f),MAppend,v); else cmpMut(dynamic_cast<PVUnionArray&>(*f),MAppend,v); break;
    case MSelect: { PVUnion& u=dynamic_cast<PVUnion&>(*f); if(v->t->k==KUnion) { int n=(v->sel+1)%(int)v->t->kids.size(); if(n!=v->sel) { v->sel=n; v->v=vdefault(v->t->kids[n]); } u.select(n); } else { v->v.reset(); u.select(PVUnion::UNDEFINED_INDEX); } break; }
    case MClear: { PVUnion& u=dynamic_cast<PVUnion&>(*f); v->sel=-1; v->v.reset(); if(v->t->k==KUnion) u.select(-1); else u.set(PVFieldPtr()); break; }
    case MSetNew: { PVUnion& u=dynamic_cast<PVUnion&>(*f); if(v->t->k==KUnion) { int n=(v->sel+1)%(int)v->t->kids.size(); v->sel=n; v->v=changed(vdefault(v->t->kids[n])); u.set(n,make(v->v)); } else { v->v=changed(vdefault(tStruct({"z"},{tScalar(pvString)}))); u.set(make(v->v)); } break; }
    }
}
static std::vector<TP> catalogue() {
    TP i=tScalar(pvInt), s=tScalar(pvString), u=tUnion({"x","y"},{i,tArray(pvString)},"U"), st=tStruct({"x","y"},{i,s},"S");
    std::vector<TP> r=allLeaves();
    r.push_back(u); r.push_back(st); r.push_back(tStructArr(st)); r.push_back(tUnionArr(u)); r.push_back(tStruct({},{},"E")); r.push_back(tUnion({"s","v"},{st,tAny()}));
    r.push_back(tStruct({"a","u"},{tArray(pvDouble),u},"T")); r.push_back(tStruct({"s","v","t"},{st,tAny(),tStruct({"q"},{tStruct({"b"},{tBArray(pvInt,3)})},"Q")}));
    r.push_back(tStruct({"sa","ua"},{tStructArr(st),tUnionArr(u)})); r.push_back(tUnion({"u","sa"},{u,tStructArr(st)})); r.push_back(tStruct({"bs","fa"},{tBString(4),tFArray(pvShort,2)}));
    return r;
}
static VP gv(const TP& t, int seed, int c) { GenV g(seed,2,false); g.counter=c; g.anyTypes.push_back(tArray(pvLong)); g.anyTypes.push_back(tUnion({"i","s"},{tScalar(pvInt),tStruct({"m"},{tScalar(pvByte)})})); VP v=genV(g,t); return v; }
static void rich(const VP& v) { // unions get a selection so that there is something to copy
    for(auto& k: v->kids) if(k) rich(k);
    if(v->t->k==KUnion&&!v->v) { v->sel=v->t->kids.size()-1; v->v=vdefault(v->t->kids[v->sel]); }
    if(v->t->k==KAny&&!v->v) v->v=vdefault(tStruct({"w","z"},{tScalar(pvInt),tArray(pvString)}));
    if(v->v) rich(v->v);
}
static VP valueOf(const TP& t, int n) { if(n==0 && t->k!=KFArray) return vdefault(t); VP v=gv(t,n%3+1,n*2); if(n%2) rich(v); return v; }
enum { WField, WTyped, WCopy, WCopyU, WAssign, WPVField, NWays };
static const char *WN[]={"createPVField(value)","typed create(value)","copy()","copyUnchecked()","assign()/copy() by base","PVField::copy()"};
static PVFieldPtr doCopy(int way, const PVFieldPtr& from, const PVFieldPtr& to, const TP& t) {
    PVDataCreatePtr c=getPVDataCreate();
    switch(way) {
    case WField: return c->createPVField(from);
    case WTyped: switch(ttype(t)) {
        case scalar: return c->createPVScalar(std::tr1::static_pointer_cast<PVScalar>(from));
        case scalarArray: return c->createPVScalarArray(std::tr1::static_pointer_cast<PVScalarArray>(from));
        case structure: return c->createPVStructure(std::tr1::static_pointer_cast<PVStructure>(from));
        case union_: return c->createPVUnion(std::tr1::static_pointer_cast<PVUnion>(from));
        default: mc::skip(); }
        break;
    case WPVField: to->copy(*from); return to;
    case WCopyU: if(ttype(t)!=scalar && mc::choose(2)) { to->copyUnchecked(*from); return to; } // through the base class
    default:
#define CP(C) { C& d=dynamic_cast<C&>(*to); C& s=dynamic_cast<C&>(*from); if(way==WCopy) d.copy(s); else d.copyUnchecked(s); }
        switch(ttype(t)) {
        case scalar: if(way==WAssign) dynamic_cast<PVScalar&>(*to).assign(dynamic_cast<PVScalar&>(*from)); else CP(PVScalar) break;
        case scalarArray: if(way==WAssign) dynamic_cast<PVScalarArray&>(*to).assign(dynamic_cast<PVScalarArray&>(*from)); else CP(PVScalarArray) break;
        case structure: CP(PVStructure) break; case union_: CP(PVUnion) break; case structureArray: CP(PVStructureArray) break; case unionArray: CP(PVUnionArray) break; }
    }
    return to;
}
#define SAME(obj,val,key,...) do { std::string r_=vcheck(obj.get(),val); CHECK(r_=="",key,"%s: %s",sfmt(__VA_ARGS__).c_str(),r_.c_str()); } while(0)
static void copyCase(const TP& t, int nv) {
    VP v=valueOf(t,mc::choose(nv)); int way=mc::choose(NWays); bool into=way>=WCopy; VP w=into?valueOf(t,mc::choose(nv)):VP();
    mc::op("%s of %s %s%s%s",WN[way],tstr(t).c_str(),vstr(v).c_str(),into?" over ":"",into?vstr(w).c_str():"");
    PVFieldPtr a=make(v), b; if(into) b=make(w);
    PVStructurePtr holder; bool nested=mc::choose(2); // source is a field of a structure
    VP hv; if(nested) { TP ht=tStruct({"p","f"},{tScalar(pvInt),t},"H"); hv=vdefault(ht); hv->kids[1]=v; hv->kids[0]->s=MS(7); holder=makeS(hv); a=holder->getPVFields()[1]; }
    b=doCopy(way,a,b,t); mc::state(mc::hmix(vhash(v),way)); mc::outcome(WN[way]);
    CHECK(b.get()!=a.get(),"copy-same-object","the copy is the source object");
    SAME(b,v,"copy-value","the copy of %s",vstr(v).c_str()); SAME(a,v,"copy-source","the source %s after copying",vstr(v).c_str());
    CHECK(*a==*b,"copy-equal","copy and source do not compare equal");
    if(nested) { SAME(holder,hv,"copy-holder","the structure the source belongs to"); CHECK(a->getParent()==holder.get()&&a->getFieldName()=="f","copy-holder","the source lost its parent or name"); }
    CHECK(b->getParent()==0&&b->getFieldName()=="","copy-parent","the copy has a parent or a name"); CHECK(!b->isImmutable(),"copy-immutable","the copy is immutable");
    // then one change on either side
    std::vector<Mut> ms; muts(v,ms,Path()); int side=mc::choose(2), m=mc::choose(ms.size()+1); if(!m) { if(side) mc::skip(); return; }
    VP mv=vcopy(v); std::string ps; for(int k: ms[m-1].p) ps+="/"+mc::str(k); mc::op("then %s at %s of the %s",MN[ms[m-1].kind],ps.c_str(),side?"source":"copy");
    mutate(side?a.get():b.get(),mv,ms[m-1]);
    SAME((side?a:b),mv,"change","the changed side after %s",MN[ms[m-1].kind]);
    SAME((side?b:a),v,"independence","%s at %s of the %s changed the other side",MN[ms[m-1].kind],ps.c_str(),side?"source":"copy");
    mc::state(mc::hmix(vhash(mv),vhash(v)));
}
SCENARIO(copy_then_change, mc::Opts().S(2)) { static std::vector<TP> C=catalogue(); copyCase(C[mc::choose(C.size())],mc::tier()?6:4); }
// two changes after the copy, on compounds
SCENARIO(two_changes) {
    TP i=tScalar(pvInt), s=tScalar(pvString), u=tUnion({"x","y"},{i,tStruct({"l"},{tArray(pvInt)})},"U"); std::vector<TP> C={tStruct({"a","u"},{tArray(pvDouble),u}),tStruct({"v","q"},{tAny(),s}),tStruct({"sa","b"},{tStructArr(tStruct({"x"},{i})),tScalar(pvByte)}),u,tArray(pvString),tUnionArr(u)};
    TP t=C[mc::choose(C.size())]; VP v=valueOf(t,1); PVFieldPtr a=make(v), b; int way=mc::choose(4); VP w=valueOf(t,2); if(way>=2) b=make(w); b=doCopy(way,a,b,t); VP m[2]={vcopy(v),vcopy(v)}; PVField *f[2]={a.get(),b.get()};
    for(int k=0;k<(mc::tier()?3:2);k++) { int side=mc::choose(2); std::vector<Mut> ms; muts(m[side],ms,Path()); int c=mc::choose(ms.size()); mc::op("%s on the %s",MN[ms[c].kind],side?"copy":"source"); mutate(f[side],m[side],ms[c]); SAME(a,m[0],"independence2","source"); SAME(b,m[1],"independence2","copy"); }
    mc::state(mc::hmix(vhash(m[0]),vhash(m[1])));
}
// every mask, from and to a top level structure or a nested one
static TP genMask() {
    GenT g; g.leaves.push_back(tScalar(pvInt)); if(mc::tier()) g.leaves.push_back(tArray(pvString)); g.unions=g.arrays=false; int budget=mc::tier()?5:4; return genT(g,budget,true);
}
static VP distinct(const TP& t, int& n) { VP v=vdefault(t); switch(t->k) { case KScalar: v->s=MS((uint64_t)++n); break; case KArray: v->a.push_back(MS("e"+mc::str(++n))); break; default: for(size_t i=0;i<t->kids.size();i++) v->kids[i]=distinct(t->kids[i],n); } return v; }
SCENARIO(masked) {
    TP t=genMask(); int n=0; bool nested=mc::choose(2); TP full= nested?tStruct({"p","s","z"},{tScalar(pvInt),t,tScalar(pvInt)},"P"):t; VP s=distinct(full,n), d=distinct(full,n); size_t cnt=tcount(full);
    bool inverse=mc::choose(2); PVStructurePtr from=makeS(s); size_t at0=nested?2:0; PVStructure *fs=from.get(); if(nested) fs=dynamic_cast<PVStructure*>(from->getPVFields()[1].get());
    VP sv=nested?s->kids[1]:s, dv=nested?d->kids[1]:d; mc::op("%s %s%s",inverse?"inverse":"direct",nested?"nested ":"",tstr(t).c_str()); size_t c=tcount(t);
    // bits outside the structure must not matter
    int outside=nested?mc::choose(2):0;
    for(size_t m=0;m<(1u<<c);m++) { BitSet bs; std::vector<bool> sel(cnt+70,inverse); for(size_t i=0;i<c;i++) if(m>>i&1) { bs.set(at0+i); sel[at0+i]=!inverse; }
        if(outside) { bs.set(0); bs.set(1); bs.set(at0+c); bs.set(at0+c+64); }
        PVStructurePtr to=makeS(dv); to->copyUnchecked(*fs,bs,inverse); mc::step();
        VP want=maskedUpdate(dv,sv,at0,sel); std::string r=vcheck(to.get(),want); CHECK(r=="","masked","mask %zx %s of %s: %s",m,inverse?"inverse":"",tstr(t).c_str(),r.c_str());
        r=vcheck(from.get(),s); CHECK(r=="","masked-source","mask %zx changed the source: %s",m,r.c_str()); }
    mc::state(mc::hmix(thash(t),inverse*2+nested));
}
// incompatible types and immutable targets are refused without effect
SCENARIO(refused) {
    static std::vector<TP> C=catalogue(); TP t=C[mc::choose(C.size())], q=C[mc::choose(C.size())]; VP v=valueOf(t,1), w=valueOf(q,2); bool imm=mc::choose(2); int way=WCopy+mc::choose(3); if(way==WCopyU) mc::skip();
    bool same=tsame(t,q); if(imm!=same) mc::skip(); if(way==WAssign) way=WPVField;
    if(way==WCopy && ttype(t)!=ttype(q)) mc::skip();
    if(way==WCopy && ttype(t)<=scalarArray && !same) mc::skip(); // these convert
    PVFieldPtr a=make(v), b=make(w); if(imm) b->setImmutable(); mc::op("%s of %s into %s%s",WN[way],tstr(t).c_str(),imm?"immutable ":"",tstr(q).c_str());
    std::string e=thrown([&]{ doCopy(way,a,b,t); }); CHECK(e!="","refuse","%s of %s into %s%s is accepted",WN[way],tstr(t).c_str(),imm?"immutable ":"",tstr(q).c_str());
    SAME(b,w,"refuse-effect","refused copy"); SAME(a,v,"refuse-effect","source of refused copy"); mc::state(mc::hmix(thash(t),thash(q)));
}
// creating from NULL, and a structure from members
SCENARIO(from_members) {
    TP i=tScalar(pvInt), s=tStruct({"x","y"},{i,tScalar(pvString)},"S"); VP v1=valueOf(s,1), v2=valueOf(tArray(pvInt),1), v3=valueOf(tStruct({"n"},{s}),2);
    PVStructurePtr z=getPVDataCreate()->createPVStructure(PVStructurePtr()); CHECK(z&&z->getPVFields().empty(),"null","createPVStructure(NULL)");
    PVFieldPtr f[3]={make(v1),make(v2),make(v3)}; int queried=mc::choose(8); for(int k=0;k<3;k++) if(queried>>k&1) { f[k]->getNextFieldOffset(); if(k!=1) dynamic_cast<PVStructure&>(*f[k]).getSubField(1); }
    std::vector<int> o={0,1,2}; int perm=mc::choose(6); while(perm--) std::next_permutation(o.begin(),o.end()); StringArray n={"p","q","r"}; PVFieldPtrArray a; VP mv[3]={v1,v2,v3}; std::vector<TP> kt; for(int k: o) { a.push_back(f[k]); kt.push_back(mv[k]->t); }
    PVStructurePtr p=getPVDataCreate()->createPVStructure(n,a); VP want=vdefault(tStruct({"p","q","r"},kt)); for(int k=0;k<3;k++) want->kids[k]=mv[o[k]]; SAME(p,want,"members","structure from members");
    if(mc::choose(2)) { int k=mc::choose(3); size_t w=1; for(int j=0;j<k;j++) w+=tcount(kt[j]); mc::op("asked member %d first",k); CHECK(a[k]->getFieldOffset()==w,"members-stale","member %d of the new structure has number %zu, want %zu",k,a[k]->getFieldOffset(),w); }
    size_t num=0; std::function<void(const PVField*,const TP&)> walk=[&](const PVField *q, const TP& t) { size_t me=num++; CHECK(q->getFieldOffset()==me,"members-number","%s has number %zu, want %zu (queried %d)",q->getFullName().c_str(),q->getFieldOffset(),me,queried); if(t->k==KStruct) for(size_t k=0;k<t->kids.size();k++) walk(dynamic_cast<const PVStructure&>(*q).getPVFields()[k].get(),t->kids[k]); CHECK(q->getNextFieldOffset()==num,"members-number","%s ends at %zu, want %zu",q->getFullName().c_str(),q->getNextFieldOffset(),num); };
    walk(p.get(),want->t); mc::op("order %d%d%d queried %d",o[0],o[1],o[2],queried); mc::state(perm*8+queried);
}
// wide structures: whole copies, and masks of one field, of a pair and of a run anywhere
SCENARIO(wide_masks, mc::Opts().S(2)) {
    static const size_t W[]={64,65,130,300}; int shape=mc::choose(2)*2; TP t=tWide(W[mc::choose(4)],shape?1:0); if(shape) { std::vector<TP> k(t->kids); std::vector<std::string> nm(t->names); for(auto& x: k) if(x->k!=KStruct) x=tScalar(pvInt); t=tStruct(nm,k,"W"); }
    int n=0; bool inverse=mc::choose(2), nested=mc::choose(2); TP full=nested?tStruct({"p","s","z"},{tScalar(pvInt),t,tScalar(pvInt)},"P"):t; std::function<VP(const TP&)> dist=[&](const TP& x) { VP v=vdefault(x); n++; if(x->k==KScalar) v->s= x->s==pvString?MS("e"+mc::str(n)):MS((uint64_t)n); for(size_t i=0;i<x->kids.size()&&x->k==KStruct;i++) v->kids[i]=dist(x->kids[i]); return v; };
    std::function<bool(const TP&)> plain=[&](const TP& x) { if(x->k==KStruct) { for(auto& q: x->kids) if(!plain(q)) return false; return true; } return x->k==KScalar&&(x->s==pvInt||x->s==pvString); }; CHECK(shape||plain(t),"self","wide type");
    VP s=dist(full), d=dist(full); size_t cnt=tcount(full), at0=nested?2:0, c=tcount(t); PVStructurePtr from=makeS(s); PVStructure *fs=from.get(); if(nested) fs=dynamic_cast<PVStructure*>(from->getPVFields()[1].get()); VP sv=nested?s->kids[1]:s, dv=nested?d->kids[1]:d; int kind=mc::choose(3); mc::op("%zu fields, masks of kind %d%s%s",c,kind,inverse?" inverse":"",nested?" nested":"");
    PVStructurePtr to=makeS(dv);
    for(size_t a=0;a<c;a++) { size_t b= kind==0?a:kind==1?(a*7+3)%c:std::min(c-1,a+62+a%5); BitSet bs; std::vector<bool> sel(cnt+70,inverse); for(size_t i=0;i<c;i++) if(i==a||i==b||(kind==2&&i>a&&i<b)) { bs.set(at0+i); sel[at0+i]=!inverse; }
        assign(to.get(),dv); to->copyUnchecked(*fs,bs,inverse); mc::step(); VP want=maskedUpdate(dv,sv,at0,sel); std::string r=vcheck(to.get(),want); CHECK(r=="","masked","fields %zu and %zu: %s",a,b,r.c_str()); }
    std::string r=vcheck(from.get(),s); CHECK(r=="","masked-source","the source: %s",r.c_str()); assign(to.get(),dv); to->copyUnchecked(*fs); r=vcheck(to.get(),sv); CHECK(r=="","masked","whole copy: %s",r.c_str()); mc::state(mc::hmix(thash(full),inverse*2+kind*4));
}
