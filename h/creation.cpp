// C33: new values are the default of exactly the type asked for, whichever way they are made
#include "valuesh.h"
using namespace epics::pvData;
static GenT gen(int) { GenT g; g.leaves=allLeaves(); return g; }
// a new value: bounded and variable arrays and also fixed ones are empty, unions have no selection
static VP fresh(const TP& t) { VP v=vdefault(t); std::function<void(VP&)> f=[&](VP& x) { if(x->t->k==KFArray) x->a.clear(); for(auto& k: x->kids) f(k); }; f(v); return v; }
static const char *RN[]={"createPVField","Field::build","build of the specific type","create of the specific type","createPVField of a value","create of the specific class of value","from the code or the members"};
template<typename T> static PVFieldPtr byCode(const FieldConstPtr& f) { if(f->getType()==scalar) return mc::choose(2)?PVFieldPtr(getPVDataCreate()->createPVScalar<PVScalarValue<T> >()):PVFieldPtr(getPVDataCreate()->createPVScalar(static_cast<const Scalar*>(f.get())->getScalarType())); ScalarType st=static_cast<const ScalarArray*>(f.get())->getElementType(); return mc::choose(2)?PVFieldPtr(getPVDataCreate()->createPVScalarArray<PVValueArray<T> >()):PVFieldPtr(getPVDataCreate()->createPVScalarArray(st)); }
static PVFieldPtr create(const TP& t, const FieldConstPtr& f, int how) {
    PVDataCreatePtr d=getPVDataCreate(); using std::tr1::static_pointer_cast;
    switch(how) {
    case 0: return d->createPVField(f); case 1: return f->build();
    case 2: switch(f->getType()) { case scalar: return static_pointer_cast<const Scalar>(f)->build(); case scalarArray: return static_pointer_cast<const ScalarArray>(f)->build(); case structure: return static_pointer_cast<const Structure>(f)->build(); case structureArray: return static_pointer_cast<const StructureArray>(f)->build(); case union_: return static_pointer_cast<const Union>(f)->build(); default: return static_pointer_cast<const UnionArray>(f)->build(); }
    case 3: switch(f->getType()) { case scalar: return d->createPVScalar(static_pointer_cast<const Scalar>(f)); case scalarArray: return d->createPVScalarArray(static_pointer_cast<const ScalarArray>(f)); case structure: return d->createPVStructure(static_pointer_cast<const Structure>(f)); case structureArray: return d->createPVStructureArray(static_pointer_cast<const StructureArray>(f)); case union_: return d->createPVUnion(static_pointer_cast<const Union>(f)); default: return d->createPVUnionArray(static_pointer_cast<const UnionArray>(f)); }
    case 4: return d->createPVField(d->createPVField(f));
    case 5: { PVFieldPtr v(d->createPVField(f)); switch(f->getType()) { case scalar: return d->createPVScalar(static_pointer_cast<PVScalar>(v)); case scalarArray: return d->createPVScalarArray(static_pointer_cast<PVScalarArray>(v)); case structure: return d->createPVStructure(static_pointer_cast<PVStructure>(v)); case union_: return d->createPVUnion(static_pointer_cast<PVUnion>(v)); default: mc::skip(); } }
    default: switch(t->k) { case KScalar: SDISPATCH(t->s, return byCode<T>(f)) case KArray: SDISPATCH(t->s, return byCode<T>(f)) case KAny: return d->createPVVariantUnion(); case KAnyArr: return d->createPVVariantUnionArray(); case KStruct: { if(t->id!="structure") mc::skip(); PVFieldPtrArray k; for(auto& x: t->kids) k.push_back(make(x)); return d->createPVStructure(StringArray(t->names.begin(),t->names.end()),k); } default: mc::skip(); }
    }
    return PVFieldPtr();
}
static VP filled(const TP& t) { GenV g(3,2,false); VP v=genV(g,t); return v; }
static bool hasFixed(const TP& t) { if(t->k==KFArray) return t->n>0; if(t->k==KStruct) for(auto& k: t->kids) if(hasFixed(k)) return true; return false; }
static void one(const TP& t) {
    FieldConstPtr f=build(t); int how=mc::choose(7); mc::op("%s by %s",tstr(t).c_str(),RN[how]); if((how==4||how==5)&&hasFixed(t)) mc::skip(); /* an array of fixed length which was never filled is refused as a source */ PVFieldPtr a=create(t,f,how), b=create(t,f,how); VP want=fresh(t);
    for(int k=0;k<2;k++) { const PVFieldPtr& x=k?b:a; CHECK(x.get(),"null","%s gives nothing",RN[how]); std::string r=vcheck(x.get(),want); CHECK(r=="","default","%s by %s: %s",tstr(t).c_str(),RN[how],r.c_str()); CHECK(x->getField()==f||how==6,"type","%s by %s has another type object",tstr(t).c_str(),RN[how]); CHECK(*x->getField()==*f,"type","%s by %s has type %s",tstr(t).c_str(),RN[how],x->getField()->getID().c_str()); CHECK(!x->isImmutable()&&!x->getParent()&&x->getFieldName()==""&&x->getFieldOffset()==0&&x->getNumberFields()==tcount(t)&&x->getNextFieldOffset()==tcount(t),"fresh","%s by %s: immutable %d, parent %p, name '%s', offset %zu, next %zu, fields %zu",tstr(t).c_str(),RN[how],x->isImmutable(),(const void*)x->getParent(),x->getFieldName().c_str(),x->getFieldOffset(),x->getNextFieldOffset(),x->getNumberFields()); CHECK(x.use_count()==1,"shared","%s by %s: the new value is held %ld times",tstr(t).c_str(),RN[how],(long)x.use_count());
        if(PVScalarArray *p=dynamic_cast<PVScalarArray*>(x.get())) CHECK(p->isCapacityMutable()&&p->getLength()==0,"array","capacity of a new array"); }
    CHECK(*a==*b,"equal","two new values of %s differ",tstr(t).c_str()); CHECK(a.get()!=b.get(),"same","the same object twice");
    VP v=filled(t); assign(a.get(),v); std::string r=vcheck(a.get(),v); CHECK(r=="","assign","new %s by %s cannot take a value: %s",tstr(t).c_str(),RN[how],r.c_str()); r=vcheck(b.get(),want); CHECK(r=="","independent","another new %s by %s changes: %s",tstr(t).c_str(),RN[how],r.c_str()); PVFieldPtr c=create(t,f,how); r=vcheck(c.get(),want); CHECK(r=="","later","a later %s by %s: %s",tstr(t).c_str(),RN[how],r.c_str());
    mc::state(mc::hmix(thash(t),how)); mc::outcome(RN[how]);
}
SCENARIO(routes, mc::Opts().S(3)) { GenT g=gen(0); int b=1; one(genT(g,b,false)); }
SCENARIO(routes_deep, mc::Opts().S(4)) { GenT g; g.leaves={tScalar(pvInt),tFArray(pvString,2),tAny()}; g.sids.push_back("S"); int b=mc::tier()?4:3; one(genT(g,b,mc::choose(2))); }
// values made from a list of names and values: the values themselves become the members
SCENARIO(from_members, mc::Opts().S(3)) {
    int n=mc::choose(4); StringArray names; PVFieldPtrArray vals; std::vector<VP> want; std::shared_ptr<MT> t(new MT(KStruct)); t->id="structure"; static const char *N[]={"a","b","c"};
    for(int i=0;i<n;i++) { TP k; switch(mc::choose(7)) { case 0: k=tScalar(pvInt); break; case 1: k=tScalar(pvString); break; case 2: k=tArray(pvDouble); break; case 3: k=tStruct({"x","y"},{tScalar(pvInt),tStruct({"z"},{tScalar(pvInt)})},"E"); break; case 4: k=tUnion({"i","s"},{tScalar(pvInt),tScalar(pvString)}); break; case 5: k=tAny(); break; default: k=tStructArr(tStruct({"q"},{tScalar(pvInt)})); } names.push_back(N[i]); t->names.push_back(N[i]); t->kids.push_back(k); VP v=filled(k); want.push_back(v); vals.push_back(make(v)); }
    int bad=mc::choose(4); if(bad==1) { if(n<2) mc::skip(); names[1]=names[0]; } if(bad==2) { if(n<1) mc::skip(); names[n-1]="1x"; } if(bad==3) { if(n<1) mc::skip(); names[0]=""; }
    mc::op("%s names %d",tstr(t).c_str(),bad); PVStructurePtr s; std::string e=thrown([&]{ s=getPVDataCreate()->createPVStructure(names,vals); }); CHECK((e!="")==(bad!=0),"names",bad?"bad names accepted":"refused: %s",e.c_str()); if(bad) { mc::outcome("refused"); return; }
    VP v(new MV(t)); v->kids=want; std::string r=vcheck(s.get(),v); CHECK(r=="","members","%s",r.c_str()); size_t off=1; for(int i=0;i<n;i++) { CHECK(s->getPVFields()[i]==vals[i],"members","member %d is another object",i); CHECK(vals[i]->getFieldOffset()==off&&vals[i]->getFullName()==names[i],"members","member %d is at %zu, named %s",i,vals[i]->getFieldOffset(),vals[i]->getFullName().c_str()); off+=tcount(t->kids[i]); } CHECK(s->getNumberFields()==off&&s->getField()==getFieldCreate()->createStructure(names,s->getStructure()->getFields()),"members","type"); mc::outcome("made"); mc::state(thash(t));
}
// access to a scalar through every form: put/get, <<= and >>=, putFrom/getAs of its own type
template<typename T> static void forms(ScalarType st) {
    std::tr1::shared_ptr<PVScalarValue<T> > s(getPVDataCreate()->createPVScalar<PVScalarValue<T> >()); MS m; for(int k=0;k<3;k++) { MS w=sval(st,mc::choose(5)); T x=Conv<T>::to(w); int p=mc::choose(3); switch(p) { case 0: s->put(x); break; case 1: *s<<=x; break; default: s->template putFrom<T>(x); } mc::op("%s form %d",msstr(st,w).c_str(),p); T a=s->get(), b=T(), c=s->template getAs<T>(); *s>>=b; CHECK(Conv<T>::from(a)==w&&Conv<T>::from(b)==w&&Conv<T>::from(c)==w,"forms","%s by form %d reads as %s, %s, %s",msstr(st,w).c_str(),p,msstr(st,Conv<T>::from(a)).c_str(),msstr(st,Conv<T>::from(b)).c_str(),msstr(st,Conv<T>::from(c)).c_str()); }
}
SCENARIO(scalar_forms, mc::Opts().S(3)) { ScalarType st=(ScalarType)mc::choose(12); SDISPATCH(st, forms<T>(st)) }
