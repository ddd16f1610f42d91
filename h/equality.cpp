// C12: equality of types and values
#include <limits>
#include "model.h"
using namespace epics::pvData;

static std::vector<TP> types() {
    std::vector<TP> r=allLeaves(); TP i=tScalar(pvInt), s=tScalar(pvString), bs=tBString(3), a=tArray(pvInt), ba=tBArray(pvInt,2), fa=tFArray(pvInt,2), y=tScalar(pvByte);
    std::vector<TP> base={i,s,bs,a,ba,fa,tAny(),tStruct({},{}),tUnion({"x"},{i})};
    std::vector<TP> comp; std::vector<std::string> sid={"structure","S","union","any"}, uid={"union","U","structure","any"};
    for(auto& id: sid) comp.push_back(tStruct({},{},id));
    for(size_t k=0;k<4;k++) for(auto& m: base) { comp.push_back(tStruct({"x"},{m},sid[k])); comp.push_back(tUnion({"x"},{m},uid[k])); }
    for(auto& m: {i,s,a}) for(auto& m2: {i,s}) { comp.push_back(tStruct({"x","y"},{m,m2})); comp.push_back(tStruct({"y","x"},{m,m2})); comp.push_back(tUnion({"x","y"},{m,m2})); comp.push_back(tUnion({"y","x"},{m,m2})); }
    comp.push_back(tStruct({"x","y","z"},{i,i,i})); comp.push_back(tStruct({"x","z"},{i,i})); comp.push_back(tUnion({"x","y","z"},{i,i,i}));
    std::vector<TP> more; for(size_t k=0;k<comp.size();k+=1) { const TP& c=comp[k]; if(c->k==KStruct) more.push_back(tStructArr(c)); else more.push_back(tUnionArr(c)); }
    std::vector<TP> nest; for(size_t k=0;k<comp.size();k+=3) { nest.push_back(tStruct({"n"},{comp[k]})); nest.push_back(tStruct({"n","x"},{comp[k],i})); nest.push_back(tUnion({"n"},{comp[k]})); }
    for(size_t k=0;k<more.size();k+=3) { nest.push_back(tStruct({"n"},{more[k]})); nest.push_back(tUnion({"n"},{more[k]})); }
    r.insert(r.end(),comp.begin(),comp.end()); r.insert(r.end(),more.begin(),more.end()); r.insert(r.end(),nest.begin(),nest.end()); return r;
}
SCENARIO(type_pairs) {
    static std::vector<TP> T=types(); TP a=T[mc::choose(T.size())]; mc::op("%s against all",tstr(a).c_str()); FieldConstPtr f=build(a); mc::state(thash(a));
    for(size_t k=0;k<T.size();k++) { FieldConstPtr g=build(T[k]); mc::step(); bool want=tsame(a,T[k]);
        CHECK((*f==*g)==want&&(*g==*f)==want&&(*f!=*g)==!want,"type==","%s == %s is %d",tstr(a).c_str(),tstr(T[k]).c_str(),!want); CHECK(compare(*f,*g)==want&&compare(*g,*f)==want,"compare","compare(%s, %s) is %d",tstr(a).c_str(),tstr(T[k]).c_str(),!want); }
    CHECK(compare(*f,*f)&&*f==*f,"compare","%s is not equal to itself",tstr(a).c_str());
}
static VP gv(const TP& t, int seed, int c) { GenV g(seed,2,false); g.counter=c; return genV(g,t); }
static std::vector<VP> values() {
    TP i=tScalar(pvInt), s=tScalar(pvString), u=tUnion({"x","y"},{i,s}), u2=tUnion({"x","y"},{i,i}), st=tStruct({"x","y"},{i,s}), e=tStruct({},{}); std::vector<VP> r;
    std::vector<TP> T={u,u2,tAny(),st,tStructArr(st),tUnionArr(u),tAnyArr(),tStruct({"u","v"},{u,tAny()}),tStruct({"u","v"},{u2,tAny()}),tStruct({"a","b"},{tArray(pvString),tStructArr(e)}),tStruct({"s"},{st}),tStruct({"s"},{st},"ID"),tUnion({"n"},{st}),tUnion({"n"},{tUnionArr(u)}),tStructArr(tStruct({"s"},{tStructArr(st)})),e,tStructArr(e)};
    for(int k=0;k<12;k++) { T.push_back(tScalar((ScalarType)k)); T.push_back(tArray((ScalarType)k)); } T.push_back(tBString(9)); T.push_back(tBArray(pvInt,9)); T.push_back(tFArray(pvInt,2)); T.push_back(tBArray(pvString,9)); T.push_back(tStruct({"b"},{tBArray(pvInt,9)})); T.push_back(tStruct({"b"},{tArray(pvInt)}));
    for(auto& t: T) { std::vector<VP> m; if(t->k!=KFArray) m.push_back(vdefault(t)); for(int k=1;k<14&&m.size()<9;k++) { VP v=gv(t,k%5+1,k*2); bool d=false; for(auto& x:m) d|=vsame(x,v); if(!d) m.push_back(v); }
        // every single change of the last one
        if(t->k==KStructArr||t->k==KUnionArr||t->k==KAnyArr) { for(int n=0;n<3;n++) { VP v=vdefault(t); for(int q=0;q<2;q++) v->kids.push_back((n>>q&1)?VP():vdefault(t->elem)); m.push_back(v); } VP v=vdefault(t); v->kids.push_back(VP()); m.push_back(v); }
        if(t->k==KAny) { for(auto& x: {i,s,tScalar(pvUInt),tArray(pvInt),st,tAny()}) { VP v=vdefault(t); v->v=vdefault(x); m.push_back(v); } }
        if(t->k==KUnion) for(size_t q=0;q<t->kids.size();q++) { VP v=vdefault(t); v->sel=q; v->v=vdefault(t->kids[q]); m.push_back(v); }
        r.insert(r.end(),m.begin(),m.end()); }
    return r;
}
// single scalars and scalar arrays compare by element type; inside compounds the whole type counts
static bool want(const VP& a, const VP& b) {
    if(a->t->k<=KFArray && b->t->k<=KFArray && (a->t->k<=KBString)==(b->t->k<=KBString)) return a->t->s==b->t->s && a->s==b->s && a->a==b->a;
    if(a->t->k==KAny&&b->t->k==KAny&&a->v&&b->v) return want(a->v,b->v);
    return vsame(a,b);
}
SCENARIO(value_pairs) {
    static std::vector<VP> V=values(); VP a=V[mc::choose(V.size())]; mc::op("%s %s against all",tstr(a->t).c_str(),vstr(a).c_str()); PVFieldPtr p=make(a); mc::state(vhash(a));
    int part=mc::choose(4);
    for(size_t k=part;k<V.size();k+=4) { PVFieldPtr q=make(V[k]); mc::step(); bool w=want(a,V[k]); std::string d=tstr(a->t)+" "+vstr(a)+" and "+tstr(V[k]->t)+" "+vstr(V[k]);
        CHECK((*p==*q)==w,"value==","%s: == is %d",d.c_str(),!w); CHECK(const_cast<PVField&>(static_cast<const PVField&>(*p)).equals(const_cast<PVField&>(static_cast<const PVField&>(*q)))==w,"equals","%s: equals() is %d",d.c_str(),!w); CHECK((*q==*p)==w,"value==sym","%s: == is not symmetric",d.c_str()); CHECK((*p!=*q)==!w,"value!=","%s: != is %d",d.c_str(),w); mc::outcome(w?"equal":"different"); 
        std::string r=vcheck(p.get(),a); if(r=="") r=vcheck(q.get(),V[k]); CHECK(r=="","value-const","comparing changed a value: %s",r.c_str()); }
    CHECK(*p==*p&&!(*p!=*p),"reflexive","%s is not equal to itself",vstr(a).c_str());
}
// one change anywhere makes two equal values different
static void leaves(const VP& v, std::vector<std::function<bool(const VP&)>>& out, std::vector<int> path) {
    auto at=[path](const VP& r) { VP x=r; for(int p: path) x= p<0?x->v:x->kids[p]; return x; };
    switch(v->t->k) {
    case KScalar: out.push_back([at](const VP& r){ VP x=at(r); if(x->t->s==pvString) x->s.s+="!"; else x->s=sval(x->t->s,x->s==sval(x->t->s,1)?2:1); return true; }); break;
    case KBString: out.push_back([at](const VP& r){ VP x=at(r); x->s.s= x->s.s=="q"?"r":"q"; return true; }); break;
    case KArray: case KBArray: case KFArray: for(size_t i=0;i<v->a.size();i++) out.push_back([at,i](const VP& r){ VP x=at(r); x->a[i]= x->a[i]==sval(x->t->s,1)?sval(x->t->s,0):sval(x->t->s,1); return true; }); if(v->t->k!=KFArray) { if(v->t->k==KArray||v->a.size()<v->t->n) out.push_back([at](const VP& r){ VP x=at(r); x->a.push_back(sval(x->t->s,0)); return true; }); if(v->a.size()) out.push_back([at](const VP& r){ at(r)->a.pop_back(); return true; }); } break;
    case KUnion: case KAny: out.push_back([at](const VP& r){ VP x=at(r); if(!x->v) { if(x->t->k==KUnion) { x->sel=0; x->v=vdefault(x->t->kids[0]); } else x->v=vdefault(tScalar(pvInt)); } else { x->sel=-1; x->v.reset(); } return true; }); if(v->v) { std::vector<int> p(path); p.push_back(-1); leaves(v->v,out,p); } break;
    case KStruct: break;
    default: out.push_back([at](const VP& r){ at(r)->kids.push_back(VP()); return true; }); for(size_t i=0;i<v->kids.size();i++) out.push_back([at,i](const VP& r){ VP x=at(r); if(x->kids[i]) x->kids[i].reset(); else x->kids[i]=vdefault(x->t->elem); return true; });
    }
    for(size_t i=0;i<v->kids.size();i++) if(v->kids[i]) { std::vector<int> p(path); p.push_back(i); leaves(v->kids[i],out,p); }
}
SCENARIO(single_changes) {
    TP u=tUnion({"i","a"},{tScalar(pvLong),tArray(pvString)}), s=tStruct({"f","u"},{tScalar(pvFloat),u}), t; std::vector<std::string> n; std::vector<TP> k;
    for(int q=0;q<12;q++) { n.push_back("s"+mc::str(q)); k.push_back(tScalar((ScalarType)q)); n.push_back("a"+mc::str(q)); k.push_back(tArray((ScalarType)q)); }
    n.push_back("bs"); k.push_back(tBString(8)); n.push_back("ba"); k.push_back(tBArray(pvDouble,3)); n.push_back("fa"); k.push_back(tFArray(pvString,2)); n.push_back("u"); k.push_back(u); n.push_back("v"); k.push_back(tAny()); n.push_back("st"); k.push_back(s); n.push_back("sa"); k.push_back(tStructArr(s)); n.push_back("ua"); k.push_back(tUnionArr(u)); n.push_back("va"); k.push_back(tAnyArr()); t=tStruct(n,k);
    VP v=gv(t,1+mc::choose(4),1+mc::choose(6)); std::vector<std::function<bool(const VP&)>> ch; leaves(v,ch,{}); VP w=vcopy(v); int c=mc::choose(ch.size()); ch[c](w); mc::op("change %d gives %s",c,vstr(w).c_str()); PVFieldPtr p=make(v), q=make(v), r=make(w);
    CHECK(*p==*q,"single-equal","equal values differ"); CHECK(*p!=*r&&!(*r==*p),"single-change","a single change goes unnoticed: %s and %s",vstr(v).c_str(),vstr(w).c_str()); mc::state(vhash(w));
}

// arrays which share storage, or parts of it, are compared by contents
template<typename A> static void sharing(const std::tr1::shared_ptr<A>& a, const std::tr1::shared_ptr<A>& b, const typename A::svector& els) {
    typedef typename A::const_svector C; int n=mc::choose(els.size()+1); typename A::svector v(n); for(int i=0;i<n;i++) v[i]=els[i]; C all(freeze(v)); C x(all), y(all);
    int o=mc::choose(n+1), c=mc::choose(n-o+1), o2=mc::choose(n+1), c2=mc::choose(n-o2+1); x.slice(o,c); y.slice(o2,c2); a->replace(x); int how=mc::choose(3);
    if(how==0) b->replace(y); else if(how==1) { b->replace(all); if(o2) mc::skip(); b->setLength(c2); } else { typename A::svector w(c2); for(int i=0;i<c2;i++) w[i]=y[i]; C cw(freeze(w)); b->replace(cw); }
    mc::op("%d elements: [%d,%d) and [%d,%d) how %d",n,o,o+c,o2,o2+c2,how); bool want=c==c2; for(int i=0;want&&i<c;i++) want=els[o+i]==els[o2+i];
    const PVField &p=*a, &q=*b; CHECK((p==q)==want&&(q==p)==want&&(p!=q)==!want,"sharing","%d elements: parts [%d,%d) and [%d,%d) (%d) compare %d",n,o,o+c,o2,o2+c2,how,!want); mc::outcome(want?"equal":"different"); mc::state(n*10000+o*1000+c*100+o2*10+c2);
}
template<typename T> static void sharingS(ScalarType st) { typename PVValueArray<T>::svector e(4); for(int i=0;i<4;i++) e[i]=Conv<T>::to(sval(st,i==3?0:i)); typedef std::tr1::shared_ptr<PVValueArray<T> > P; sharing<PVValueArray<T> >(std::tr1::static_pointer_cast<PVValueArray<T> >(getPVDataCreate()->createPVScalarArray(st)),std::tr1::static_pointer_cast<PVValueArray<T> >(getPVDataCreate()->createPVScalarArray(st)),e); }
SCENARIO(shared_scalars) { ScalarType st=(ScalarType)mc::choose(12); SDISPATCH(st, sharingS<T>(st)) }
SCENARIO(shared_compound) {
    StructureConstPtr s=std::tr1::static_pointer_cast<const Structure>(build(tStruct({"x"},{tScalar(pvInt)}))); UnionConstPtr u=std::tr1::static_pointer_cast<const Union>(build(tUnion({"x"},{tScalar(pvInt)})));
    if(mc::choose(2)) { PVStructureArray::svector e(4); for(int i=0;i<3;i++) { e[i]=getPVDataCreate()->createPVStructure(s); e[i]->getSubFieldT<PVInt>("x")->put(i); } sharing<PVStructureArray>(getPVDataCreate()->createPVStructureArray(s),getPVDataCreate()->createPVStructureArray(s),e); }
    else { PVUnionArray::svector e(4); for(int i=0;i<3;i++) { e[i]=getPVDataCreate()->createPVUnion(u); e[i]->select<PVInt>("x")->put(i); } sharing<PVUnionArray>(getPVDataCreate()->createPVUnionArray(u),getPVDataCreate()->createPVUnionArray(u),e); }
}
// wide structures and long arrays which differ at one place
SCENARIO(one_of_many, mc::Opts().S(4)) {
    static const size_t N[]={63,64,65,255,256,257,1000}; size_t n=N[mc::choose(7)], P[]={0,1,n/2,62,63,64,254,255,256,n-2,n-1}; size_t at=P[mc::choose(11)]; if(at>=n) mc::skip(); int k=mc::choose(17); TP i=tScalar(pvInt), el=tStruct({"x"},{i}), ue=tUnion({"x","y"},{i,tScalar(pvString)}); VP v;
    if(k<12) { v=vdefault(tArray((ScalarType)k)); for(size_t q=0;q<n;q++) v->a.push_back(sval((ScalarType)k,q%2)); }
    else if(k==12||k==13) { if(n>300) mc::skip(); v=vdefault(tWide(n+1,k-12)); if(k==13) n=v->kids.size(); if(at>=n) mc::skip(); }
    else { v=vdefault(k==14?tStructArr(el):k==15?tUnionArr(ue):tAnyArr()); for(size_t q=0;q<n;q++) v->kids.push_back(vdefault(k==14?el:k==15?ue:tAny())); }
    mc::op("%s of %zu, different at %zu",tstr(k==12||k==13?tWide(3,0):v->t).c_str(),n,at); PVFieldPtr p=make(v), q=make(v); CHECK(*p==*q,"single-equal","equal values differ"); VP w=vcopy(v);
    if(k<12) w->a[at]= v->a[at]==sval((ScalarType)k,2)?sval((ScalarType)k,0):sval((ScalarType)k,2); else if(k<14) { std::vector<std::function<bool(const VP&)>> ch; std::vector<int> pa(1,(int)at); leaves(v->kids[at],ch,{}); ch[0](w->kids[at]); } else if(k==14) w->kids[at]->kids[0]->s=MS((int64_t)7); else if(k==15) { w->kids[at]->sel=1; w->kids[at]->v=vdefault(tScalar(pvString)); } else w->kids[at].reset();
    if(k<12&&w->a[at]==v->a[at]) mc::skip(); PVFieldPtr r=make(w); CHECK(*p!=*r&&!(*r==*p),"single-change","a change at %zu of %zu goes unnoticed",at,n);
    if(k==12||k==13) { TP x(std::make_shared<MT>(*v->t)); std::const_pointer_cast<MT>(std::shared_ptr<const MT>(x))->names[at]+="x"; FieldConstPtr f=build(v->t), g=build(x); CHECK(*f==*build(v->t)&&*f!=*g&&!compare(*f,*g),"type==","types which differ in name %zu of %zu compare equal",at,n); }
    mc::state(mc::hmix(k,n*1000+at));
}
// zero has two representations which are the same number; a NaN is no number
template<class T> static void zerosS(ScalarType st) {
    static const size_t N[]={0,1,2,7,8,9,15,16,17,64,1000}; size_t n=N[mc::choose(11)]; size_t at=0; if(n) { size_t P[]={0,1,n/2,n-1}; at=P[mc::choose(4)]; if(at>=n) mc::skip(); } int other=mc::choose(3), where=mc::choose(4); // other: -0, NaN, smallest
    T x= other==0?(T)-0.0:other==1?std::numeric_limits<T>::quiet_NaN():std::numeric_limits<T>::denorm_min(); bool eq=other==0; mc::op("%s[%zu], %s at %zu",ScalarTypeFunc::name(st),n,other==0?"-0":other==1?"nan":"denormal",at);
    FieldCreatePtr fc=getFieldCreate(); PVDataCreatePtr dc=getPVDataCreate(); StructureConstPtr sty=fc->createFieldBuilder()->add("s",st)->addArray("a",st)->add("i",pvInt)->createStructure(); PVFieldPtr p[2];
    for(int k=0;k<2;k++) {
        PVStructurePtr s=dc->createPVStructure(sty); typename PVValueArray<T>::svector v(n,(T)0.0); if(k&&n) v[at]=x; if(k&&!n) s->getSubFieldT<PVScalarValue<T> >("s")->put(x); s->getSubFieldT<PVValueArray<T> >("a")->replace(freeze(v));
        PVFieldPtr leaf=n?s->getSubFieldT("a"):s->getSubFieldT("s");
        if(where==0) p[k]=leaf; else if(where==1) p[k]=s;
        else { PVUnionPtr u=dc->createPVVariantUnion(); u->set(s); if(where==2) p[k]=u; else { PVUnionArrayPtr a=dc->createPVVariantUnionArray(); PVUnionArray::svector e(1,u); a->replace(freeze(e)); p[k]=a; } } }
    CHECK((*p[0]==*p[1])==eq&&(*p[1]==*p[0])==eq&&(*p[0]!=*p[1])==!eq&&(*p[1]!=*p[0])==!eq,"zeros","arrays %s although one holds %s where the other has 0",eq?"differ":"are equal",other==0?"-0":other==1?"a NaN":"the smallest number");
    mc::state(mc::hmix(n*10+at,other*10+where));
}
SCENARIO(zeros) { if(mc::choose(2)) zerosS<double>(pvDouble); else zerosS<float>(pvFloat); }
