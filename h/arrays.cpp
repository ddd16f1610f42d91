// C16: array fields behave as lists
#include "valuesh.h"
#include <new>
using namespace epics::pvData;
// a huge request must not exhaust the sandbox
static const size_t LIM=1<<22;
static long g_failAt=-1; // the allocation which fails, counted from now
static void *lim(size_t n) { if(g_failAt>=0&&g_failAt--==0) throw std::bad_alloc(); if(n>LIM) throw std::bad_alloc(); void *p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return lim(n); }
void *operator new[](size_t n) { return lim(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

template<typename A> struct Tr;
template<typename T> struct TrS { typedef T E; static E elem(int i) { return Conv<T>::to(sval((ScalarType)ScalarTypeID<T>::value,i)); } static bool compound() { return false; } static std::string str(const E& e) { return mc::str(e); } };
template<typename T> struct Tr<PVValueArray<T> > : TrS<T> {};
static StructureConstPtr ST() { static StructureConstPtr s=std::tr1::static_pointer_cast<const Structure>(build(tStruct({"x"},{tScalar(pvInt)}))); return s; }
static UnionConstPtr UT() { static UnionConstPtr s=std::tr1::static_pointer_cast<const Union>(build(tUnion({"x"},{tScalar(pvInt)}))); return s; }
template<> struct Tr<PVStructureArray> { typedef PVStructurePtr E; static E elem(int i) { return i?getPVDataCreate()->createPVStructure(ST()):E(); } static bool compound() { return true; } static std::string str(const E& e) { return e?"S":"-"; } };
template<> struct Tr<PVUnionArray> { typedef PVUnionPtr E; static E elem(int i) { return i?getPVDataCreate()->createPVUnion(UT()):E(); } static bool compound() { return true; } static std::string str(const E& e) { return e?"U":"-"; } };

template<typename A> struct Run {
    typedef Tr<A> T; typedef typename T::E E; typedef std::vector<E> M; typedef typename A::svector V; typedef typename A::const_svector CV;
    std::tr1::shared_ptr<A> a, b; M m, mb; int szt; size_t bound; bool imm, capMut; std::vector<std::pair<CV,M> > views; int nelem;
    static std::string ms(const M& m) { std::string s="["; for(size_t i=0;i<m.size();i++) s+=(i?",":"")+T::str(m[i]); return s+"]"; }
    static bool eq(const CV& v, const M& m) { return v.size()==m.size()&&std::equal(m.begin(),m.end(),v.begin()); }
    static M got(const CV& v) { return M(v.begin(),v.end()); }
    bool fits(size_t n) { return szt==0||(szt==1&&n<=bound)||(szt==2&&n==bound); }
    void check(const std::string& what) {
        CV v(a->view()); CHECK(a->getLength()==m.size(),"length","after %s: length %zu, want %zu",what.c_str(),a->getLength(),m.size()); CHECK(eq(v,m),"contents","after %s: %s, want %s",what.c_str(),ms(got(v)).c_str(),ms(m).c_str());
        CHECK(a->getCapacity()>=m.size(),"capacity","after %s: capacity %zu of length %zu",what.c_str(),a->getCapacity(),m.size()); CHECK(eq(b->view(),mb),"other","after %s: another array changed",what.c_str());
        for(size_t i=0;i<views.size();i++) CHECK(eq(views[i].first,views[i].second),"view","after %s: a view obtained before changed to %s from %s",what.c_str(),ms(got(views[i].first)).c_str(),ms(views[i].second).c_str());
        CHECK(a->isImmutable()==imm&&a->isCapacityMutable()==(capMut&&!imm),"flags","after %s: mutability changed",what.c_str());
        uint64_t h=imm; for(size_t i=0;i<m.size();i++) h=mc::hmix(h,mc::hstr(T::str(m[i]))); mc::state(mc::hmix(h,a->getCapacity()+100*views.size()));
    }
    M some(size_t n) { M r; for(size_t i=0;i<n;i++) r.push_back(T::elem(T::compound()?(nelem++%3):++nelem)); return r; }
    static CV vec(const M& m, size_t spare=0) { V v(m.size()+spare); for(size_t i=0;i<m.size();i++) v[i]=m[i]; v.slice(0,m.size()); return freeze(v); }
    void result(const std::string& what, const std::string& e, bool ok) { mc::op("%s",what.c_str()); mc::outcome(ok?"accepted":"refused"); CHECK((e=="")==ok,ok?"refused":"accepted","%s of %s is %s%s",what.c_str(),ms(m).c_str(),e==""?"accepted":"refused: ",e.c_str()); }
    int appendOps(size_t n) { (void)n; return 0; }
    void step(int maxLen) {
        std::string e; size_t old=m.size(); int nops=T::compound()?14:10;
        switch(mc::choose(nops)) {
        case 0: { size_t n=mc::choose(maxLen+1); M x=some(n); CV v(vec(x,mc::choose(2))); bool ok=!imm&&fits(n); e=thrown([&]{ a->replace(v); }); result("replace by "+ms(x),e,ok); if(ok) m=x; CHECK(eq(v,x),"argument","replace changed its argument"); check("replace"); views.push_back(std::make_pair(v,x)); break; }
        case 1: { if(szt==2&&mc::choose(2)) mc::skip(); size_t n=szt==2?bound:mc::choose((szt==1?(int)bound:maxLen)+1); M x=some(n), was=m; CV v(vec(x)); bool ok=!imm; e=thrown([&]{ a->swap(v); }); result("swap with "+ms(x),e,ok); if(ok) { m=x; CHECK(eq(v,was),"swap","swap gave back %s, want %s",ms(got(v)).c_str(),ms(was).c_str()); } else CHECK(eq(v,x),"swap","a refused swap changed its argument"); check("swap"); break; }
        case 2: { V v; bool ok=!imm; e=thrown([&]{ v=a->reuse(); }); result("reuse",e,ok); if(!ok) { check("refused reuse"); break; } CHECK(v.unique(),"reuse","reuse() is not unique"); CHECK(v.size()==old,"reuse","reuse() gave %zu of %zu elements",v.size(),old); for(size_t i=0;i<old;i++) CHECK(v[i]==m[i],"reuse","reuse() changed element %zu",i);
            M x=m; m.clear(); check("reuse"); for(size_t i=0;i<old;i++) { x[i]=T::elem(++nelem); v[i]=x[i]; } check("changing the reused data"); CV c(freeze(v)); if(fits(old)) a->replace(c); else a->swap(c); m=x; check("giving the data back"); break; }
        case 3: { size_t n=mc::choose(maxLen+1); bool ok=!imm&&(n==old||fits(n)); e=thrown([&]{ a->setLength(n); }); result(sfmt("setLength(%zu)",n),e,ok); if(ok) { CV v(a->view()); CHECK(v.size()==n,"length","setLength(%zu) gives length %zu",n,v.size()); if(n<old) m.resize(n); else for(size_t i=old;i<n;i++) { mc::step(); m.push_back(v[i]); } /* contents of added elements are not specified, but they can be used */ } check("setLength"); break; }
        case 4: { size_t n=mc::choose(maxLen+2); bool ok=!imm&&capMut&&fits(n); e=thrown([&]{ a->setCapacity(n); }); result(sfmt("setCapacity(%zu)",n),e,ok); if(ok) CHECK(a->getCapacity()>=n,"capacity","setCapacity(%zu) gives capacity %zu",n,a->getCapacity()); check("setCapacity"); break; }
        case 5: { mc::op("view"); views.push_back(std::make_pair(a->view(),m)); check("view"); break; }
        case 6: { bool cm=mc::choose(2); bool ok=!(imm&&cm); e=thrown([&]{ a->setCapacityMutable(cm); }); result(sfmt("setCapacityMutable(%d)",cm),e,ok); if(ok) capMut=cm; check("setCapacityMutable"); break; }
        case 7: { if(imm) mc::skip(); mc::op("setImmutable"); a->setImmutable(); imm=true; check("setImmutable"); break; }
        case 8: { // share data with another array, then either changes
            mc::op("share"); if(!fits(mb.size())) { bool ok=false; e=thrown([&]{ a->replace(b->view()); }); result("share",e,ok); check("share"); break; } bool ok=!imm; e=thrown([&]{ a->replace(b->view()); }); result("share",e,ok); if(ok) m=mb; check("share"); break; }
        case 9: { V v(b->reuse()); M x=mb; for(size_t i=0;i<v.size();i++) { x[i]=T::elem(++nelem); v[i]=x[i]; } mc::op("change other"); CV c(freeze(v)); b->replace(c); mb=x; check("changing the other array"); break; }
        case 10: case 11: case 12: case 13: more(nops); break;
        }
        if(views.size()>3) views.erase(views.begin());
    }
    void more(int);
    Run(const std::tr1::shared_ptr<A>& a, const std::tr1::shared_ptr<A>& b, int szt, size_t bound) :a(a), b(b), szt(szt), bound(bound), imm(false), capMut(true), nelem(0) {}
    void run(int depth, int maxLen) {
        mb=some(szt==2?bound:2); b->replace(vec(mb)); CHECK(a->getLength()==0&&a->view().empty(),"initial","a new array is not empty");
        int s=mc::choose(3); if(s) { m=some(szt==2?bound:szt==1?std::min<size_t>(bound,s):s+1); a->replace(vec(m,s==2)); if(s==1) views.push_back(std::make_pair(a->view(),m)); } check("start");
        for(int k=0;k<depth;k++) step(maxLen);
    }
};
template<typename A> struct More { static void go(Run<A>&) { mc::skip(); } };
template<typename A> struct MoreC { static void go(Run<A>& r) {
    typedef typename Run<A>::M M; std::string e; size_t old=r.m.size();
    switch(mc::choose(3)) {
    case 0: { size_t n=mc::choose(4); size_t num= n==3?(size_t)-1-mc::choose(2):n; size_t g=0; bool ok=!r.imm&&n<3; e=thrown([&]{ g=r.a->append(num); }); r.result(sfmt("append(%zd)",(ssize_t)num),e,ok); if(ok) { CHECK(g==old+num,"append","append gives length %zu",g); typename A::const_svector v(r.a->view()); CHECK(v.size()==old+num,"append","length after append"); for(size_t i=0;i<num;i++) { CHECK(v[old+i]!=0&&v[old+i].use_count()==1,"append","appended element %zu is %s",i,v[old+i]?"shared":"NULL"); r.m.push_back(v[old+i]); } } r.check("append"); break; }
    case 1: { size_t o,c; if(mc::tier()) { o=mc::choose(4); c=mc::choose(5); } else { o=mc::choose(2); c=1+mc::choose(2)*3; } size_t off= o==3?(size_t)-1:o, num= c==4?(size_t)-1:c; bool fit= num==0||(off<=old&&num<=old-off); bool got=false, ok=!(r.imm&&fit&&num); e=thrown([&]{ got=r.a->remove(off,num); }); r.result(sfmt("remove(%zd,%zd)",(ssize_t)off,(ssize_t)num),e,ok); if(ok) { CHECK(got==fit,"remove","remove(%zd,%zd) of %zu is %d",(ssize_t)off,(ssize_t)num,old,got); if(fit&&num) r.m.erase(r.m.begin()+off,r.m.begin()+off+num); } r.check("remove"); break; }
    default: { bool ok=!r.imm; e=thrown([&]{ r.a->compress(); }); r.result("compress",e,ok); if(ok) { M x; for(auto& p: r.m) if(p) x.push_back(p); r.m=x; } r.check("compress"); }
    }
} };
template<> struct More<PVStructureArray> : MoreC<PVStructureArray> {}; template<> struct More<PVUnionArray> : MoreC<PVUnionArray> {};
template<typename A> void Run<A>::more(int) { More<A>::go(*this); }

template<typename A> static void scalars(int szt, int depth, int maxLen) {
    ScalarType st=A::typeCode; ScalarArrayConstPtr t= szt==0?getFieldCreate()->createScalarArray(st):szt==1?getFieldCreate()->createBoundedScalarArray(st,2):getFieldCreate()->createFixedScalarArray(st,2);
    mc::op("%s",t->getID().c_str()); Run<A> r(std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVScalarArray(t)),std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVScalarArray(t)),szt,2); r.run(depth,maxLen);
}
SCENARIO(int_arrays, mc::Opts().S(4)) { scalars<PVIntArray>(mc::choose(3),3,3); }
SCENARIO(string_arrays, mc::Opts().S(4)) { scalars<PVStringArray>(mc::choose(3),3,3); }
SCENARIO(structure_arrays, mc::Opts().S(4)) { PVStructureArrayPtr a=getPVDataCreate()->createPVStructureArray(ST()), b=getPVDataCreate()->createPVStructureArray(ST()); Run<PVStructureArray> r(a,b,0,0); r.run(3,mc::tier()?3:2); }
SCENARIO(union_arrays, mc::Opts().S(4)) { PVUnionArrayPtr a=getPVDataCreate()->createPVUnionArray(UT()), b=getPVDataCreate()->createPVUnionArray(UT()); Run<PVUnionArray> r(a,b,0,0); r.run(3,mc::tier()?3:2); }
template<typename T> static void kind(int szt) { scalars<PVValueArray<T> >(szt,2,3); }
SCENARIO(all_scalars, mc::Opts().S(4)) { int st=mc::choose(12), szt=mc::choose(3); SDISPATCH(((ScalarType)st), kind<T>(szt)) }
SCENARIO(int_arrays_deep, mc::Opts().S(5), 1) { scalars<PVIntArray>(mc::choose(3),4,3); }
SCENARIO(structure_arrays_deep, mc::Opts().S(5), 1) { PVStructureArrayPtr a=getPVDataCreate()->createPVStructureArray(ST()), b=getPVDataCreate()->createPVStructureArray(ST()); Run<PVStructureArray> r(a,b,0,0); r.run(4,3); }
// remove, compress and append on longer arrays with every pattern of NULL elements
template<typename A> static void patterns(const std::tr1::shared_ptr<A>& a) {
    typedef Run<A> R; int n=mc::choose(6), pat=mc::choose(1<<n); typename R::M m; for(int i=0;i<n;i++) m.push_back(Tr<A>::elem(pat>>i&1)); bool shared=mc::choose(2); a->replace(R::vec(m)); typename A::const_svector keep; if(shared) keep=a->view(); mc::op("%d elements, pattern %x%s",n,pat,shared?", shared":"");
    typename R::M was=m; int op=mc::choose(3); if(op==0) { a->compress(); typename R::M x; for(auto& p: m) if(p) x.push_back(p); m=x; } else if(op==1) { int o=mc::choose(n+1), c=mc::choose(n-o+1); mc::op("remove(%d,%d)",o,c); CHECK(a->remove(o,c),"remove","refused"); m.erase(m.begin()+o,m.begin()+o+c); } else { size_t g=a->append(2); CHECK((int)g==n+2,"append","%zu",g); m.push_back(a->view()[n]); m.push_back(a->view()[n+1]); CHECK(m[n]&&m[n+1]&&m[n]!=m[n+1],"append","elements"); }
    CHECK(R::eq(a->view(),m)&&a->getLength()==m.size(),"pattern","op %d gives %s want %s",op,R::ms(R::got(a->view())).c_str(),R::ms(m).c_str()); if(shared) CHECK(R::eq(keep,was),"view","op %d changed a view",op); mc::state(mc::hmix(pat*8+n,op));
}
SCENARIO(null_patterns) { if(mc::choose(2)) patterns<PVStructureArray>(getPVDataCreate()->createPVStructureArray(ST())); else patterns<PVUnionArray>(getPVDataCreate()->createPVUnionArray(UT())); }
template<typename T> static void grow(PVValueArray<T>*, size_t) {}
static void grow(PVStructureArray *a, size_t n) { a->append(n); }
static void grow(PVUnionArray *a, size_t n) { a->append(n); }
template<typename T> static void cut(PVValueArray<T>*) {}
static void cut(PVStructureArray *a) { a->remove(0,1); }
static void cut(PVUnionArray *a) { a->remove(0,1); }
template<typename T> static void squeeze(PVValueArray<T>*) {}
static void squeeze(PVStructureArray *a) { a->compress(); }
static void squeeze(PVUnionArray *a) { a->compress(); }
// requests which no memory can satisfy fail and leave the array as it was
template<typename A> static void impossible(const std::tr1::shared_ptr<A>& a, const std::tr1::shared_ptr<A>& b) {
    Run<A> r(a,b,0,0); r.mb=r.some(2); b->replace(Run<A>::vec(r.mb)); size_t n=mc::choose(4); r.m=r.some(n); a->replace(Run<A>::vec(r.m,mc::choose(2))); if(mc::choose(2)) r.views.push_back(std::make_pair(a->view(),r.m)); if(mc::choose(2)) { a->replace(b->view()); r.m=r.mb; } r.check("start");
    size_t big[3]={(size_t)-1,(size_t)-1/2+2,(size_t)1<<24}; for(int k=0;k<2;k++) { size_t x=big[mc::choose(3)]; int op=mc::choose(Run<A>::T::compound()?3:2); const char *N[3]={"setLength(%zu)","setCapacity(%zu)","append(%zu)"}; std::string what=sfmt(N[op],x); mc::op("%s",what.c_str()); std::string e=thrown([&]{ if(op==0) a->setLength(x); else if(op==1) a->setCapacity(x); else grow(a.get(),x); }); CHECK(e!="","accepted","%s accepted",what.c_str()); mc::outcome("refused"); r.check(what); }
}
template<typename T> static void impossibleScalar() { impossible<PVValueArray<T> >(getPVDataCreate()->createPVScalarArray<PVValueArray<T> >(),getPVDataCreate()->createPVScalarArray<PVValueArray<T> >()); }
SCENARIO(impossible_sizes, mc::Opts().S(3)) {
    int k=mc::choose(14); if(k==12) impossible<PVStructureArray>(getPVDataCreate()->createPVStructureArray(ST()),getPVDataCreate()->createPVStructureArray(ST())); else if(k==13) impossible<PVUnionArray>(getPVDataCreate()->createPVUnionArray(UT()),getPVDataCreate()->createPVUnionArray(UT()));
    else SDISPATCH(((ScalarType)k), impossibleScalar<T>())
}

// an operation which fails because any one of its allocations fails leaves the array as it was
template<typename A> static void faults(const std::tr1::shared_ptr<A>& a, const std::tr1::shared_ptr<A>& b) {
    Run<A> r(a,b,0,0); r.mb=r.some(2); b->replace(Run<A>::vec(r.mb)); size_t n=mc::choose(4); r.m=r.some(n); a->replace(Run<A>::vec(r.m,mc::choose(2))); if(mc::choose(2)) r.views.push_back(std::make_pair(a->view(),r.m)); r.check("start");
    int op=mc::choose(Run<A>::T::compound()?9:6); int at=mc::choose(16); const char *N[9]={"setLength(1)","setLength(5)","setCapacity(7)","reuse","replace","copy","append(2)","remove(0,1)","compress"}; std::string what=sfmt("%s while allocation %d fails",N[op],at); mc::op("%s",what.c_str()); typename Run<A>::CV v(Run<A>::vec(r.mb)); bool failed=false; std::vector<char> hold;
    g_failAt=at; try { switch(op) { case 0: a->setLength(1); break; case 1: a->setLength(5); break; case 2: a->setCapacity(7); break; case 3: { typename Run<A>::V w(a->reuse()); } break; case 4: a->replace(v); break; case 5: a->copyUnchecked(*b); break; case 6: grow(a.get(),2); break; case 7: cut(a.get()); break; case 8: squeeze(a.get()); break; } } catch(std::bad_alloc&) { failed=true; } catch(...) { g_failAt=-1; throw; }
    bool used=g_failAt<0&&failed; g_failAt=-1; mc::outcome(failed?"failed":"completed"); if(!failed) mc::skip(); CHECK(used,"fault","failed by itself"); r.check(what);
}
template<typename T> static void faultsScalar() { faults<PVValueArray<T> >(getPVDataCreate()->createPVScalarArray<PVValueArray<T> >(),getPVDataCreate()->createPVScalarArray<PVValueArray<T> >()); }
SCENARIO(alloc_faults, mc::Opts().S(3)) {
    int k=mc::choose(14); if(k==12) faults<PVStructureArray>(getPVDataCreate()->createPVStructureArray(ST()),getPVDataCreate()->createPVStructureArray(ST())); else if(k==13) faults<PVUnionArray>(getPVDataCreate()->createPVUnionArray(UT()),getPVDataCreate()->createPVUnionArray(UT()));
    else SDISPATCH(((ScalarType)k), faultsScalar<T>())
}
// long arrays
template<typename M> static void shrink(M&) {}
template<typename P> static void shrink(std::vector<std::tr1::shared_ptr<P> >& m) { std::vector<std::tr1::shared_ptr<P> > x; for(auto& p: m) if(p) x.push_back(p); m=x; }
template<typename A> static void longOnes(const std::tr1::shared_ptr<A>& a, const std::tr1::shared_ptr<A>& b) {
    typedef Run<A> R; static const size_t N[]={64,255,256,1000,1024,4097}; R r(a,b,0,0); r.mb=r.some(3); b->replace(R::vec(r.mb)); size_t n=N[mc::choose(6)], k=N[mc::choose(6)]; r.m=r.some(n); a->replace(R::vec(r.m,mc::choose(2)*5)); if(mc::choose(2)) r.views.push_back(std::make_pair(a->view(),r.m)); int op=mc::choose(R::T::compound()?8:5); mc::op("%zu elements, operation %d with %zu",n,op,k);
    switch(op) { case 0: a->setLength(k); { typename R::CV v(a->view()); CHECK(v.size()==k,"length","setLength"); r.m.resize(std::min(n,k)); for(size_t i=n;i<k;i++) r.m.push_back(v[i]); } break; case 1: a->setCapacity(k); CHECK(a->getCapacity()>=k,"capacity","setCapacity"); break; case 2: { typename R::M x=r.some(k); a->replace(R::vec(x)); r.m=x; break; } case 3: { typename R::V v(a->reuse()); v.resize(k); for(size_t i=0;i<k;i++) v[i]=R::T::elem(i%3); r.m.assign(v.begin(),v.end()); a->replace(freeze(v)); break; } case 4: { typename R::M x=r.some(k), w=r.m; typename R::CV v(R::vec(x)); a->swap(v); r.m=x; CHECK(R::eq(v,w),"swap","swap gave back something else"); break; }
        case 5: grow(a.get(),k); { typename R::CV v(a->view()); CHECK(v.size()==n+k,"length","append"); for(size_t i=n;i<n+k;i++) r.m.push_back(v[i]); } break; case 6: cut(a.get()); r.m.erase(r.m.begin()); break; default: squeeze(a.get()); shrink(r.m); }
    r.check(sfmt("operation %d with %zu",op,k)); mc::outcome("ok");
}
template<typename T> static void longScalar() { longOnes<PVValueArray<T> >(getPVDataCreate()->createPVScalarArray<PVValueArray<T> >(),getPVDataCreate()->createPVScalarArray<PVValueArray<T> >()); }
SCENARIO(long_arrays, mc::Opts().S(3)) { switch(mc::choose(5)) { case 0: longScalar<int32>(); break; case 1: longScalar<std::string>(); break; case 2: longScalar<boolean>(); break; case 3: longOnes<PVStructureArray>(getPVDataCreate()->createPVStructureArray(ST()),getPVDataCreate()->createPVStructureArray(ST())); break; default: longOnes<PVUnionArray>(getPVDataCreate()->createPVUnionArray(UT()),getPVDataCreate()->createPVUnionArray(UT())); } }
// a value received into an array whose former elements are still seen by others
static void shareInto(const PVFieldPtr& to, const PVFieldPtr& from) {
    switch(from->getField()->getType()) {
    case scalarArray: { shared_vector<const void> v; static_cast<PVScalarArray*>(from.get())->getAs(v); static_cast<PVScalarArray*>(to.get())->putFrom(v); break; }
    case structureArray: static_cast<PVStructureArray*>(to.get())->replace(static_cast<PVStructureArray*>(from.get())->view()); break;
    default: static_cast<PVUnionArray*>(to.get())->replace(static_cast<PVUnionArray*>(from.get())->view()); } }
SCENARIO(received, mc::Opts().S(4)) {
    TP el=tStruct({"x","a"},{tScalar(pvInt),tArray(pvInt)}), ue=tUnion({"x","y"},{tScalar(pvInt),tScalar(pvString)}); int k=mc::choose(16); ScalarType st=(ScalarType)(k<12?k:0);
    TP t=k<12?(mc::choose(2)?tBArray(st,4):tArray(st)):k==12?tStructArr(el):k==13?tUnionArr(ue):k==14?tAnyArr():tFArray(pvInt,3);
    auto fill=[&](size_t n, int from) { VP v=vdefault(t); if(k==15) v->a.clear(); for(size_t i=0;i<n;i++) { if(k<12||k==15) v->a.push_back(sval(k==15?pvInt:st,from+(int)i)); else if((from+i)%4==3) v->kids.push_back(VP()); else if(k==12) { VP e=vdefault(el); e->kids[0]->s=MS((int64_t)(from+i)); e->kids[1]->a.push_back(MS((int64_t)from)); v->kids.push_back(e); } else if(k==13) { VP e=vdefault(ue); e->sel=i%2; e->v=vdefault(ue->kids[i%2]); if(!(i%2)) e->v->s=MS((int64_t)(from+i)); v->kids.push_back(e); } else { VP e=vdefault(tAny()); e->v=vdefault(tScalar(pvInt)); e->v->s=MS((int64_t)(from+i)); v->kids.push_back(e); } } return v; };
    size_t n=k==15?3:mc::choose(5), m=k==15?3:mc::choose(5); VP o=fill(n,1), w=fill(m,2); bool be=mc::choose(2), dir=mc::choose(2); int twice=mc::choose(2); mc::op("%s %s receives %s",tstr(t).c_str(),vstr(o).c_str(),vstr(w).c_str());
    PVFieldPtr p=make(o), q=build(t)->build(); shareInto(q,p); PVFieldPtr q2; for(int i=0;i<=twice;i++) { const VP& x=i?o:w; const VP& was=i?w:o; bytes in=encModel(x,be); decReal(p.get(),in,be,split(0,in.size()),dir,in.size(),"decode",vstr(x)); std::string r=vcheck(p.get(),x); CHECK(r=="","received","%s",r.c_str()); r=vcheck(q.get(),o); CHECK(r=="","view","elements seen through another array changed: %s",r.c_str()); if(q2) { r=vcheck(q2.get(),was); CHECK(r=="","view","elements seen through another array changed: %s",r.c_str()); } q2=build(t)->build(); shareInto(q2,p); }
    mc::state(mc::hmix(vhash(o),mc::hmix(vhash(w),k)));
}
