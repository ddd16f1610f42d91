// C17: copying part of an array
#include "valuesh.h"
#include <new>
#include <pv/pvSubArrayCopy.h>
using namespace epics::pvData;
// a huge request must not exhaust the sandbox
static const size_t LIM=1<<22;
static void *lim(size_t n) { if(n>LIM) throw std::bad_alloc(); void *p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return lim(n); }
void *operator new[](size_t n) { return lim(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
static VP elemV(const TP& t, int i) { VP v(vdefault(t)); if(t->k==KStruct) v->kids[0]->s=MS((uint64_t)i); else if(t->k==KUnion) { v->sel=0; v->v=vdefault(t->kids[0]); v->v->s=MS((uint64_t)i); } else { v->v=vdefault(tScalar(pvInt)); v->v->s=MS((uint64_t)i); } return v; }
static const TP& ES() { static TP t=tStruct({"x"},{tScalar(pvInt)},"S"); return t; }
static const TP& EU() { static TP t=tUnion({"x","y"},{tScalar(pvInt),tScalar(pvString)},"U"); return t; }
// kind 0..11 scalar, 12 structure, 13 union, 14 variant
static TP type(int k, int sz, size_t n) { if(k<12) return sz==0?tArray((ScalarType)k):sz==1?tBArray((ScalarType)k,n):tFArray((ScalarType)k,n); return k==12?tStructArr(ES()):k==13?tUnionArr(EU()):tAnyArr(); }
static MS distinct(ScalarType s, int i) { if(s==pvBoolean) return MS((uint64_t)(i&1)); if(s==pvString) return MS("s"+mc::str(i)); if(s==pvFloat) return fbits(i+0.5f); if(s==pvDouble) return dbits(i+0.5); return MS((uint64_t)i); }
static VP val(const TP& t, size_t n, int base, bool nulls) { VP v(new MV(t)); for(size_t i=0;i<n;i++) if(t->k<KStructArr) v->a.push_back(distinct(t->s,base+i)); else v->kids.push_back(nulls&&i==1?VP():elemV(t->elem,base+i)); return v; }
static size_t len(const VP& v) { return v->t->k<KStructArr?v->a.size():v->kids.size(); }
static VP filler(const TP& t) { return vdefault(t->elem); }
struct Req { size_t fo,fs,to,ts,n; };
static std::string show(const Req& r) { return sfmt("from %zu/%zu to %zu/%zu count %zu",r.fo,r.fs,r.to,r.ts,r.n); }
static bool fits(const TP& t, size_t n) { return t->k==KBArray?n<=t->n:t->k==KFArray?n==t->n:true; }
static void call(int entry, const PVFieldPtr& f, const PVFieldPtr& g, const Req& r) {
    PVArray::shared_pointer a=std::tr1::dynamic_pointer_cast<PVArray>(f), b=std::tr1::dynamic_pointer_cast<PVArray>(g);
    if(entry==0) { copy(*a,r.fo,r.fs,*b,r.to,r.ts,r.n); return; } if(entry==1) { copy(a,r.fo,r.fs,b,r.to,r.ts,r.n); return; }
    if(PVScalarArrayPtr p=std::tr1::dynamic_pointer_cast<PVScalarArray>(f)) { copy(*p,r.fo,r.fs,dynamic_cast<PVScalarArray&>(*g),r.to,r.ts,r.n); return; }
    if(PVStructureArrayPtr p=std::tr1::dynamic_pointer_cast<PVStructureArray>(f)) { copy(*p,r.fo,r.fs,dynamic_cast<PVStructureArray&>(*g),r.to,r.ts,r.n); return; }
    copy(*a,r.fo,r.fs,*b,r.to,r.ts,r.n);
}
static void one(const TP& ft, const TP& tt, size_t fl, size_t tl, size_t cap, bool same, bool imm, const Req& r, int entry) {
    VP f=val(ft,fl,1,false), g=same?f:val(tt,tl,20,true); tl=len(g); PVFieldPtr pf=make(f), pg=same?pf:make(g);
    if(cap) dynamic_cast<PVArray&>(*pg).setCapacity(tl+cap); if(imm) pg->setImmutable(); bool shared=false; 
    // a view of the destination taken before must not change
    VP want=vcopy(g); bool ok=!imm&&r.fs>=1&&r.ts>=1; std::string why;
    // last source and destination index, in exact arithmetic
    unsigned __int128 lf=r.fo, lt=r.to; if(r.n) { lf+=(unsigned __int128)(r.n-1)*r.fs; lt+=(unsigned __int128)(r.n-1)*r.ts; if(lf>=fl) ok=false; }
    if(!r.n&&r.fo>fl) shared=true; // nothing to copy from behind the end: either answer
    if(ok&&r.n) { if(lt>=100000) ok=false; else { size_t nl=std::max<size_t>(tl,(size_t)lt+1); if(!fits(g->t,nl)) ok=false; else { for(size_t i=tl;i<nl;i++) if(g->t->k<KStructArr) want->a.push_back(g->t->s==pvString?MS(std::string()):MS((uint64_t)0)); else want->kids.push_back(filler(g->t));
        for(size_t i=0;i<r.n;i++) if(g->t->k<KStructArr) want->a[r.to+i*r.ts]=f->a[r.fo+i*r.fs]; else want->kids[r.to+i*r.ts]=vcopy(f->kids[r.fo+i*r.fs]); } } }
    PVStructureArray::const_svector sv, sf; if(tt->k==KStructArr) { sv=dynamic_cast<PVStructureArray&>(*pg).view(); sf=dynamic_cast<PVStructureArray&>(*pf).view(); } shared_vector<const int32> iv; if(tt->k==KArray&&tt->s==pvInt) iv=dynamic_cast<PVIntArray&>(*pg).view();
    mc::op("%s(%zu) -> %s(%zu+%zu)%s%s: %s",tstr(ft).c_str(),fl,tstr(tt).c_str(),tl,cap,same?" same":"",imm?" immutable":"",show(r).c_str());
    std::string e=thrown([&]{ call(entry,pf,pg,r); }); mc::outcome(e==""?"copied":"refused");
    std::string c=vcheck(pg.get(),ok?want:g); 
    if(!shared) { CHECK((e=="")==ok,ok?"refused":"accepted","%s(%zu) -> %s(%zu): %s is %s%s",tstr(ft).c_str(),fl,tstr(tt).c_str(),tl,show(r).c_str(),e==""?"accepted":"refused: ",e.c_str()); }
    CHECK(c=="","result","%s(%zu) -> %s(%zu)%s: %s: destination %s",tstr(ft).c_str(),fl,tstr(tt).c_str(),tl,same?" same":"",show(r).c_str(),c.c_str());
    if(!same) { c=vcheck(pf.get(),f); CHECK(c=="","source","%s: source %s",show(r).c_str(),c.c_str()); }
    if(sv.size()||sf.size()) { PVStructureArray::const_svector nv(dynamic_cast<PVStructureArray&>(*pg).view()); if(ok) for(size_t i=0;i<r.n;i++) CHECK(nv[r.to+i*r.ts]==sf[r.fo+i*r.fs],"element","%s: element %zu is not the source's",show(r).c_str(),(size_t)(r.to+i*r.ts)); for(size_t i=0;i<sv.size();i++) { bool hit=false; if(ok) for(size_t j=0;j<r.n;j++) hit|=r.to+j*r.ts==i; if(!hit) CHECK(nv[i]==sv[i],"kept","%s: element %zu was replaced",show(r).c_str(),i); } for(size_t i=sv.size();i<nv.size();i++) for(size_t j=0;j<i;j++) { bool copied=false; for(size_t q=0;q<r.n;q++) copied|=r.to+q*r.ts==i||r.to+q*r.ts==j; if(!copied) CHECK(nv[i]!=nv[j],"distinct","added elements are one object"); } }
    for(size_t i=0;i<iv.size();i++) CHECK((uint64_t)iv[i]==g->a[i].u,"view","%s: a view taken before changed",show(r).c_str());
    mc::state(mc::hmix(vhash(ok?want:g),r.n+10*r.fo+100*r.to));
}
static void grid(int kinds, size_t L, size_t O, size_t S, bool more) {
    int k=kinds==0?(int)pvInt:mc::choose(15), sz=k<12?mc::choose(3):0; size_t fl=mc::choose(L+1), tl=mc::choose(L+1); bool same=mc::choose(2); if(same&&tl) mc::skip(); Req r; r.fo=mc::choose(O+1); r.fs=mc::choose(S+1); r.to=mc::choose(O+1); r.ts=mc::choose(S+1); r.n=mc::choose(L+2);
    size_t cap=sz==0?(more?3*mc::choose(2):2):0; TP ft=type(k,0,0), tt=type(k,sz,sz==1?4:tl); if(same) { if(sz) mc::skip(); tt=ft; } one(ft,tt,fl,tl,cap,same,false,r,kinds==0?0:(r.n+fl)%3);
}
SCENARIO(ints, mc::Opts().S(5)) { grid(0,mc::tier()?5:3,mc::tier()?6:4,3,mc::tier()); }
SCENARIO(all_kinds, mc::Opts().S(5)) { grid(1,mc::tier()?3:2,mc::tier()?4:3,2,mc::tier()); }
// huge requests
SCENARIO(extremes) {
    static const size_t V[]={0,1,3,0x7fffffffffffffffull,0x8000000000000000ull,0xffffffffffffffffull,0xfffffffffffffffeull,1ull<<40,0x5555555555555556ull}; int k[3]={pvInt,pvString,12}; int kind=k[mc::choose(3)];
    Req r; r.fo=V[mc::choose(9)]; r.fs=V[mc::choose(9)]; r.to=V[mc::choose(9)]; r.ts=V[mc::choose(9)]; size_t N[]={0,1,2,3,4,0xffffffffffffffffull}; r.n=N[mc::choose(6)]; if(r.n<2&&r.ts>3&&r.ts!=V[5]) mc::skip(); one(type(kind,0,0),type(kind,0,0),3,2,0,false,false,r,0);
}
// element types that differ, and immutable targets
SCENARIO(mismatch) {
    int a=mc::choose(15), b=mc::choose(15), entry=mc::choose(2); if(a==b) { Req r={0,1,0,1,(size_t)mc::choose(3)}; one(type(a,0,0),type(b,0,0),3,2,0,false,true,r,entry); return; }
    Req r={0,1,0,1,(size_t)mc::choose(2)+1}; VP f=val(type(a,0,0),3,1,false), g=val(type(b,0,0),2,20,false); PVFieldPtr pf=make(f), pg=make(g); std::string e=thrown([&]{ call(entry,pf,pg,r); }); mc::op("%s to %s",tstr(f->t).c_str(),tstr(g->t).c_str()); CHECK(e!="","accepted","copying %s to %s is accepted",tstr(f->t).c_str(),tstr(g->t).c_str());
    std::string c=vcheck(pf.get(),f); if(c=="") c=vcheck(pg.get(),g); CHECK(c=="","refused","a refused copy changed something: %s",c.c_str()); mc::state(a*16+b);
}
// structures and unions with different definitions
SCENARIO(other_definition) {
    TP es[]={ES(),tStruct({"x"},{tScalar(pvInt)},"T"),tStruct({"x"},{tScalar(pvLong)},"S"),tStruct({"y"},{tScalar(pvInt)},"S")}, eu[]={EU(),tUnion({"x","y"},{tScalar(pvInt),tScalar(pvString)},"V"),tUnion({"x"},{tScalar(pvInt)},"U"),tAny()};
    bool un=mc::choose(2); int a=mc::choose(4), b=mc::choose(4), entry=mc::choose(3); if(a==b) mc::skip(); TP ft=un?(a==3?tAnyArr():tUnionArr(eu[a])):tStructArr(es[a]), tt=un?(b==3?tAnyArr():tUnionArr(eu[b])):tStructArr(es[b]);
    VP f=val(ft,2,1,false), g=val(tt,2,20,false); PVFieldPtr pf=make(f), pg=make(g); Req r={0,1,1,1,2}; std::string e=thrown([&]{ call(entry,pf,pg,r); }); mc::op("%s to %s",tstr(ft).c_str(),tstr(tt).c_str()); CHECK(e!="","accepted","copying %s to %s is accepted",tstr(ft).c_str(),tstr(tt).c_str()); std::string c=vcheck(pg.get(),g); CHECK(c=="","refused","a refused copy changed %s",c.c_str()); mc::state(a*4+b+16*un);
}
// long arrays
SCENARIO(large, mc::Opts().S(4)) { static const int K[]={(int)pvInt,(int)pvString,(int)pvBoolean}; static const size_t O[]={0,1,255,256,999}, S[]={1,2,17}, C[]={1,63,64,256,500,1000}, T[]={0,600,1000}; int k=K[mc::choose(3)]; Req r; r.fo=O[mc::choose(5)]; r.fs=S[mc::choose(3)]; r.to=O[mc::choose(5)]; r.ts=S[mc::choose(3)]; r.n=C[mc::choose(6)]; int t=mc::choose(4); TP ty=type(k,0,0); if(k!=(int)pvInt&&(r.fo==1||r.to==999||r.n==64)) mc::skip(); one(ty,ty,1000,t==3?0:T[t],0,t==3,false,r,0); }
