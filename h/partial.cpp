// C07: updates of selected fields, parts of arrays
#include "valuesh.h"
#include <pv/serialize.h>
using namespace epics::pvData;

static VP gen(const TP& t, int seed, int len) { GenV g(seed,len,false); g.counter=seed; return genV(g,t); }
static BitSet toBits(const std::vector<bool>& m) { BitSet b; for(size_t i=0;i<m.size();i++) if(m[i]) b.set(i); return b; }
static std::string mstr(const std::vector<bool>& m) { std::string s; for(size_t i=0;i<m.size();i++) if(m[i]) s+=(s.empty()?"{":",")+mc::str(i); return s.empty()?"{}":s+"}"; }
static void update(const VP& v, const VP& old, const std::vector<bool>& m, bool be, bool full) {
    mc::op("source %s receiver %s mask %s be=%d",vstr(v).c_str(),vstr(old).c_str(),mstr(m).c_str(),be);
    BitSet b=toBits(m), keep(b); PVFieldPtr p=make(v); Enc e(be); encMasked(v,0,m,e); const bytes& want=e.b;
    static const size_t CAPS[]={9,11,64}; for(int c=0;c<(full?3:1);c++) for(size_t pre=0;pre<=CAPS[c];pre+=full?1:5) { bytes w=encReal(p.get(),be,CAPS[c],pre,pre&1,&b); mc::step(); CHECK(w==want,"encode","%s = %s mask %s encodes to %s want %s",tstr(v->t).c_str(),vstr(v).c_str(),mstr(m).c_str(),hexb(w).c_str(),hexb(want).c_str()); }
    VP exp=maskedUpdate(old,v,0,m); bytes in(want); in.push_back(0x5a); in.push_back(0xa5);
    for(size_t k=0;k<nsplits(want.size());k++) { if(!full&&k>0&&k<want.size()&&k%4) continue;
        PVFieldPtr q=make(old); std::string what=tstr(v->t)+" mask "+mstr(m)+" "+vstr(v)+" over "+vstr(old);
        decReal(q.get(),in,be,split(k,want.size()),k&1,want.size(),"decode",what,&b);
        std::string r=vcheck(q.get(),exp); CHECK(r=="","decode","%s: %s",what.c_str(),r.c_str()); }
    CHECK(b==keep,"mask","the mask itself was changed");
    mc::state(mc::hmix(vhash(exp),mc::hstr(mstr(m)))); mc::outcome("bytes "+mc::str(want.size()));
}
static std::vector<bool> allMask(size_t n) { std::vector<bool> m(n); int x=mc::choose(1<<n); for(size_t i=0;i<n;i++) m[i]=x>>i&1; return m; }
// nested structures of every shape, every mask
SCENARIO(masks_shapes) { GenT g; g.leaves={tScalar(pvShort),tScalar(pvString)}; g.unions=g.arrays=false; g.maxFields=4; int budget=mc::tier()?5:4; TP t=genT(g,budget,true);
    std::vector<bool> m=allMask(tcount(t)); bool be=mc::choose(2); update(gen(t,1,2),mc::choose(2)?gen(t,3,2):vdefault(t),m,be,false); }
// every kind of member in every position
SCENARIO(masks_kinds) { TP L[]={tScalar(pvDouble),tScalar(pvString),tArray(pvInt),tArray(pvString),tUnion({"i","s"},{tScalar(pvInt),tStruct({"x","y"},{tScalar(pvByte),tScalar(pvByte)})}),tAny(),tStructArr(tStruct({"x","y"},{tScalar(pvByte),tScalar(pvByte)})),tUnionArr(tUnion({"i"},{tScalar(pvInt)})),tStruct({},{}),tFArray(pvInt,2)};
    TP a=L[mc::choose(10)], b=L[mc::choose(10)]; int sh=mc::choose(4); TP t= sh==0?tStruct({"a","b"},{a,b}):sh==1?tStruct({"s","b"},{tStruct({"a"},{a}),b}):sh==2?tStruct({"a","s"},{a,tStruct({"b","z"},{b,tScalar(pvInt)})}):tStruct({"s"},{tStruct({"t","b"},{tStruct({"a"},{a}),b})});
    std::vector<bool> m=allMask(tcount(t)); bool be=mc::choose(2); update(gen(t,2,2),mc::choose(2)?gen(t,5,3):[&]{ VP d=vdefault(t); return d; }(),m,be,be); }
// bits beyond the last field select nothing; masks longer than a word
SCENARIO(extra_bits) { TP t=tStruct({"a","s"},{tScalar(pvInt),tStruct({"b","c"},{tScalar(pvInt),tScalar(pvString)})}); std::vector<bool> m=allMask(5); size_t base=m.size(); static const int X[]={5,6,63,64,65,130}; int x=mc::choose(7); if(x<6) { m.resize(X[x]+1); m[X[x]]=true; } 
    VP v=gen(t,1,1), o=gen(t,4,1); std::vector<bool> mm(m.begin(),m.begin()+base); BitSet b=toBits(m); PVFieldPtr p=make(v); Enc e(true); encMasked(v,0,mm,e); mc::op("mask %s",mstr(m).c_str());
    CHECK(encReal(p.get(),true,64,0,false,&b)==e.b,"encode","mask %s: bits beyond the last field change the encoding",mstr(m).c_str());
    PVFieldPtr q=make(o); decReal(q.get(),e.b,true,split(0,e.b.size()),false,e.b.size(),"decode","mask "+mstr(m),&b); std::string r=vcheck(q.get(),maskedUpdate(o,v,0,mm)); CHECK(r=="","decode","mask %s: %s",mstr(m).c_str(),r.c_str()); mc::state(mc::hstr(mstr(m))); }
SCENARIO(many_fields) { // offsets beyond 64 and 128
    std::vector<std::string> n; std::vector<TP> k; for(int i=0;i<70;i++) { n.push_back("f"+mc::str(i)); k.push_back(tScalar(i%3?pvInt:pvString)); } TP in=tStruct(n,k); TP t=tStruct({"p","in","q","in2"},{tScalar(pvInt),in,tScalar(pvByte),in});
    std::vector<bool> m(tcount(t)); static const int P[]={0,1,2,3,63,64,65,71,72,73,74,75,127,128,129,143,144}; int a=mc::choose(17), b=mc::choose(17); m[P[a]%m.size()]=true; m[P[b]%m.size()]=true; update(gen(t,1,1),gen(t,3,1),m,mc::choose(2),false); }
// masks given to a nested structure count in the numbering of the top
SCENARIO(nested_mask) { GenT g; g.leaves={tScalar(pvShort),tScalar(pvString)}; g.unions=g.arrays=false; int budget=mc::tier()?4:3; TP inner=genT(g,budget,true); TP t=tStruct({"a","n","z"},{tScalar(pvByte),inner,tScalar(pvInt)});
    std::vector<bool> m=allMask(tcount(t)); bool be=mc::choose(2); VP v=gen(t,1,1), o=gen(t,4,1); BitSet b=toBits(m); mc::op("%s mask %s",tstr(t).c_str(),mstr(m).c_str());
    PVStructurePtr p=makeS(v), q=makeS(o); PVStructurePtr pn=p->getSubFieldT<PVStructure>("n"), qn=q->getSubFieldT<PVStructure>("n");
    Enc e(be); encMasked(v->kids[1],2,m,e); bytes w=encReal(pn.get(),be,64,0,false,&b); CHECK(w==e.b,"encode","nested structure, mask %s: %s want %s",mstr(m).c_str(),hexb(w).c_str(),hexb(e.b).c_str());
    decReal(qn.get(),e.b,be,split(0,e.b.size()),false,e.b.size(),"decode","nested",&b); VP x=vcopy(o); x->kids[1]=maskedUpdate(o->kids[1],v->kids[1],2,m); std::string r=vcheck(q.get(),x); CHECK(r=="","decode","nested structure mask %s: %s",mstr(m).c_str(),r.c_str()); mc::state(vhash(x)); }
// a sequence of updates: the receiver follows the sender
SCENARIO(update_history) { TP t=tStruct({"a","s","u","v"},{tArray(pvInt),tStruct({"x","y"},{tScalar(pvString),tStructArr(tStruct({"q"},{tScalar(pvInt)}))}),tUnion({"i","s"},{tScalar(pvInt),tArray(pvString)}),tAny()}); size_t n=tcount(t);
    VP recv=vdefault(t); PVStructurePtr q=makeS(recv); int len=mc::tier()?4:3;
    for(int i=0;i<len;i++) { VP v=gen(t,1+mc::choose(3)*2+i,3); static const int M[]={1,2,4,8,0x10,0x20,0x40,0x2a,0x74,0x18}; int x=M[mc::choose(10)]; std::vector<bool> m(n); for(size_t k=0;k<n;k++) m[k]=x>>k&1; BitSet b=toBits(m); mc::op("update %s mask %s",vstr(v).c_str(),mstr(m).c_str());
        PVStructurePtr p=makeS(v); bool be=i&1; bytes w=encReal(p.get(),be,16,i,true,&b); Split s; s.minimal=true; decReal(q.get(),w,be,s,i!=1,w.size(),"history","update",&b); recv=maskedUpdate(recv,v,0,m); std::string r=vcheck(q.get(),recv); CHECK(r=="","history","after the last update: %s",r.c_str()); mc::state(vhash(recv)); } }
// part of an array
SCENARIO(subarray) { TP L[]={tArray(pvBoolean),tArray(pvShort),tArray(pvInt),tArray(pvDouble),tArray(pvString),tBArray(pvInt,9),tBArray(pvString,9),tStructArr(tStruct({"x","y"},{tScalar(pvByte),tScalar(pvString)})),tUnionArr(tUnion({"i"},{tScalar(pvInt)})),tAnyArr(),tFArray(pvInt,3),tFArray(pvString,3)};
    TP t=L[mc::choose(12)]; int N=mc::tier()?6:4; int n=t->k==KFArray?3:mc::choose(N+1); bool be=mc::choose(2); static const size_t BIG[]={(size_t)-1,(size_t)-2,0x7fffffff};
    VP v(new MV(t)); for(int i=0;i<n;i++) { if(t->k<KStructArr) v->a.push_back(sval(t->s,i+1)); else v->kids.push_back(i%3==1?VP():gen(t->elem,i+1,1)); }
    int o=mc::choose(N+5), c=mc::choose(N+5); size_t off=o<N+2?o:BIG[o-N-2], cnt=c<N+2?c:BIG[c-N-2]; mc::op("%s = %s offset %zu count %zu be=%d",tstr(t).c_str(),vstr(v).c_str(),off,cnt,be);
    PVFieldPtr p=make(v); SerializableArray *a=dynamic_cast<SerializableArray*>(p.get()); size_t ro=std::min<size_t>(off,n), rc=std::min<size_t>(cnt,n-ro);
    for(int dir=0;dir<2;dir++) for(size_t cap=9;cap<=33;cap+=12) for(size_t pre=0;pre<=cap;pre++) {
        FragSer s(cap,be,pre); s.allowDirect=dir; std::string ex=thrown([&]{ a->serialize(&s.buf,&s,off,cnt); }); mc::step();
        if(t->k==KFArray&&rc!=3) { CHECK(ex!="","fixed","part of a fixed size array is encoded without an error"); continue; }
        CHECK(ex=="","subarray","%s = %s offset %zu count %zu throws %s",tstr(t).c_str(),vstr(v).c_str(),off,cnt,ex.c_str());
        bytes w=s.finish(); Enc e(be); encArr(v,off,cnt,e);
        CHECK(w==e.b,"subarray","%s = %s offset %zu count %zu encodes to %s want %s",tstr(t).c_str(),vstr(v).c_str(),off,cnt,hexb(w).c_str(),hexb(e.b).c_str());
        if(pre==0) { PVFieldPtr q=make(t); if(t->k==KFArray) q=make(v); decReal(q.get(),w,be,split(w.size(),w.size()),dir,w.size(),"subarray-decode","part"); VP x(new MV(t)); if(t->k<KStructArr) x->a.assign(v->a.begin()+ro,v->a.begin()+ro+rc); else x->kids.assign(v->kids.begin()+ro,v->kids.begin()+ro+rc); std::string r=vcheck(q.get(),x); CHECK(r=="","subarray-decode","%s",r.c_str()); mc::state(vhash(x)); } } 
    std::string r=vcheck(p.get(),v); CHECK(r=="","subarray","encoding a part changed the array: %s",r.c_str()); }
SCENARIO(substring) { static const std::string S="0123456789"; int n=mc::choose(7); bool bnd=mc::choose(2); PVStringPtr p=std::tr1::static_pointer_cast<PVString>(make(bnd?tBString(20):tScalar(pvString))); p->put(S.substr(0,n)); static const size_t BIG[]={(size_t)-1,0x7fffffff}; int o=mc::choose(10),c=mc::choose(10); size_t off=o<8?o:BIG[o-8],cnt=c<8?c:BIG[c-8]; mc::op("\"%s\" offset %zu count %zu",p->get().c_str(),off,cnt);
    for(size_t cap=9;cap<12;cap++) for(size_t pre=0;pre<=cap;pre++) { FragSer s(cap,true,pre); p->serialize(&s.buf,&s,off,cnt); Enc e(true); e.str(S.substr(0,n).substr(std::min<size_t>(off,n),cnt)); bytes w=s.finish(); CHECK(w==e.b,"substring","offset %zu count %zu of %d characters: %s want %s",off,cnt,n,hexb(w).c_str(),hexb(e.b).c_str()); mc::step(); } }
