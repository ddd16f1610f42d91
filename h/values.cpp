// C06: full values over the wire
#include "valuesh.h"
#include <pv/serialize.h>
using namespace epics::pvData;

static const size_t CAPS[]={9,10,11,16,40};
// all capacities and fill levels
static void encodeAll(const VP& v, const PVFieldPtr& p, bool be, const bytes& want, bool full) {
    for(size_t c=0;c<(full?5:3);c++) { size_t cap=CAPS[c]; for(size_t pre=0;pre<=cap;pre+=full?1:4) for(int dir=0;dir<2;dir++) {
        bytes w=encReal(p.get(),be,cap,pre,dir); mc::step();
        CHECK(w==want,"encode","%s = %s (%s endian, capacity %zu, prefilled %zu, direct %d) encodes to %s want %s",tstr(v->t).c_str(),vstr(v).c_str(),be?"big":"little",cap,pre,dir,hexb(w).c_str(),hexb(want).c_str()); } }
}
static void decodeInto(const VP& v, const PVFieldPtr& q, bool be, const bytes& in, size_t n, const Split& s, bool dir, const std::string& old) {
    std::string what=tstr(v->t)+" = "+vstr(v)+" over "+old+(be?" big":" little")+(dir?" direct":"")+(s.minimal?" bytewise":s.cuts.empty()?"":" cut at "+mc::str(s.cuts[0]));
    decReal(q.get(),in,be,s,dir,n,"decode",what);
    std::string r=vcheck(q.get(),v); CHECK(r=="","decode","%s: decoded object differs: %s",what.c_str(),r.c_str());
}
static void roundtrip(const VP& v, const std::vector<VP>& olds, bool be, bool full) {
    mc::op("%s = %s be=%d",tstr(v->t).c_str(),vstr(v).c_str(),be);
    PVFieldPtr p=make(v); std::string r=vcheck(p.get(),v); CHECK(r=="","assign","%s = %s: assigned object differs: %s",tstr(v->t).c_str(),vstr(v).c_str(),r.c_str());
    bytes want=encModel(v,be); mc::state(mc::hmix(vhash(v),be)); mc::outcome("len "+mc::str(want.size()));
    encodeAll(v,p,be,want,full);
    r=vcheck(p.get(),v); CHECK(r=="","encode","%s: encoding changed the object: %s",vstr(v).c_str(),r.c_str());
    bytes in(want); in.push_back(0x5a); in.push_back(0x5b);
    for(size_t o=0;o<olds.size();o++) for(int dir=0;dir<2;dir++) for(size_t k=0;k<nsplits(want.size());k++) {
        if(!full && k>4 && k+2<want.size() && k%3) continue;
        if(want.size()>80 && k>16 && k+6<want.size() && k%23) continue;
        PVFieldPtr q=make(olds[o]); decodeInto(v,q,be,in,want.size(),split(k,want.size()),dir,vstr(olds[o]));
        CHECK(*q==*p && *p==*q && !(*p!=*q),"equal","%s = %s: decoded object is not equal to the source",tstr(v->t).c_str(),vstr(v).c_str());
        if(k==0) { bytes again=encReal(q.get(),be,64,0,dir); CHECK(again==want,"reencode","decoded object encodes differently"); }
    }
}
static VP withFix(const TP& t, int seed, int len) { GenV g(seed,len,false); return genV(g,t); }

SCENARIO(leaves) {
    static std::vector<TP> L=allLeaves(); TP t=L[mc::choose(L.size())]; bool be=mc::choose(2); int wrap=mc::choose(3);
    VP v(new MV(t)); int i=mc::choose(6), n=0;
    switch(t->k) { case KScalar: v->s=sval(t->s,i); break; case KBString: v->s=MS(std::string(std::min<size_t>(t->n,i==5?260:i),'b')); break;
    case KArray: n=i; break; case KBArray: n=std::min<size_t>(i,t->n); break; case KFArray: n=t->n; break; default: break; }
    if(t->k>=KArray&&t->k<=KFArray) for(int k=0;k<n;k++) v->a.push_back(sval(t->s,i+k));
    if(t->k==KAny) { if(i) { TP a= i<3?tScalar((ScalarType)(i*3)):i==3?tArray(pvString):i==4?tStruct({"k"},{tScalar(pvUShort)},"Q"):tUnion({"k","l"},{tScalar(pvUShort),tAny()}); v->v=withFix(a,i,2); } }
    if(t->k==KAnyArr) { for(int k=0;k<i%4;k++) { VP e; if((i+k)%3) { e=vdefault(t->elem); if((i+k)%3==2) e->v=withFix(tScalar((ScalarType)(i*2)),i,2); } v->kids.push_back(e); } }
    std::vector<VP> olds; olds.push_back(vdefault(t)); olds.push_back(withFix(t,4,4));
    if(wrap==1) { TP w=tStruct({"a","x","z"},{tScalar(pvByte),t,tScalar(pvString)},"W"); VP s=withFix(w,2,1); s->kids[1]=v; VP o1=vdefault(w), o2=withFix(w,5,3); o2->kids[1]=olds[1]; olds={o1,o2}; v=s; }
    if(wrap==2) { TP w=tUnion({"o","x"},{tScalar(pvShort),t}); VP s=vdefault(w); s->sel=1; s->v=v; VP o1=vdefault(w), o2=vdefault(w), o3=vdefault(w); o2->sel=0; o2->v=withFix(w->kids[0],3,1); o3->sel=1; o3->v=olds[1]; olds={o1,o2,o3}; v=s; }
    roundtrip(v,olds,be,true);
}
static void trees(int budget, bool choices, int seeds, int maxf) {
    GenT g; g.leaves={tScalar(pvShort),tScalar(pvString),tArray(pvInt),tAny()}; g.maxFields=maxf; TP t=genT(g,budget);
    GenV gv(1+mc::choose(seeds),2,choices); VP v=genV(gv,t); bool be=mc::choose(2);
    std::vector<VP> olds; olds.push_back(vdefault(t)); for(int s=1;s<3;s++) olds.push_back(withFix(t,s,3));
    roundtrip(v,olds,be,false);
}
// every content choice (lengths, null elements, selections) on the smallest shapes, derived contents on larger ones
SCENARIO(trees_contents) { trees(1,true,2,1); }
SCENARIO(trees) { trees(2,false,3,2); }
SCENARIO(trees_contents_2,mc::Opts(),1) { trees(2,true,1,2); }
SCENARIO(trees_3,mc::Opts(),1) { trees(3,false,4,3); }
SCENARIO(deep) { // one deep shape: arrays of structures of unions of arrays ...
    TP u=tUnion({"i","arr","s","v"},{tScalar(pvLong),tArray(pvDouble),tStruct({"n"},{tArray(pvString)}),tAny()},"U");
    TP s=tStruct({"u","ua","sc"},{u,tUnionArr(u),tScalar(pvFloat)},"S"); TP t=tStruct({"sa","aa","s"},{tStructArr(s),tAnyArr(),s},"T");
    GenV g(1+mc::choose(4),2,false); g.anyTypes.push_back(u); g.anyTypes.push_back(tStructArr(s)); g.counter=mc::choose(24)*7; VP v=genV(g,t); bool be=mc::choose(2);
    std::vector<VP> olds; olds.push_back(vdefault(t)); for(int k=1;k<(mc::tier()?6:3);k++) { GenV go(k,3,false); go.counter=k*5; olds.push_back(genV(go,t)); }
    roundtrip(v,olds,be,mc::tier());
}
// lengths around the encoding boundary, and arrays larger than the buffers
SCENARIO(long_values) {
    static const size_t N[]={5,31,32,33,253,254,255,256,700}; ScalarType st=(ScalarType)mc::choose(12); size_t n=N[mc::choose(9)]; bool be=mc::choose(2); int kind=mc::choose(4);
    TP t= kind==0?tArray(st):kind==1?tBArray(st,700):kind==2?tFArray(st,n):tScalar(pvString); VP v(new MV(t));
    if(kind==3) { if(st!=pvBoolean) mc::skip(); v->s=MS(std::string(n,'s')); } else for(size_t i=0;i<n;i++) v->a.push_back(sval(st,i%5+(i%7==0)));
    mc::op("%s %zu be=%d",tstr(t).c_str(),n,be);
    PVFieldPtr p=make(v); bytes want=encModel(v,be);
    static const size_t C[]={9,13,64,300,4096}; for(size_t c=0;c<5;c++) for(size_t pre=0;pre<=C[c];pre+= c<2?1:C[c]/4) for(int dir=0;dir<2;dir++) { bytes w=encReal(p.get(),be,C[c],pre,dir); mc::step(); CHECK(w==want,"encode","%s of %zu elements (capacity %zu prefilled %zu direct %d) encodes wrongly",tstr(t).c_str(),n,C[c],pre,dir); }
    bytes in(want); in.push_back(1); in.push_back(2); std::vector<VP> olds(1,vdefault(t)); VP o=withFix(t,3,9); olds.push_back(o);
    static const size_t CUT[]={1,2,4,5,6,7,9,13,100,1000};
    for(size_t q=0;q<olds.size();q++) for(int dir=0;dir<2;dir++) for(size_t k=0;k<12;k++) { Split s; s.minimal=k==11; if(k>0&&k<11&&CUT[k-1]<want.size()) { s.cuts.push_back(CUT[k-1]); s.cuts.push_back(CUT[k-1]+n/2+3); }
        PVFieldPtr d=make(olds[q]); decodeInto(v,d,be,in,want.size(),s,dir,"old"); }
}
// several messages one after the other into the same object: no message leaves a trace in the next result,
// and neither views taken before nor the objects the old contents were shared with change
static void history(const TP& t, const std::vector<VP>& msgs) {
    bool be=mc::choose(2), dir=mc::choose(2); PVFieldPtr q=make(t); int n=mc::tier()?4:3; VP cur=vdefault(t); 
    PVFieldPtr twin; VP twinv;
    for(int i=0;i<n;i++) {
        int how=mc::choose(3); const VP& m=msgs[mc::choose(msgs.size())];
        mc::op("%s %s",how==0?"decode":how==1?"copy in":"decode, keeping a copy of the old contents",vstr(m).c_str());
        if(how==2) { twin=make(t); twin->copyUnchecked(*q); twinv=cur; }
        if(how==1) { PVFieldPtr src=make(m); q->copyUnchecked(*src); twin=src; twinv=m; }
        else { bytes w=encModel(m,be); Split s; s.minimal=i&1; decReal(q.get(),w,be,s,dir,w.size(),"history","message "+vstr(m)); }
        cur=m; std::string r=vcheck(q.get(),cur); CHECK(r=="","history","after the last message the object is wrong: %s",r.c_str());
        if(twin) { r=vcheck(twin.get(),twinv); CHECK(r=="","history-alias","decoding changed an object which was only copied: %s",r.c_str()); }
        mc::state(mc::hmix(vhash(cur),mc::hmix(be*2+dir,twin?vhash(twinv):0)));
    }
}
static std::vector<VP> someValues(const TP& t, int n) { std::vector<VP> r; r.push_back(vdefault(t)); for(int k=1;(int)r.size()<n;k++) { GenV g(k,3,false); g.counter=k*3; VP v=genV(g,t); bool dup=false; for(auto&x:r) dup|=vsame(x,v); if(!dup||k>40) r.push_back(v); } return r; }
SCENARIO(history_union) { TP u=tUnion({"i","a","s","w"},{tScalar(pvInt),tArray(pvShort),tStruct({"n"},{tScalar(pvString)}),tScalar(pvInt)}); std::vector<VP> m; m.push_back(vdefault(u)); for(int k=0;k<4;k++) { VP v=vdefault(u); v->sel=k; v->v=withFix(u->kids[k],2+k,2); m.push_back(v); if(k==1) { v=vcopy(v); v->v->a.clear(); m.push_back(v); } } history(u,m); }
SCENARIO(history_any) { TP u=tAny(); std::vector<VP> m; m.push_back(vdefault(u)); TP T[]={tScalar(pvInt),tScalar(pvString),tArray(pvInt),tStruct({"n"},{tScalar(pvInt)}),tAny()}; for(int k=0;k<5;k++) { VP v=vdefault(u); v->v=withFix(T[k],2+k,2); m.push_back(v); } VP v=vdefault(u); v->v=withFix(T[0],5,1); m.push_back(v); history(u,m); }
SCENARIO(history_array) { static const ScalarType ST[]={pvInt,pvString,pvBoolean,pvDouble}; TP a=tArray(ST[mc::choose(4)]); std::vector<VP> m; for(int k=0;k<4;k++) { VP v=vdefault(a); for(int i=0;i<k;i++) v->a.push_back(sval(a->s,k+i)); m.push_back(v); } history(a,m); }
SCENARIO(history_structarray) { TP s=tStruct({"i","a"},{tScalar(pvInt),tArray(pvString)}); TP a=tStructArr(s); std::vector<VP> m; m.push_back(vdefault(a)); for(int k=1;k<6;k++) { VP v=vdefault(a); for(int i=0;i<1+k%3;i++) v->kids.push_back((k+i)%4==1?VP():withFix(s,k+i,2)); m.push_back(v); } history(a,m); }
SCENARIO(history_unionarray) { TP s=tUnion({"i","a"},{tScalar(pvInt),tArray(pvString)}); TP a=tUnionArr(s); std::vector<VP> m; m.push_back(vdefault(a)); for(int k=1;k<6;k++) { VP v=vdefault(a); for(int i=0;i<1+k%3;i++) v->kids.push_back((k+i)%4==1?VP():withFix(s,k+i,2)); m.push_back(v); } history(a,m); }
SCENARIO(history_struct) { TP s=tStruct({"s","u","ua","x"},{tStruct({"d"},{tScalar(pvDouble)}),tUnion({"i","l"},{tScalar(pvInt),tArray(pvLong)}),tAnyArr(),tBString(9)}); history(s,someValues(s,5)); }
// the one-call interface, also with several objects behind one another in one buffer
SCENARIO(one_call) {
    TP T[]={tStruct({"d","s"},{tScalar(pvDouble),tScalar(pvString)}),tArray(pvString),tArray(pvULong),tAny(),tUnion({"i","l"},{tScalar(pvInt),tArray(pvLong)}),tStructArr(tStruct({"q"},{tScalar(pvUByte)}))};
    int ord=mc::choose(2); bool be=ord==0; int n=1+mc::choose(3); std::vector<VP> vs; for(int i=0;i<n;i++) { TP t=T[mc::choose(6)]; vs.push_back(withFix(t,1+mc::choose(i==0?3:2),3)); }
    std::vector<epicsUInt8> out; bytes want;
    for(auto&v:vs) { PVFieldPtr p=make(v); serializeToVector(p.get(),be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE,out); bytes w=encModel(v,be); want.insert(want.end(),w.begin(),w.end()); mc::op("append %s",vstr(v).c_str()); }
    CHECK(bytes(out.begin(),out.end())==want,"one-call","serializeToVector gives %s want %s",hexb(out).c_str(),hexb(want).c_str());
    if(out.empty()) mc::skip();
    ByteBuffer B((char*)&out[0],out.size(),be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE);
    for(auto&v:vs) { PVFieldPtr q=make(withFix(v->t,4,2)); deserializeFromBuffer(q.get(),B); std::string r=vcheck(q.get(),v); CHECK(r=="","one-call","deserializeFromBuffer: %s",r.c_str()); }
    CHECK(B.getRemaining()==0,"one-call","%zu bytes left",B.getRemaining());
    if(n==1) { PVFieldPtr q=make(vs[0]->t); deserializeFromVector(q.get(),be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE,out); std::string r=vcheck(q.get(),vs[0]); CHECK(r=="","one-call","deserializeFromVector: %s",r.c_str()); 
        out.pop_back(); if(!out.empty()) { std::string e=thrown([&]{ deserializeFromVector(q.get(),be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE,out); }); CHECK(e!="","one-call","an incomplete buffer is accepted for %s",vstr(vs[0]).c_str()); } }
    mc::state(mc::hstr(hexb(want)));
}
// an incompletely filled fixed size array cannot be encoded
SCENARIO(fixed_unfilled) { ScalarType st=(ScalarType)mc::choose(12); TP t=tFArray(st,2); mc::step(); PVFieldPtr p=make(t); std::string e=thrown([&]{ encReal(p.get(),true,64,0,false); }); CHECK(e!="","fixed","an unfilled %s encodes without an error",tstr(t).c_str()); }
// parts of arrays and strings: offset and count limit what is sent; arrays may look at the middle of a larger storage
static void encPart(const VP& v, size_t off, size_t cnt, Enc& e) {
    size_t n=v->t->k==KStructArr||v->t->k==KUnionArr||v->t->k==KAnyArr?v->kids.size():v->a.size(); size_t o=std::min(off,n), c=std::min(cnt,n-o); VP p=vcopy(v);
    if(p->kids.size()) { p->kids.assign(v->kids.begin()+o,v->kids.begin()+o+c); } else p->a.assign(v->a.begin()+o,v->a.begin()+o+c); encValue(p,e);
}
template<typename A> static void narrow(PVField *f, size_t n) { A *a=dynamic_cast<A*>(f); typename A::const_svector x(a->view()); x.slice(1,n); a->replace(x); }
static void parts(size_t n, const std::vector<size_t>& offs, const std::vector<size_t>& cnts) {
    int kind=mc::choose(16); TP E=tStruct({"q"},{tScalar(pvInt)}), U=tUnion({"i","s"},{tScalar(pvInt),tScalar(pvString)}); bool sliced=mc::choose(2); bool be=mc::choose(2), dir=mc::choose(2); TP t=kind<12?tArray((ScalarType)kind):kind==12?tStructArr(E):kind==13?tUnionArr(U):kind==14?tBArray(pvInt,1000):tFArray(pvInt,n); if(kind==15&&sliced) mc::skip();
    VP v(new MV(t)), full(new MV(t)); for(size_t i=0;i<n+(sliced?3:0);i++) { if(kind==12) { VP x; if(i%4!=3) { x=vdefault(E); x->kids[0]->s=MS((int)i); } full->kids.push_back(x); } else if(kind==13) { VP x; if(i%4!=3) { x=vdefault(U); x->sel=0; x->v=vdefault(tScalar(pvInt)); x->v->s=MS((int)i); } full->kids.push_back(x); } else full->a.push_back(sval(t->s,i%5+(i%7==0))); }
    *v=*full; PVFieldPtr f=make(full); if(sliced) { if(kind==12) narrow<PVStructureArray>(f.get(),n); else if(kind==13) narrow<PVUnionArray>(f.get(),n); else SDISPATCH(t->s, narrow<PVValueArray<T> >(f.get(),n)) if(v->kids.size()) v->kids.assign(full->kids.begin()+1,full->kids.begin()+1+n); else v->a.assign(full->a.begin()+1,full->a.begin()+1+n); }
    mc::op("%s of %zu%s be=%d direct=%d",tstr(t).c_str(),n,sliced?", sliced":"",be,dir); static const size_t C[]={16,64,600}; PVArray *a=dynamic_cast<PVArray*>(f.get());
    for(size_t o: offs) for(size_t c: cnts) for(size_t cap: C) for(size_t pre=0;pre<2;pre++) { FragSer s(cap,be,pre); s.allowDirect=dir; bool whole= o==0&&c>=n; std::string e=thrown([&]{ a->serialize(&s.buf,&s,o,c); }); mc::step();
        if(kind==15&&!whole) { CHECK(e!=""||n==0,"fixed-part","part %zd,%zd of %s of %zu accepted",(ssize_t)o,(ssize_t)c,tstr(t).c_str(),n); mc::outcome("refused"); continue; }
        CHECK(e=="","part","part %zd,%zd of %s of %zu: %s",(ssize_t)o,(ssize_t)c,tstr(t).c_str(),n,e.c_str()); Enc w(be); encPart(v,o,c,w); bytes g=s.finish(); CHECK(g==w.b,"part","part %zd,%zd of %s of %zu (%s endian, capacity %zu, direct %d%s) is sent as %s want %s",(ssize_t)o,(ssize_t)c,tstr(t).c_str(),n,be?"big":"little",cap,dir,sliced?", sliced":"",hexb(g).c_str(),hexb(w.b).c_str()); mc::outcome("sent"); }
    PVFieldPtr d=make(vdefault(t)); if(sliced) { Enc w(be); encValue(v,w); bytes g=encReal(f.get(),be,64,0,dir); CHECK(g==w.b,"sliced","sliced array encodes wrongly"); }
}
static const size_t HUGE_=(size_t)-1;
SCENARIO(part_of_array, mc::Opts().S(3)) { size_t n=mc::choose(5); parts(n,{0,1,2,3,4,5,HUGE_},{0,1,2,3,4,5,HUGE_}); }
SCENARIO(part_of_long, mc::Opts().S(3)) { static const size_t N[]={253,254,255,300}; size_t n=N[mc::choose(4)]; parts(n,{0,1,n-254,n-1,n},{1,253,254,255,n-1,n,HUGE_}); }
SCENARIO(part_of_string) { static const size_t N[]={0,1,3,253,254,255,300}; size_t n=N[mc::choose(7)]; std::string x; for(size_t i=0;i<n;i++) x+=char('!'+i%90); PVStringPtr s=getPVDataCreate()->createPVScalar<PVString>(); s->put(x); bool be=mc::choose(2); std::vector<size_t> q={0,1,2,3,4,n?n-1:0,n,n+1,253,254,255,HUGE_}; static const size_t C[]={16,64,600};
    for(size_t o: q) for(size_t c: q) for(size_t cap: C) { FragSer f(cap,be,1); s->serialize(&f.buf,&f,o,c); bytes g=f.finish(); Enc e(be); e.str(o>=n?std::string():x.substr(o,c)); mc::step(); CHECK(g==e.b,"part-string","part %zd,%zd of a string of %zu is sent as %s want %s",(ssize_t)o,(ssize_t)c,n,hexb(g).c_str(),hexb(e.b).c_str()); }
    mc::op("string of %zu",n); }
