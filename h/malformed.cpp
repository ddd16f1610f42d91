// C08: arbitrary bytes handed to every decoder
#include "valuesh.h"
#include <new>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <pv/status.h>
using namespace epics::pvData;

// a decoder may ask for a lot of memory; this machine never grants more than LIM at once
static const size_t LIM=1<<22;
static void *lim(size_t n) { if(n>LIM) throw std::bad_alloc(); void *p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return lim(n); }
void *operator new[](size_t n) { return lim(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// the stream is invented while it is read: every byte that is asked for is a choice
struct Lazy : public DeserializableControl {
    std::vector<char> store; ByteBuffer buf; const std::vector<uint8_t>& alpha; size_t max, n; int asks;
    Lazy(const std::vector<uint8_t>& a, size_t max, bool be) :store(max+8), buf(&store[0],store.size(),be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE), alpha(a), max(max), n(0), asks(0) { buf.setLimit(0); }
    virtual void ensureData(size_t want) {
        if(++asks>200) throw std::logic_error("test receiver: 200 requests");
        while(buf.getRemaining()<want) { if(n>=max) throw WireEnd(); int c=mc::choose(alpha.size()+1); if(c==0) throw WireEnd(); store[n++]=alpha[c-1]; buf.setLimit(n); mc::step(); }
    }
    virtual bool directDeserialize(ByteBuffer *, char*, size_t, size_t) { return false; }
    virtual FieldConstPtr cachedDeserialize(ByteBuffer* b) { return getFieldCreate()->deserialize(b,this); }
    std::string text() const { return mc::hex(&store[0],n); }
};
static bytes enc(const Serializable *s, bool be=true) { FragSer f(64,be); s->serialize(&f.buf,&f); return f.finish(); }
// a fixed size array which was never filled refuses to be copied
static bool tryCopy(const PVFieldPtr& c, const PVFieldPtr& p) { try { c->copyUnchecked(*p); return true; } catch(std::invalid_argument& e) { if(!strstr(e.what(),"fixed size array")) throw; return false; } }
static void typeUsable(const FieldConstPtr& f, const std::string& from) {
    std::ostringstream o; o<<*f; o<<f->getID(); bytes w=enc(f.get()); FragDes d(w,true,std::vector<size_t>()); FieldConstPtr g=getFieldCreate()->deserialize(&d.buf,&d);
    CHECK(g&&*g==*f&&*f==*g,"type-reencode","the type accepted from %s does not survive another encode/decode",from.c_str()); CHECK(d.consumed()==w.size(),"type-reencode","accepted type: %zu of %zu bytes",d.consumed(),w.size());
    CHECK(enc(g.get())==w,"type-reencode","accepted type encodes differently the second time");
    std::string e=thrown([&]{ PVFieldPtr p=getPVDataCreate()->createPVField(f); std::ostringstream q; q<<*p; if(p->getField()->getType()==structure) { CHECK(p->getNumberFields()>=1,"type-use","numbering"); } CHECK(*p==*p,"type-use","a value of the accepted type is not equal to itself"); PVFieldPtr c=getPVDataCreate()->createPVField(f); tryCopy(c,p); });
    CHECK(e=="","type-use","the type accepted from %s (%s) cannot be instantiated: %s",from.c_str(),w.size()<40?hexb(w).c_str():"",e.c_str());
    mc::outcome("accepted"); mc::state(mc::hstr(hexb(w)));
}
static void valueUsable(const PVFieldPtr& p, const std::string& from) {
    std::ostringstream o; o<<*p; p->dumpValue(o); bool nan=mc::str(*p).find("nan")!=std::string::npos; CHECK(nan||*p==*p,"value-use","the value accepted from %s is not equal to itself",from.c_str());
    bytes w; std::string e=thrown([&]{ w=enc(p.get()); }); CHECK(e=="","value-reencode","the value accepted from %s cannot be encoded: %s",from.c_str(),e.c_str());
    PVFieldPtr q=getPVDataCreate()->createPVField(p->getField()); FragDes d(w,true,std::vector<size_t>()); e=thrown([&]{ q->deserialize(&d.buf,&d); }); CHECK(e=="","value-reencode","the value accepted from %s is encoded to %s which is refused: %s",from.c_str(),hexb(w).c_str(),e.c_str());
    CHECK(enc(q.get())==w,"value-reencode","the value accepted from %s is encoded differently after another decode",from.c_str()); CHECK(nan||*p==*q,"value-reencode","the value accepted from %s does not survive another encode/decode",from.c_str());
    mc::outcome("accepted"); mc::state(mc::hstr(hexb(w),mc::hstr(mc::str(*p->getField()))));
}
// whatever happened, the receiver works
static void receiverUsable(const PVFieldPtr& p, const TP& t, const std::string& from) {
    std::ostringstream o; o<<*p; bool nan=mc::str(*p).find("nan")!=std::string::npos; CHECK(nan||*p==*p,"receiver","receiver is not equal to itself after %s",from.c_str()); thrown([&]{ enc(p.get()); });
    PVFieldPtr c=make(t); if(tryCopy(c,p)) CHECK(nan||*c==*p,"receiver","a copy of the receiver differs after %s",from.c_str());
    GenV g(3,2,false); VP v=genV(g,t); bytes w=encModel(v,true); FragDes d(w,true,std::vector<size_t>()); std::string e=thrown([&]{ p->deserialize(&d.buf,&d); }); CHECK(e=="","receiver","after %s the receiver refuses a valid message: %s",from.c_str(),e.c_str());
    e=vcheck(p.get(),v); CHECK(e=="","receiver","after %s the receiver decodes a valid message wrongly: %s",from.c_str(),e.c_str());
    assign(p.get(),v); e=vcheck(p.get(),v); CHECK(e=="","receiver","after %s the receiver cannot be assigned: %s",from.c_str(),e.c_str());
}
static const std::vector<uint8_t> TA={0x00,0x01,0x02,0x22,0x2a,0x32,0x3a,0x60,0x61,0x80,0x81,0x82,0x83,0x84,0x88,0x89,0x8a,0x8b,0x90,0x9a,0xfe,0xff,0x04,0xa0};
static const std::vector<uint8_t> TB={0x00,0x01,0x02,0x22,0x60,0x80,0x81,0x82,0x88,0x89,0xff};
static void typeBytes(const std::vector<uint8_t>& a, size_t max) { Lazy l(a,max,true); FieldConstPtr f; std::string e=thrown([&]{ f=getFieldCreate()->deserialize(&l.buf,&l); }); if(mc::tracing()) mc::note("bytes %s -> %s",l.text().c_str(),e==""?"accepted":e.c_str()); if(e!="") { mc::outcome("refused"); return; } if(f) typeUsable(f,l.text()); else CHECK(l.n==1&&(uint8_t)l.store[0]==0xff,"type","null type from %s",l.text().c_str()); }
SCENARIO(type_bytes) { typeBytes(TA,mc::tier()?6:5); }
SCENARIO(type_bytes_deep) { typeBytes(TB,mc::tier()?8:6); }

static std::vector<TP> targets() {
    TP b=tScalar(pvByte), s=tScalar(pvString), u=tUnion({"b","s"},{b,s});
    return { s, tBString(1), tArray(pvByte), tArray(pvShort), tArray(pvString), tBArray(pvByte,1), tFArray(pvByte,2), tFArray(pvString,1), u, tAny(), tStructArr(tStruct({"b"},{b})), tUnionArr(u), tAnyArr(), tStruct({"u","v"},{u,tAny()}), tUnion({"n","a"},{u,tAnyArr()}), tStruct({"b","a"},{tScalar(pvBoolean),tArray(pvBoolean)}), tStructArr(tStruct({"a"},{tStructArr(tStruct({"b"},{b}))})), tScalar(pvInt) };
}
static const std::vector<uint8_t> VA={0x00,0x01,0x02,0x20,0x82,0xfe,0xff,0x80};
static const std::vector<uint8_t> VX={0x00,0x01,0x02,0x20,0x28,0x30,0x38,0x60,0x68,0x80,0x81,0x82,0x83,0x88,0x89,0x8a,0xfe,0xff};
SCENARIO(value_bytes) {
    static std::vector<TP> T=targets(); TP t=T[mc::choose(T.size())]; int old=mc::choose(3); PVFieldPtr p; { GenV g(old*2,2,false); g.counter=old; VP o=old?genV(g,t):vdefault(t); p=make(o); }
    bool any=t->k==KAny||t->k==KAnyArr; size_t max=any?(mc::tier()?5:4):(mc::tier()?7:5);
    if(t->k==KScalar&&t->s==pvInt) max=4;
    Lazy l(any?VX:VA,max,mc::choose(2)); std::string e=thrown([&]{ p->deserialize(&l.buf,&l); }); std::string from=tstr(t)+" <- "+l.text(); if(mc::tracing()) mc::note("%s: %s",from.c_str(),e==""?"accepted":e.c_str());
    if(e=="") valueUsable(p,from); else mc::outcome("refused"); receiverUsable(p,t,from);
}
SCENARIO(partial_bytes) { // bit set and data together
    TP t=tStruct({"u","s","v"},{tUnion({"b","s"},{tScalar(pvByte),tScalar(pvString)}),tStruct({"a"},{tArray(pvByte)}),tAny()}); PVStructurePtr p; { GenV g(mc::choose(2)*2,2,false); p=makeS(genV(g,t)); }
    static const std::vector<uint8_t> A={0x00,0x01,0x02,0x04,0x10,0x20,0x3f,0xff,0xfe}; Lazy l(A,mc::tier()?6:5,true); BitSet b; std::string e=thrown([&]{ b.deserialize(&l.buf,&l); p->deserialize(&l.buf,&l,&b); }); std::string from="partial update "+l.text(); if(mc::tracing()) mc::note("%s: %s",from.c_str(),e==""?"accepted":e.c_str());
    if(e=="") valueUsable(p,from); else mc::outcome("refused"); receiverUsable(p,t,from);
}
SCENARIO(bitset_bytes) { static const std::vector<uint8_t> A={0x00,0x01,0x02,0x08,0x09,0x80,0xff,0xfe,0x40}; Lazy l(A,mc::tier()?7:6,mc::choose(2)); BitSet b; b.set(70); std::string e=thrown([&]{ b.deserialize(&l.buf,&l); }); if(mc::tracing()) mc::note("%s: %s",l.text().c_str(),e.c_str()); if(e!="") { mc::outcome("refused"); b.set(3); CHECK(b.get(3),"bitset","unusable after %s",l.text().c_str()); b.clear(); CHECK(b.isEmpty()&&b.cardinality()==0,"bitset","unusable"); return; }
    FragSer f(64,true); b.serialize(&f.buf,&f); bytes w=f.finish(); FragDes d(w,true,std::vector<size_t>()); BitSet c; c.deserialize(&d.buf,&d); CHECK(b==c,"bitset","%s does not survive",l.text().c_str()); mc::str(b); mc::outcome("accepted"); mc::state(mc::hstr(hexb(w))); }
SCENARIO(status_bytes) { static const std::vector<uint8_t> A={0x00,0x01,0x02,0x03,0x04,0x7f,0x80,0xfe,0xff}; Lazy l(A,mc::tier()?7:6,mc::choose(2)); Status s(Status::STATUSTYPE_ERROR,"old"); std::string e=thrown([&]{ s.deserialize(&l.buf,&l); }); if(mc::tracing()) mc::note("%s: %s",l.text().c_str(),e.c_str()); mc::str(s); CHECK(s.getType()>=Status::STATUSTYPE_OK&&s.getType()<=Status::STATUSTYPE_FATAL,"status","type %d after %s",(int)s.getType(),l.text().c_str()); if(e!="") { mc::outcome("refused"); return; }
    bytes w=enc(&s); FragDes d(w,true,std::vector<size_t>()); Status q; q.deserialize(&d.buf,&d); CHECK(q.getType()==s.getType()&&(s.isOK()||q.getMessage()==s.getMessage()),"status","%s does not survive",l.text().c_str()); mc::outcome("accepted"); mc::state(mc::hstr(hexb(w))); }

// every damage to one byte of valid messages: replaced by any value, removed, doubled, or the message cut there
static std::vector<TP> typeCat() { TP u=tUnion({"b","s"},{tScalar(pvByte),tScalar(pvString)},"U"), s=tStruct({"a","u"},{tBArray(pvInt,7),u},"S"); return { s, tStructArr(s), tUnionArr(u), tStruct({"s","sa","ua","v","va"},{s,tStructArr(s),tUnionArr(u),tAny(),tAnyArr()}), tStruct({"f","b"},{tFArray(pvDouble,300),tBString(3)}), u }; }
static std::vector<TP> valueCat() { TP u=tUnion({"b","s"},{tScalar(pvByte),tScalar(pvString)},"U"), s=tStruct({"a","u"},{tArray(pvInt),u},"S"); return { s, tStructArr(s), tUnionArr(u), tStruct({"s","sa","ua"},{s,tStructArr(s),tUnionArr(u)}), tStruct({"v","va"},{tAny(),tAnyArr()}), tStruct({"f","b","d","sa"},{tFArray(pvShort,2),tBString(3),tScalar(pvDouble),tArray(pvString)}) }; }
static bytes damage(bytes w) { int pos=mc::choose(w.size()); int how=mc::choose(259); if(how<256) w[pos]=how; else if(how==256) w.erase(w.begin()+pos); else if(how==257) w.insert(w.begin()+pos,w[pos]); else w.resize(pos); return w; }
SCENARIO(damaged_types) { static std::vector<TP> T=typeCat(); TP t=T[mc::choose(T.size())]; Enc e(true); encType(t,e); bytes w=damage(e.b); mc::op("%s",hexb(w).c_str()); FragDes d(w,true,std::vector<size_t>()); FieldConstPtr f; std::string x=thrown([&]{ f=getFieldCreate()->deserialize(&d.buf,&d); }); if(x!="") { mc::outcome("refused"); return; } if(f) typeUsable(f,hexb(w)); }
SCENARIO(damaged_values) { static std::vector<TP> T=valueCat(); TP t=T[mc::choose(T.size())]; GenV g(1+mc::choose(mc::tier()?5:3),2,false); VP v=genV(g,t); bytes w=encModel(v,true); if(w.empty()) mc::skip(); w=damage(w); mc::op("%s <- %s",tstr(t).c_str(),hexb(w).c_str()); FragDes d(w,true,std::vector<size_t>()); PVFieldPtr p=make(t); { GenV go(4,2,false); assign(p.get(),genV(go,t)); } std::string x=thrown([&]{ p->deserialize(&d.buf,&d); }); std::string from=tstr(t)+" <- "+hexb(w); if(x=="") valueUsable(p,from); else mc::outcome("refused"); receiverUsable(p,t,from); }
SCENARIO(damaged_updates) { static std::vector<TP> T=valueCat(); TP t=T[mc::choose(T.size())]; if(t->k!=KStruct) mc::skip(); GenV g(2,2,false); VP v=genV(g,t); size_t n=tcount(t); int b1=mc::choose(n), b2=mc::choose(n); std::vector<bool> m(n); m[b1]=m[b2]=true; BitSet b; b.set(b1); b.set(b2); Enc e(true); { FragSer f(64,true); b.serialize(&f.buf,&f); e.b=f.finish(); } encMasked(v,0,m,e); bytes w=e.b; int pos=mc::choose(w.size()); static const int R[]={0,1,2,3,5,0x7f,0x80,0xfd,0xfe,0xff,0x22,0x82}; int how=mc::choose(14); if(how<12) w[pos]=R[how]; else if(how==12) w.resize(pos); else w.erase(w.begin()+pos); mc::op("%s",hexb(w).c_str());
    FragDes d(w,true,std::vector<size_t>()); PVStructurePtr p=makeS(vdefault(t)); if(t->names[0]=="f") { GenV go(4,2,false); assign(p.get(),genV(go,t)); } BitSet r; std::string x=thrown([&]{ r.deserialize(&d.buf,&d); p->deserialize(&d.buf,&d,&r); }); std::string from="update of "+tstr(t)+" <- "+hexb(w); if(x=="") valueUsable(p,from); else mc::outcome("refused"); receiverUsable(p,t,from); }
// sizes: each size field of a message replaced by each interesting long size
SCENARIO(damaged_sizes) { TP T[]={tScalar(pvString),tArray(pvByte),tArray(pvInt),tArray(pvDouble),tArray(pvString),tArray(pvBoolean),tStructArr(tStruct({"b"},{tScalar(pvByte)})),tStructArr(tStruct({},{})),tUnionArr(tUnion({"b"},{tScalar(pvByte)})),tAnyArr(),tUnion({"b"},{tScalar(pvByte)})}; TP t=T[mc::choose(11)]; bool be=mc::choose(2);
    static const uint32_t N[]={0,1,2,253,254,255,256,0x1000,0x10000,0x100000,0x1000000,0x1fffffff,0x20000000,0x3fffffff,0x40000000,0x7ffffffe,0x7fffffff,0x80000000u,0xfffffffeu,0xffffffffu}; uint32_t n=N[mc::choose(20)]; int tail=mc::choose(3); bytes w; w.push_back(0xfe); { Enc e(be); e.raw(n,4); w.insert(w.end(),e.b.begin(),e.b.end()); } for(int i=0;i<tail*300;i++) w.push_back(tail==1?0:1); mc::op("%s size %u tail %d",tstr(t).c_str(),n,tail);
    FragDes d(w,be,std::vector<size_t>()); PVFieldPtr p=make(t); std::string x=thrown([&]{ p->deserialize(&d.buf,&d); }); std::string from=tstr(t)+" size "+mc::str(n); if(x=="") valueUsable(p,from); else mc::outcome("refused"); receiverUsable(p,t,from); }
// nesting: each level costs one byte (variants) or five (structures) of the message
SCENARIO(deep_nesting, mc::Opts().NL()) {
    int kind=mc::choose(2); static const int D[]={1,10,100,1000,100000}; int depth=D[mc::choose(5)]; mc::op("%s nested %d deep",kind?"structure descriptions":"variant values",depth); bytes w; if(kind==0) { w.assign(depth,0x82); w.push_back(0xff); } else { for(int i=0;i<depth;i++) { static const uint8_t L[]={0x80,0,1,1,'a'}; w.insert(w.end(),L,L+5); } w.push_back(0x22); }
    fflush(stdout); pid_t c=fork();
    if(c==0) { int dn=open("/dev/null",2); dup2(dn,2); { std::string x=thrown([&]{ FragDes d(w,true,std::vector<size_t>()); if(kind==0) { PVFieldPtr p=make(tAny()); p->deserialize(&d.buf,&d); } else getFieldCreate()->deserialize(&d.buf,&d); }); } _exit(0); }
    int ws=0; waitpid(c,&ws,0); CHECK(WIFEXITED(ws)&&WEXITSTATUS(ws)==0,"deep-nesting","decoding %s nested %d deep in a message of %zu bytes exhausts the stack",kind?"structure descriptions":"variant values",depth,w.size());
}
