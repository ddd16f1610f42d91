// sizes, strings, sub-strings and status on the wire
#include "pvdh.h"
#include <pv/status.h>
using namespace epics::pvData;

namespace {
std::string text(size_t n, int seed=0) { std::string s(n,' '); for(size_t i=0;i<n;i++) s[i]=char((i*7+seed*31+ (i>>4))&0xff); return s; }
// every way of receiving 'in': whole, each single split, each pair (if small), byte by byte
template<typename F> void eachFragmentation(const bytes& in, bool be, size_t dbl, F f) {
    for(int mode=0;mode<2;mode++) { FragDes d(in,be,std::vector<size_t>(),mode==1); f(d); mc::step(); }
    for(size_t a=0;a<in.size();a++) {
        { FragDes d(in,be,std::vector<size_t>(1,a)); if(a==0) { d.buf.clear(); d.buf.setLimit(0); d.fed=0; d.cuts.clear(); } f(d); mc::step(); }
        if(in.size()<=dbl) for(size_t b=a+1;b<in.size();b++) { std::vector<size_t> c; c.push_back(a); c.push_back(b); FragDes d(in,be,c); f(d); mc::step(); }
    }
}
}
SCENARIO(sizes) {
    static const std::vector<size_t> V=[]{ std::vector<size_t> v; for(size_t i=0;i<=300;i++) v.push_back(i);
        for(size_t x: {0x7f7ful,0x7ffful,0x8000ul,0xfffful,0x10000ul,0x1234567ul,0x00fefffeul,0x7ffffffeul,0x7ffffffful}) v.push_back(x); v.push_back((size_t)-1); return v; }();
    size_t n=V[mc::choose(V.size())]; bool be=mc::choose(2); size_t cap=9+mc::choose(4), pre=mc::choose(14); if(pre>cap) mc::skip();
    mc::op("size %zu be=%d cap=%zu prefilled=%zu",n,be,cap,pre);
    FragSer s(cap,be,pre); SerializeHelper::writeSize(n,&s.buf,&s); bytes w=s.finish();
    Enc e(be); e.size(n);
    CHECK(w==e.b,"writeSize","size %zu is written as %s want %s",n,hexb(w).c_str(),hexb(e.b).c_str());
    mc::state(mc::hbytes(&w[0],w.size(),be*100+cap)); mc::outcome(mc::str(w.size()));
    w.push_back(0x33); // something follows
    eachFragmentation(w,be,8,[&](FragDes& d) { size_t r=SerializeHelper::readSize(&d.buf,&d); CHECK(r==n,"readSize","size %zu is read as %zu",n,r); CHECK(d.consumed()==w.size()-1,"readSize","consumed %zu",d.consumed()); });
}
// the four-byte form may carry small values; negative ones are refused
SCENARIO(size_long_form) {
    static const uint32_t V[]={0,1,253,254,255,256,0x7fffffff,0x80000000u,0xffffffffu,0xfffffffeu};
    uint32_t n=V[mc::choose(10)]; bool be=mc::choose(2); Enc e(be); e.u8(0xfe); e.raw(n,4);
    mc::step();
    eachFragmentation(e.b,be,8,[&](FragDes& d) { size_t r=0; std::string x=thrown([&]{ r=SerializeHelper::readSize(&d.buf,&d); });
        if(n>0x7fffffff) CHECK(x!="","readSize","negative size %x is accepted",n); else CHECK(x==""&&r==n,"readSize","size %u read as %zu %s",n,r,x.c_str()); });
}
static void strings(size_t n, size_t cap, size_t pre, bool be, int maxpre) {
    if(pre>cap) mc::skip();
    std::string v=text(n,cap);
    mc::op("string of %zu be=%d cap=%zu prefilled=%zu",n,be,cap,pre);
    FragSer s(cap,be,pre); SerializeHelper::serializeString(v,&s.buf,&s); bytes w=s.finish();
    Enc e(be); e.str(v);
    CHECK(w==e.b,"writeString","string of %zu bytes is written as %s want %s",n,hexb(w).c_str(),hexb(e.b).c_str());
    mc::state(mc::hbytes(&w[0],w.size(),be*100+cap*7+pre)); mc::outcome(mc::str(s.flushes));
    if((int)pre>maxpre) return; // receiving does not depend on how it was sent
    w.push_back('x');
    eachFragmentation(w,be,14,[&](FragDes& d) { std::string r=SerializeHelper::deserializeString(&d.buf,&d); CHECK(r==v,"readString","string of %zu bytes read back as %s",n,mc::hex(r).c_str()); CHECK(d.consumed()==w.size()-1,"readString","consumed %zu of %zu",d.consumed(),w.size()-1); });
    for(size_t cut=0;cut+1<w.size();cut++) { bytes t(w.begin(),w.begin()+cut); FragDes d(t,be,std::vector<size_t>(),cut&1); std::string x=thrown([&]{ SerializeHelper::deserializeString(&d.buf,&d); }); CHECK(x!="","truncated","a string cut after %zu bytes is accepted",cut); }
}
SCENARIO(strings_small) { size_t n=mc::choose(mc::tier()?64:40); static const size_t C[]={9,10,11,13,16,32}; size_t cap=C[mc::choose(6)]; size_t pre=mc::choose(33); strings(n,cap,pre,mc::choose(2),1); }
SCENARIO(strings_large) { static const size_t L[]={252,253,254,255,256,300,1000}; size_t n=L[mc::choose(7)]; static const size_t C[]={9,64,253,254,255,256,259,260,1024}; strings(n,C[mc::choose(9)],mc::choose(10),mc::choose(2),0); }

SCENARIO(substrings) {
    size_t n=mc::choose(13), off=mc::choose(15), cnt=mc::choose(16); if(cnt==15) cnt=std::string::npos;
    bool be=mc::choose(2); size_t cap=9+mc::choose(3), pre=mc::choose(12); if(pre>cap) mc::skip();
    std::string v=text(n,3), want=off>n?std::string():v.substr(off,cnt);
    mc::op("substring(%zu,%zu) of %zu be=%d cap=%zu prefilled=%zu",off,cnt,n,be,cap,pre);
    FragSer s(cap,be,pre); SerializeHelper::serializeSubstring(v,off,cnt,&s.buf,&s); bytes w=s.finish();
    Enc e(be); e.str(want);
    CHECK(w==e.b,"substring","substring(%zu,%zu) of %zu bytes is written as %s want %s",off,cnt,n,hexb(w).c_str(),hexb(e.b).c_str());
    mc::state(mc::hbytes(&w[0],w.size(),be*100+cap*7+pre)); mc::outcome(mc::str(want.size()));
    PVStringPtr p=getPVDataCreate()->createPVScalar<PVString>(); p->put(v);
    FragSer s2(cap,be,pre); p->serialize(&s2.buf,&s2,off,cnt); w=s2.finish();
    CHECK(w==e.b,"substring","PVString: substring(%zu,%zu) of %zu bytes is written as %s want %s",off,cnt,n,hexb(w).c_str(),hexb(e.b).c_str());
}
// convenience functions whose internal buffer is 16k
SCENARIO(vector_functions) {
    static const size_t L[]={0,1,16370,16374,16375,16376,16377,16378,16379,16380,16383,16384,16385,32768,40000};
    size_t n=L[mc::choose(15)]; bool be=mc::choose(2); int o=be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE;
    PVStructurePtr p=getPVDataCreate()->createPVStructure(getFieldCreate()->createFieldBuilder()->add("a",pvString)->add("b",pvInt)->add("c",pvString)->createStructure());
    std::string v=text(n,1); mc::step();
    p->getSubFieldT<PVString>("a")->put(v); p->getSubFieldT<PVInt>("b")->put(0x01020304); p->getSubFieldT<PVString>("c")->put("tail");
    std::vector<epicsUInt8> out(3,9); serializeToVector(p.get(),o,out);
    Enc e(be); e.u8(9);e.u8(9);e.u8(9); e.str(v); e.raw(0x01020304,4); e.str("tail");
    CHECK(bytes(out.begin(),out.end())==e.b,"toVector","serializeToVector of a string of %zu is wrong (%zu bytes want %zu)",n,out.size(),e.b.size());
    out.erase(out.begin(),out.begin()+3);
    PVStructurePtr q=getPVDataCreate()->createPVStructure(p->getStructure()); deserializeFromVector(q.get(),o,out);
    CHECK(*p==*q,"fromVector","deserializeFromVector differs");
    out.pop_back(); CHECK(thrown([&]{ deserializeFromVector(q.get(),o,out); })!="","fromVector","a truncated message is accepted");
}
namespace {
struct SM { int t=0; std::string m,d; };
Status mk(int t, const std::string& m, const std::string& d, int how) {
    if(t==0) return how&1?Status::Ok:Status();
    if(how==1) return Status((Status::StatusType)t,m,d);
    if(d.empty()) return t==1?Status::warn(m):t==2?Status::error(m):Status::fatal(m);
    return Status((Status::StatusType)t,m,d);
}
SM pick(const char *w) {
    SM s; s.t=mc::choose(4); if(s.t==0) { mc::op("%s=OK",w); return s; }
    static const char *M[]={"","m","a longer message"}; s.m=M[mc::choose(3)]; s.d=mc::choose(2)?"dump":""; mc::op("%s=(%d,'%s','%s')",w,s.t,s.m.c_str(),s.d.c_str()); return s;
}
void same(const Status& s, const SM& m, const char *w) {
    CHECK(s.getType()==m.t,"status","%s: type %d want %d",w,s.getType(),m.t);
    CHECK(s.getMessage()==m.m&&s.getStackDump()==m.d,"status","%s: '%s' '%s' want '%s' '%s'",w,s.getMessage().c_str(),s.getStackDump().c_str(),m.m.c_str(),m.d.c_str());
    CHECK(s.isOK()==(m.t==0)&&s.isSuccess()==(m.t<2)&&bool(s)==(m.t<2),"status","%s: predicates wrong for type %d",w,m.t);
    static const char *N[]={"OK","WARNING","ERROR","FATAL"};
    std::string want=std::string("Status [type=")+N[m.t]+(m.m.empty()?"":", message="+m.m)+(m.d.empty()?"":", stackDump=\n"+m.d)+"]";
    CHECK(mc::str(s)==want,"print","%s: printed as '%s'",w,mc::str(s).c_str());
    CHECK(mc::str(s.getType())==N[m.t],"print","type name");
}
}
SCENARIO(status_wire) {
    SM a=pick("sent"), old=pick("receiver"); bool be=mc::choose(2); size_t cap=9+mc::choose(3), pre=mc::choose(12); if(pre>cap) mc::skip();
    Status s=mk(a.t,a.m,a.d,0); same(s,a,"new"); same(mk(a.t,a.m,a.d,1),a,"new");
    FragSer fs(cap,be,pre); s.serialize(&fs.buf,&fs); bytes w=fs.finish();
    Enc e(be); if(a.t==0) e.u8(0xff); else { e.u8(a.t); e.str(a.m); e.str(a.d); }
    CHECK(w==e.b,"statuswire","status written as %s want %s",hexb(w).c_str(),hexb(e.b).c_str());
    mc::state(mc::hbytes(&w[0],w.size(),be*100+cap*7+pre+1000*old.t)); mc::outcome(mc::str(a.t)+mc::str(old.t));
    if(pre>1) return;
    w.push_back(1);
    eachFragmentation(w,be,8,[&](FragDes& d) { Status r=mk(old.t,old.m,old.d,1); r.deserialize(&d.buf,&d); same(r,a,"received"); CHECK(d.consumed()==w.size()-1,"statuswire","consumed %zu",d.consumed()); });
}
SCENARIO(status_type_codes) {
    int c=mc::choose(256); bool be=mc::choose(2); Enc e(be); e.u8(c); e.str("msg"); e.str("dump"); mc::step();
    FragDes d(e.b,be,std::vector<size_t>(),mc::choose(2)); Status r(Status::STATUSTYPE_ERROR,"old");
    std::string x=thrown([&]{ r.deserialize(&d.buf,&d); });
    if(c<4||c==255) CHECK(x=="","code","type code %d refused: %s",c,x.c_str()); else CHECK(x!="","code","type code %d is accepted",c);
    int t=r.getType(); CHECK(t>=0&&t<4,"code","type %d after code %d",t,c); CHECK(mc::str(r)!="","code","cannot print");
    mc::outcome(x==""?"ok":"refused");
}
SCENARIO(status_maximize) {
    SM m; Status acc; int n=mc::tier()?4:3;
    for(int i=0;i<n;i++) { SM x=pick("next"); Status s=mk(x.t,x.m,x.d,i&1); if(i&1) acc.maximize(s); else { Status& r=(acc|=s); CHECK(&r==&acc,"maximize","operator|= returns another object"); }
        if(x.t>m.t) m=x; same(acc,m,"merged"); same(s,x,"operand"); }
    CHECK(thrown([]{ Status s(Status::STATUSTYPE_OK,"x"); })!=""&&thrown([]{ Status s(Status::STATUSTYPE_OK,"x","y"); })!="","okmsg","an OK status with a message can be made");
    mc::outcome(mc::str(m.t));
}
