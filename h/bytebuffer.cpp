// ByteBuffer against an array of bytes with a cursor
#include "pvdh.h"
using namespace epics::pvData;

namespace {
const size_t N=24, G=16;
struct Model {
    std::vector<uint8_t> mem; size_t pos, lim; bool be;
    Model() :mem(N,0), pos(0), lim(N), be(false) {}
};
struct Sys {
    std::vector<uint8_t> raw; Model m; ByteBuffer b;
    Sys(bool be) :raw(N+2*G,0xA5), b((char*)&raw[G],N,be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE) {
        for(size_t i=0;i<N;i++) raw[G+i]=m.mem[i]=uint8_t(i*37+11);
        m.be=be;
    }
    void check(const char *what) {
        CHECK(b.getPosition()==m.pos,"position","%s: position %zu want %zu",what,b.getPosition(),m.pos);
        CHECK(b.getLimit()==m.lim,"limit","%s: limit %zu want %zu",what,b.getLimit(),m.lim);
        CHECK(b.getRemaining()==m.lim-m.pos,"remaining","%s: remaining %zu",what,b.getRemaining());
        CHECK(b.getSize()==N,"size","%s: size %zu",what,b.getSize());
        CHECK(b.getBuffer()==(const char*)&raw[G],"storage","%s: storage moved",what);
        for(size_t i=0;i<N;i++) CHECK(raw[G+i]==m.mem[i],"bytes","%s: byte %zu is %02x want %02x",what,i,raw[G+i],m.mem[i]);
        for(size_t i=0;i<G;i++) CHECK(raw[i]==0xA5&&raw[G+N+i]==0xA5,"outside","%s: wrote outside the buffer",what);
    }
};
template<typename T> struct U { typedef typename std::conditional<sizeof(T)==1,uint8_t,typename std::conditional<sizeof(T)==2,uint16_t,typename std::conditional<sizeof(T)==4,uint32_t,uint64_t>::type>::type>::type t; };
template<typename T> uint64_t bitsOf(T v) { typename U<T>::t u; memcpy(&u,&v,sizeof v); return u; }
template<typename T> T fromBits(uint64_t x) { typename U<T>::t u=x; T v; memcpy(&v,&u,sizeof v); return v; }
template<> bool fromBits<bool>(uint64_t x) { return x!=0; }
const uint64_t PAT[]={0x0102030405060708ull,0x8899aabbccddeeffull,0,0x7ff0000000000001ull,~0ull};
template<typename T> T val(int k) { return fromBits<T>(PAT[k]>>(8*(8-sizeof(T)))); }
template<> bool val<bool>(int k) { return k&1; }
void mput(Model& m, size_t at, uint64_t v, size_t n) { for(size_t i=0;i<n;i++) m.mem[at+i]=uint8_t(v>>(8*(m.be?n-1-i:i))); }
uint64_t mget(const Model& m, size_t at, size_t n) { uint64_t v=0; for(size_t i=0;i<n;i++) v|=uint64_t(m.mem[at+(m.be?n-1-i:i)])<<(8*i); return v; }

// one typed operation; kinds 0..5
template<typename T> void typed(Sys& s, const char *tn, int kind, int k, size_t at, size_t cnt) {
    size_t n=sizeof(T); T v=val<T>(k);
    switch(kind) {
    case 0: mc::op("put<%s>(pattern %d)",tn,k); if(s.m.lim-s.m.pos<n) mc::skip(); s.b.put<T>(v); mput(s.m,s.m.pos,bitsOf(v),n); s.m.pos+=n; break;
    case 1: { mc::op("get<%s>()",tn); if(s.m.lim-s.m.pos<n) mc::skip(); T g=s.b.get<T>(); uint64_t w=mget(s.m,s.m.pos,n); s.m.pos+=n;
        CHECK(bitsOf(g)==w,"get","get<%s> returns %llx want %llx",tn,(unsigned long long)bitsOf(g),(unsigned long long)w); break; }
    case 2: mc::op("put<%s>(at %zu, pattern %d)",tn,at,k); if(s.m.lim<at+n) mc::skip(); s.b.put<T>(at,v); mput(s.m,at,bitsOf(v),n); break;
    case 3: { mc::op("get<%s>(at %zu)",tn,at); if(s.m.lim<at+n) mc::skip(); T g=s.b.get<T>(at); uint64_t w=mget(s.m,at,n);
        CHECK(bitsOf(g)==w,"getAt","get<%s>(%zu) returns %llx want %llx",tn,at,(unsigned long long)bitsOf(g),(unsigned long long)w); break; }
    case 4: { mc::op("putArray<%s>(%zu)",tn,cnt); if(s.m.lim-s.m.pos<n*cnt) mc::skip(); T a[4]; for(size_t i=0;i<4;i++) a[i]=val<T>((k+i)%5); T c[4]; memcpy(c,a,sizeof a);
        s.b.putArray<T>(a,cnt); CHECK(!memcmp(a,c,sizeof a),"putArray","source array changed"); for(size_t i=0;i<cnt;i++) { mput(s.m,s.m.pos,bitsOf(a[i]),n); s.m.pos+=n; } break; }
    case 5: { mc::op("getArray<%s>(%zu)",tn,cnt); if(s.m.lim-s.m.pos<n*cnt) mc::skip(); T a[5]; memset(a,0x5a,sizeof a); s.b.getArray<T>(a,cnt);
        for(size_t i=0;i<cnt;i++) { uint64_t w=mget(s.m,s.m.pos,n); s.m.pos+=n; CHECK(bitsOf(a[i])==w,"getArray","getArray<%s>[%zu] is %llx want %llx",tn,i,(unsigned long long)bitsOf(a[i]),(unsigned long long)w); }
        for(size_t i=cnt*n;i<sizeof a;i++) CHECK(((uint8_t*)a)[i]==0x5a,"getArray","getArray wrote beyond the destination"); break; }
    }
}
void anyTyped(Sys& s, int t, int kind, int k, size_t at, size_t cnt) {
    switch(t) {
    case 0: typed<int8>(s,"int8",kind,k,at,cnt); break; case 1: typed<int16>(s,"int16",kind,k,at,cnt); break;
    case 2: typed<int32>(s,"int32",kind,k,at,cnt); break; case 3: typed<int64>(s,"int64",kind,k,at,cnt); break;
    case 4: typed<float>(s,"float",kind,k,at,cnt); break; case 5: typed<double>(s,"double",kind,k,at,cnt); break;
    case 6: typed<uint8>(s,"uint8",kind,k,at,cnt); break; case 7: typed<uint16>(s,"uint16",kind,k,at,cnt); break;
    case 8: typed<uint32>(s,"uint32",kind,k,at,cnt); break; case 9: typed<uint64>(s,"uint64",kind,k,at,cnt); break;
    }
}
// named accessors
void named(Sys& s, int f, int k, size_t at) {
#define REL(NM,T) { mc::op("put" #NM); if(s.m.lim-s.m.pos<sizeof(T)) mc::skip(); T v=val<T>(k); s.b.put##NM(v); mput(s.m,s.m.pos,bitsOf(v),sizeof(T)); s.check("put" #NM); size_t p=s.m.pos; \
      s.b.setPosition(p); T g=s.b.get##NM(); s.m.pos+=sizeof(T); CHECK(bitsOf(g)==bitsOf(v),"named","get" #NM " differs from put" #NM); }
#define ABS(NM,T) { mc::op("put" #NM "(%zu)",at); if(s.m.lim<at+sizeof(T)) mc::skip(); T v=val<T>(k); s.b.put##NM(at,v); mput(s.m,at,bitsOf(v),sizeof(T)); s.check("put" #NM "(i)"); \
      T g=s.b.get##NM(at); CHECK(bitsOf(g)==bitsOf(v),"named","get" #NM "(i) differs from put" #NM "(i)"); }
    size_t before=s.m.pos; (void)before;
    switch(f) {
#define BOTH(I,NM,T) case 2*I: { mc::op("put" #NM "/get" #NM); if(s.m.lim-s.m.pos<2*sizeof(T)) mc::skip(); T v=val<T>(k); s.b.put##NM(v); mput(s.m,s.m.pos,bitsOf(v),sizeof(T)); s.m.pos+=sizeof(T); s.check("put" #NM); \
        mput(s.m,s.m.pos,0,0); uint64_t w=mget(s.m,s.m.pos,sizeof(T)); T g=s.b.get##NM(); s.m.pos+=sizeof(T); bool isb=strcmp(#NM,"Boolean")==0; CHECK((isb?bool(g)==(w!=0):bitsOf(g)==w),"named","get" #NM " returns the wrong value"); break; } \
      case 2*I+1: ABS(NM,T) break;
    BOTH(0,Boolean,bool) BOTH(1,Byte,int8) BOTH(2,Short,int16) BOTH(3,Int,int32) BOTH(4,Long,int64) BOTH(5,Float,float) BOTH(6,Double,double)
    }
}
void hash(Sys& s) { mc::state(mc::hbytes(&s.m.mem[0],N, s.m.pos*1000+s.m.lim*3+s.m.be)); }
}

// each typed operation at each position/alignment, index, count, value, order
SCENARIO(each_operation) {
    Sys s(mc::choose(2)); int t=mc::choose(10), kind=mc::choose(6); size_t pos=mc::choose(10); size_t lim=pos+mc::choose(N-pos+1);
    s.b.setLimit(lim); s.b.setPosition(pos); s.m.pos=pos; s.m.lim=lim; s.check("setPosition/setLimit");
    int k=0; size_t at=0,cnt=0;
    if(kind==0||kind==2) k=mc::choose(5);
    if(kind==2||kind==3) at=mc::choose(N);
    if(kind>=4) { cnt=mc::choose(4); k=kind==4?mc::choose(2):0; }
    anyTyped(s,t,kind,k,at,cnt); s.check("operation"); hash(s);
    mc::outcome(mc::str(kind));
}
SCENARIO(named_accessors) {
    Sys s(mc::choose(2)); int f=mc::choose(14); size_t pos=mc::choose(9), at=0; if(f&1) at=mc::choose(N);
    s.b.setPosition(pos); s.m.pos=pos;
    named(s,f,mc::choose(5),at); s.check("operation"); hash(s);
}
// sequences
static void seq(int depth, const std::vector<int>& types, const std::vector<int>& kinds) {
    Sys s(mc::choose(2)); s.check("new");
    for(int d=0; d<depth; d++) {
        int nt=types.size()*kinds.size();
        int o=mc::choose(nt+13);
        if(o<nt) anyTyped(s,types[o%types.size()],kinds[o/types.size()],(d+o)%3, 1+d, 1+d%2);
        else switch(o-nt) {
        case 0: mc::op("flip"); s.b.flip(); s.m.lim=s.m.pos; s.m.pos=0; break;
        case 1: mc::op("rewind"); s.b.rewind(); s.m.pos=0; break;
        case 2: mc::op("clear"); s.b.clear(); s.m.pos=0; s.m.lim=N; break;
        case 3: { size_t p=s.m.lim/2; mc::op("setPosition(%zu)",p); s.b.setPosition(p); s.m.pos=p; break; }
        case 4: { size_t p=s.m.lim; mc::op("setPosition(%zu)",p); s.b.setPosition(p); s.m.pos=p; break; }
        case 5: { size_t l=s.m.pos+(N-s.m.pos)/2; mc::op("setLimit(%zu)",l); s.b.setLimit(l); s.m.lim=l; break; }
        case 6: { size_t l=s.m.pos; mc::op("setLimit(%zu)",l); s.b.setLimit(l); s.m.lim=l; break; }
        case 7: { bool be=!s.m.be; mc::op("setEndianess(%s)",be?"big":"little"); s.b.setEndianess(be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE); s.m.be=be; break; }
        case 8: { mc::op("put(chars,1,5)"); if(s.m.lim-s.m.pos<5) mc::skip(); s.b.put("0abcdefg",1,5); memcpy(&s.m.mem[s.m.pos],"abcde",5); s.m.pos+=5; break; }
        case 9: { mc::op("get(chars,2,3)"); if(s.m.lim-s.m.pos<3) mc::skip(); char c[6]="-----"; s.b.get(c,2,3); CHECK(c[0]=='-'&&c[1]=='-'&&!memcmp(c+2,&s.m.mem[s.m.pos],3),"getchars","get(chars) wrong"); s.m.pos+=3; break; }
        case 10: { mc::op("put(chars,0,0)"); s.b.put("",0,0); break; }
        case 11: { size_t p=0; mc::op("setPosition(1)"); if(s.m.lim<1) mc::skip(); p=1; s.b.setPosition(p); s.m.pos=p; break; }
        case 12: mc::op("setLimit(size)"); s.b.setLimit(N); s.m.lim=N; break;
        }
        s.check("after operation"); hash(s);
    }
    mc::outcome(mc::str(s.m.pos)+"/"+mc::str(s.m.lim));
}
SCENARIO(sequences_wide) { seq(mc::tier()?4:3,{0,1,2,3,4,5,6,7,8,9},{0,1,2,3,4,5}); }
SCENARIO(sequences_deep) { seq(mc::tier()?6:5,{1,3},{0,1,4}); }

// own storage, argument checks, endianness queries, swap
SCENARIO(construction) {
    bool be=mc::choose(2); size_t sz=1+mc::choose(40);
    ByteBuffer b(sz,be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE); mc::step();
    CHECK(b.getSize()==sz&&b.getPosition()==0&&b.getLimit()==sz&&b.getRemaining()==sz,"own","new buffer of %zu is not empty",sz);
    for(size_t i=0;i<sz;i++) b.putByte(i);
    b.flip(); for(size_t i=0;i<sz;i++) CHECK(b.getByte()==(int8)i,"own","byte %zu lost",i);
    CHECK(b.getRemaining()==0,"own","remaining");
    bool rev=be!=(EPICS_BYTE_ORDER==EPICS_ENDIAN_BIG);
    CHECK(b.reverse<int32>()==rev&&b.reverse<double>()==rev&&b.reverse<uint16>()==rev&&!b.reverse<int8>()&&!b.reverse<uint8>()&&!b.reverse<bool>(),"reverse","reverse() is wrong");
    CHECK(thrown([&]{ ByteBuffer x((char*)0,4); })!="","null","a null storage pointer is accepted");
    for(int k=0;k<5;k++) {
        CHECK(bitsOf(swap<int16>(val<int16>(k)))==__builtin_bswap16(bitsOf(val<int16>(k))),"swap","swap int16");
        CHECK(bitsOf(swap<uint32>(val<uint32>(k)))==__builtin_bswap32(bitsOf(val<uint32>(k))),"swap","swap uint32");
        CHECK(bitsOf(swap<uint64>(val<uint64>(k)))==__builtin_bswap64(bitsOf(val<uint64>(k))),"swap","swap uint64");
        CHECK(bitsOf(swap<int8>(val<int8>(k)))==bitsOf(val<int8>(k)),"swap","swap int8");
        CHECK(swap<double>(swap<double>(2.5+k))==2.5+k && swap<float>(swap<float>(2.5f+k))==2.5f+k,"swap","swap floating point");
    }
}
// long blocks
namespace {
template<typename T> void longBlock(bool be, size_t n, size_t off) {
    size_t cap=off+n*sizeof(T)+3; std::vector<char> raw(cap+32,0x33); ByteBuffer b(&raw[16],cap,be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE); std::vector<T> v(n), g(n+1,T()); for(size_t i=0;i<n;i++) v[i]=fromBits<T>((0x0102030405060708ull*(i+1))>>(8*(8-sizeof(T)))&~uint64_t(sizeof(T)==4?0x40000000:0)); std::vector<T> c(v);
    b.setPosition(off); b.putArray<T>(n?&v[0]:(T*)0,n); CHECK(b.getPosition()==off+n*sizeof(T),"position","putArray of %zu moves to %zu",n,b.getPosition()); CHECK(n==0||!memcmp(&v[0],&c[0],n*sizeof(T)),"putArray","the source changed");
    for(size_t i=0;i<n;i++) for(size_t k=0;k<sizeof(T);k++) { uint8_t w=bitsOf(c[i])>>(8*(be?sizeof(T)-1-k:k)); CHECK((uint8_t)raw[16+off+i*sizeof(T)+k]==w,"bytes","byte %zu of element %zu of %zu is %02x want %02x",k,i,n,(uint8_t)raw[16+off+i*sizeof(T)+k],w); }
    for(size_t i=0;i<16+off;i++) CHECK(raw[i]==0x33,"outside","wrote before the place"); for(size_t i=16+off+n*sizeof(T);i<raw.size();i++) CHECK(raw[i]==0x33,"outside","wrote behind the place");
    b.setPosition(off); b.getArray<T>(&g[0],n); CHECK(n==0||!memcmp(&g[0],&c[0],n*sizeof(T)),"getArray","getArray of %zu",n); CHECK(bitsOf(g[n])==bitsOf(T()),"getArray","wrote beyond the destination"); CHECK(b.getPosition()==off+n*sizeof(T),"position","getArray of %zu moves to %zu",n,b.getPosition());
    b.setPosition(off); for(size_t i=0;i<n;i++) { T x=b.get<T>(); CHECK(bitsOf(x)==bitsOf(c[i]),"get","element %zu of %zu",i,n); }
}
}
SCENARIO(long_blocks, mc::Opts().S(2)) { static const size_t N[]={0,1,7,8,9,15,16,17,31,32,33,63,64,65,127,128,255,256,257,1000,4096,9001}; size_t n=N[mc::choose(22)], off=mc::choose(9); bool be=mc::choose(2); int t=mc::choose(10); mc::op("%zu elements of type %d at %zu, %s",n,t,off,be?"big endian":"little endian"); switch(t) { case 0: longBlock<int8>(be,n,off); break; case 1: longBlock<int16>(be,n,off); break; case 2: longBlock<int32>(be,n,off); break; case 3: longBlock<int64>(be,n,off); break; case 4: longBlock<float>(be,n,off); break; case 5: longBlock<double>(be,n,off); break; case 6: longBlock<uint8>(be,n,off); break; case 7: longBlock<uint16>(be,n,off); break; case 8: longBlock<uint32>(be,n,off); break; default: longBlock<uint64>(be,n,off); } mc::step(); mc::state(mc::hmix(n*16+off,t*2+be)); }
