// BitSet against a set of integers
#include "pvdh.h"
#include <set>
using namespace epics::pvData;

typedef std::set<uint32_t> M;

static std::string ms(const M& m) {
    std::ostringstream s; s<<'{'; bool f=true;
    for(M::const_iterator i=m.begin(); i!=m.end(); ++i) { s<<(f?"":", ")<<*i; f=false; }
    s<<'}'; return s.str();
}
static void mustBe(const BitSet& b, const M& m, const std::vector<uint32_t>& probes, const char *what) {
    for(size_t i=0;i<probes.size();i++) {
        uint32_t p=probes[i];
        CHECK(b.get(p)==(m.count(p)!=0),"get","%s: get(%u) is %d for %s",what,p,b.get(p),ms(m).c_str());
        M::const_iterator n=m.lower_bound(p);
        int32 want = n==m.end()?-1:(int32)*n, got=b.nextSetBit(p);
        CHECK(got==want,"nextSetBit","%s: nextSetBit(%u)=%d want %d for %s",what,p,got,want,ms(m).c_str());
        uint32_t c=p; while(m.count(c)) c++;
        got=b.nextClearBit(p);
        CHECK(got==(int32)c,"nextClearBit","%s: nextClearBit(%u)=%d want %u for %s",what,p,got,c,ms(m).c_str());
    }
    CHECK(b.cardinality()==m.size(),"cardinality","%s: cardinality %u want %zu for %s",what,b.cardinality(),m.size(),ms(m).c_str());
    CHECK(b.isEmpty()==m.empty(),"isEmpty","%s: isEmpty %d for %s",what,b.isEmpty(),ms(m).c_str());
    CHECK(m.empty() || b.size()>*m.rbegin(),"size","%s: size %u does not cover %s",what,b.size(),ms(m).c_str());
}
static uint64_t hashM(const M& m, uint64_t h) { for(M::const_iterator i=m.begin(); i!=m.end(); ++i) h=mc::hmix(h,*i+1); return mc::hmix(h,77); }

static bytes wire(const M& m, bool be) {
    Enc e(be);
    if(m.empty()) { e.size(0); return e.b; }
    uint32_t n = *m.rbegin()/8+1;
    e.size(n);
    for(uint32_t w=0; w*8<n; w++) {
        uint64_t v=0; for(int i=0;i<64;i++) if(m.count(w*64+i)) v|=uint64_t(1)<<i;
        if(w*8+8<=n) e.raw(v,8);
        else for(uint32_t k=w*8;k<n;k++) { e.u8(v&0xff); v>>=8; }
    }
    return e.b;
}

static const std::vector<uint32_t> PROBES={0,1,2,31,32,62,63,64,65,66,126,127,128,129,130,191,192,193,300};

static void ops(int depth, const std::vector<uint32_t>& BITS) {
    BitSet a,b; M ma,mb;
    const int nb=BITS.size();
    int last=-1; (void)last;
    for(int d=0; d<depth; d++) {
        int o=mc::choose(nb*4+17);
        if(o<nb) { uint32_t x=BITS[o]; mc::op("a.set(%u)",x); CHECK(&a.set(x)==&a,"ret","set returns another object"); ma.insert(x); }
        else if(o<2*nb) { uint32_t x=BITS[o-nb]; mc::op("a.clear(%u)",x); CHECK(&a.clear(x)==&a,"ret","clear returns another object"); ma.erase(x); }
        else if(o<3*nb) { uint32_t x=BITS[o-2*nb]; mc::op("a.flip(%u)",x); CHECK(&a.flip(x)==&a,"ret","flip returns another object"); if(!ma.erase(x)) ma.insert(x); }
        else if(o<4*nb) { uint32_t x=BITS[o-3*nb]; bool v=!mb.count(x); mc::op("b.set(%u,%d)",x,v); b.set(x,v); if(v) mb.insert(x); else mb.erase(x); }
        else switch(o-4*nb) {
            case 0: { mc::op("a&=b"); a&=b; M r; for(uint32_t x: ma) if(mb.count(x)) r.insert(x); ma=r; break; }
            case 1: { mc::op("a|=b"); a|=b; ma.insert(mb.begin(),mb.end()); break; }
            case 2: { mc::op("a^=b"); a^=b; M r; for(uint32_t x: ma) if(!mb.count(x)) r.insert(x); for(uint32_t x: mb) if(!ma.count(x)) r.insert(x); ma=r; break; }
            case 3: { mc::op("b&=a"); b&=a; M r; for(uint32_t x: ma) if(mb.count(x)) r.insert(x); mb=r; break; }
            case 4: mc::op("b|=a"); b|=a; mb.insert(ma.begin(),ma.end()); break;
            case 5: mc::op("a.swap(b)"); a.swap(b); ma.swap(mb); break;
            case 6: mc::op("b=a"); b=a; mb=ma; break;
            case 7: { mc::op("a.or_and(a,b)"); BitSet t(a); a.or_and(t,b); break; }
            case 8: { mc::op("a.or_and(b,{0,1,63,64,128})"); BitSet c; M mcx={0,1,63,64,128}; for(uint32_t x: mcx) c.set(x); a.or_and(b,c); for(uint32_t x: mb) if(mcx.count(x)) ma.insert(x); break; }
            case 9: { mc::op("a.or_and({63..65},b)"); BitSet c; c.set(63).set(64).set(65); a.or_and(c,b); for(uint32_t x: mb) if(x>=63&&x<=65) ma.insert(x); break; }
            case 10: mc::op("a.clear()"); a.clear(); ma.clear(); break;
            case 11: { mc::op("a=BitSet(a)"); BitSet t(a); a=t; CHECK(t==a,"copy","copy differs"); t.flip(3); CHECK(t!=a,"copy","copy is shared"); break; }
            case 12: { mc::op("a=BitSet{1,64,5}"); a=BitSet({1,64,5}); ma={1,64,5}; break; }
            case 13: mc::op("a&=a;a|=a"); a&=a; a|=a; break;
            case 14: mc::op("a^=a"); a^=a; ma.clear(); break;
            case 15: case 16: { bool be=o-4*nb==16; mc::op("b=decode(encode(a),be=%d)",be);
                std::vector<epicsUInt8> v; serializeToVector(&a,be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE,v);
                bytes w=wire(ma,be); bytes vb(v.begin(),v.end());
                CHECK(vb==w,"wire","wire form of %s is %s want %s",ms(ma).c_str(),hexb(vb).c_str(),hexb(w).c_str());
                ByteBuffer bb((char*)&v[0],v.size(),be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE);
                deserializeFromBuffer(&b,bb); mb=ma; CHECK(bb.getRemaining()==0,"wire","decoder left bytes"); break; }
        }
        mustBe(a,ma,PROBES,"a"); mustBe(b,mb,PROBES,"b");
        CHECK((a==b)==(ma==mb),"eq","a==b is %d for %s %s",a==b,ms(ma).c_str(),ms(mb).c_str());
        CHECK((b==a)==(ma==mb)&&(a!=b)==(ma!=mb)&&a==a&&!(b!=b),"eq","equality is not consistent");
        bool inter=false; for(uint32_t x: ma) if(mb.count(x)) inter=true;
        CHECK(a.logical_and(b)==inter,"logical_and","logical_and is %d for %s %s",a.logical_and(b),ms(ma).c_str(),ms(mb).c_str());
        CHECK(a.logical_or(b)==(!ma.empty()||!mb.empty()),"logical_or","logical_or wrong");
    }
    std::string s=mc::str(a); CHECK(s==ms(ma),"print","printed as %s want %s",s.c_str(),ms(ma).c_str());
    mc::state(hashM(mb,hashM(ma,1)));
    mc::outcome("|a|="+mc::str(ma.size())+" |b|="+mc::str(mb.size()));
}
SCENARIO(op_sequences_5bits) { ops(mc::tier()?5:4, {0,1,63,64,128}); }
SCENARIO(op_sequences_deep) { ops(mc::tier()?5:4, {0,63,64}); }

// every run [lo,hi) of set bits, with one hole; every query position; wire form at every fragmentation
SCENARIO(runs) {
    int N=mc::tier()?150:134;
    int lo=mc::choose(N), len=1+mc::choose(N-lo), hole=mc::choose(4);
    BitSet b(lo); M m;
    for(int i=lo;i<lo+len;i++) { b.set(i); m.insert(i); mc::step(); }
    if(hole==1) { b.clear(lo); m.erase(lo); } if(hole==2) { b.flip(lo+len-1); m.erase(lo+len-1); } if(hole==3) { b.set(lo+len/2,false); m.erase(lo+len/2); }
    std::vector<uint32_t> pr; for(int i=std::max(0,lo-2);i<lo+len+3;i++) pr.push_back(i); pr.push_back(0); pr.push_back(200);
    mc::note("run [%d,%d) variant %d",lo,lo+len,hole);
    mustBe(b,m,pr,"run");
    CHECK(mc::str(b)==ms(m),"print","printed as %s want %s",mc::str(b).c_str(),ms(m).c_str());
    mc::state(hashM(m,5));
    for(int be=0;be<2;be++) {
        FragSer fs(64,be,(lo+len)%50); b.serialize(&fs.buf,&fs); bytes w=fs.finish(), want=wire(m,be);
        CHECK(w==want,"wire","wire form of %s is %s want %s",ms(m).c_str(),hexb(w).c_str(),hexb(want).c_str());
        for(int extra=0; extra<3; extra++) {
            bytes in(want); // a sender which pads with zero bytes is tolerated
            if(extra) { if(in[0]+extra>=254 || in[0]%8 + extra>8 || (in[0]%8==0)) continue; in[0]+=extra; for(int k=0;k<extra;k++) in.push_back(0); }
            if(extra && in[0]%8==0) continue;
            for(int frag=0; frag<3; frag++) {
                std::vector<size_t> cuts; if(frag==1) cuts.push_back(1+(lo%in.size()));
                FragDes fd(in,be,cuts,frag==2);
                BitSet r; r.set(7); r.set(300);
                r.deserialize(&fd.buf,&fd); mc::step();
                CHECK(r==b,"unwire","%s decodes to %s want %s",hexb(in).c_str(),mc::str(r).c_str(),ms(m).c_str());
                mustBe(r,m,PROBES,"decoded");
                CHECK(fd.consumed()==in.size(),"unwire","decoder consumed %zu of %zu",fd.consumed(),in.size());
            }
        }
    }
    mc::outcome("bytes="+mc::str(wire(m,false).size()));
}
// the empty set, and one bit anywhere up to a few thousand, in one- and five-byte length encodings
SCENARIO(single_bits) {
    static const uint32_t far[]={1023,1024,2023,2024,2031,2032,2033,2039,2040,2047,2048,4095,4096,16383,16384,65535,65536,100000};
    int i=mc::choose(260+18);
    uint32_t x=i<260?i:far[i-260];
    BitSet b; M m; b.set(x); m.insert(x); mc::op("set(%u)",x);
    mustBe(b,m,{0,1,63,64,x?x-1:0,x,x+1},"single");
    for(int be=0;be<2;be++) {
        FragSer fs(16*1024,be); b.serialize(&fs.buf,&fs); bytes w=fs.finish(), want=wire(m,be);
        CHECK(w==want,"wire","wire form of {%u} is %s want %s",x,hexb(w).c_str(),hexb(want).c_str());
        FragDes fd(want,be,{},true); BitSet r; r.set(0); r.deserialize(&fd.buf,&fd);
        CHECK(r==b && fd.consumed()==want.size(),"unwire","{%u} decodes to %s",x,mc::str(r).c_str());
    }
    b.clear(x); CHECK(b.isEmpty() && b==BitSet() && b.cardinality()==0,"isEmpty","clearing the only bit leaves a non-empty set");
    mc::state(x+10000); mc::outcome(x<2024?"short":"long");
}
// large sets of many shapes
static M shape(int k, int n) { M m; for(int i=0;i<n;i++) if(k==0?true:k==1?i%2==0:k==2?i%63==0:k==3?(i*i%7<3):k==4?i==n-1:k==5?false:k==6?i<n/2:k==7?i>=n/2:i%64==63||i%64==0) m.insert(i); return m; }
SCENARIO(large_sets) {
    static const int N[]={65,256,1000,2040,5000}; int n=N[mc::choose(5)], k=N[mc::choose(5)]; M ma=shape(mc::choose(9),n), mb=shape(mc::choose(9),k), all(ma), both, one; all.insert(mb.begin(),mb.end()); for(uint32_t x: all) { bool p=ma.count(x), q=mb.count(x); if(p&&q) both.insert(x); else one.insert(x); }
    BitSet a,b; for(uint32_t x: ma) a.set(x); for(auto i=mb.rbegin();i!=mb.rend();++i) b.set(*i); mc::op("%zu of %d and %zu of %d",ma.size(),n,mb.size(),k); std::vector<uint32_t> P(PROBES); for(int x: {n-65,n-64,n-1,n,k-65,k-64,k-1,k,n/2,k/2,n+64}) P.push_back(std::max(0,x)); mustBe(a,ma,P,"a"); mustBe(b,mb,P,"b");
    { BitSet c(a); c&=b; mustBe(c,both,P,"a&b"); BitSet d(b); d&=a; CHECK(c==d,"eq","a&b!=b&a"); } { BitSet c(a); c|=b; mustBe(c,all,P,"a|b"); BitSet d(b); d|=a; CHECK(c==d,"eq","a|b!=b|a"); } { BitSet c(a); c^=b; mustBe(c,one,P,"a^b"); BitSet d(b); d^=a; CHECK(c==d,"eq","a^b!=b^a"); c^=b; CHECK(c==a,"eq","a^b^b!=a"); }
    { BitSet c; c.set(3); c.set(n); c.or_and(a,b); M w(both); w.insert(3); w.insert(n); mustBe(c,w,P,"or_and"); } CHECK(a.logical_and(b)==!both.empty()&&a.logical_or(b)==!all.empty(),"logical_and","logical_and/or"); CHECK((a==b)==(ma==mb),"eq","a==b");
    { BitSet c(a); for(uint32_t x: mb) c.flip(x); mustBe(c,one,P,"flips"); for(uint32_t x: one) c.clear(x); CHECK(c.isEmpty()&&c==BitSet(),"isEmpty","all bits cleared"); } CHECK(mc::str(a)==ms(ma),"print","printed as %s",mc::str(a).c_str());
    for(int be=0;be<2;be++) { FragSer fs(n%2?64:1000,be,n%8); a.serialize(&fs.buf,&fs); bytes w=fs.finish(), want=wire(ma,be); CHECK(w==want,"wire","wire form of %zu bits of %d",ma.size(),n); FragDes fd(want,be,{want.size()/2},false); BitSet r(b); r.deserialize(&fd.buf,&fd); CHECK(r==a&&fd.consumed()==want.size(),"unwire","decoded %s",mc::str(r).c_str()); mustBe(r,ma,P,"decoded"); }
    mc::state(hashM(ma,hashM(mb,3))); mc::outcome(both.empty()?"disjoint":"overlapping");
}
