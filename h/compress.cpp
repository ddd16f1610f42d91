// C21: compressing a change mask preserves what it selects
#include "valuesh.h"
#include <pv/bitSet.h>
#include <pv/bitSetUtil.h>
using namespace epics::pvData;
typedef std::vector<bool> Bits;
// numbered nodes: end of the numbers below each one, and whether it is a structure with fields
struct Node { size_t end; bool st; };
static void number(const TP& t, std::vector<Node>& n) { size_t at=n.size(); n.push_back(Node()); n[at].st=t->k==KStruct&&!t->kids.empty(); if(t->k==KStruct) for(const TP& k: t->kids) number(k,n); n[at].end=n.size(); }
static std::string bstr(const Bits& b) { std::string s; for(bool x: b) s+=x?'1':'0'; return s; }
static void judge(const TP& t, const std::vector<Node>& n, const PVStructurePtr& p, const Bits& in, size_t beyond) {
    BitSetPtr b(new BitSet()); for(size_t i=0;i<in.size();i++) if(in[i]) b->set(i); if(beyond) b->set(n.size()+beyond-1);
    // leaves selected, then the smallest mask which selects them as a whole
    Bits lv(n.size()); bool any=false; for(size_t i=0;i<n.size();i++) if(in[i]) { any=true; for(size_t j=i;j<n[i].end;j++) if(!n[j].st) lv[j]=true; }
    Bits want(n.size()); for(size_t i=0;i<n.size();) { bool all=true; for(size_t j=i;j<n[i].end;j++) if(!n[j].st&&!lv[j]) all=false; if(all) { want[i]=true; i=n[i].end; } else i++; }
    bool r=BitSetUtil::compress(b,p); mc::step(); Bits got(n.size()); for(size_t i=0;i<n.size();i++) got[i]=b->get(i);
    CHECK(got==want,"mask","%s: %s is compressed to %s, want %s",tstr(t).c_str(),bstr(in).c_str(),bstr(got).c_str(),bstr(want).c_str());
    CHECK(r==any,"result","%s: %s compress() says %d",tstr(t).c_str(),bstr(in).c_str(),r); for(size_t i=n.size();i<n.size()+70;i++) CHECK(b->get(i)==(beyond&&i==n.size()+beyond-1),"beyond","bit %zu behind the structure changed",i);
    BitSet once(*b); bool r2=BitSetUtil::compress(b,p); CHECK(once==*b&&r2==r,"twice","%s: %s compressing twice differs",tstr(t).c_str(),bstr(in).c_str());
}
static void every(const TP& t) { std::vector<Node> n; number(t,n); PVStructurePtr p=makeS(vdefault(t)); mc::op("%s",tstr(t).c_str()); mc::state(thash(t)); for(size_t m=0;m<(1ull<<n.size());m++) { Bits in(n.size()); for(size_t i=0;i<n.size();i++) in[i]=m>>i&1; judge(t,n,p,in,m%3==0?0:m%3==1?1:64); } mc::outcome(mc::str(n.size())+" nodes"); }
SCENARIO(every_tree, mc::Opts().S(3)) { GenT g; g.unions=false; g.arrays=false; g.maxFields=4; g.leaves={tScalar(pvInt)}; int b=mc::tier()?8:6; TP t=genT(g,b,true); every(t); }
SCENARIO(every_kind, mc::Opts().S(3)) { GenT g; g.leaves={tScalar(pvString),tArray(pvInt),tAny()}; int b=mc::tier()?4:3; TP t=genT(g,b,true); every(t); }
// structures which reach over several words of the mask
SCENARIO(large, mc::Opts().S(2)) {
    int sh=mc::choose(6), sz=62+mc::choose(mc::tier()?8:4); TP I=tScalar(pvInt), t; std::vector<std::string> nm; std::vector<TP> ty; for(int i=0;i<sz;i++) nm.push_back("f"+mc::str(i));
    switch(sh) { case 0: t=tStruct(nm,std::vector<TP>(sz,I)); break; case 1: t=tStruct({"x","y"},{I,I}); for(int i=0;i<sz/2;i++) t=tStruct({"n","o"},{t,I}); break; case 2: t=tStruct({"x","y"},{I,I}); for(int i=0;i<sz/2;i++) t=tStruct({"o","n"},{I,t}); break;
        case 3: t=tStruct({"x"},{I}); for(int i=0;i<sz;i++) t=tStruct({"n"},{t}); break; case 4: for(int i=0;i<sz/3;i++) ty.push_back(tStruct({"x","y"},{I,I})); nm.resize(ty.size()); t=tStruct(nm,ty); break; case 5: for(int i=0;i<sz;i++) ty.push_back(i%2?tStruct({},{}):I); t=tStruct({"p","q"},{tStruct(nm,ty),I}); break; }
    std::vector<Node> n; number(t,n); PVStructurePtr p=makeS(vdefault(t)); size_t N=n.size(); mc::op("shape %d, %zu nodes",sh,N); mc::state(thash(t)); Bits z(N);
    for(size_t i=0;i<N;i++) { Bits a(z); a[i]=true; judge(t,n,p,a,0); for(size_t j=i+1;j<N;j++) { Bits b(a); b[j]=true; if(j%3==0) judge(t,n,p,b,1); } Bits c(N,true); c[0]=false; c[i]=false; judge(t,n,p,c,0); // leaves only, without one
        Bits l(N), l1; for(size_t j=0;j<N;j++) l[j]=!n[j].st; judge(t,n,p,l,0); l1=l; l1[i]=false; judge(t,n,p,l1,0); l1[i]=true; judge(t,n,p,l1,0); for(size_t j=i;j<N;j+=7) { Bits r(N); for(size_t k=i;k<=j;k++) r[k]=!n[k].st; judge(t,n,p,r,0); } for(size_t j=i+1;j<N;j+=3) { Bits x(l); x[i]=x[j]=false; judge(t,n,p,x,0); } }
    mc::outcome("shape "+mc::str(sh));
}
// what the fields hold does not matter
SCENARIO(values) { GenV g(mc::choose(4),2,false); TP t=tStruct({"u","s","a","v"},{tUnion({"x","y"},{tScalar(pvInt),tStruct({"q"},{tScalar(pvInt)})}),tStruct({"u"},{tAny()}),tStructArr(tStruct({"e","f"},{tScalar(pvInt),tScalar(pvInt)})),tUnionArr(tUnion({"m"},{tScalar(pvInt)}))}); VP v=genV(g,t); std::vector<Node> n; number(t,n); PVStructurePtr p=makeS(v); for(size_t m=0;m<(1u<<n.size());m++) { Bits in(n.size()); for(size_t i=0;i<n.size();i++) in[i]=m>>i&1; judge(t,n,p,in,m%5); } std::string c=vcheck(p.get(),v); CHECK(c=="","value","compress changed the value: %s",c.c_str()); mc::state(vhash(v)); mc::outcome("ok"); }
