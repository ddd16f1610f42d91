// C09, concurrent part: two threads which own handles to the same data, under every schedule.
#include "schedh.h"
#include <pv/sharedVector.h>
#include <memory>
using namespace epics::pvData;
namespace {
template<typename E> E mk(int i);
template<> int mk<int>(int i) { return 1000+i; }
template<> std::string mk<std::string>(int i) { return std::string(20,'a'+i%26)+mc::str(i); }
int freedN;
template<typename E> struct Del { void operator()(const E* p) const { { sched::Quiet q; freedN++; } delete[] const_cast<E*>(p); } };
template<typename V> std::string show(const V& v) { std::string s="["; for(size_t i=0;i<v.size();i++) s+=(i?",":"")+mc::str(v[i]); return s+"]"; }
// what a thread does with its handle (called with accesses recorded), and what its contents are then
template<typename E> struct T {
    typedef shared_vector<E> V; typedef shared_vector<const E> C; typedef std::vector<E> L;
    V m; C c; L l; int base; bool isc;
    void writeAll(V& v) { for(size_t i=0;i<v.size();i++) v[i]=mk<E>(base+i); }
    void lw() { for(size_t i=0;i<l.size();i++) l[i]=mk<E>(base+i); }
    void expect(const char *when) { L g; { sched::Loud q; if(isc) for(size_t i=0;i<c.size();i++) g.push_back(c[i]); else for(size_t i=0;i<m.size();i++) g.push_back(m[i]); } if(g!=l) mc::fail("contents","%s: %s, want %s",when,show(g).c_str(),show(l).c_str()); }
    void cut(size_t o, size_t n) { o=std::min(o,l.size()); n=std::min(n,l.size()-o); l=L(l.begin()+o,l.begin()+o+n); }
    enum { NM=12, NC=9 };
    static const char *name(bool isc, int op) { static const char *M[]={"make_unique, write","resize+1, write","resize-1, write","reserve, push_back","push_back","slice, make_unique, write","copy, drop, make_unique, write","drop","make_unique, freeze","pop_back, make_unique, write","freeze","make_unique, freeze, thaw, write"}, *N[]={"read","thaw, write","copy, drop, thaw, write","slice, thaw, write","make_unique","drop","pop_back","thaw, write, freeze","move, resize"}; return isc?N[op]:M[op]; }
    void run(int op) {
        if(!isc) switch(op) {
            case 0: { sched::Loud q; m.make_unique(); writeAll(m); } lw(); break;
            case 1: { sched::Loud q; m.resize(m.size()+1); writeAll(m); } l.resize(l.size()+1); lw(); break;
            case 2: { sched::Loud q; m.resize(m.size()-1); writeAll(m); } l.resize(l.size()-1); lw(); break;
            case 3: { sched::Loud q; m.reserve(m.size()+2); m.push_back(mk<E>(base)); m[0]=mk<E>(base+1); } l.push_back(mk<E>(base)); l[0]=mk<E>(base+1); break;
            case 4: { sched::Loud q; m.push_back(mk<E>(base)); m[0]=mk<E>(base+1); } l.push_back(mk<E>(base)); l[0]=mk<E>(base+1); break;
            case 5: { sched::Loud q; m.slice(1,1); m.make_unique(); writeAll(m); } cut(1,1); lw(); break;
            case 6: { sched::Loud q; V t(m); m.clear(); t.make_unique(); writeAll(t); m.swap(t); } lw(); break;
            case 7: { sched::Loud q; m.clear(); } l.clear(); break;
            case 8: { sched::Loud q; m.make_unique(); c=freeze(m); } isc=true; break;
            case 9: { sched::Loud q; m.pop_back(); m.make_unique(); writeAll(m); } l.pop_back(); lw(); break;
            case 10: { bool ok=true; { sched::Loud q; try { C t(freeze(m)); c=t; } catch(std::runtime_error&) { ok=false; } } if(ok) { isc=true; if(!m.empty()) mc::fail("freeze","freeze() keeps the argument"); } break; }
            case 11: { sched::Loud q; m.make_unique(); c=freeze(m); m=thaw(c); writeAll(m); } lw(); break;
        } else switch(op) {
            case 0: break;
            case 1: { sched::Loud q; m=thaw(c); writeAll(m); } lw(); isc=false; break;
            case 2: { sched::Loud q; C t(c); c.clear(); m=thaw(t); writeAll(m); } lw(); isc=false; break;
            case 3: { sched::Loud q; c.slice(1,1); m=thaw(c); writeAll(m); } cut(1,1); lw(); isc=false; break;
            case 4: { sched::Loud q; c.make_unique(); } break;
            case 5: { sched::Loud q; c.clear(); } l.clear(); break;
            case 6: { sched::Loud q; c.pop_back(); } l.pop_back(); break;
            case 7: { sched::Loud q; m=thaw(c); writeAll(m); c=freeze(m); } lw(); break;
            case 8: { sched::Loud q; C t(std::move(c)); t.resize(t.size()-1); c.swap(t); } l.resize(l.size()-1); break;
        }
        expect(name(isc,op));
    }
    void drop() { { sched::Loud q; m.clear(); c.clear(); } }
};
template<typename E> void share(bool isc, int op1, int op2, int keep, int sl, bool atom) {
    sched::run([&]{ sched::Quiet quiet; freedN=0; {
        T<E> a,b,k; E *p=new E[4]; for(int i=0;i<4;i++) p[i]=mk<E>(i); a.base=100; b.base=200; k.base=300; a.isc=b.isc=k.isc=isc;
        { shared_vector<E> v(p,Del<E>(),1,3); if(isc) { shared_vector<const E> w(freeze(v)); a.c=w; b.c=w; if(keep) k.c=w; } else { a.m=v; b.m=v; if(keep) k.m=v; } }
        a.l=b.l=std::vector<E>(p+1,p+4); if(sl) { if(isc) b.c.slice(1,2); else b.m.slice(1,2); b.cut(1,2); } if(keep) k.l=a.l;
        mc::op("%s | %s%s%s",T<E>::name(isc,op1),T<E>::name(isc,op2),sl?", of a part":"",keep==1?", main keeps one":keep?", main drops one":"");
        int x=sched::spawn([&]{ sched::Quiet q; a.run(op1); a.expect("again"); },"first"), y=sched::spawn([&]{ sched::Quiet q; b.run(op2); b.expect("again"); },"second");
        if(keep==2) { k.drop(); k.l.clear(); } sched::join(x); sched::join(y); a.expect("at the end"); b.expect("at the end"); k.expect("main");
        x=sched::spawn([&]{ sched::Quiet q; a.drop(); },"first drops"); b.drop(); sched::join(x); k.drop(); }
        if(freedN!=1) mc::fail("freed","the buffer was freed %d times",freedN); mc::outcome("ok");
    },atom?sched::Opt().P().A().R():sched::Opt().P().R());
}
}
SCENARIO(mutableHandles, mc::Opts().F().D(2,3)) { int o1=mc::choose(T<int>::NM), o2=mc::choose(T<int>::NM); int keep=mc::choose(mc::tier()?3:2), sl=mc::tier()?mc::choose(2):(o1+o2)&1; if(!sl&&o2<o1) mc::skip(); share<int>(false,o1,o2,keep?1:0,sl,true); }
SCENARIO(constHandles, mc::Opts().F().D(2,3)) { int o1=mc::choose(T<int>::NC), o2=mc::choose(T<int>::NC); int keep=mc::choose(mc::tier()?3:2), sl=mc::tier()?mc::choose(2):(o1+o2)&1; if(!sl&&o2<o1) mc::skip(); share<int>(true,o1,o2,keep,sl,true); }
// a third thread (main) drops its handle while the others work
SCENARIO(thirdDrops, mc::Opts().F().D(1,2)) { int isc=mc::choose(2), N=isc?+T<int>::NC:+T<int>::NM, o1=mc::choose(N), o2=mc::choose(N); if(o2<o1) mc::skip(); share<int>(isc,o1,o2,2,(o1+o2)&1,true); }
// elements which own memory
SCENARIO(strings, mc::Opts().F().D(1,2)) { int isc=mc::choose(2), N=isc?+T<int>::NC:+T<int>::NM, o1=mc::choose(N), o2=mc::choose(N); int keep=mc::choose(2), sl=mc::choose(2); if(!sl&&o2<o1) mc::skip(); share<std::string>(isc,o1,o2,keep,sl,true); }
