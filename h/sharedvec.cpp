// C09: shared_vector has the value semantics of a list with explicit sharing
#include "pvdh.h"
#include <pv/sharedVector.h>
#include <pv/typeCast.h>
#include <memory>
using namespace epics::pvData;
template<typename E> static E mk(int i);
template<> int mk<int>(int i) { return 1000+i; }
template<> std::string mk<std::string>(int i) { return std::string(20,'a'+i%26)+mc::str(i); } // long enough to live on the heap
static int made, freed;
template<typename E> struct Del { void operator()(E* p) const { freed++; delete[] const_cast<typename meta::strip_const<E>::type*>(p); } };

template<typename E> struct Model {
    typedef std::vector<E> L;
    struct H { std::shared_ptr<L> d; size_t off, n; H():off(0),n(0) {} bool unique() const { return d.use_count()<=1; } E& at(size_t i) const { return (*d)[off+i]; } L list() const { L r; for(size_t i=0;i<n;i++) r.push_back(at(i)); return r; }
        void set(const L& l) { d=std::make_shared<L>(l); off=0; n=l.size(); } void clear() { d.reset(); off=n=0; } void own() { if(!unique()) { L l(list()); set(l); } }
        void slice(size_t o, size_t c) { o=std::min(o,n); c=std::min(c,n-o); off+=o; n=c; } };
};
template<typename E> struct Run {
    typedef shared_vector<E> V; typedef shared_vector<const E> C; typedef Model<E> Mo; typedef typename Mo::H H; typedef typename Mo::L L;
    V m[2]; C c[2]; H hm[2], hc[2]; int next; bool last=false;
    static std::string ls(const L& l) { std::string s="["; for(size_t i=0;i<l.size();i++) s+=(i?",":"")+mc::str(l[i]); return s+"]"; }
    template<typename VV> static void sync(const VV& v, H& h) { if(!v.dataPtr()) h.d.reset(); else if(!h.d) { h.d=std::make_shared<L>(); h.off=0; } }
    template<typename VV> void one(const char *what, const char *nm, int k, const VV& v, const H& h) {
        CHECK(v.size()==h.n&&v.empty()==(h.n==0),"size","after %s: %s%d has size %zu, want %zu",what,nm,k,v.size(),h.n);
        L g(v.begin(),v.end()), w(h.list()); CHECK(g==w,"contents","after %s: %s%d is %s, want %s",what,nm,k,ls(g).c_str(),ls(w).c_str());
        if(h.n==0) sync(v,const_cast<H&>(h)); // whether an empty vector holds memory is not specified
        CHECK(v.unique()==h.unique(),"unique","after %s: %s%d unique()=%d",what,nm,k,v.unique()); CHECK(v.capacity()>=v.size(),"capacity","after %s: capacity %zu of %zu",what,v.capacity(),v.size());
        if(h.n) { CHECK(v.front()==w[0]&&v.back()==w[h.n-1]&&*v.data()==w[0]&&*v.rbegin()==w[h.n-1],"access","after %s: front/back/data/rbegin of %s%d",what,nm,k); for(size_t i=0;i<h.n;i++) CHECK(v[i]==w[i]&&v.at(i)==w[i],"access","element %zu",i); CHECK((size_t)(v.end()-v.begin())==h.n&&(size_t)(v.rend()-v.rbegin())==h.n,"access","iterators"); }
        if(last) { bool t=false; try { (void)v.at(h.n); } catch(std::out_of_range&) { t=true; } CHECK(t,"at","after %s: %s%d.at(%zu) does not throw",what,nm,k,h.n); }
    }
    void check(const char *what) {
        for(int k=0;k<2;k++) { one(what,"mutable",k,m[k],hm[k]); one(what,"const",k,c[k],hc[k]); }
        CHECK((m[0]==m[1])==(hm[0].list()==hm[1].list())&&(m[0]!=m[1])==(hm[0].list()!=hm[1].list()),"compare","after %s: mutable0==mutable1 is %d",what,m[0]==m[1]);
        CHECK((c[0]==c[1])==(hc[0].list()==hc[1].list()),"compare","after %s: const0==const1",what); CHECK((m[0]==c[0])==(hm[0].list()==hc[0].list())&&(c[0]!=m[0])==(hm[0].list()!=hc[0].list()),"compare","after %s: mutable0==const0",what);
        uint64_t h=7; for(int k=0;k<2;k++) { h=mc::hmix(h,hm[k].n*64+hm[k].off*8+(hm[k].d==hm[0].d)*2+hm[k].unique()); h=mc::hmix(h,hc[k].n*64+hc[k].off*8+(hc[k].d==hc[0].d)*2+hc[k].unique()); for(auto& e: hm[k].list()) h=mc::hmix(h,mc::hstr(mc::str(e))); for(auto& e: hc[k].list()) h=mc::hmix(h,mc::hstr(mc::str(e))); } mc::state(h);
    }
    L some(size_t n) { L l; for(size_t i=0;i<n;i++) l.push_back(mk<E>(next++)); return l; }
    V fresh(const L& l, int how) { // a vector made from a list in one of the ways
        size_t n=l.size(); V v;
        switch(how) {
        case 0: v=V(n); break;
        case 1: { E *p=new E[n+2]; made++; V w(p,Del<E>(),1,n); v=w; break; }
        case 2: { E *p=new E[n+1]; V w(p,0,n); v=w; break; }
        case 3: { std::shared_ptr<E> p(new E[n+2],Del<E>()); made++; V w(p,2,n); v=std::move(w); break; }
        default: { V w(n+3); w.slice(2,n); v.swap(w); } }
        CHECK(v.size()==n,"construct","size"); for(size_t i=0;i<n;i++) v[i]=l[i]; return v;
    }
    void init() {
        next=0; made=freed=0; int how=mc::choose(mc::tier()?5:2); if(!mc::tier()&&how) how=std::is_same<E,int>::value?4:1; L l=some(3); m[0]=fresh(l,how); hm[0].set(l);
        switch(mc::choose(4)) { case 0: break; case 1: m[1]=m[0]; hm[1]=hm[0]; break; case 2: m[1]=m[0]; hm[1]=hm[0]; m[1].slice(1,1); hm[1].slice(1,1); break; case 3: { L x=some(1); m[1]=V(1,x[0]); hm[1].set(x); } }
        l=some(2); V t(fresh(l,how)); c[0]=freeze(t); hc[0].set(l); CHECK(t.empty()&&t.unique(),"freeze","freeze() did not clear its argument"); if(mc::choose(2)) { c[1]=c[0]; hc[1]=hc[0]; c[1].slice(1); hc[1].slice(1,99); }
        mc::op("start, construction %d, mutable1 %zu, const1 %zu",how,m[1].size(),c[1].size()); check("start");
    }
    // operations meaningful for both kinds
    template<typename VV> bool common(int op, const char *nm, int k, VV *v, H *h, bool cst) {
        VV &a=v[k], &o=v[!k]; H &x=h[k], &y=h[!k];
        switch(op) {
        case 0: mc::op("%s%d=%s%d",nm,k,nm,!k); a=o; x=y; return true;
        case 1: mc::op("%s%d=move(%s%d)",nm,k,nm,!k); a=std::move(o); x=y; y.clear(); return true;
        case 2: mc::op("%s%d=itself",nm,k); { VV& self=a; if(mc::choose(2)) a=self; else a=std::move(self); } return true;
        case 3: mc::op("swap %s",nm); if(mc::choose(2)) a.swap(o); else { using std::swap; swap(a,o); } std::swap(x,y); return true;
        case 4: { static const size_t A[]={0,1,(size_t)-1,2,5}; int N=mc::tier()?5:3; size_t s=A[mc::choose(N)], n=A[mc::choose(N)]; mc::op("%s%d.slice(%zd,%zd)",nm,k,(ssize_t)s,(ssize_t)n); a.slice(s,n); x.slice(s,n); return true; }
        case 5: mc::op("%s%d.clear()",nm,k); a.clear(); x.clear(); return true;
        case 6: mc::op("%s%d.make_unique()",nm,k); a.make_unique(); x.own(); return true;
        case 7: { size_t n=mc::tier()?mc::choose(6):1+mc::choose(2)*4; mc::op("%s%d.reserve(%zu)",nm,k,n); a.reserve(n); x.own(); CHECK(a.capacity()>=n,"reserve","capacity %zu after reserve(%zu)",a.capacity(),n); return true; }
        case 8: { size_t n=mc::choose(mc::tier()?6:5); if(cst&&n>x.n&&std::is_same<E,int>::value) mc::skip(); mc::op("%s%d.resize(%zu)",nm,k,n); size_t old=x.n; a.resize(n); CHECK(a.size()==n,"resize","size %zu after resize(%zu)",a.size(),n); L l(x.list()); l.resize(std::min(n,old)); for(size_t i=old;i<n;i++) l.push_back(grown(a,i)); if(x.unique()&&x.d) { x.d->resize(x.off+n); for(size_t i=0;i<n;i++) x.at(i)=l[i]; x.n=n; } else x.set(l); return true; }
        case 9: if(x.n==0) mc::skip(); mc::op("%s%d.pop_back()",nm,k); a.pop_back(); x.slice(0,x.n-1); return true;
        case 10: mc::op("%s%d=copy constructed %s%d",nm,k,nm,!k); { VV t(o); CHECK(!o.dataPtr()||!t.unique(),"copy","copy is unique"); a.swap(t); x=y; } return true;
        case 11: mc::op("%s%d=move constructed %s%d",nm,k,nm,!k); { VV t(std::move(o)); CHECK(o.empty()&&o.unique(),"move","moved from vector is not empty"); a.swap(t); x=y; y.clear(); } return true;
        case 12: { L l=some(mc::choose(3)); mc::op("%s%d={%zu}",nm,k,l.size()); if(l.size()==0) a=VV(std::initializer_list<E>()); else if(l.size()==1) a=VV({l[0]}); else a=VV({l[0],l[1]}); x.set(l); return true; }
        case 13: { L l=some(1); size_t n=mc::choose(3); mc::op("%s%d=(%zu,e)",nm,k,n); VV t(n,l[0]); a=t; x.set(L(n,l[0])); return true; }
        case 14: { mc::op("%s%d through void",nm,k); typedef typename VV::value_type VE; typedef typename std::conditional<std::is_const<VE>::value,const void,void>::type VO; shared_vector<VO> t(static_shared_vector_cast<VO>(a)); CHECK(t.size()==x.n*sizeof(E),"void","size %zu of %zu elements",t.size(),x.n); CHECK(t.original_type()==(ScalarType)ScalarTypeID<E>::value,"void","original type"); CHECK(t.data()==(const void*)a.data(),"void","data"); VV b(static_shared_vector_cast<VE>(t)); CHECK(L(b.begin(),b.end())==x.list(),"void","contents after casting to and from void"); shared_vector<VE> d(shared_vector_convert<VE>(t)); CHECK(L(d.begin(),d.end())==x.list(),"void","contents after converting from void"); if(x.n) CHECK(d.data()==a.data()&&!a.unique(),"void","conversion to the same type copies"); return true; }
        case 15: { mc::op("%s%d: slice, then change its copy",nm,k); VV t(a); t.slice(1,1); t.make_unique(); a.resize(0); x.n=0; x.own(); L w(t.begin(),t.end()); (void)w; return true; }
        }
        return false;
    }
    E grown(V& v, size_t i) { E e=mk<E>(next++); v[i]=e; return e; }
    E grown(C& v, size_t i) { return v[i]; }
    void step(bool end) {
        last=end;
        int k=mc::choose(2);
        switch(mc::choose(3)) {
        case 0: common(mc::choose(16),"mutable",k,m,hm,false); check("operation"); return;
        case 1: common(mc::choose(16),"const",k,c,hc,true); check("operation"); return;
        }
        V &a=m[k]; H &x=hm[k]; C &b=c[k]; H &y=hc[k];
        switch(mc::choose(8)) {
        case 0: { if(x.n==0) mc::skip(); size_t i=mc::choose(x.n); E e=mk<E>(next++); mc::op("mutable%d[%zu]=",k,i); switch(mc::choose(4)) { case 0: a[i]=e; break; case 1: a.at(i)=e; break; case 2: *(a.begin()+i)=e; break; default: *(a.rbegin()+(x.n-1-i))=e; } x.at(i)=e; break; }
        case 1: { E e=mk<E>(next++); int n=1+mc::choose(2)*4; mc::op("mutable%d.push_back x%d",k,n); for(int j=0;j<n;j++) { a.push_back(e); L l(x.list()); if(x.unique()&&x.d) { x.d->resize(x.off+x.n); x.d->push_back(e); x.n++; } else { l.push_back(e); x.set(l); } CHECK(a.unique(),"unique","not unique after push_back"); } break; }
        case 2: { if(x.n==0) mc::skip(); int i=mc::choose(2)?x.n-1:0; mc::op("mutable%d.push_back(own element %d)",k,i); L l(x.list()); l.push_back(l[i]); a.push_back(a[i]); x.set(l); break; }
        case 3: { size_t n=mc::choose(mc::tier()?6:5); E e=mk<E>(next++); mc::op("mutable%d.resize(%zu,e)",k,n); L l(x.list()); a.resize(n,e); l.resize(n,e); if(n==x.n) x.own(); else if(x.unique()&&x.d) { x.d->resize(x.off+n); x.n=n; for(size_t i=0;i<n;i++) x.at(i)=l[i]; } else x.set(l); break; }
        case 4: { if(x.n==0) mc::skip(); size_t n=x.n+1+mc::choose(2); mc::op("mutable%d.resize(%zu,own element)",k,n); L l(x.list()); E e=l[0]; l.resize(n,e); a.resize(n,a[0]); x.set(l); break; }
        case 5: { mc::op("const%d=freeze(mutable%d)",k,k); bool ok=x.unique(); int how=mc::choose(2); std::string e=thrown([&]{ C t(how?freeze(a):const_shared_vector_cast<const E>(a)); b=t; }); CHECK((e=="")==ok,"freeze","freeze() of a %s vector %s",ok?"unique":"shared",e.c_str()); mc::outcome(ok?"frozen":"freeze refused"); if(ok) { y=x; x.clear(); } break; }
        case 6: { mc::op("mutable%d=thaw(const%d)",k,k); int how=mc::choose(2); { V t(how?thaw(b):const_shared_vector_cast<E>(b)); CHECK(t.unique(),"thaw","thaw() gives a shared vector"); a=t; } H t=y; y.clear(); t.own(); x=t; break; }
        case 7: { mc::op("convert mutable%d",k); shared_vector<std::string> s(shared_vector_convert<std::string>(a)); CHECK(s.size()==x.n,"convert","size"); for(size_t i=0;i<x.n;i++) CHECK(s[i]==mc::str(x.at(i)),"convert","element %zu is %s",i,s[i].c_str());
            shared_vector<const void> vo(static_shared_vector_cast<const void>(b)); shared_vector<const std::string> t(shared_vector_convert<const std::string>(vo)); CHECK(t.size()==y.n,"convert","size"); for(size_t i=0;i<y.n;i++) CHECK(t[i]==mc::str(y.at(i)),"convert","element %zu is %s",i,t[i].c_str());
            if(y.n&&!std::is_same<E,std::string>::value) { shared_vector<const void> un(std::static_pointer_cast<const void>(b.dataPtr()),b.dataOffset()*sizeof(E),b.size()*sizeof(E)); std::string e=thrown([&]{ shared_vector_convert<const std::string>(un); }); CHECK(e!="","convert","conversion of data of unknown type accepted"); } break; }
        }
        check("operation");
    }
    void run(int depth) { init(); for(int i=0;i<depth;i++) step(i==depth-1); for(int k=0;k<2;k++) { m[k].clear(); c[k].clear(); } CHECK(made==freed,"deleter","%d buffers with a deleter, %d calls",made,freed); }
};
SCENARIO(ints, mc::Opts().S(6)) { Run<int> r; r.run(2); }
SCENARIO(strings, mc::Opts().S(6)) { Run<std::string> r; r.run(2); }
SCENARIO(ints_deep, mc::Opts().S(7), 1) { Run<int> r; r.run(3); }
SCENARIO(strings_deep, mc::Opts().S(7), 1) { Run<std::string> r; r.run(3); }
// long vectors
template<typename E> static void large() {
    static const size_t N[]={0,1,63,64,127,1000,1023,1024,1025,4095,4096,5000}; typedef shared_vector<E> V; typedef shared_vector<const E> C; typedef std::vector<E> L; size_t n=N[mc::choose(12)], k=N[mc::choose(12)]; int op=mc::choose(9); bool shared=mc::choose(2);
    L l; for(size_t i=0;i<n;i++) l.push_back(mk<E>(i)); V v; for(size_t i=0;i<n;i++) { v.push_back(l[i]); CHECK(v.size()==i+1&&v.capacity()>=i+1&&v.back()==l[i],"push","push_back %zu",i); } CHECK(std::equal(l.begin(),l.end(),v.begin()),"push","contents after %zu push_back",n); V w; if(shared) w=v; L old(l); bool copied=false; mc::op("%zu elements%s, operation %d with %zu",n,shared?", shared":"",op,k);
    switch(op) { case 0: v.resize(k); l.resize(k); for(size_t i=n;i<k;i++) v[i]=l[i]=mk<E>(i+7); copied=true; break; case 1: v.resize(k,mk<E>(3)); l.resize(k,mk<E>(3)); copied=true; break; case 2: v.reserve(k); CHECK(v.capacity()>=k,"reserve","capacity %zu after reserve(%zu)",v.capacity(),k); copied=true; break; case 3: v.slice(k,n/2); l=k>=n?L():L(l.begin()+k,l.begin()+std::min(n,k+n/2)); break;
        case 4: v.slice(0,k); if(k<n) l.resize(k); break; case 5: for(size_t i=0;i<k&&!l.empty();i++) { v.pop_back(); l.pop_back(); } break; case 6: v.make_unique(); copied=true; break; case 7: { for(size_t i=0;i<k;i++) { v.push_back(mk<E>(i+5)); l.push_back(mk<E>(i+5)); } copied=k>0; break; } default: { v.make_unique(); C c(freeze(v)); C d(c); d.slice(k); v=thaw(c); copied=true; L t=k<n?L(old.begin()+k,old.end()):L(); CHECK(L(d.begin(),d.end())==t,"thaw","the part which stays constant"); } }
    CHECK(v.size()==l.size()&&std::equal(l.begin(),l.end(),v.begin()),"large","contents after operation %d with %zu: %zu elements, want %zu",op,k,v.size(),l.size()); mc::step(); if(copied||!shared) { for(size_t i=0;i<l.size();i++) v[i]=mk<E>(99); CHECK(!shared||(w.size()==old.size()&&std::equal(old.begin(),old.end(),w.begin())),"large-shared","operation %d with %zu and a write change another vector",op,k); } mc::state(n*100000+k*10+op); mc::outcome("ok");
}
SCENARIO(large_ints) { large<int>(); }
SCENARIO(large_strings) { large<std::string>(); }
