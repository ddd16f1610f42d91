// C27: tracking pointers behave as shared_ptr and list their owners
#include <memory>
#include <set>
#include <vector>
#include <string>
#include <sstream>
#include <functional>
#include <pv/debugPtr.h>
#include "../mc/mc.h"

// the same program over either kind of pointer
struct Log { std::vector<int> dead, deleted; int made; Log() :made(0) {} };
template<class K> struct Prog {
    template<class T> using SP = typename K::template SP<T>; template<class T> using WP = typename K::template WP<T>; template<class T> using ES = typename K::template ES<T>;
    struct B { Log *l; int id; SP<B> next; B(Log *l) :l(l), id(l->made++) {} B(const B& o) :l(o.l), id(l->made++) {} B& operator=(const B&) { return *this; } virtual ~B() { l->dead.push_back(id); } };
    struct D : B, ES<D> { D(Log *l) :B(l) {} D(const D& o) :B(o), ES<D>(o) {} };
    struct E : ES<E>, B { E(Log *l) :B(l) {} }; // another base first
    struct Del { Log *l; void operator()(B *p) { if(p) l->deleted.push_back(p->id); delete p; } };
    Log l; SP<B> b[2]; SP<D> d; SP<const B> c; WP<B> w; WP<D> v; std::unique_ptr<SP<B>> h; std::string ret;
    std::string op(int i) {
        using std::dynamic_pointer_cast; using std::static_pointer_cast; using std::const_pointer_cast; using epics::debug::dynamic_pointer_cast; using epics::debug::static_pointer_cast; using epics::debug::const_pointer_cast;
        try { switch(i) {
        case 0: b[0].reset(new D(&l)); return "b0.reset(new D)"; case 1: b[0]=b[1]; return "b0=b1"; case 2: b[1]=b[0]; return "b1=b0"; case 3: b[0].swap(b[1]); return "b0.swap(b1)"; case 4: b[0].reset(); return "b0.reset()";
        case 5: d.reset(new D(&l)); return "d.reset(new D)"; case 6: b[1]=d; return "b1=d"; case 7: d=dynamic_pointer_cast<D>(b[0]); return "d=dynamic cast(b0)"; case 8: w=b[0]; return "w=b0"; case 9: b[1]=w.lock(); return "b1=w.lock()";
        case 10: b[1]=SP<B>(w); return "b1=SP(w)"; case 11: h.reset(new SP<B>(b[0])); return "h=new SP(b0)"; case 12: h.reset(); return "delete h"; case 13: if(h) b[0].swap(*h); return "b0.swap(*h)"; case 14: if(d) b[1]=d->shared_from_this(); return "b1=d->shared_from_this()";
        case 15: b[1]=SP<B>(std::unique_ptr<B>(new B(&l))); return "b1=SP(unique_ptr)"; case 16: b[0].reset(new B(&l),Del{&l}); return "b0.reset(new B, deleter)"; case 17: if(b[0]) b[0]->next=b[1]; return "b0->next=b1"; case 18: v=d; return "v=d"; case 19: d=v.lock(); return "d=v.lock()";
        case 20: b[0].reset(new E(&l)); return "b0.reset(new E)"; case 21: c=b[0]; return "c=b0"; case 22: b[1]=const_pointer_cast<B>(c); return "b1=const cast(c)"; case 23: d.reset(); return "d.reset()"; case 24: w.reset(); return "w.reset()"; case 25: if(b[0]&&b[0]->next) { SP<B> t(b[0]->next); b[0]=t; } return "b0=b0->next"; case 26: b[0]=b[0]; return "b0=b0"; case 27: b[0].swap(b[0]); return "b0.swap(b0)"; case 28: if(d) { d->next=d; WP<B> x(d); d->next.reset(); } return "a loop made and cut"; case 29: { SP<B> t((D*)0); b[1]=t; return "b1=SP((D*)0)"; } case 30: w=v; return "w=v"; case 31: d=static_pointer_cast<D>(SP<B>(d)); return "d=static cast(SP<B>(d))"; case 32: d.reset((D*)0); return "d.reset((D*)0)"; case 33: b[0]=SP<B>(); return "b0=SP()"; case 34: { SP<E> e(new E(&l)); SP<E> f(e->shared_from_this()); b[1]=f; return "b1=e->shared_from_this()"; } case 35: { D x(&l); SP<D> y; try { y=x.shared_from_this(); ret="got"; } catch(std::bad_weak_ptr&) { ret="bad_weak_ptr"; } return "shared_from_this() of an automatic D"; }
        case 36: if(d) { D x(*d); try { b[1]=x.shared_from_this(); ret="got"; } catch(std::bad_weak_ptr&) { ret="bad_weak_ptr"; } } return "shared_from_this() of a copy of *d"; case 37: { SP<D> y(new D(&l)); if(d) { *d=*y; b[1]=d->shared_from_this(); } return "*d=*y, b1=d->shared_from_this()"; } case 38: if(d) { SP<D> y(new D(*d)); b[1]=y->shared_from_this(); } return "b1=copy of *d"; case 39: if(d) { D x(&l); *d=x; w=d->shared_from_this(); } return "*d=automatic, w=d->shared_from_this()";
        } } catch(std::bad_weak_ptr&) { ret="bad_weak_ptr"; } catch(std::exception& e) { ret=std::string("exception ")+e.what(); } return "op"+std::to_string(i)+" throws"; }
    static std::string one(const SP<const B>& p) { return p?std::to_string(p->id):"null"; }
    // every pointer which the program can name
    template<class F> void each(F f) { f("b0",b[0]); f("b1",b[1]); f("d",d); f("c",c); if(h) f("h",*h); std::set<const void*> seen; std::vector<std::pair<std::string,const B*>> todo={{"b0",b[0].get()},{"b1",b[1].get()},{"d",d.get()},{"c",c.get()},{"h",h?h->get():0}}; for(size_t i=0;i<todo.size();i++) { const B *x=todo[i].second; if(x&&seen.insert(x).second) { f("#"+std::to_string(x->id)+".next",x->next); todo.push_back({"",x->next.get()}); } } }
    std::string obs() { std::ostringstream o; each([&](const std::string& n, auto& p) { o<<n<<"="<<(p?std::to_string(p->id):"null")<<"*"<<p.use_count()<<(p.unique()?"u":"")<<(p?"":"!")<<" "; }); o<<"w*"<<w.use_count()<<w.expired()<<" v*"<<v.use_count()<<v.expired()<<" eq"<<(b[0]==b[1])<<(b[0]!=b[1])<<(h?*h==b[0]:0)<<" owner"<<(!b[0].owner_before(b[1])&&!b[1].owner_before(b[0]))<<(!b[0].owner_before(d)&&!d.owner_before(b[0]))<<(w.lock()&&w.lock()==b[0]?!b[0].owner_before(w):true)<<(b[0]&&d?b[0].get()==static_cast<const B*>(&*d):0)<<" dead"; for(int i: l.dead) o<<","<<i; o<<" deleted"; for(int i: l.deleted) o<<","<<i; o<<" "<<ret; return o.str(); }
};
struct KStd { template<class T> using SP=std::shared_ptr<T>; template<class T> using WP=std::weak_ptr<T>; template<class T> using ES=std::enable_shared_from_this<T>; };
struct KDbg { template<class T> using SP=epics::debug::shared_ptr<T>; template<class T> using WP=epics::debug::weak_ptr<T>; template<class T> using ES=epics::debug::enable_shared_from_this<T>; };
static const int NOPS=40;

static void owners(Prog<KDbg>& p) {
    typedef epics::debug::ptr_base::ref_set_t R; std::vector<std::pair<std::string,const epics::debug::shared_ptr_base*>> all; std::vector<const void*> obj;
    p.each([&](const std::string& n, auto& q) { all.push_back({n,&q}); obj.push_back(q?dynamic_cast<const void*>(q.get()):0); });
    for(size_t i=0;i<all.size();i++) { R want,got; if(obj[i]) for(size_t k=0;k<all.size();k++) if(obj[k]==obj[i]) want.insert(all[k].second); all[i].second->spy_refs(got);
        auto names=[&](const R& r) { std::string s; for(auto x: r) { std::string n="(unknown)"; for(auto& a: all) if(a.second==x) n=a.first; s+=n+" "; } return s; };
        CHECK(got==want,obj[i]?"owners":"null-owners","%s lists the owners { %s}, they are { %s}",all[i].first.c_str(),names(got).c_str(),names(want).c_str());
        std::ostringstream o; all[i].second->show_refs(o); size_t lines=0; for(char c: o.str()) lines+=c=='\n'; CHECK(lines==(want.empty()?1:want.size()),"show","show_refs() of %s prints %zu lines for %zu owners",all[i].first.c_str(),lines,want.size()); std::ostringstream o2; all[i].second->show_refs(o2,false); size_t l2=0; for(char c: o2.str()) l2+=c=='\n'; CHECK(l2==(want.empty()?1:want.size()-1),"show","show_refs(self=false) of %s prints %zu lines for %zu owners",all[i].first.c_str(),l2,want.size()); }
    // weak pointers know the owners too
    R g; p.w.spy_refs(g); R want; { const void *o; epics::debug::shared_ptr<Prog<KDbg>::B> t(p.w.lock()); o=t?dynamic_cast<const void*>(t.get()):0; if(o) for(size_t k=0;k<all.size();k++) if(obj[k]==o) want.insert(all[k].second); } CHECK(g==want,"weak-owners","w lists %zu owners, there are %zu",g.size(),want.size());
}
static void run(int depth) {
    std::unique_ptr<Prog<KStd>> s(new Prog<KStd>); std::unique_ptr<Prog<KDbg>> r(new Prog<KDbg>); std::string last; bool loop=false;
    for(int i=0;i<depth;i++) { int k=mc::choose(NOPS); std::string a=s->op(k), b=r->op(k); mc::op("%s",a.c_str()); mc::step(); CHECK(a==b,"throws","%s, the tracking pointer %s (%s)",a.c_str(),b.c_str(),r->ret.c_str()); last=s->obs(); std::string g=r->obs(); CHECK(g==last,"state","the tracking pointers are %s, std::shared_ptr %s",g.c_str(),last.c_str()); if(i==depth-1||k==34||k==28) owners(*r);
        // a loop of owners would leak in either kind
        { std::set<int> seen; auto x=s->b[0].get(); while(x&&seen.insert(x->id).second) x=x->next.get(); if(x) loop=true; x=s->b[1].get(); seen.clear(); while(x&&seen.insert(x->id).second) x=x->next.get(); if(x) loop=true; } if(loop) { if(r->b[0]) r->b[0]->next.reset(); if(r->b[1]) r->b[1]->next.reset(); if(s->b[0]) s->b[0]->next.reset(); if(s->b[1]) s->b[1]->next.reset(); loop=false; } }
    mc::state(mc::hstr(last)); int n=r->l.made; CHECK(n==s->l.made,"made","objects made"); Log *ls=&s->l,*lr=&r->l; for(int i=0;i<2;i++) { s->b[i].reset(); r->b[i].reset(); } s->d.reset(); r->d.reset(); s->c.reset(); r->c.reset(); s->h.reset(); r->h.reset(); CHECK((int)lr->dead.size()==n&&(int)ls->dead.size()==n,"leak","%zu of %d objects died",lr->dead.size(),n); CHECK(lr->dead==ls->dead,"order","the objects died in another order"); mc::outcome(n?"objects":"no objects");
}
SCENARIO(sequences, mc::Opts().S(3)) { run(mc::tier()?4:3); }
// longer sequences over the operations which move ownership about
SCENARIO(moves, mc::Opts().S(3)) {
    static const int K[]={0,1,2,3,4,6,7,9,11,12,13,15}; std::unique_ptr<Prog<KStd>> s(new Prog<KStd>); std::unique_ptr<Prog<KDbg>> r(new Prog<KDbg>); int n=mc::tier()?6:5; std::string last; s->op(0); r->op(0); s->op(8); r->op(8);
    for(int i=0;i<n;i++) { int k=K[mc::choose(12)]; std::string a=s->op(k), b=r->op(k); mc::op("%s",a.c_str()); mc::step(); CHECK(a==b,"throws","%s, the tracking pointer %s",a.c_str(),b.c_str()); } last=s->obs(); std::string g=r->obs(); CHECK(g==last,"state","the tracking pointers are %s, std::shared_ptr %s",g.c_str(),last.c_str()); owners(*r); mc::state(mc::hstr(last)); mc::outcome("moved");
}
