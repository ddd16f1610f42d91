// C30: immutable fields do not change, changes are notified
#include "model.h"
#include <pv/convert.h>
#include <pv/json.h>
#include <pv/pvSubArrayCopy.h>
using namespace epics::pvData;
static std::map<const PVField*,int> posts; static const PVField *cur;
static VP read(const PVFieldPtr& f, const TP& t); static std::map<const PVField*,VP> seen; // what a handler sees when it is called
struct Post : PostHandler { PVField *f; TP t; Post(PVField *f, const TP& t) :f(f), t(t) {} void postPut() { posts[f]++; if(t->k!=KStruct) seen[f]=read(f->shared_from_this(),t); } };
struct Node { VP v; PVFieldPtr f; int par; std::string path; };
static void collect(const VP& v, const PVFieldPtr& f, int par, const std::string& path, std::vector<Node>& out) { Node n; n.v=v; n.f=f; n.par=par; n.path=path; int at=out.size(); out.push_back(n); if(v->t->k==KStruct) for(size_t i=0;i<v->kids.size();i++) collect(v->kids[i],std::tr1::static_pointer_cast<PVStructure>(f)->getPVFields()[i],at,path+"."+v->t->names[i],out); }
static TP world() { TP E=tStruct({"q"},{tScalar(pvInt)},"E"), U=tUnion({"i","s"},{tScalar(pvInt),tScalar(pvString)}); return tStruct({"a","b","c","d","u","v","x","y","z","w"},{tScalar(pvInt),tBString(9),tArray(pvInt),tStruct({"e","f","g"},{tScalar(pvDouble),tArray(pvString),tStruct({"h"},{tScalar(pvBoolean)})}),U,tAny(),tStructArr(E),tUnionArr(U),tBArray(pvByte,3),tAnyArr()}); }
static const char *KN[]={"scalar","scalar","array","array","array","structure","union","union","structs","unions","unions"};
typedef std::function<void()> F;
struct Op { const char *name; F f; int posts; bool unchecked; }; // posts: notifications expected on the field itself (-1: not judged, -2: at least one)
static bytes wireOf(const VP& v) { Enc e(true); encValue(v,e); return e.b; }
template<class A> static void arrayOps(std::vector<Op>& o, A *a, const std::function<void(typename A::svector&)>& fill) {
    typedef typename A::svector sv; typedef typename A::const_svector cv;
    o.push_back({"replace",[=]{ sv x; fill(x); a->replace(freeze(x)); },1,false}); o.push_back({"replace by nothing",[=]{ a->replace(cv()); },1,false});
    o.push_back({"swap",[=]{ sv x; fill(x); cv c(freeze(x)); a->swap(c); },0,false}); o.push_back({"reuse",[=]{ sv x(a->reuse()); },0,false});
    o.push_back({"setLength 0",[=]{ a->setLength(0); },-1,false}); o.push_back({"setLength 3",[=]{ a->setLength(3); },-1,false}); o.push_back({"setCapacity",[=]{ size_t c=a->getCapacity(); if(a->getArray()->getArraySizeType()==Array::variable) c+=3; a->setCapacity(c); },0,false});
}
// every operation on one field; 'src' holds another value of the same type, 'via' an alias of it
static std::vector<Op> ops(const Node& n, const VP& other) {
    std::vector<Op> o; PVFieldPtr f=n.f; TP t=n.v->t; PVFieldPtr src=make(other); VP oc=other;
    o.push_back({"copy",[=]{ f->copy(*src); },t->k==KStruct?0:-2,false}); o.push_back({"copyUnchecked",[=]{ f->copyUnchecked(*src); },t->k==KStruct?0:-2,true}); o.push_back({"Convert::copy",[=]{ getConvert()->copy(src,f); },t->k==KStruct?0:-2,false});
    o.push_back({"decode",[=]{ bytes w=wireOf(oc); FragDes d(w,true,std::vector<size_t>()); f->deserialize(&d.buf,&d); },-1,false});
    if(t->k!=KAny&&t->k!=KAnyArr&&t->k!=KUnionArr&&t->k!=KUnion&&(t->k!=KStruct||t->kids.size()<5)&&n.par>=0) o.push_back({"parseJSON",[=]{ std::ostringstream s; printJSON(s,*src); std::istringstream i(s.str()); parseJSON(i,f); },t->k==KStruct?0:-2,false});
    if(PVScalarPtr s=std::tr1::dynamic_pointer_cast<PVScalar>(f)) { PVScalarPtr from=std::tr1::static_pointer_cast<PVScalar>(src); MS m=oc->s; ScalarType st=t->s;
        o.push_back({"put",[=]{ putScalar(f.get(),st,m); },1,false}); o.push_back({"putFrom string",[=]{ s->putFrom<std::string>(from->getAs<std::string>()); },1,false}); o.push_back({"putFrom the same type",[=]{ SDISPATCH(st,s->putFrom<T>(from->getAs<T>())) },1,false}); o.push_back({"assign",[=]{ s->assign(*from); },1,false}); o.push_back({"Convert::fromString",[=]{ getConvert()->fromString(s,from->getAs<std::string>()); },1,false}); o.push_back({"PVScalar::copyUnchecked",[=]{ s->copyUnchecked(*from); },-2,true}); o.push_back({"<<=",[=]{ SDISPATCH(st, dynamic_cast<PVScalarValue<T>&>(*f)<<=Conv<T>::to(m)) },1,false}); if(st!=pvString&&st!=pvBoolean) { o.push_back({"putFrom double",[=]{ s->putFrom<double>(from->getAs<double>()); },1,false}); o.push_back({"Convert::fromInt",[=]{ getConvert()->fromInt(s,from->getAs<int32>()); },1,false}); } }
    if(PVScalarArrayPtr a=std::tr1::dynamic_pointer_cast<PVScalarArray>(f)) { PVScalarArrayPtr from=std::tr1::static_pointer_cast<PVScalarArray>(src); std::vector<MS> m=oc->a;
        SDISPATCH(t->s, arrayOps(o,dynamic_cast<PVValueArray<T>*>(f.get()),std::function<void(typename PVValueArray<T>::svector&)>([m](typename PVValueArray<T>::svector& x) { x.resize(m.size()); for(size_t i=0;i<m.size();i++) x[i]=Conv<T>::to(m[i]); })))
        o.push_back({"assign",[=]{ a->assign(*from); },1,false}); o.push_back({"putFrom strings",[=]{ shared_vector<const std::string> s; from->getAs(s); a->putFrom(s); },1,false}); o.push_back({"putFrom the same type",[=]{ SDISPATCH(t->s, shared_vector<const T> s; from->getAs(s); a->putFrom(s)) },1,false}); o.push_back({"Convert::fromStringArray",[=]{ StringArray s(a->getLength()+1,"7"); if(t->k==KBArray) s.resize(3,"7"); getConvert()->fromStringArray(a,0,s.size(),s,0); },-2,false}); o.push_back({"Convert::fromString",[=]{ getConvert()->fromString(a,std::string("5,6")); },-2,false}); o.push_back({"sub-array copy",[=]{ copy(*from,0,1,*a,0,1,1); },-1,false}); o.push_back({"PVScalarArray::copyUnchecked",[=]{ a->copyUnchecked(*from); },-2,true}); }
    if(PVStructureArray *a=dynamic_cast<PVStructureArray*>(f.get())) { PVStructureArrayPtr from=std::tr1::static_pointer_cast<PVStructureArray>(src); arrayOps(o,a,std::function<void(PVStructureArray::svector&)>([from](PVStructureArray::svector& x) { auto c_=from->view(); x=thaw(c_); })); o.push_back({"append",[=]{ a->append(1); },0,false}); o.push_back({"remove",[=]{ a->remove(0,1); },0,false}); o.push_back({"compress",[=]{ a->compress(); },0,false}); o.push_back({"sub-array copy",[=]{ copy(*from,0,1,*a,0,1,1); },-1,false}); }
    if(PVUnionArray *a=dynamic_cast<PVUnionArray*>(f.get())) { PVUnionArrayPtr from=std::tr1::static_pointer_cast<PVUnionArray>(src); arrayOps(o,a,std::function<void(PVUnionArray::svector&)>([from](PVUnionArray::svector& x) { auto c_=from->view(); x=thaw(c_); })); o.push_back({"append",[=]{ a->append(1); },0,false}); o.push_back({"remove",[=]{ a->remove(0,1); },0,false}); o.push_back({"compress",[=]{ a->compress(); },0,false}); o.push_back({"sub-array copy",[=]{ copy((PVArray&)*from,0,1,(PVArray&)*a,0,1,1); },-1,false}); }
    if(PVUnion *u=dynamic_cast<PVUnion*>(f.get())) { PVUnionPtr from=std::tr1::static_pointer_cast<PVUnion>(src); bool any=t->k==KAny; o.push_back({"select none",[=]{ u->select(-1); },-1,false}); if(!any) { o.push_back({"select 1",[=]{ u->select(1); },-1,false}); o.push_back({"select by name",[=]{ u->select("i"); },-1,false}); o.push_back({"set 0",[=]{ u->set(0,getPVDataCreate()->createPVScalar(pvInt)); },1,false}); o.push_back({"set by name",[=]{ u->set("s",getPVDataCreate()->createPVScalar(pvString)); },1,false}); o.push_back({"set none",[=]{ u->set(-1,PVFieldPtr()); },1,false}); } else { o.push_back({"set",[=]{ u->set(getPVDataCreate()->createPVScalar(pvShort)); },1,false}); o.push_back({"set none",[=]{ u->set(PVFieldPtr()); },1,false}); } }
    if(PVStructure *s=dynamic_cast<PVStructure*>(f.get())) { PVStructurePtr from=std::tr1::static_pointer_cast<PVStructure>(src); size_t off=f->getFieldOffset(), nf=f->getNumberFields();
        if(n.par<0) { o.push_back({"masked copyUnchecked",[=]{ BitSet b; for(size_t i=1;i<nf;i++) b.set(i); s->copyUnchecked(*from,b); },0,true}); o.push_back({"masked decode",[=]{ std::vector<bool> m(nf,true); m[0]=false; Enc e(true); encMasked(oc,0,m,e); BitSet b; for(size_t i=1;i<nf;i++) b.set(i); FragDes d(e.b,true,std::vector<size_t>()); s->deserialize(&d.buf,&d,&b); },0,false}); } (void)off; }
    return o;
}
static VP at(const VP& v, const VP& what, const VP& in) { if(v.get()==what.get()) return in; for(size_t i=0;i<v->kids.size();i++) if(VP r=at(v->kids[i],what,in->kids[i])) return r; return VP(); }
static void modelOf(std::vector<Node>& n, const VP& whole) { std::vector<Node> m; collect(whole,n[0].f,-1,"",m); for(size_t i=0;i<n.size();i++) n[i].v=m[i].v; }
// the value which a field holds now, as a model (no independent check needed: it is compared with itself)
static VP read(const PVFieldPtr& f, const TP& t) {
    VP v(new MV(t)); switch(t->k) { case KScalar: case KBString: v->s=getScalar(f.get(),t->s); break; case KArray: case KBArray: case KFArray: v->a=getArray(f.get(),t->s); break; case KStruct: for(size_t i=0;i<t->kids.size();i++) v->kids.push_back(read(std::tr1::static_pointer_cast<PVStructure>(f)->getPVFields()[i],t->kids[i])); break;
    case KUnion: { PVUnionPtr u=std::tr1::static_pointer_cast<PVUnion>(f); v->sel=u->getSelectedIndex(); if(v->sel>=0) v->v=read(u->get(),t->kids[v->sel]); break; } case KAny: { PVUnionPtr u=std::tr1::static_pointer_cast<PVUnion>(f); if(u->get()) { PVFieldPtr g=u->get(); TP gt; if(g->getField()->getType()==scalar) gt=tScalar(std::tr1::static_pointer_cast<const Scalar>(g->getField())->getScalarType()); else gt=tStruct({"q"},{tScalar(pvString)},"S"); v->v=read(g,gt); } break; }
    case KStructArr: { PVStructureArray::const_svector d(std::tr1::static_pointer_cast<PVStructureArray>(f)->view()); for(size_t i=0;i<d.size();i++) v->kids.push_back(d[i]?read(d[i],t->elem):VP()); break; } default: { PVUnionArray::const_svector d(std::tr1::static_pointer_cast<PVUnionArray>(f)->view()); for(size_t i=0;i<d.size();i++) v->kids.push_back(d[i]?read(d[i],t->elem):VP()); break; } }
    return v;
}
static bool opaque(const TP& t) { return t->k==KUnion||t->k==KAny||t->k>=KStructArr; }
static void judge(std::vector<Node>& n, size_t fi, const Op& op, const VP& other) {
    std::vector<VP> old; for(auto& x: n) old.push_back(read(x.f,x.v->t)); posts.clear(); seen.clear(); mc::op("%s %s",op.name,n[fi].path.c_str()); std::string e=thrown(op.f); mc::step(); bool anyImm=false;
    bool immHere=n[fi].f->isImmutable(); std::string kind=KN[n[fi].v->t->k];
    for(size_t i=0;i<n.size();i++) { VP now=read(n[i].f,n[i].v->t); bool same=vsame(now,old[i]); if(n[i].f->isImmutable()) { anyImm=true; if(!same&&op.unchecked) mc::skip(); std::string key=std::string(i==fi?"":"below-")+op.name+" of "+KN[n[i].v->t->k]; for(char& c: key) if(c==' ') c='-'; CHECK(same,key.c_str(),"%s of %s changed immutable %s from %s to %s",op.name,n[fi].path.c_str(),n[i].path.c_str(),vstr(old[i]).c_str(),vstr(now).c_str()); }
        // only what is below (or above) the field changes
        bool rel=false; for(int p=i;p>=0;p=n[p].par) rel|=p==(int)fi; for(int p=fi;p>=0;p=n[p].par) rel|=p==(int)i; CHECK(rel||same,"other","%s of %s changed %s",op.name,n[fi].path.c_str(),n[i].path.c_str());
        bool below=false; for(int p=i;p>=0;p=n[p].par) below|=p==(int)fi; int c=posts[n[i].f.get()]; CHECK(below||c==0,"notify-other","%s of %s notifies %s",op.name,n[fi].path.c_str(),n[i].path.c_str()); }
    for(size_t i=0;i<n.size();i++) { auto w=seen.find(n[i].f.get()); if(w!=seen.end()) CHECK(vsame(w->second,read(n[i].f,n[i].v->t)),"notify-early","%s of %s notifies %s with the value %s and leaves %s",op.name,n[fi].path.c_str(),n[i].path.c_str(),vstr(w->second).c_str(),vstr(read(n[i].f,n[i].v->t)).c_str()); }
    if(immHere||(anyImm&&n[fi].v->t->k==KStruct)) { mc::outcome(e!=""?"refused":"no effect"); return; }
    CHECK(e=="","refused","%s of %s, which is mutable: %s",op.name,n[fi].path.c_str(),e.c_str()); int c=posts[n[fi].f.get()];
    if(op.posts>=0) CHECK(c==op.posts,"notify","%s of %s notifies %d times, want %d",op.name,n[fi].path.c_str(),c,op.posts); if(op.posts==-2) CHECK(c>=1,"notify","%s of %s does not notify",op.name,n[fi].path.c_str());
    if(n[fi].v->t->k==KStruct&&!strstr(op.name,"decode")) for(size_t i=0;i<n.size();i++) { bool below=false; for(int p=i;p>=0;p=n[p].par) below|=p==(int)fi; if(below&&n[i].v->t->k!=KStruct&&strcmp(op.name,"parseJSON")) CHECK(posts[n[i].f.get()]>=1,"notify","%s of %s does not notify %s",op.name,n[fi].path.c_str(),n[i].path.c_str()); else if(n[i].v->t->k==KStruct) CHECK(posts[n[i].f.get()]==0,"notify","%s of %s notifies the structure %s",op.name,n[fi].path.c_str(),n[i].path.c_str()); }
    mc::outcome(c?"changed, notified":"changed");
}
static void mark(std::vector<Node>& n, int i, std::vector<bool>& imm) { mc::op("%s immutable",n[i].path==""?"all":n[i].path.c_str()); n[i].f->setImmutable(); for(size_t k=0;k<n.size();k++) { for(int p=k;p>=0;p=n[p].par) if(p==i) imm[k]=true; CHECK(n[k].f->isImmutable()==imm[k],"mark","%s immutable: %s is %s",n[i].path.c_str(),n[k].path.c_str(),n[k].f->isImmutable()?"immutable":"mutable"); PVArray *a=dynamic_cast<PVArray*>(n[k].f.get()); if(a) { CHECK(a->isCapacityMutable()==!imm[k],"mark","isCapacityMutable() of %s",n[k].path.c_str()); if(imm[k]) { std::string e=thrown([&]{ a->setCapacityMutable(true); }); CHECK(e!=""&&!a->isCapacityMutable(),"mark","the capacity of immutable %s became mutable",n[k].path.c_str()); } } } }
static void setup(std::vector<Node>& n, VP& v, PVFieldPtr& root, bool inner) { GenV g(2,2,false); v=genV(g,world()); for(auto& k: v->kids) { if(k->t->k==KUnion&&k->sel<0) { k->sel=0; k->v=vdefault(k->t->kids[0]); } if(k->t->k==KAny&&!k->v) { k->v=vdefault(tScalar(pvInt)); } if(k->t->k==KArray) k->a={MS(1),MS(2)}; if(k->t->k==KBArray) k->a={MS(1),MS(2)}; if(k->t->k>=KStructArr) { k->kids.clear(); k->kids.push_back(vdefault(k->t->elem)); k->kids.push_back(VP()); } }
    if(inner) { VP o=vdefault(tStruct({"o","p"},{tScalar(pvInt),v->t})); o->kids[1]=v; v=o; } root=make(v); collect(v,root,-1,"",n); for(auto& x: n) { PostHandlerPtr h(new Post(x.f.get(),x.v->t)); x.f->setPostHandler(h); } }
static VP otherValue(const VP& v) { VP r=vcopy(v); std::function<void(VP&)> ch=[&](VP& x) { if(!x) return; switch(x->t->k) { case KScalar: x->s=x->t->s==pvString?MS(x->s.s+"n"):x->t->s==pvDouble?dbits(77.5):MS(x->t->s==pvBoolean?!x->s.u:5); break; case KBString: x->s=MS(std::string("B")); break; case KArray: case KBArray: x->a.assign(3,x->t->s==pvString?MS(std::string("9")):MS(9)); break; case KStruct: for(VP& k: x->kids) ch(k); break; case KUnion: x->sel=x->sel==1?0:1; x->v=vdefault(x->t->kids[x->sel]); break; case KAny: x->v=vdefault(tScalar(pvLong)); x->v->s=MS(4); break; default: x->kids.clear(); for(int i=0;i<3;i++) x->kids.push_back(vdefault(x->t->elem)); } }; ch(r); return r; }
SCENARIO(one_operation, mc::Opts().S(3)) { std::vector<Node> n; VP v; PVFieldPtr root; setup(n,v,root,mc::choose(2)); std::vector<bool> imm(n.size()); int m=mc::choose(mc::tier()?3:2); for(int i=0;i<m;i++) mark(n,mc::choose(n.size()),imm); size_t fi=mc::choose(n.size()); VP other=otherValue(n[fi].v); std::vector<Op> o=ops(n[fi],other); judge(n,fi,o[mc::choose(o.size())],other); mc::state(vhash(read(root,v->t))); }
SCENARIO(two_operations, mc::Opts().S(3)) { std::vector<Node> n; VP v; PVFieldPtr root; setup(n,v,root,false); std::vector<bool> imm(n.size()); int late=mc::choose(2); if(!late&&mc::tier()) mark(n,mc::choose(n.size()),imm); size_t fi=mc::choose(n.size()); VP other=otherValue(n[fi].v); std::vector<Op> o=ops(n[fi],other); const Op& p=o[mc::choose(o.size())]; bool bad=false; thrown(p.f); if(late) mark(n,mc::tier()?mc::choose(n.size()):fi,imm); modelOf(n,read(root,v->t)); size_t fj=mc::tier()?mc::choose(n.size()):fi; VP other2=otherValue(n[fj].v); std::vector<Op> o2=ops(n[fj],other2); judge(n,fj,o2[mc::choose(o2.size())],other2); (void)bad; }
// two fields of one value: an operation that reads an immutable one
SCENARIO(immutable_source) { std::vector<Node> n; VP v; PVFieldPtr root; setup(n,v,root,false); PVFieldPtr dst=make(v->t); size_t fi=mc::choose(n.size()); std::vector<bool> imm(n.size()); mark(n,fi,imm); int k=mc::choose(3); mc::op("copy %d",k); VP old=read(root,v->t); std::string e=thrown([&]{ if(k==0) dst->copy(*root); else if(k==1) dst->copyUnchecked(*root); else getConvert()->copy(root,dst); }); CHECK(e=="","source","copying from an immutable value: %s",e.c_str()); CHECK(vsame(read(dst,v->t),old),"source","the copy of an immutable value differs"); CHECK(!dst->isImmutable(),"source","the copy is immutable"); std::vector<Node> d; collect(v,dst,-1,"",d); for(auto& x: d) CHECK(!x.f->isImmutable(),"source","%s of the copy is immutable",x.path.c_str()); PVStructurePtr c=getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<PVStructure>(root)); CHECK(vsame(read(c,v->t),old),"source","the clone of an immutable value differs"); CHECK(!c->isImmutable()||fi==0,"source","the clone is immutable"); mc::step(); mc::outcome("copied"); }
// registration of handlers
SCENARIO(handlers, mc::Opts().S(3)) { struct H : PostHandler { int n; H() :n(0) {} void postPut() { n++; } }; std::tr1::shared_ptr<H> h[2]={std::tr1::shared_ptr<H>(new H),std::tr1::shared_ptr<H>(new H)}; VP v=vdefault(tStruct({"a","b"},{tScalar(pvInt),tArray(pvInt)})); PVStructurePtr s=makeS(v); PVFieldPtr f[3]={s,s->getPVFields()[0],s->getPVFields()[1]}; int reg[3]={-1,-1,-1}, want[2]={0,0}; int n=mc::tier()?5:4; for(int i=0;i<n;i++) { int k=mc::choose(3); switch(mc::choose(4)) { case 0: case 1: { int w=mc::choose(2); mc::op("handler %d for %d",w,k); std::string e=thrown([&]{ f[k]->setPostHandler(h[w]); }); CHECK((e!="")==(reg[k]>=0&&reg[k]!=w),"register","a second handler: %s",e.c_str()); if(e=="") reg[k]=w; break; } case 2: mc::op("postPut %d",k); f[k]->postPut(); if(reg[k]>=0) want[reg[k]]++; break; case 3: mc::op("change %d",k); if(k==0) mc::skip(); if(k==1) std::tr1::static_pointer_cast<PVInt>(f[1])->put(i); else std::tr1::static_pointer_cast<PVIntArray>(f[2])->replace(PVIntArray::const_svector()); if(reg[k]>=0) want[reg[k]]++; break; } for(int w=0;w<2;w++) CHECK(h[w]->n==want[w],"count","handler %d was called %d times, want %d",w,h[w]->n,want[w]); mc::step(); } mc::state(mc::hmix(want[0]*7+want[1],reg[0]*9+reg[1]*3+reg[2])); mc::outcome(want[0]+want[1]?"notified":"silent"); }
