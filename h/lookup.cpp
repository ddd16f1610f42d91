// C14: numbering and lookup of structure fields
#include "model.h"
#include <functional>
using namespace epics::pvData;

// names which contain and extend each other
static const char *NM[]={"a","ab","b","aa","A","a_"};
struct Node { const MT *t; TP tp; int parent; std::string name, full; size_t next; std::vector<size_t> kids; };
static TP gen(int& budget, const std::vector<TP>& leaves) {
    std::shared_ptr<MT> t(new MT(KStruct)); t->id="structure"; int n=mc::choose(std::min(3,budget)+1); budget-=n; int rot=n>1?mc::choose(2):0;
    for(int i=0;i<n;i++) { t->names.push_back(NM[(i+rot*2)%6]); int c=mc::choose(leaves.size()+1); t->kids.push_back(c<(int)leaves.size()?leaves[c]:gen(budget,leaves)); }
    return t;
}
static size_t walk(const TP& t, int parent, const std::string& name, const std::string& full, std::vector<Node>& out) {
    size_t me=out.size(); Node n; n.t=t.get(); n.tp=t; n.parent=parent; n.name=name; n.full=full; out.push_back(n);
    if(t->k==KStruct) for(size_t i=0;i<t->kids.size();i++) { size_t c=walk(t->kids[i],me,t->names[i],full.empty()?t->names[i]:full+"."+t->names[i],out); out[me].kids.push_back(c); }
    out[me].next=out.size(); return me;
}
static PVField *nav(PVStructure *top, const std::vector<Node>& N, size_t k) { if(k==0) return top; PVStructure *p=dynamic_cast<PVStructure*>(nav(top,N,N[k].parent)); const Node& q=N[N[k].parent]; for(size_t i=0;i<q.kids.size();i++) if(q.kids[i]==k) return p->getPVFields()[i].get(); return 0; }
// an independent path resolver: node number or -1
static int resolve(const std::vector<Node>& N, size_t from, const std::string& path) {
    size_t cur=from, p=0;
    while(true) { size_t q=path.find('.',p); std::string el=path.substr(p,q==std::string::npos?q:q-p); if(el.empty()||N[cur].t->k!=KStruct) return -1; int f=-1; for(size_t c: N[cur].kids) if(N[c].name==el) { f=c; break; } if(f<0) return -1; cur=f; if(q==std::string::npos) return cur; p=q+1; }
}
template<typename C> static void byType(PVStructure *s, const PVField *f, const std::string& path, size_t num) { // f: field expected or 0
    const C *want=f?dynamic_cast<const C*>(f):0; const PVStructure *cs=s; std::string d=f?path:"'"+path+"'";
    mc::step();
    CHECK(s->getSubField<C>(path).get()==want&&s->getSubField<C>(path.c_str()).get()==want&&cs->getSubField<C>(path).get()==want,"typed","getSubField<T>(%s)",d.c_str());
    for(int k=0;k<3;k++) { const C *g=0; std::string e=thrown([&]{ g= k==0?s->getSubFieldT<C>(path).get():k==1?cs->getSubFieldT<C>(path).get():s->getSubFieldT<C>(path.c_str()).get(); }); CHECK((e=="")==(want!=0)&&g==want,"typed-throw","getSubFieldT<T>(%s) %s",d.c_str(),e==""?"does not throw":("throws "+e).c_str()); }
    if(f||num!=(size_t)-1) { CHECK(s->getSubField<C>(num).get()==want&&cs->getSubField<C>(num).get()==want,"typed-num","getSubField<T>(%zu)",num); const C *g=0; std::string e=thrown([&]{ g=s->getSubFieldT<C>(num).get(); }); CHECK((e=="")==(want!=0)&&g==want,"typed-num-throw","getSubFieldT<T>(%zu): %s",num,e.c_str()); }
}
static void allTypes(PVStructure *s, const PVField *f, const std::string& path, size_t num) {
    byType<PVField>(s,f,path,num); byType<PVScalar>(s,f,path,num); byType<PVInt>(s,f,path,num); byType<PVUInt>(s,f,path,num); byType<PVString>(s,f,path,num); byType<PVArray>(s,f,path,num); byType<PVScalarArray>(s,f,path,num); byType<PVIntArray>(s,f,path,num); byType<PVStructure>(s,f,path,num); byType<PVUnion>(s,f,path,num); byType<PVStructureArray>(s,f,path,num); byType<PVUnionArray>(s,f,path,num);
}
static void numbers(PVField *f, size_t k, const std::vector<Node>& N) {
    CHECK(f->getFieldOffset()==k,"number","'%s' has number %zu, want %zu",N[k].full.c_str(),f->getFieldOffset(),k);
    CHECK(f->getNextFieldOffset()==N[k].next,"next","'%s' ends at %zu, want %zu",N[k].full.c_str(),f->getNextFieldOffset(),N[k].next);
    CHECK(f->getNumberFields()==N[k].next-k,"count","'%s' counts %zu fields, want %zu",N[k].full.c_str(),f->getNumberFields(),N[k].next-k);
}
static std::vector<TP> leafSet() { TP i=tScalar(pvInt); std::vector<TP> l={i,tUnion({"a","b"},{i,tStruct({"a"},{i})})}; if(mc::tier()) { l.push_back(tArray(pvInt)); l.push_back(tStructArr(tStruct({"a","b"},{i,i}))); } return l; }
static void tree(TP t, int firstMode) {
    std::vector<Node> N; walk(t,-1,"","",N); VP v=vdefault(t); PVStructurePtr top=makeS(v); mc::op("%s",tstr(t).c_str()); mc::state(mc::hmix(thash(t),firstMode));
    // the first question may be put to any field, in any form
    size_t first=mc::choose(N.size()); int q=mc::choose(3); PVField *ff=nav(top.get(),N,first); mc::op("first question (%d) to '%s'",q,N[first].full.c_str());
    switch(q) { case 0: CHECK(ff->getFieldOffset()==first,"number","first question: '%s' has number %zu, want %zu",N[first].full.c_str(),ff->getFieldOffset(),first); break; case 1: CHECK(ff->getNextFieldOffset()==N[first].next,"next","first question: '%s' ends at %zu, want %zu",N[first].full.c_str(),ff->getNextFieldOffset(),N[first].next); break; default: CHECK(ff->getNumberFields()==N[first].next-first,"count","first question: count of '%s'",N[first].full.c_str()); }
    for(size_t k=0;k<N.size();k++) { PVField *f=nav(top.get(),N,k); numbers(f,k,N); CHECK(f->getFieldName()==N[k].name&&f->getFullName()==N[k].full,"name","field %zu is named '%s' '%s', want '%s' '%s'",k,f->getFieldName().c_str(),f->getFullName().c_str(),N[k].name.c_str(),N[k].full.c_str()); CHECK(f->getParent()==(k?dynamic_cast<PVStructure*>(nav(top.get(),N,N[k].parent)):0),"parent","parent of '%s'",N[k].full.c_str()); }
    for(size_t k=0;k<N.size();k++) if(N[k].t->k==KStruct) { PVStructure *s=dynamic_cast<PVStructure*>(nav(top.get(),N,k));
        for(size_t n=0;n<N.size()+2;n++) { PVField *want=(n>k&&n<N[k].next)?nav(top.get(),N,n):0; mc::step(); CHECK(s->getSubField(n).get()==want,"by-number","getSubField(%zu) from field %zu",n,k); PVField *g=0; std::string e=thrown([&]{ g=s->getSubFieldT(n).get(); }); CHECK((e=="")==(want!=0)&&g==want,"by-number-throw","getSubFieldT(%zu) from field %zu: %s",n,k,e.c_str()); }
        CHECK(!s->getSubField((size_t)-1)&&!s->getSubField((size_t)1<<32),"by-number","getSubField(huge)");
    }
}
SCENARIO(numbering, mc::Opts().S(4)) { int b=mc::tier()?6:5; tree(gen(b,leafSet()),0); }
static void paths(TP t) {
    std::vector<Node> N; walk(t,-1,"","",N); PVStructurePtr top=makeS(vdefault(t)); mc::op("%s",tstr(t).c_str()); mc::state(thash(t));
    std::vector<std::string> P={""," ",".","..","a ","a. b"," a","a.","a..b",".a","zz","a.zz","b.a.a.a.a","ab.","aaa","a.b "}; 
    for(auto x: {"a","ab","b","aa","A","a_"}) { P.push_back(x); for(auto y: {"a","ab","b","aa"}) { P.push_back(std::string(x)+"."+y); for(auto z: {"a","b","ab"}) P.push_back(std::string(x)+"."+y+"."+z); } }
    for(size_t k=0;k<N.size();k++) if(N[k].full!="") { P.push_back(N[k].full); P.push_back(N[k].full+"."); P.push_back("."+N[k].full); P.push_back(N[k].full+".a"); P.push_back(N[k].full+".a.a"); P.push_back(N[k].full+" "); P.push_back(N[k].full.substr(0,N[k].full.size()-1)); P.push_back(N[k].full+"x"); }
    std::sort(P.begin(),P.end()); P.erase(std::unique(P.begin(),P.end()),P.end());
    for(size_t k=0;k<N.size();k++) if(N[k].t->k==KStruct) { PVStructure *s=dynamic_cast<PVStructure*>(nav(top.get(),N,k));
        for(auto& p: P) { int r=p.find(' ')!=std::string::npos?-1:resolve(N,k,p); PVField *want=r<0?0:nav(top.get(),N,r); mc::step();
            CHECK(s->getSubField(p).get()==want&&s->getSubField(p.c_str()).get()==want,"by-path","getSubField(\"%s\") from '%s' is %s",p.c_str(),N[k].full.c_str(),want?"wrong":"not NULL");
            PVField *g=0; std::string e=thrown([&]{ g=s->getSubFieldT(p).get(); }); CHECK((e=="")==(want!=0)&&g==want,"by-path-throw","getSubFieldT(\"%s\") from '%s': %s",p.c_str(),N[k].full.c_str(),e.c_str());
            if(want) allTypes(s,want,p,r); }
        allTypes(s,0,"a.",N.size()+3); allTypes(s,0,"zz",N[k].next); allTypes(s,0,"",k);
        CHECK(!s->getSubField((const char*)0)&&thrown([&]{ s->getSubFieldT((const char*)0); })!="","by-path","NULL name");
        // the type gives the same answers one level down
        StructureConstPtr st=s->getStructure(); for(auto& p: P) { int r=p.find_first_of(". ")!=std::string::npos?-1:resolve(N,k,p); size_t idx=(size_t)-1; for(size_t i=0;i<N[k].kids.size();i++) if((int)N[k].kids[i]==r) idx=i; mc::step();
            CHECK(st->getFieldIndex(p)==idx,"type-index","getFieldIndex(\"%s\") is %zu",p.c_str(),st->getFieldIndex(p)); const Field *want=r<0?0:nav(top.get(),N,r)->getField().get(); CHECK(st->getField(p).get()==want,"type-field","getField(\"%s\")",p.c_str()); const Field *g=0; std::string e=thrown([&]{ g=st->getFieldT(p).get(); }); CHECK((e=="")==(want!=0)&&g==want,"type-field-throw","getFieldT(\"%s\")",p.c_str());
            CHECK(st->getField<Scalar>(p).get()==dynamic_cast<const Scalar*>(want)&&st->getField<Structure>(p).get()==dynamic_cast<const Structure*>(want)&&st->getField<Union>(p).get()==dynamic_cast<const Union*>(want),"type-cast","getField<T>(\"%s\")",p.c_str());
            e=thrown([&]{ st->getFieldT<Scalar>(p); }); CHECK((e=="")==(dynamic_cast<const Scalar*>(want)!=0),"type-cast-throw","getFieldT<Scalar>(\"%s\")",p.c_str()); }
        for(size_t i=0;i<N[k].kids.size()+2;i++) { bool in=i<N[k].kids.size(); const Field *g=0; std::string e=thrown([&]{ g=st->getField(i).get(); }); CHECK((e=="")==in,"type-number","getField(%zu)",i); if(in) CHECK(g==nav(top.get(),N,N[k].kids[i])->getField().get()&&st->getFieldName(i)==N[N[k].kids[i]].name,"type-number","getField(%zu)",i); else CHECK(thrown([&]{ st->getFieldT(i); })!=""&&thrown([&]{ st->getFieldName(i); })!="","type-number","number %zu of %zu",i,N[k].kids.size()); }
    }
}
SCENARIO(by_path, mc::Opts().S(4)) { int b=mc::tier()?5:4; paths(gen(b,leafSet())); }
// every member kind as a leaf, and union members by name
SCENARIO(kinds) { static std::vector<TP> L=allLeaves(); TP l=L[mc::choose(L.size())]; TP t=tStruct({"a","ab"},{tStruct({"b","a"},{l,tScalar(pvString)}),l}); paths(t); }
SCENARIO(union_members) {
    int n=1+mc::choose(4); std::vector<std::string> nm; std::vector<TP> k; static std::vector<TP> L=allLeaves(); for(int i=0;i<n;i++) { nm.push_back(NM[i]); k.push_back(i==0?L[mc::choose(L.size())]:tScalar((ScalarType)(i*3))); } UnionConstPtr u=std::tr1::static_pointer_cast<const Union>(build(tUnion(nm,k)));
    for(auto p: {"a","ab","b","aa","A","a_","","a.b"," "}) { int idx=-1; for(int i=0;i<n;i++) if(nm[i]==p) idx=i; CHECK((int)u->getFieldIndex(p)==idx,"union-index","getFieldIndex(\"%s\")",p); const Field *want=idx<0?0:u->getFields()[idx].get(); CHECK(u->getField(p).get()==want,"union-field","getField(\"%s\")",p); std::string e=thrown([&]{ u->getFieldT(p); }); CHECK((e=="")==(idx>=0),"union-field-throw","getFieldT(\"%s\")",p); CHECK(u->getField<Scalar>(p).get()==dynamic_cast<const Scalar*>(want),"union-cast","getField<Scalar>(\"%s\")",p); mc::step(); }
    for(int i=0;i<n+2;i++) { std::string e=thrown([&]{ CHECK(tcheck(u->getField(i).get(),k.at(i))=="","union-number","getField(%d)",i); }); CHECK((e=="")==(i<n),"union-number","getField(%d)",i); }
}
// the same structure as a part of a larger one: numbering continues, also when asked before
SCENARIO(nested_later) {
    GenT g; g.leaves.push_back(tScalar(pvInt)); g.unions=g.arrays=false; int b=3; TP a=genT(g,b,true); b=2; TP c=genT(g,b,true); bool askA=mc::choose(2), askC=mc::choose(2); PVStructurePtr pa=makeS(vdefault(a)), pc=makeS(vdefault(c)); std::vector<Node> NA, NC; walk(a,-1,"","",NA); walk(c,-1,"","",NC);
    if(askA) for(size_t k=0;k<NA.size();k++) numbers(nav(pa.get(),NA,k),k,NA); if(askC) for(size_t k=0;k<NC.size();k++) numbers(nav(pc.get(),NC,k),k,NC);
    PVFieldPtrArray f; f.push_back(pa); f.push_back(pc); StringArray n={"x","y"}; PVStructurePtr top=getPVDataCreate()->createPVStructure(n,f); TP t=tStruct(n,{a,c}); std::vector<Node> N; walk(t,-1,"","",N); mc::op("%s",tstr(t).c_str()); mc::state(thash(t));
    std::vector<size_t> order; for(size_t k=0;k<N.size();k++) order.push_back(k); int s=mc::choose(N.size()); std::rotate(order.begin(),order.begin()+s,order.end());
    for(size_t k: order) { PVField *q=nav(top.get(),N,k); numbers(q,k,N); CHECK(q->getFullName()==N[k].full,"name","full name '%s' want '%s'",q->getFullName().c_str(),N[k].full.c_str()); if(k) CHECK(top->getSubField(k).get()==q,"by-number","getSubField(%zu)",k); }
}
// wide and deep structures
SCENARIO(wide, mc::Opts().S(2)) {
    static const size_t W[]={63,64,65,129,256,300}; int shape=mc::choose(3); TP t=tWide(W[mc::choose(6)],shape); std::vector<Node> N; walk(t,-1,"","",N); PVStructurePtr top=makeS(vdefault(t)); mc::op("%zu fields, shape %d",N.size(),shape); mc::state(thash(t));
    std::vector<PVField*> F(N.size()); F[0]=top.get(); for(size_t k=0;k<N.size();k++) for(size_t i=0;i<N[k].kids.size();i++) F[N[k].kids[i]]=dynamic_cast<PVStructure*>(F[k])->getPVFields()[i].get();
    static const size_t Q[]={0,1,62,100,255}; size_t first=Q[mc::choose(5)]; if(first>=N.size()) mc::skip(); numbers(F[first],first,N);
    for(size_t k=0;k<N.size();k++) { numbers(F[k],k,N); CHECK(F[k]->getFieldName()==N[k].name&&F[k]->getFullName()==N[k].full,"name","field %zu is named '%s' '%s', want '%s' '%s'",k,F[k]->getFieldName().c_str(),F[k]->getFullName().c_str(),N[k].name.c_str(),N[k].full.c_str()); }
    for(size_t k=0;k<N.size();k++) if(N[k].t->k==KStruct) { PVStructure *s=dynamic_cast<PVStructure*>(F[k]); StructureConstPtr st=s->getStructure(); mc::step();
        for(size_t n=0;n<N.size()+2;n++) { PVField *want=(n>k&&n<N[k].next)?F[n]:0; CHECK(s->getSubField(n).get()==want,"by-number","getSubField(%zu) from field %zu",n,k); if(!want||(shape==2&&n-k>40)) continue;
            std::string p=k?N[n].full.substr(N[k].full.size()+1):N[n].full; CHECK(s->getSubField(p).get()==want&&s->getSubFieldT(p).get()==want,"by-path","getSubField(\"%s\") from field %zu",p.c_str(),k); }
        for(size_t i=0;i<N[k].kids.size();i++) CHECK(st->getFieldIndex(N[N[k].kids[i]].name)==i&&st->getField(i).get()==F[N[k].kids[i]]->getField().get()&&st->getField(N[N[k].kids[i]].name).get()==F[N[k].kids[i]]->getField().get(),"type-index","member %zu of field %zu",i,k);
        CHECK(st->getFieldIndex("f")==(size_t)-1&&!s->getSubField("f1.")&&!s->getSubField("f99999"),"by-path","a name which is not there"); }
}
