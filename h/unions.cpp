// C15: unions
#include "valuesh.h"
using namespace epics::pvData;

static std::vector<std::string> names(const TP& t) { std::vector<std::string> n=t->names; n.push_back(""); n.push_back("zz"); n.push_back(t->k==KAny?"any":t->names[0]+"."); return n; }
struct U { TP t; VP m; PVUnionPtr r; bool imm; };
static void check(const U& u, const char *after) {
    std::string r=vcheck(u.r.get(),u.m); CHECK(r=="","state","after %s: %s, want %s",after,r.c_str(),vstr(u.m).c_str());
    CHECK((u.r->get()!=0)==(u.m->v!=0),"state","after %s: value present",after);
    bytes w=encModel(u.m,true), g=encReal(u.r.get(),true,64,0,false); CHECK(w==g,"wire","after %s: wire form %s want %s",after,hexb(g).c_str(),hexb(w).c_str());
    PVFieldPtr x=make(u.m); CHECK(*x==*u.r,"equal","after %s: not equal to a fresh %s",after,vstr(u.m).c_str());
    CHECK(u.r->isImmutable()==u.imm,"immutable","after %s: isImmutable",after);
}
// one operation; 'k' numbers them
static bool refuse(U& u, const char *what, const std::string& e, bool ok) { CHECK((e=="")==ok,"refuse","%s of %s is %s%s",what,vstr(u.m).c_str(),e==""?"accepted":"refused: ",e.c_str()); mc::outcome(ok?"accepted":"refused"); check(u,what); return ok; }
static VP fresh(const TP& t, int seed) { GenV g(seed,1,false); g.counter=seed; return genV(g,t); }
static void step(U& u, U& other, const std::vector<TP>& anys, int ops=8) {
    int n=u.t->k==KUnion?u.t->kids.size():0; std::string e, what; bool any=u.t->k==KAny; VP was=vcopy(u.m);
    switch(mc::choose(ops)) {
    case 0: { int i=mc::choose(n+4)-2; what=sfmt("select(%d)",i); bool ok= i==-1 || (!any&&i>=0&&i<n); PVFieldPtr g; if(ok) { if(i==-1) { u.m->sel=-1; u.m->v.reset(); } else if(i!=u.m->sel) { u.m->sel=i; u.m->v=vdefault(u.t->kids[i]); } } mc::op("%s",what.c_str()); e=thrown([&]{ g=u.r->select(i); }); if(refuse(u,what.c_str(),e,ok)) CHECK(g.get()==u.r->get().get(),"result","%s gives another field",what.c_str()); break; }
    case 1: { std::vector<std::string> N=names(u.t); int i=mc::choose(N.size()); what="select(\""+N[i]+"\")"; bool ok=i<n; if(ok&&i!=u.m->sel) { u.m->sel=i; u.m->v=vdefault(u.t->kids[i]); } mc::op("%s",what.c_str()); PVFieldPtr g; e=thrown([&]{ g=u.r->select(N[i]); }); if(refuse(u,what.c_str(),e,ok)) CHECK(g.get()==u.r->get().get(),"result","%s gives another field",what.c_str()); break; }
    case 2: case 3: { bool byName=mc::choose(2); std::vector<std::string> N=names(u.t); int i=byName?mc::choose(N.size()):mc::choose(n+4)-2; int c=mc::choose(anys.size()+1); VP val=c?fresh(anys[c-1],1+c%3):VP(); PVFieldPtr pv=val?make(val):PVFieldPtr();
        what=byName?"set(\""+N[i]+"\","+vstr(val)+")":sfmt("set(%d,%s)",i,vstr(val).c_str()); bool ok;
        if(any) ok= !byName&&i==-1; else if(byName&&i>=n) ok=false; else ok= i==-1?!val:(i>=0&&i<n&&val&&tsame(val->t,u.t->kids[i]));
        if(ok) { u.m->sel=i; u.m->v=val; } mc::op("%s",what.c_str()); e=thrown([&]{ if(byName) u.r->set(N[i],pv); else u.r->set(i,pv); }); if(refuse(u,what.c_str(),e,ok)) CHECK(u.r->get().get()==pv.get(),"set-ref","%s does not hold the field given",what.c_str()); break; }
    case 4: { int c=mc::choose(anys.size()+1); VP val=c?fresh(anys[c-1],2+c%3):VP(); PVFieldPtr pv=val?make(val):PVFieldPtr(); what="set("+vstr(val)+")"; bool ok; if(any) ok=true; else if(u.m->sel<0) ok=!val; else ok=val&&tsame(val->t,u.t->kids[u.m->sel]); if(ok) u.m->v=val; mc::op("%s",what.c_str()); e=thrown([&]{ u.r->set(pv); }); refuse(u,what.c_str(),e,ok); break; }
    case 5: { what="copy of "+vstr(other.m); mc::op("%s",what.c_str()); bool unchecked=mc::choose(2), base=mc::choose(2); if(!unchecked&&u.imm) { e=thrown([&]{ if(base) static_cast<PVField&>(*u.r).copy(*other.r); else u.r->copy(*other.r); }); refuse(u,what.c_str(),e,false); break; }
        u.m=vcopy(other.m); if(unchecked) { if(base) static_cast<PVField&>(*u.r).copyUnchecked(*other.r); else u.r->copyUnchecked(*other.r); } else { if(base) static_cast<PVField&>(*u.r).copy(*other.r); else u.r->copy(*other.r); } check(u,what.c_str()); check(other,"being copied"); break; }
    case 6: { int c=mc::choose(any?anys.size()+1:n+2); VP val=vdefault(u.t); if(any) { if(c) val->v=fresh(anys[c-1],c%3+1); } else if(c<n) { val->sel=c; val->v=fresh(u.t->kids[c],c%3+1); }
        bytes b=encModel(val,true); bool ok=true; if(!any&&c==n+1) { b.clear(); b.push_back(n+mc::choose(2)*100); ok=false; } what=ok?"decode "+vstr(val):"decode bad selector"; mc::op("%s",what.c_str()); if(ok) u.m=val; Split s; s.minimal=true; e=thrown([&]{ decReal(u.r.get(),b,true,s,false,b.size(),"decode",what); }); refuse(u,what.c_str(),e,ok); break; }
    case 7: if(!u.m->v) mc::skip(); { // change the member through its own interface, or fetch it with the wrong type
        what="change member"; mc::op("%s",what.c_str()); VP c=fresh(u.m->v->t,3); bool hasSel=u.m->v->t->k==KStruct; CHECK((u.r->get<PVStructure>()!=0)==hasSel&&(u.r->get<PVInt>()!=0)==(u.m->v->t->k==KScalar&&u.m->v->t->s==pvInt)&&(u.r->get<PVUnion>()!=0)==(ttype(u.m->v->t)==union_),"typed-get","get<T>()"); assign(u.r->get().get(),c); u.m->v=c; check(u,what.c_str()); }
    }
    mc::state(mc::hmix(vhash(u.m),u.imm));
}
static void run(const TP& t, int depth, bool allowImm) {
    TP i=tScalar(pvInt), s=tScalar(pvString), st=tStruct({"x","q"},{i,tArray(pvInt)},"S"); std::vector<TP> anys={i,s,st}; if(t->k==KAny) anys.push_back(tAny()); else anys.push_back(tUnion({"n"},{i}));
    U u, o; u.t=o.t=t; u.m=vdefault(t); u.r=std::tr1::static_pointer_cast<PVUnion>(make(t)); u.imm=false; o.imm=false; o.m=vdefault(t); check(u,"creation"); int oc=mc::choose(t->k==KAny?4:t->kids.size()+1); if(oc) { if(t->k==KAny) { o.m->v=fresh(anys[oc-1],oc); } else { o.m->sel=oc-1; o.m->v=fresh(t->kids[oc-1],oc); } } o.r=std::tr1::static_pointer_cast<PVUnion>(make(o.m));
    if(allowImm) { int c=mc::choose(2); if(c==1) { int k=mc::choose(3); if(k) { if(t->k==KAny) { u.m->v=fresh(anys[k],k); u.r->set(make(u.m->v)); } else { u.m->sel=k-1; u.m->v=vdefault(t->kids[k-1]); u.r->select(k-1); } } u.r->setImmutable(); u.imm=true; std::string e=thrown([&]{ u.r->copy(*o.r); }); refuse(u,"copy to immutable",e,false); e=thrown([&]{ static_cast<PVField&>(*u.r).copy(*o.r); }); refuse(u,"copy to immutable",e,false); return; } }
    for(int k=0;k<depth;k++) step(u,o,anys);
}
static TP plain() { TP i=tScalar(pvInt), st=tStruct({"x","q"},{i,tArray(pvInt)},"S"); return tUnion({"i","st","i2"},{i,st,i},"U"); }
SCENARIO(regular, mc::Opts().S(4)) { run(plain(),mc::tier()?3:2,true); }
SCENARIO(variant, mc::Opts().S(4)) { run(tAny(),mc::tier()?3:2,true); }
// a union whose member is immutable is itself as changeable as any other: selecting and setting work as usual, and the member let go keeps its value
SCENARIO(immutable_member, mc::Opts().S(4)) {
    TP i=tScalar(pvInt), st=tStruct({"x","q"},{i,tArray(pvInt)},"S"); bool any=mc::choose(2); TP t=any?tAny():plain(); std::vector<TP> anys={i,tScalar(pvString),st,any?tAny():tUnion({"n"},{i})}, k=any?anys:t->kids;
    U u, o; u.t=o.t=t; o.m=vdefault(t); u.m=vdefault(t); u.imm=o.imm=false; u.r=std::tr1::static_pointer_cast<PVUnion>(make(t)); int c=mc::choose(k.size()); VP held=fresh(k[c],c+1); PVFieldPtr p=make(held); p->setImmutable(); bool set=any||mc::choose(2); u.m->sel=any?-1:c;
    if(set) { u.m->v=held; if(any) u.r->set(p); else u.r->set(c,p); } else { u.m->v=held=vdefault(k[c]); p=u.r->select(c); p->setImmutable(); } check(u,"holding an immutable member");
    for(int d=0;d<(mc::tier()?2:1);d++) { step(u,o,anys,5); std::string r=vcheck(p.get(),held); CHECK(r==""&&p->isImmutable(),"immutable member","the member let go: %s",r.c_str()); }
}
// longer histories over one operation class each: select / set by number, decode
SCENARIO(long_select, mc::Opts().S(4)) {
    TP t=plain(); U u; u.t=t; u.m=vdefault(t); u.r=std::tr1::static_pointer_cast<PVUnion>(make(t)); u.imm=false; int depth=mc::tier()?5:4;
    for(int k=0;k<depth;k++) { int c=mc::choose(9); std::string e; mc::op("op %d",c);
        if(c<4) { int i=c-1; if(i!=u.m->sel) { u.m->sel=i; u.m->v=i<0?VP():vdefault(t->kids[i]); } u.r->select(i); if(i>=0) { VP n=fresh(t->kids[i],k%3+1); assign(u.r->get().get(),n); u.m->v=n; } check(u,"select"); }
        else if(c<7) { int i=c-4; u.m->sel=i; u.m->v=fresh(t->kids[i],k%4+1); u.r->set(i,make(u.m->v)); check(u,"set"); }
        else { VP val=vdefault(t); if(c==7) { val->sel=(u.m->sel+2)%3; if(val->sel<0) val->sel=0; val->v=fresh(t->kids[val->sel],k+1); } u.m=val; bytes b=encModel(val,false); Split s; s.minimal=true; decReal(u.r.get(),b,false,s,false,b.size(),"decode","decode"); check(u,"decode"); }
        mc::state(vhash(u.m)); }
}
// a decode that stops half way leaves selector, name and value in agreement
SCENARIO(truncated) {
    TP t=mc::choose(2)?plain():tAny(); VP a=vdefault(t), b=vdefault(t); TP i=tScalar(pvInt); std::vector<TP> k= t->k==KAny?std::vector<TP>{i,tStruct({"x"},{tScalar(pvString)}),tArray(pvInt)}:t->kids; int ca=mc::choose(k.size()+1), cb=mc::choose(k.size()); if(ca) { a->sel=t->k==KAny?-1:ca-1; a->v=fresh(k[ca-1],1); } b->sel=t->k==KAny?-1:cb; b->v=fresh(k[cb],2);
    PVUnionPtr u=std::tr1::static_pointer_cast<PVUnion>(make(a)); bytes w=encModel(b,true); size_t n=mc::choose(w.size()); bytes cut(w.begin(),w.begin()+n); mc::op("%s then %zu of %zu bytes of %s",vstr(a).c_str(),n,w.size(),vstr(b).c_str()); FragDes d(cut,true,{},false); std::string e=thrown([&]{ u->deserialize(&d.buf,&d); }); CHECK(e!="","truncated","accepted");
    int sel=u->getSelectedIndex(); PVFieldPtr p=u->get(); if(t->k==KAny) CHECK(sel==-1,"truncated","variant with a selection"); else { CHECK(sel>=-1&&sel<(int)t->kids.size()&&(sel<0)==!p,"truncated","selection %d and value %s",sel,p?"set":"null"); CHECK(u->getSelectedFieldName()==(sel<0?"":t->names[sel]),"truncated","name"); if(p) { std::string r=tcheck(p->getField().get(),t->kids[sel]); CHECK(r=="","truncated","member type: %s",r.c_str()); } }
    // and it can be used further
    bytes full=encModel(b,true); Split s; s.minimal=false; decReal(u.get(),full,true,s,false,full.size(),"truncated","decode after failure"); std::string r=vcheck(u.get(),b); CHECK(r=="","truncated","decode after failure: %s",r.c_str()); mc::state(mc::hmix(n,vhash(b)));
}
// which member could hold a value of a given type: the exact one when there is one, else some member of that kind, and none only when there is none
SCENARIO(guess, mc::Opts().S(2)) {
    std::vector<TP> k={tScalar(pvInt),tScalar(pvDouble),tScalar(pvString),tArray(pvInt),tArray(pvUByte),tStruct({"x"},{tScalar(pvInt)}),tStructArr(tStruct({"x"},{tScalar(pvInt)})),tAny()};
    int n=mc::choose(mc::tier()?5:4); std::vector<TP> m; std::vector<std::string> nm; for(int i=0;i<n;i++) { m.push_back(k[mc::choose(k.size())]); nm.push_back(sfmt("m%d",i)); }
    TP t=n?tUnion(nm,m):tAny(); UnionConstPtr u=std::tr1::static_pointer_cast<const Union>(build(t));
    Type ty[2]={scalar,scalarArray}; ScalarType st[5]={pvInt,pvDouble,pvString,pvUByte,pvBoolean};
    for(int a=0;a<2;a++) for(int b=0;b<5;b++) { mc::op("guess(%d,%d) among %s",a,b,tstr(t).c_str()); int exact=-1, some=-1; for(int i=n-1;i>=0;i--) if(ttype(m[i])==ty[a]) { some=i; if(m[i]->s==st[b]) exact=i; }
        int g=u->guess(ty[a],st[b]); CHECK(g>=-1&&g<n,"guess","%d is no member",g); CHECK((g<0)==(some<0),"guess","%d but there is%s such a member",g,some<0?" no":""); if(g>=0) { CHECK(ttype(m[g])==ty[a],"guess","member %d is of another kind",g); CHECK(exact<0||m[g]->s==st[b],"guess","member %d although %d matches exactly",g,exact); } mc::outcome(g<0?"no member":exact<0?"a member of the kind":"the exact member"); }
    Type bad[4]={structure,structureArray,union_,unionArray}; for(int a=0;a<4;a++) CHECK(thrown([&]{ u->guess(bad[a],pvInt); })!="","guess","of kind %d accepted",a);
    mc::state(std::hash<std::string>()(tstr(t)));
}
// unions with many members, whose selectors take more than one byte
SCENARIO(many_members, mc::Opts().S(2)) {
    static const int N[]={127,128,253,254,255,256,300}; int n=N[mc::choose(7)]; std::vector<std::string> nm; std::vector<TP> k; for(int i=0;i<n;i++) { nm.push_back("m"+mc::str(i)); k.push_back(tScalar((ScalarType)(i%12))); } TP t=tUnion(nm,k); U u; u.t=t; u.m=vdefault(t); u.r=std::tr1::static_pointer_cast<PVUnion>(make(t)); u.imm=false;
    const int at[]={0,1,126,127,128,252,253,254,255,256,n-1}; int a=at[mc::choose(11)], b=at[mc::choose(11)]; if(a>=n||b>=n) mc::skip(); mc::op("%d members: %d, then %d",n,a,b); int how=mc::choose(3);
    u.m->sel=a; u.m->v=vdefault(k[a]); CHECK(u.r->select(a).get()==u.r->get().get(),"result","select(%d)",a); check(u,"select by number"); u.m->sel=b; u.m->v=fresh(k[b],3);
    if(how==0) { if(a==b) u.m->v=vdefault(k[b]); else u.m->v=vdefault(k[b]); u.r->select(nm[b]); check(u,"select by name"); } else if(how==1) { u.r->set(nm[b],make(u.m->v)); check(u,"set by name"); } else { bytes w=encModel(u.m,true); Split s; s.minimal=true; decReal(u.r.get(),w,true,s,false,w.size(),"decode","decode"); check(u,"decode"); }
    CHECK(thrown([&]{ u.r->select(n); })!=""&&thrown([&]{ u.r->select("m"+mc::str(n)); })!="","refuse","member %d of %d",n,n); check(u,"a refused selection"); mc::state(mc::hmix(n,a*1000+b)); mc::outcome("selected");
}
