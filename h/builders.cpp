// C18: builders produce exactly the type or value that was described
#include "valuesh.h"
#include <pv/valueBuilder.h>
using namespace epics::pvData;
static bool goodName(const std::string& n) { if(n.empty()||(n[0]>='0'&&n[0]<='9')) return false; for(size_t i=0;i<n.size();i++) { char c=n[i]; if(!((c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='_')) return false; } return true; }
// ---- FieldBuilder
struct Lvl { bool un, arr, reopened; std::string name, id; bool idSet; std::vector<std::string> names; std::vector<TP> kids; FieldBuilderPtr b; Lvl() :un(false), arr(false), reopened(false), idSet(false) {} };
static bool membersOk(const Lvl& l) { for(size_t i=0;i<l.names.size();i++) if(!goodName(l.names[i])) return false; return !(l.idSet&&l.id.empty()); }
static TP make(const Lvl& l, bool un) { if(un) return l.kids.empty()?tAny():tUnion(l.names,l.kids,l.idSet?l.id:"union"); return tStruct(l.names,l.kids,l.idSet?l.id:"structure"); }
static int find(const Lvl& l, const std::string& n) { for(size_t i=0;i<l.names.size();i++) if(l.names[i]==n) return i; return -1; }
// 0 refused, 1 added, 2 already there
static int canAdd(const Lvl& l, const std::string& n, const TP& t) { int i=find(l,n); if(i<0) return 1; return tsame(l.kids[i],t)?2:0; }
static const TP& SX() { static TP t=tStruct({"p","q"},{tScalar(pvInt),tArray(pvString)},"SX"); return t; }
static const TP& UX() { static TP t=tUnion({"p"},{tScalar(pvInt)},"UX"); return t; }
static const TP& BASE() { static TP t=tStruct({"a","b","c","d","e"},{tScalar(pvInt),tStruct({"a"},{tScalar(pvString)},"N"),tUnion({"a","b"},{tScalar(pvInt),tStruct({},{})}),tStructArr(tStruct({"b"},{tScalar(pvDouble)})),tUnionArr(tUnion({"a"},{tAny()},"W"))},"Base"); return t; }
static bool reset1(Lvl& l) { l.names.clear(); l.kids.clear(); l.id.clear(); l.idSet=false; return true; }
struct Adder { const char *nm; TP t; int how; };
static const std::vector<Adder>& adders() { static std::vector<Adder> v; if(v.empty()) {
    v.push_back({"add int",tScalar(pvInt),0}); v.push_back({"addArray double",tArray(pvDouble),1}); v.push_back({"add SX",SX(),4}); v.push_back({"addArray UX",tUnionArr(UX()),5});
    v.push_back({"add string",tScalar(pvString),0}); v.push_back({"addFixedArray",tFArray(pvInt,3),2}); v.push_back({"addBoundedArray",tBArray(pvString,4),3}); v.push_back({"addBoundedString",tBString(9),6}); v.push_back({"add UX",UX(),4}); v.push_back({"add variant",tAny(),4}); v.push_back({"addArray SX",tStructArr(SX()),5}); v.push_back({"addArray variant",tAnyArr(),5}); v.push_back({"addArray scalar field",tArray(pvByte),7}); v.push_back({"add array field",tArray(pvUInt),4});
    // refused ones
    v.push_back({"addArray of bounded string",TP(),8}); v.push_back({"addArray of array",TP(),9}); v.push_back({"addArray of structure array",TP(),10}); v.push_back({"add null",TP(),11}); v.push_back({"addArray null",TP(),12}); v.push_back({"addArray of union array",TP(),13}); } return v; }
static FieldBuilderPtr doAdd(const FieldBuilderPtr& b, const std::string& n, const Adder& a) { switch(a.how) { case 0: return b->add(n,a.t->s); case 1: return b->addArray(n,a.t->s); case 2: return b->addFixedArray(n,a.t->s,a.t->n); case 3: return b->addBoundedArray(n,a.t->s,a.t->n); case 4: return b->add(n,build(a.t)); case 5: return b->addArray(n,build(a.t->elem)); case 6: return b->addBoundedString(n,a.t->n);
    case 7: return b->addArray(n,build(tScalar(a.t->s))); case 8: return b->addArray(n,build(tBString(4))); case 9: return b->addArray(n,build(tArray(pvInt))); case 10: return b->addArray(n,build(tStructArr(SX()))); case 11: return b->add(n,FieldConstPtr()); case 12: return b->addArray(n,FieldConstPtr()); default: return b->addArray(n,build(tUnionArr(UX()))); } }
static void fprogram(int depth, int nadd, bool badNames, int start) {
    std::vector<Lvl> st(1); std::vector<std::pair<FieldConstPtr,TP> > done;
    if(start) { TP b=BASE(); FieldConstPtr s=build(b); done.push_back(std::make_pair(s,b)); st[0].b=start==1?getFieldCreate()->createFieldBuilder(std::tr1::static_pointer_cast<const Structure>(s)):FieldBuilder::begin(std::tr1::static_pointer_cast<const Structure>(s)); st[0].names=b->names; st[0].kids=b->kids; st[0].id=b->id; st[0].idSet=true; }
    else st[0].b=mc::choose(2)?getFieldCreate()->createFieldBuilder():FieldBuilder::begin();
    static const std::string N[]={"a","b",""}; const std::vector<Adder>& A=adders(); int nn=badNames?3:2; mc::op("start %d",start);
    for(int d=0;d<depth;d++) {
        Lvl& l=st.back(); std::string e; FieldBuilderPtr r; int op=mc::choose(nadd+4+4);
        if(op<nadd) { std::string n=start?BASE()->names[mc::choose(5)]:N[mc::choose(nn)]; const Adder& a=A[op]; int can=a.t?canAdd(l,n,a.t):0; mc::op("%s '%s'",a.nm,n.c_str()); e=thrown([&]{ r=doAdd(l.b,n,a); }); CHECK((e=="")==(can!=0),e==""?"accepted":"refused","%s '%s' is %s%s",a.nm,n.c_str(),e==""?"accepted":"refused: ",e.c_str()); if(e=="") CHECK(r==l.b,"chain","add returned another builder"); if(can==1) { l.names.push_back(n); l.kids.push_back(a.t); } mc::outcome(e==""?"add ok":"add refused"); }
        else if(op<nadd+4) { int k=op-nadd; std::string n=start?BASE()->names[mc::choose(5)]:N[mc::choose(nn)]; int i=find(l,n); static const Kind K[]={KStruct,KUnion,KStructArr,KUnionArr}; Lvl c; c.un=k&1; c.arr=k>=2; c.name=n; bool ok=true;
            if(i>=0) { TP o=l.kids[i], q=c.arr?(o->k==K[k]?o->elem:TP()):o; if(o->k==KAny||o->k==KAnyArr) mc::skip(); ok=o->k==K[k]; if(ok) { c.reopened=true; c.names=q->names; c.kids=q->kids; c.id=q->id; c.idSet=true; } }
            mc::op("addNested%d '%s'",k,n.c_str()); e=thrown([&]{ r=k==0?l.b->addNestedStructure(n):k==1?l.b->addNestedUnion(n):k==2?l.b->addNestedStructureArray(n):l.b->addNestedUnionArray(n); }); CHECK((e=="")==ok,e==""?"accepted":"refused","addNested%d '%s' is %s%s",k,n.c_str(),e==""?"accepted":"refused: ",e.c_str()); mc::outcome(e==""?"nest ok":"nest refused"); if(ok) { c.b=r; st.push_back(c); } }
        else if(op==nadd+4) { bool ok=st.size()>1&&(membersOk(l)||(l.un&&l.names.empty())); mc::op("endNested"); e=thrown([&]{ r=l.b->endNested(); }); CHECK((e=="")==ok,e==""?"accepted":"refused","endNested is %s%s",e==""?"accepted":"refused: ",e.c_str()); mc::outcome(ok?"end ok":"end refused");
            if(ok) { Lvl c=l; st.pop_back(); Lvl& p=st.back(); CHECK(r==p.b,"chain","endNested does not return the enclosing builder"); TP t=make(c,c.un); if(c.arr) t=c.un?(t->k==KAny?tAnyArr():tUnionArr(t)):tStructArr(t); if(c.reopened) p.kids[find(p,c.name)]=t; else { p.names.push_back(c.name); p.kids.push_back(t); } } }
        else if(op==nadd+5) { int w=mc::choose(badNames?3:2); static const char *ID[]={"T","structure",""}; mc::op("setId '%s'",ID[w]); r=l.b->setId(ID[w]); CHECK(r==l.b,"chain","setId returned another builder"); l.id=ID[w]; l.idSet=true; }
        else { bool un=op==nadd+7; bool ok=st.size()==1&&(membersOk(l)||(un&&l.names.empty())); FieldConstPtr f; mc::op("create%s",un?"Union":"Structure"); e=thrown([&]{ if(un) f=l.b->createUnion(); else f=l.b->createStructure(); }); CHECK((e=="")==ok,e==""?"accepted":"refused","create%s is %s%s",un?"Union":"Structure",e==""?"accepted":"refused: ",e.c_str()); mc::outcome(ok?"create ok":"create refused");
            if(ok) { TP t=make(l,un); std::string c=tcheck(f.get(),t); CHECK(c=="","type","%s, want %s",c.c_str(),tstr(t).c_str()); done.push_back(std::make_pair(f,t)); reset1(l); } }
    }
    while(st.size()>1) { Lvl c=st.back(); std::string e=thrown([&]{ c.b->endNested(); }); bool ok=membersOk(c)||(c.un&&c.names.empty()); CHECK((e=="")==ok,e==""?"accepted":"refused","endNested: %s",e.c_str()); if(!ok) mc::skip(); st.pop_back(); Lvl& p=st.back(); TP t=make(c,c.un); if(c.arr) t=c.un?(t->k==KAny?tAnyArr():tUnionArr(t)):tStructArr(t); if(c.reopened) p.kids[find(p,c.name)]=t; else { p.names.push_back(c.name); p.kids.push_back(t); } }
    bool ok=membersOk(st[0]); FieldConstPtr f; std::string e=thrown([&]{ f=st[0].b->createStructure(); }); CHECK((e=="")==ok,e==""?"accepted":"refused","createStructure at the end is %s%s",e==""?"accepted":"refused: ",e.c_str());
    if(ok) { TP t=make(st[0],false); std::string c=tcheck(f.get(),t); CHECK(c=="","type","%s, want %s",c.c_str(),tstr(t).c_str()); CHECK(f==build(t),"identity","not the interned type"); mc::state(thash(t)); }
    for(size_t i=0;i<done.size();i++) { std::string c=tcheck(done[i].first.get(),done[i].second); CHECK(c=="","earlier","a type handed out before changed: %s",c.c_str()); }
}
SCENARIO(field_programs, mc::Opts().S(4)) { fprogram(mc::tier()?5:4,4,false,0); }
SCENARIO(field_all_kinds, mc::Opts().S(4)) { fprogram(mc::tier()?4:3,adders().size(),true,0); }
SCENARIO(field_from_existing, mc::Opts().S(4)) { fprogram(mc::tier()?4:3,mc::tier()?(int)adders().size():8,false,1+mc::choose(2)); }
// which names are legal
SCENARIO(names) {
    int len=mc::choose(4); std::string n; for(int i=0;i<len&&len<3;i++) n+=(char)mc::choose(256); if(len==3) { static const char L[]="aZ_09. \n\xe9[{/"; n="a"; n+=L[mc::choose(12)]; n+="b"; }
    bool ok=goodName(n); FieldCreatePtr fc=getFieldCreate(); std::vector<std::string> nm(1,n); FieldConstPtrArray fl(1,fc->createScalar(pvInt)); FieldConstPtr f; StructureConstPtr s=fc->createStructure(); int how=mc::choose(6); 
    std::string e=thrown([&]{ switch(how) { case 0: f=fc->createStructure(nm,fl); break; case 1: f=fc->createStructure("I",nm,fl); break; case 2: f=fc->createUnion(nm,fl); break; case 3: f=fc->createUnion("I",nm,fl); break; case 4: f=fc->appendField(s,n,fl[0]); break; case 5: f=fc->appendFields(s,nm,fl); break; } });
    mc::op("%d '%s'",how,mc::hex(n).c_str()); CHECK((e=="")==ok,e==""?"accepted":"refused","field name %s is %s%s",mc::hex(n).c_str(),e==""?"accepted":"refused: ",e.c_str()); mc::outcome(ok?"legal":"illegal"); mc::state(mc::hstr(n)*7+how);
}
// direct construction: duplicates, nulls, counts that differ, empty IDs
SCENARIO(direct) {
    FieldCreatePtr fc=getFieldCreate(); static const std::string N[]={"a","b",""}; TP T[]={tScalar(pvInt),SX(),TP()}; int nn=mc::choose(4), nf=mc::choose(4), how=mc::choose(6); std::vector<std::string> nm; std::vector<TP> ty; FieldConstPtrArray fl; bool ok=nn==nf;
    for(int i=0;i<nn;i++) { nm.push_back(N[mc::choose(3)]); for(int j=0;j<i;j++) if(nm[j]==nm[i]) ok=false; ok&=nm[i]!=""; } for(int i=0;i<nf;i++) { ty.push_back(T[mc::choose(3)]); fl.push_back(ty[i]?build(ty[i]):FieldConstPtr()); ok&=!!ty[i]; }
    FieldConstPtr f; TP base=tStruct({"x","b"},{tScalar(pvString),UX()},"B"); StructureConstPtr bs=std::tr1::static_pointer_cast<const Structure>(build(base)); if(how==4&&(nn!=1||nf!=1)) mc::skip(); if(how>=4) for(int i=0;i<nn;i++) ok&=nm[i]!="b"&&nm[i]!="x"; std::string id=how==1||how==3?(mc::choose(2)?"I":""):"";
    if((how==1||how==3)&&id=="") ok=false; if((how==2||how==3)&&nf==0) ok=false; // an empty union is only the variant one
    mc::op("%d: %d names, %d fields",how,nn,nf);
    std::string e=thrown([&]{ switch(how) { case 0: f=fc->createStructure(nm,fl); break; case 1: f=fc->createStructure(id,nm,fl); break; case 2: f=fc->createUnion(nm,fl); break; case 3: f=fc->createUnion(id,nm,fl); break; case 4: f=fc->appendField(bs,nm[0],fl[0]); break; case 5: f=fc->appendFields(bs,nm,fl); break; } });
    CHECK((e=="")==ok,e==""?"accepted":"refused","construction %d of %d names and %d fields is %s%s",how,nn,nf,e==""?"accepted":"refused: ",e.c_str()); if(!ok) return; TP t;
    if(how<2) t=tStruct(nm,ty,how?id:"structure"); else if(how<4) t=tUnion(nm,ty,how==3?id:"union"); else { std::vector<std::string> a=base->names; std::vector<TP> b=base->kids; a.insert(a.end(),nm.begin(),nm.end()); b.insert(b.end(),ty.begin(),ty.end()); t=tStruct(a,b,"B"); }
    std::string c=tcheck(f.get(),t); CHECK(c=="","type","%s, want %s",c.c_str(),tstr(t).c_str()); CHECK(f==build(t),"identity","not the interned type"); c=tcheck(bs.get(),base); CHECK(c=="","earlier","the structure appended to changed"); mc::state(thash(t)*8+how);
}
SCENARIO(illegal_kinds) {
    FieldCreatePtr fc=getFieldCreate(); int how=mc::choose(7), s=mc::choose(5); static const int ST[]={-1,12,13,255,0x7fffffff}; ScalarType st=(ScalarType)ST[s]; std::string e=thrown([&]{ switch(how) { case 0: fc->createScalar(st); break; case 1: fc->createScalarArray(st); break; case 2: fc->createFixedScalarArray(st,3); break; case 3: fc->createBoundedScalarArray(st,3); break; case 4: fc->createStructureArray(StructureConstPtr()); break; case 5: fc->createUnionArray(UnionConstPtr()); break; case 6: fc->createBoundedString(0); break; } });
    mc::op("%d %d",how,s); CHECK(e!="","accepted","illegal kind %d (%d) is accepted",how,ST[s]); mc::state(how*8+s);
}
// ---- ValueBuilder
struct VN; typedef std::shared_ptr<VN> VNP; struct VN { std::string id; std::map<std::string,VNP> kids; VP leaf; };
static bool namesOk(const VNP& n) { for(auto& k: n->kids) if(!goodName(k.first)||(!k.second->leaf&&!namesOk(k.second))) return false; return true; }
static VP value(const VNP& n) { if(n->leaf) return vcopy(n->leaf); std::vector<std::string> nm; std::vector<TP> ty; std::vector<VP> vs; for(auto& k: n->kids) { nm.push_back(k.first); vs.push_back(value(k.second)); ty.push_back(vs.back()->t); } VP v(new MV(tStruct(nm,ty,n->id.empty()?"structure":n->id))); v->kids=vs; return v; }
static VNP fromValue(const VP& v) { VNP n(new VN); if(v->t->k!=KStruct) { n->leaf=v; return n; } n->id=v->t->id; for(size_t i=0;i<v->kids.size();i++) n->kids[v->t->names[i]]=fromValue(v->kids[i]); return n; }
static void merge(const VNP& to, const VP& v, bool& ok) { to->id=v->t->id; for(size_t i=0;i<v->kids.size();i++) { const VP& k=v->kids[i]; const std::string& n=v->t->names[i]; auto it=to->kids.find(n); if(k->t->k!=KScalar&&k->t->k!=KStruct) { ok=false; return; }
    if(k->t->k==KStruct) { if(it==to->kids.end()) { to->kids[n]=VNP(new VN); merge(to->kids[n],k,ok); } else if(it->second->leaf) { ok=false; return; } else merge(it->second,k,ok); } else { if(it!=to->kids.end()&&!it->second->leaf) { ok=false; return; } to->kids[n]=fromValue(k); } if(!ok) return; } }
static VP sample(int which) { 
    if(which==0) { VP v(vdefault(tStruct({"b","a","k"},{tScalar(pvString),tScalar(pvDouble),tStruct({"z"},{tScalar(pvUByte)},"K")},"Smp"))); v->kids[0]->s=MS("txt"); v->kids[1]->s=dbits(2.5); v->kids[2]->kids[0]->s=MS((uint64_t)200); return v; }
    if(which==1) { VP v(vdefault(tStruct({"a","z"},{tStruct({"b"},{tScalar(pvInt)}),tScalar(pvInt)}))); v->kids[0]->kids[0]->s=MS((uint64_t)7); return v; }
    return which==2?vdefault(tStruct({"a","l"},{tScalar(pvInt),tArray(pvInt)})):which==3?vdefault(tStruct({"a","u"},{tStruct({"c","d"},{tScalar(pvInt),tAny()}),tScalar(pvInt)})):vdefault(tStruct({},{},"Empty")); }
static void vprogram(int depth, bool bad) {
    std::unique_ptr<ValueBuilder> vb; std::vector<VNP> st; std::vector<std::pair<PVStructurePtr,VP> > done; int start=mc::choose(bad?7:3); 
    if(start<2) { vb.reset(new ValueBuilder(start?"top":"")); st.push_back(VNP(new VN)); st[0]->id=start?"top":""; }
    else { int w=start-2; VP s=sample(w); PVStructurePtr p=makeS(s); bool ok=w!=2&&w!=3; std::string e=thrown([&]{ vb.reset(new ValueBuilder(*p)); }); CHECK((e=="")==ok,e==""?"accepted":"refused","a builder from %s is %s%s",vstr(s).c_str(),e==""?"accepted":"refused: ",e.c_str()); if(!ok) return; st.push_back(fromValue(vcopy(s))); done.push_back(std::make_pair(p,s)); }
    std::vector<ValueBuilder*> b(1,vb.get()); static const std::string N[]={"a","b","1"}; mc::op("start %d",start);
    for(int d=0;d<depth;d++) {
        VNP l=st.back(); ValueBuilder *cb=b.back(), *r=0; std::string e; int op=mc::choose(8);
        if(op<4) { std::string n=N[mc::choose(bad?3:2)]; int w=mc::choose(op==1?2:op==3?(bad?5:2):1); auto it=l->kids.find(n); bool isS=it!=l->kids.end()&&!it->second->leaf, ok=!isS; VP v;
            if(op==0) { v=vdefault(tScalar(pvInt)); v->s=MS((uint64_t)(40+d)); e=thrown([&]{ r=&cb->add<pvInt>(n,40+d); }); }
            else if(op==1) { if(w) { v=vdefault(tScalar(pvString)); v->s=MS("text"+mc::str(d)); e=thrown([&]{ r=&cb->add<pvString>(n,"text"+mc::str(d)); }); } else { v=vdefault(tScalar(pvBoolean)); v->s=MS((uint64_t)1); e=thrown([&]{ r=&cb->add<pvBoolean>(n,true); }); } }
            else if(op==2) { shared_vector<double> x(2); x[0]=1.5; x[1]=d; shared_vector<const double> c(freeze(x)); v=vdefault(tArray(pvDouble)); v->a.push_back(dbits(1.5)); v->a.push_back(dbits(d)); e=thrown([&]{ r=&cb->add(n,static_shared_vector_cast<const void>(c)); }); }
            else { VP s=sample(w); PVStructurePtr p=makeS(s); ok=it==l->kids.end()||isS; VNP to=isS?it->second:VNP(new VN); bool keep=ok; if(ok) merge(to,s,ok); mc::op("add structure %d as '%s'",w,n.c_str()); e=thrown([&]{ r=&cb->add(n,*p); }); CHECK((e=="")==ok,e==""?"accepted":"refused","adding %s is %s%s",vstr(s).c_str(),e==""?"accepted":"refused: ",e.c_str()); std::string c=vcheck(p.get(),s); CHECK(c=="","source","the structure added changed: %s",c.c_str()); if(!ok) { if(keep) return; continue; } l->kids[n]=to; CHECK(r==cb,"chain","add returned another builder"); continue; }
            mc::op("add %s as '%s'",vstr(v).c_str(),n.c_str()); CHECK((e=="")==ok,e==""?"accepted":"refused","adding %s over a %s is %s%s",vstr(v).c_str(),isS?"structure":"leaf",e==""?"accepted":"refused: ",e.c_str()); if(ok) { CHECK(r==cb,"chain","add returned another builder"); l->kids[n]=fromValue(v); } mc::outcome(ok?"add ok":"add refused"); }
        else if(op==4) { std::string n=N[mc::choose(bad?3:2)]; int w=mc::choose(bad?3:2); auto it=l->kids.find(n); bool ok=(it==l->kids.end()||!it->second->leaf)&&w<2; mc::op("addNested '%s' %d",n.c_str(),w); e=thrown([&]{ r=w==0?&cb->addNested(n):w==1?&cb->addNested(n,structure,"N"):&cb->addNested(n,union_,"N"); }); CHECK((e=="")==ok,e==""?"accepted":"refused","addNested '%s' is %s%s",n.c_str(),e==""?"accepted":"refused: ",e.c_str()); mc::outcome(ok?"nest ok":"nest refused"); if(ok) { if(it==l->kids.end()) l->kids[n]=VNP(new VN); l->kids[n]->id=w?"N":""; st.push_back(l->kids[n]); b.push_back(r); } }
        else if(op==5) { bool ok=st.size()>1; mc::op("endNested"); e=thrown([&]{ r=&cb->endNested(); }); CHECK((e=="")==ok,e==""?"accepted":"refused","endNested is %s%s",e==""?"accepted":"refused: ",e.c_str()); if(ok) { st.pop_back(); b.pop_back(); CHECK(r==b.back(),"chain","endNested does not return the enclosing builder"); } }
        else if(op==6) { bool ok=st.size()==1&&namesOk(l); PVStructurePtr p; mc::op("build"); e=thrown([&]{ p=cb->buildPVStructure(); }); CHECK((e=="")==ok,e==""?"accepted":"refused","building is %s%s",e==""?"accepted":"refused: ",e.c_str()); mc::outcome(ok?"build ok":"build refused"); if(ok) { VP v=value(l); std::string c=vcheck(p.get(),v); CHECK(c=="","value","%s; want %s",c.c_str(),vstr(v).c_str()); done.push_back(std::make_pair(p,v)); } }
        else { if(done.empty()||done.back().second->kids.empty()) mc::skip(); VP& v=done.back().second; PVStructurePtr& p=done.back().first; mc::op("change the value built last"); VP k=v->kids[0]; if(k->t->k!=KScalar) mc::skip(); k->s=k->t->s==pvString?MS("changed"):k->t->s==pvDouble?dbits(9):MS((uint64_t)(k->t->s==pvBoolean?0:9)); putScalar(p->getPVFields()[0].get(),k->t->s,k->s); }
    }
    while(b.size()>1) { b.back()->endNested(); b.pop_back(); st.pop_back(); }
    bool ok=namesOk(st[0]); PVStructurePtr p; std::string e=thrown([&]{ p=vb->buildPVStructure(); }); CHECK((e=="")==ok,e==""?"accepted":"refused","building is %s%s",e==""?"accepted":"refused: ",e.c_str()); if(ok) { VP v=value(st[0]); std::string c=vcheck(p.get(),v); CHECK(c=="","value","%s; want %s",c.c_str(),vstr(v).c_str()); mc::state(vhash(v)); }
    for(size_t i=0;i<done.size();i++) { std::string c=vcheck(done[i].first.get(),done[i].second); CHECK(c=="","earlier","a value handed out before changed: %s",c.c_str()); }
}
SCENARIO(value_programs, mc::Opts().S(4)) { vprogram(mc::tier()?6:4,false); }
SCENARIO(value_refusals, mc::Opts().S(4)) { vprogram(mc::tier()?4:3,true); }
template<typename T> static void addV(ValueBuilder& b, const std::string& n, const VP& v) { if(v->t->k==KScalar) { T x=Conv<T>::to(v->s); b.add<(ScalarType)ScalarTypeID<T>::value>(n,x); } else { shared_vector<T> a(v->a.size()); for(size_t i=0;i<a.size();i++) a[i]=Conv<T>::to(v->a[i]); shared_vector<const T> c(freeze(a)); b.add(n,static_shared_vector_cast<const void>(c)); } }
SCENARIO(value_all_types) {
    int s=mc::choose(12), arr=mc::choose(2), n=arr?mc::choose(4):0, w=mc::choose(6), s2=mc::choose(12); VP v(vdefault(arr?tArray((ScalarType)s):tScalar((ScalarType)s))); v->s=arr?MS():sval((ScalarType)s,w); for(int i=0;i<n;i++) v->a.push_back(sval((ScalarType)s,w+i)); VP o(vdefault(tScalar((ScalarType)s2))); o->s=sval((ScalarType)s2,1);
    ValueBuilder b("V"); int first=mc::choose(2); mc::op("%s %s, %s",tstr(v->t).c_str(),vstr(v).c_str(),tstr(o->t).c_str()); if(first) { SDISPATCH(((ScalarType)s2), addV<T>(b,"x",o)) SDISPATCH(((ScalarType)s), addV<T>(b,"x",v)) SDISPATCH(((ScalarType)s2), addV<T>(b,"y",o)) } else { SDISPATCH(((ScalarType)s2), addV<T>(b,"y",o)) SDISPATCH(((ScalarType)s), addV<T>(b,"x",v)) }
    VP want(new MV(tStruct({"x","y"},{v->t,o->t},"V"))); want->kids.push_back(v); want->kids.push_back(o); PVStructurePtr p=b.buildPVStructure(); std::string c=vcheck(p.get(),want); CHECK(c=="","value","%s; want %s",c.c_str(),vstr(want).c_str());
    if(!arr) { ValueBuilder b2(*p); PVStructurePtr q=b2.buildPVStructure(); c=vcheck(q.get(),want); CHECK(c=="","clone","%s; want %s",c.c_str(),vstr(want).c_str()); CHECK(*p==*q,"clone","a clone differs"); } mc::state(vhash(want));
}
// many members and many levels
SCENARIO(many, mc::Opts().S(3)) {
    static const size_t N[]={16,17,64,65,256,300}; size_t n=N[mc::choose(6)]; int kind=mc::choose(4), extra=mc::choose(3); mc::op("%zu, kind %d, %d",n,kind,extra); mc::state(mc::hmix(n,kind*4+extra)); mc::outcome("built");
    if(kind==0) { FieldBuilderPtr b=getFieldCreate()->createFieldBuilder(); std::vector<std::string> nm; std::vector<TP> k; for(size_t i=0;i<n;i++) { std::string s="f"+mc::str(i); nm.push_back(s); int q=(i+extra)%5; ScalarType st=(ScalarType)(i%12); if(q==0) { b->addArray(s,st); k.push_back(tArray(st)); } else if(q==1) { b->addNestedStructure(s)->add("x",st)->endNested(); k.push_back(tStruct({"x"},{tScalar(st)})); } else if(q==2) { b->addFixedArray(s,st,i+1); k.push_back(tFArray(st,i+1)); } else { b->add(s,st); k.push_back(tScalar(st)); } } TP t=extra==2?tUnion(nm,k):tStruct(nm,k); FieldConstPtr f; if(extra==2) f=b->createUnion(); else f=b->createStructure(); std::string c=tcheck(f.get(),t); CHECK(c=="","type","%s",c.c_str()); CHECK(f==build(t),"identity","not the interned type"); }
    else if(kind==1) { FieldBuilderPtr b=getFieldCreate()->createFieldBuilder(); TP t=tScalar(pvInt); for(size_t i=0;i<n;i++) { b=i%3==extra?b->addNestedStructureArray("l"):b->addNestedStructure("l"); b->add("a",(ScalarType)(i%12)); } for(size_t i=n;i-->0;) { b=b->endNested(); std::vector<std::string> nm={"a"}; std::vector<TP> k={tScalar((ScalarType)(i%12))}; if(i+1<n) { nm.insert(nm.begin()+1,"l"); k.push_back(t); } t=tStruct(nm,k); if(i%3==(size_t)extra) t=tStructArr(t); } StructureConstPtr f=b->createStructure(); t=tStruct({"l"},{t}); std::string c=tcheck(f.get(),t); CHECK(c=="","type","%s",c.c_str()); }
    else if(kind==2) { ValueBuilder b("V"); std::map<std::string,VP> m; for(size_t i=0;i<n;i++) { std::string s="f"+mc::str(extra?i*7919%n:i); VP v; if(i%3==0) { v=vdefault(tScalar(pvInt)); v->s=MS((uint64_t)i); b.add<pvInt>(s,i); } else if(i%3==1) { v=vdefault(tScalar(pvString)); v->s=MS(s); b.add<pvString>(s,s); } else { v=vdefault(tStruct({"x"},{tScalar(pvUInt)})); v->kids[0]->s=MS((uint64_t)i); b.addNested(s).add<pvUInt>("x",i).endNested(); } m[s]=v; } std::vector<std::string> nm; std::vector<TP> k; for(auto& x: m) { nm.push_back(x.first); k.push_back(x.second->t); } VP w(new MV(tStruct(nm,k,"V"))); for(auto& x: m) w->kids.push_back(x.second); PVStructurePtr p=b.buildPVStructure(); std::string c=vcheck(p.get(),w); CHECK(c=="","value","%s",c.c_str()); ValueBuilder b2(*p); c=vcheck(b2.buildPVStructure().get(),w); CHECK(c=="","clone","%s",c.c_str()); }
    else { ValueBuilder top("V"); ValueBuilder *b=&top; VP w; for(size_t i=0;i<n;i++) { b=&b->addNested("l"); b->add<pvUInt>("a",i); } for(size_t i=n;i-->0;) { b=&b->endNested(); std::vector<std::string> nm={"a"}; std::vector<TP> k={tScalar(pvUInt)}; if(w) { nm.push_back("l"); k.push_back(w->t); } VP v=VP(new MV(tStruct(nm,k))); VP a=vdefault(tScalar(pvUInt)); a->s=MS((uint64_t)i); v->kids.push_back(a); if(w) v->kids.push_back(w); w=v; } CHECK(b==&top,"chain","endNested does not lead back"); VP v=VP(new MV(tStruct({"l"},{w->t},"V"))); v->kids.push_back(w); PVStructurePtr p=top.buildPVStructure(); std::string c=vcheck(p.get(),v); CHECK(c=="","value","%s",c.c_str()); }
}
