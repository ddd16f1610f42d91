// C20: request mapping selects and copies exactly the requested fields
#include "valuesh.h"
#include <pv/createRequest.h>
#include <pv/bitSet.h>
using namespace epics::pvData;
typedef PVRequestMapper RM;
struct Sel { std::string name; bool bad, opts; std::vector<Sel> kids; Sel(const std::string& n="") :name(n), bad(false), opts(false) {} };
// what the request says
struct Model {
    TP base, req; std::vector<bool> mask; bool ok, warn, mayWarn, keep; size_t maxDepth; // mask over base
    std::vector<int> b2r, r2b; std::vector<bool> leaf; // leaf by base number
    Model() :ok(true), warn(false), mayWarn(false), keep(false), maxDepth(5) {}
    TP part(const TP& b, size_t at, const std::vector<Sel>& sel, size_t depth) {
        std::vector<std::string> nm; std::vector<TP> ty;
        for(const Sel& s: sel) { size_t c=at+1, i=0; while(i<b->names.size()&&b->names[i]!=s.name) { c+=tcount(b->kids[i]); i++; }
            if(s.bad) { ok=false; continue; } if(i==b->names.size()) { warn=true; continue; }
            TP k=b->kids[i]; nm.push_back(s.name);
            if(s.kids.empty()||k->k!=KStruct||depth>=maxDepth) { if(!s.kids.empty()) warn=true; else if(depth>=maxDepth) mayWarn=true; ty.push_back(k); for(size_t j=0;j<tcount(k);j++) mask[c+j]=true; }
            else { mask[c]=true; ty.push_back(part(k,c,s.kids,depth+1)); } }
        return tStruct(nm,ty,keep?b->id:"structure");
    }
    void pair(const TP& b, size_t bi, const TP& r, size_t ri) { b2r[bi]=ri; r2b[ri]=bi; leaf[bi]=r->k!=KStruct; if(r->k!=KStruct) return; size_t rc=ri+1; for(size_t i=0;i<r->kids.size();i++) { size_t bc=bi+1, j=0; while(b->names[j]!=r->names[i]) bc+=tcount(b->kids[j++]); if(mask[bc]) pair(b->kids[j],bc,r->kids[i],rc); rc+=tcount(r->kids[i]); } }
    void compute(const TP& b, const Sel *fields, bool slice) {
        base=b; size_t n=tcount(b); mask.assign(n,false);
        if(!fields||fields->kids.empty()) { mask.assign(n,true); req=b; } else req=part(b,0,fields->kids,0);
        mask[0]=true; if(!slice) req=b; if(std::count(mask.begin()+1,mask.end(),true)==0) ok=false;
        b2r.assign(n,-1); r2b.assign(tcount(req),-1); leaf.assign(n,false); if(ok) pair(b,0,req,0);
    }
};
static TP copt() { return tStruct({"x"},{tScalar(pvString)}); }
static TP reqT(const std::vector<Sel>& l, bool opts=false) { std::vector<std::string> n; std::vector<TP> t; if(opts) { n.push_back("_options"); t.push_back(copt()); } for(const Sel& s: l) { n.push_back(s.name); t.push_back(s.bad?tScalar(pvInt):reqT(s.kids,s.opts)); } return tStruct(n,t); }
static std::string selStr(const std::vector<Sel>& l) { std::string r; for(const Sel& s: l) { if(r!="") r+=","; r+=s.name; if(s.bad) r+="!"; if(s.opts) r+="[x=]"; if(!s.kids.empty()) r+="{"+selStr(s.kids)+"}"; } return r; }
static std::vector<bool> bitsOf(const BitSet& b, size_t n) { std::vector<bool> r(n); for(size_t i=0;i<n;i++) r[i]=b.get(i); return r; }
static std::string bstr(const std::vector<bool>& b) { std::string s; for(bool x: b) s+=x?'1':'0'; return s; }
static void flat(const VP& v, std::vector<VP*>& out, VP *slot) { out.push_back(slot); if(v->t->k==KStruct) for(VP& k: v->kids) flat(k,out,&k); }
// the numbers below structure number i of type t (its own included)
static size_t below(const TP& t, size_t at, size_t i) { if(at==i) return tcount(t); size_t c=at+1; for(const TP& k: t->kids) { size_t n=tcount(k); if(i<c+n) return below(k,c,i); c+=n; } return 1; }
// check one direction with one mask
static void direction(const RM& rm, const Model& m, bool toReq, const std::vector<bool>& in, size_t seed, bool preset) {
    const TP& st=toReq?m.base:m.req; const TP& dt=toReq?m.req:m.base; const std::vector<int>& map=toReq?m.b2r:m.r2b; size_t ns=tcount(st), nd=tcount(dt);
    std::vector<bool> want(nd+70), eff(ns); for(size_t i=0;i<ns&&i<in.size();i++) if(in[i]&&map[i]>=0) { size_t e=i+below(st,0,i); for(size_t j=i;j<e;j++) if(map[j]>=0) { want[map[j]]=true; eff[j]=true; } }
    BitSet bi; for(size_t i=0;i<in.size();i++) if(in[i]) bi.set(i); BitSet bo, bm; if(preset) { bo.set(nd>1?1:0); bo.set(nd+66); bm=bo; want[nd>1?1:0]=true; want[nd+66]=true; } const BitSet bi0(bi);
    GenV g1(seed,2,false), g2(seed+3,2,false); VP sv=genV(g1,st), dv=genV(g2,dt); PVStructurePtr s=toReq?rm.buildBase():rm.buildRequested(), d=toReq?rm.buildRequested():rm.buildBase(); assign(s.get(),sv); assign(d.get(),dv);
    if(toReq) rm.copyBaseToRequested(*s,bi,*d,bo); else rm.copyBaseFromRequested(*d,bo,*s,bi);
    if(toReq) rm.maskBaseToRequested(bi,bm); else rm.maskBaseFromRequested(bm,bi);
    VP wv=vcopy(dv); std::vector<VP*> fs, fd; flat(sv,fs,&sv); flat(wv,fd,&wv); for(size_t i=0;i<ns;i++) if(eff[i]&&(*fs[i])->t->k!=KStruct) *fd[map[i]]=vcopy(*fs[i]);
    const char *dir=toReq?"base to requested":"requested to base"; std::string c=vcheck(d.get(),wv,false); CHECK(c=="",toReq?"copy":"copy-back","%s with mask %s: %s",dir,bstr(in).c_str(),c.c_str());
    c=vcheck(s.get(),sv,false); CHECK(c=="","source","%s with mask %s changed its source: %s",dir,bstr(in).c_str(),c.c_str());
    CHECK(bitsOf(bo,nd+70)==want,"copymask","%s with mask %s: mask of copied fields is %s want %s",dir,bstr(in).c_str(),bstr(bitsOf(bo,nd+70)).c_str(),bstr(want).c_str()); CHECK(bi==bi0,"inmask","%s changed the mask given",dir);
    CHECK(bitsOf(bm,nd+70)==want,"mask","%s: mask %s is translated to %s want %s",dir,bstr(in).c_str(),bstr(bitsOf(bm,nd+70)).c_str(),bstr(want).c_str()); mc::step();
}
static void checkMapper(const RM& rm, const Model& m, int masks, int maxBits=7) {
    std::string c=tcheck(rm.base().get(),m.base); CHECK(c=="","base","base type: %s",c.c_str()); c=tcheck(rm.requested().get(),m.req); CHECK(c=="","requested","requested type: %s, want %s",c.c_str(),tstr(m.req).c_str());
    CHECK(bitsOf(rm.requestedMask(),m.mask.size()+70)==[&]{ std::vector<bool> w(m.mask); w.resize(w.size()+70); return w; }(),"selection","requestedMask %s want %s",bstr(bitsOf(rm.requestedMask(),m.mask.size())).c_str(),bstr(m.mask).c_str());
    CHECK(rm.warnings().empty()==!m.warn||(m.mayWarn&&!m.warn),"warnings","warnings '%s'%s",rm.warnings().c_str(),m.warn?", want some":""); PVStructurePtr b=rm.buildBase(), r=rm.buildRequested(); c=vcheck(b.get(),vdefault(m.base)); CHECK(c=="","build","buildBase: %s",c.c_str()); c=vcheck(r.get(),vdefault(m.req)); CHECK(c=="","build","buildRequested: %s",c.c_str());
    for(int dir=0;dir<2;dir++) { size_t n=tcount(dir?m.req:m.base); if(masks&&(int)n<=maxBits) { for(size_t x=0;x<(1u<<n);x++) { std::vector<bool> in(n); for(size_t i=0;i<n;i++) in[i]=x>>i&1; direction(rm,m,!dir,in,1+x%5,x%3==1); } std::vector<bool> in(n+2,false); in[n]=in[n+1]=true; direction(rm,m,!dir,in,2,false); }
        else { for(size_t i=0;i<n;i++) { if(masks==-2&&i%4) continue; std::vector<bool> in(n); in[i]=true; direction(rm,m,!dir,in,1+i%5,i%3==1); if(masks>=0) for(size_t j=i+1;j<n;j++) { std::vector<bool> in2(in); in2[j]=true; direction(rm,m,!dir,in2,1,false); } } direction(rm,m,!dir,std::vector<bool>(n+3,true),2,false); direction(rm,m,!dir,std::vector<bool>(n,false),2,false); } }
}
static PVStructurePtr request(const Sel *fields, const VP& keep) { std::vector<std::string> n; std::vector<TP> t; if(keep) { n.push_back("record"); t.push_back(tStruct({"_options"},{tStruct({"keepIDs"},{keep->t})})); } if(fields) { n.push_back("field"); t.push_back(reqT(fields->kids,fields->opts)); } PVStructurePtr p=makeS(vdefault(tStruct(n,t))); if(keep) assign(p->getSubFieldT("record._options.keepIDs").get(),keep); return p; }
static void judge(const TP& b, const Sel *fields, int keepk, bool slice, int masks=1) {
    VP keep; Model m; switch(keepk) { case 1: keep=vdefault(tScalar(pvString)); keep->s=MS("true"); m.keep=true; break; case 2: keep=vdefault(tScalar(pvString)); keep->s=MS("maybe"); m.warn=true; break; case 3: keep=vdefault(tScalar(pvBoolean)); break; }
    m.compute(b,fields,slice); PVStructurePtr rq=request(fields,keep), base=makeS(vdefault(b)); mc::op("base %s request %s keepIDs %d %s",tstr(b).c_str(),fields?selStr(fields->kids).c_str():"-",keepk,slice?"slice":"mask");
    RM a; a.compute(*base,*request(0,VP()),RM::Slice); RM before(a); std::string e=thrown([&]{ a.compute(*base,*rq,slice?RM::Slice:RM::Mask); }), e2=thrown([&]{ RM x(*base,*rq,slice?RM::Slice:RM::Mask); }); CHECK((e=="")==m.ok,e==""?"accepted":"refused","compute %s",e.c_str()); CHECK((e2=="")==m.ok,"ctor","constructor %s",e2.c_str()); mc::outcome(m.ok?m.warn?"mapped with warnings":"mapped":"refused");
    if(!m.ok) { Model all; all.compute(b,0,true); checkMapper(a,all,-2); return; }
    mc::state(mc::hstr(tstr(m.req)+bstr(m.mask)+tstr(b))*2+slice); checkMapper(a,m,masks);
}
// ---- every selection
static void pickSel(const TP& b, std::vector<Sel>& out, bool extras, int& budget) {
    std::vector<Sel> c; for(size_t i=0;i<b->names.size();i++) { int k=mc::choose(b->kids[i]->k==KStruct?3:2); if(!k) continue; Sel s(b->names[i]); if(k==2) pickSel(b->kids[i],s.kids,extras,budget); c.push_back(s); }
    if(extras&&budget>0) { int k=mc::choose(6); if(k) budget--; switch(k) { case 1: c.push_back(Sel("xx")); break; case 2: { Sel s("yy"); s.bad=true; c.push_back(s); break; } case 3: if(!c.empty()) { c[0].opts=true; } break; case 4: { Sel s("xx"); s.kids.push_back(Sel("w")); c.insert(c.begin(),s); break; } case 5: for(Sel& s: c) if(s.kids.empty()) { s.kids.push_back(Sel("q")); break; } break; } }
    // order: rotate and reverse
    if(c.size()>1&&(!extras||mc::tier())) { int o=mc::choose(c.size()==2?2:3); if(o==1) std::reverse(c.begin(),c.end()); else if(o==2) std::rotate(c.begin(),c.begin()+1,c.end()); }
    out=c;
}
static TP smallTree(int budget) { GenT g; g.unions=false; g.arrays=false; g.leaves={tScalar(pvInt)}; g.sids={"structure"}; int b=budget; return genT(g,b,true); }
SCENARIO(every_tree, mc::Opts().S(6)) { TP b=smallTree(mc::tier()?5:4); if(b->kids.empty()) mc::skip(); Sel f; int x=0; pickSel(b,f.kids,false,x); judge(b,&f,0,mc::choose(2)); }
static TP tree(int k) { switch(k) {
    case 0: return tStruct({"v","n","w"},{tScalar(pvString),tStruct({"p","m","q"},{tArray(pvInt),tStruct({"v"},{tAny()},"M"),tScalar(pvDouble)},"N"),tStruct({},{},"E")},"B");
    case 1: return tStruct({"u","a","s"},{tUnion({"x","y"},{tScalar(pvInt),tStruct({"p"},{tScalar(pvInt)})}),tStructArr(tStruct({"e"},{tScalar(pvInt)})),tStruct({"u","x"},{tUnionArr(tUnion({"x"},{tScalar(pvInt)})),tBString(9)},"S")},"B");
    case 2: return tStruct({"zz","a"},{tStruct({"zz"},{tStruct({"zz","b"},{tScalar(pvInt),tScalar(pvByte)},"X")},"Y"),tScalar(pvInt)},"Z");
    default: return tStruct({"value","alarm","timeStamp"},{tScalar(pvDouble),tStruct({"severity","status","message"},{tScalar(pvInt),tScalar(pvInt),tScalar(pvString)},"alarm_t"),tStruct({"secondsPastEpoch","nanoseconds","userTag"},{tScalar(pvLong),tScalar(pvInt),tScalar(pvInt)},"time_t")},"epics:nt/NTScalar:1.0"); } }
SCENARIO(selections, mc::Opts().S(7)) { TP b=tree(mc::choose(4)); Sel f; int x=0; pickSel(b,f.kids,false,x); judge(b,&f,mc::choose(2),mc::choose(2),mc::tier()?1:0); }
SCENARIO(odd_requests, mc::Opts().S(7)) { TP b=tree(mc::choose(3)); Sel f; int x=mc::tier()?3:1; pickSel(b,f.kids,true,x); judge(b,&f,mc::choose(2),mc::choose(2),mc::tier()?-1:-2); }
SCENARIO(keep_ids) { TP b=tree(mc::choose(4)); static const int W[]={0,1,2,3}; Sel f; const Sel *fp=&f; switch(W[mc::choose(4)]) { case 0: fp=0; break; case 1: break; case 2: f.kids.push_back(Sel(b->names[1])); break; case 3: f.opts=true; break; } judge(b,fp,mc::choose(4),mc::choose(2)); }
// deep selections
SCENARIO(deep) { int n=mc::choose(9); TP t=tStruct({"x","y"},{tScalar(pvInt),tScalar(pvString)},"leaf"); for(int i=0;i<n;i++) t=tStruct({"c","o"},{t,tScalar(pvInt)},"L"+mc::str(i)); int d=mc::choose(n+3); bool both=mc::choose(2); Sel s(d>n?"x":"c"), top; if(d>n+1) s.kids.push_back(Sel("below")); if(d==0) { judge(t,0,1,mc::choose(2)); return; } for(int i=std::min(d,n+1);i>1;i--) { Sel o("c"); o.kids.push_back(s); if(both) o.kids.push_back(Sel("o")); s=o; } top.kids.push_back(s);
    judge(t,&top,mc::choose(2),mc::choose(2)); }
// through request strings
SCENARIO(strings) {
    struct R { const char *q, *sel; bool keep; }; static const R C[]={ {"field()","",false},{"","",false},{"field(value)","value",false},{"alarm,value","alarm;value",false},{"field(alarm.severity)","alarm{severity",false},{"field(alarm{status,severity},value)","alarm{status,severity;value",false},{"record[keepIDs=true]field(alarm.status)","alarm{status",true},{"field(alarm[x=y])","alarm",false},{"field(alarm[x=y]{status})","alarm{status",false},{"field(value[x=y])","value",false},{"record[keepIDs=true]","",true},{"putField(value)","",false},{"getField(alarm)field(timeStamp)","timeStamp",false},{"field(timeStamp.userTag[a=b],nope)","timeStamp{userTag;nope",false},{"field(alarm.nope)","alarm{nope",false},{"field(value.nope)","value{nope",false},{"field(nope)","nope",false} };
    const R& c=C[mc::choose(17)]; bool slice=mc::choose(2); TP b=tree(3); Sel f; std::string s=c.sel; if(s!="") { std::istringstream i(s); std::string p; while(std::getline(i,p,';')) { size_t k=p.find('{'); Sel x(p.substr(0,k)); if(k!=std::string::npos) { std::istringstream j(p.substr(k+1)); std::string q; while(std::getline(j,q,',')) x.kids.push_back(Sel(q)); } f.kids.push_back(x); } }
    mc::op("'%s' slice %d",c.q,slice); Model m; m.keep=c.keep; m.compute(b,&f,slice); RM a; PVStructurePtr base=makeS(vdefault(b)); std::string e=thrown([&]{ a.compute(*base,*createRequest(c.q),slice?RM::Slice:RM::Mask); }); CHECK((e=="")==m.ok,e==""?"accepted":"refused","'%s' %s",c.q,e.c_str()); if(m.ok) checkMapper(a,m,true,12); mc::state(mc::hstr(c.q)); mc::outcome(m.ok?"ok":"refused");
}
// histories of one mapper: compute, failed compute, reset, copy, swap
SCENARIO(histories, mc::Opts().S(3)) {
    RM rm[2]; Model md[2]; bool set[2]={false,false}; int n=mc::tier()?4:3;
    for(int i=0;i<n;i++) { int w=mc::choose(2); std::string e; switch(mc::choose(5)) {
        case 0: { static const char *S[]={"n{p","a;q;zz{zz","zz","w;v"}; int k=mc::choose(4); bool slice=mc::choose(2); TP b=tree(k==1?2:k==2?1:0); Sel f; std::istringstream is(S[k]); std::string p; while(std::getline(is,p,';')) { size_t q=p.find('{'); Sel x(p.substr(0,q)); if(q!=std::string::npos) x.kids.push_back(Sel(p.substr(q+1))); f.kids.push_back(x); } 
            Model m; m.compute(b,&f,slice); PVStructurePtr base=makeS(vdefault(b)); mc::op("%d compute %d %d",w,k,slice); e=thrown([&]{ rm[w].compute(*base,*request(&f,VP()),slice?RM::Slice:RM::Mask); }); CHECK((e=="")==m.ok,"compute","%s",e.c_str()); if(m.ok) { md[w]=m; set[w]=true; } break; }
        case 1: mc::op("%d reset",w); rm[w].reset(); set[w]=false; break;
        case 2: mc::op("swap"); rm[0].swap(rm[1]); std::swap(md[0],md[1]); std::swap(set[0],set[1]); break;
        case 3: mc::op("copy to %d",w); rm[w]=rm[1-w]; md[w]=md[1-w]; set[w]=set[1-w]; break;
        case 4: { mc::op("%d nested base",w); PVStructurePtr p=makeS(vdefault(tree(0))); e=thrown([&]{ rm[w].compute(*p->getSubFieldT<PVStructure>("n"),*request(0,VP())); }); CHECK(e!="","nested","a nested structure is accepted as base"); break; } }
        for(int j=0;j<2;j++) { if(set[j]) { if(i==n-1) checkMapper(rm[j],md[j],-1); else { std::string c=tcheck(rm[j].requested().get(),md[j].req); CHECK(c=="","requested","%s",c.c_str()); } }
            else { CHECK(!rm[j].base()&&!rm[j].requested()&&rm[j].requestedMask().isEmpty()&&rm[j].warnings()=="","reset","mapper without mapping is not empty"); CHECK(thrown([&]{ rm[j].buildRequested(); })!=""&&thrown([&]{ rm[j].buildBase(); })!="","reset","builds without a mapping"); BitSet in, out; in.set(0); in.set(3); rm[j].maskBaseToRequested(in,out); rm[j].maskBaseFromRequested(out,in); CHECK(out.isEmpty(),"reset","translates a mask without a mapping"); } } }
    mc::outcome(set[0]?set[1]?"both":"first":set[1]?"second":"none"); mc::state(mc::hmix(set[0]?mc::hstr(tstr(md[0].req)):1,set[1]?mc::hstr(tstr(md[1].req)):1));
}
// wide structures
SCENARIO(wide, mc::Opts().S(3)) {
    static const size_t W[]={65,130,260}; TP b=tWide(W[mc::choose(mc::tier()?3:2)],mc::choose(2)); Sel f; size_t n=b->kids.size(), step=1+mc::choose(3), from=mc::choose(3)*40; if(from>=n) mc::skip(); for(size_t i=from;i<n;i+=step) { Sel s(b->names[i]); if(b->kids[i]->k==KStruct&&i%3) { Sel x("b"); if(i%3==2) x.kids.push_back(Sel("a")); s.kids.push_back(x); } f.kids.push_back(s); } if(mc::choose(2)) std::reverse(f.kids.begin(),f.kids.end()); judge(b,&f,mc::choose(2),mc::choose(2),-2);
}
