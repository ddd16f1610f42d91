// C23: printing of values and types, quoting
#include "model.h"
#include <time.h>
#include <iomanip>
#include <epicsTime.h>
#include <pv/convert.h>
#include <pv/typeCast.h>
using namespace epics::pvData;
static struct TZ { TZ() { setenv("TZ","UTC",1); } } tz;
// ---- quoting, as in C
static std::string esc(const std::string& s, bool csv=false) { std::string r; for(unsigned char c: s) { static const char F[]="\a\b\f\n\r\t\v\\'", T[]="abfnrtv\\'"; const char *p=c?strchr(F,c):0; if(p) { r+='\\'; r+=T[p-F]; } else if(c=='"') r+=csv?"\"\"":"\\\""; else if(c<32||c>126) { char b[8]; snprintf(b,8,"\\x%02X",c); r+=b; } else r+=c; } return r; }
static std::string quo(const std::string& s) { return s.find(' ')==s.npos&&esc(s)==s?s:'"'+esc(s)+'"'; }
static std::string unesc(const std::string& s) { std::string r; for(size_t i=0;i<s.size();i++) { if(s[i]!='\\') { r+=s[i]; continue; } static const char F[]="\a\b\f\n\r\t\v\\'\"", T[]="abfnrtv\\'\""; char c=s[++i]; const char *p=strchr(T,c); if(c=='x') { r+=(char)strtol(s.substr(i+1,2).c_str(),0,16); i+=2; } else if(c&&p) r+=F[p-T]; else return "?"; } return r; }
static std::string scText(ScalarType st, const MS& v, bool arr) { char b[64]; switch(st) { case pvString: return quo(v.s); case pvBoolean: return v.u?"true":"false"; case pvFloat: { float f; uint32_t x=v.u; memcpy(&f,&x,4); snprintf(b,64,"%g",f); return b; } case pvDouble: { double f; memcpy(&f,&v.u,8); snprintf(b,64,"%g",f); return b; } case pvULong: return std::to_string(v.u); default: return std::to_string((int64_t)v.u); } }
static std::string flat(const VP& v) { if(v->t->k<=KBString) return scText(v->t->s,v->s,false); std::string r="["; for(size_t i=0;i<v->a.size();i++) r+=(i?v->t->s==pvString?", ":",":"")+scText(v->t->s,v->a[i],true); return r+"]"; }
static std::string ind(int n) { return std::string(4*n,' '); }
// a field with its name at some level; 'kind' of place decides whether scalars stand on a line of their own
static std::string line(const VP& v, const std::string& name, int lv);
static std::string full(const VP& v, const std::string& name, int lv) {
    if(v->t->k<=KFArray) return flat(v);
    std::string r=ind(lv)+tid(v->t)+" "+name+"\n";
    switch(v->t->k) { case KStruct: for(size_t i=0;i<v->kids.size();i++) r+=line(v->kids[i],v->t->names[i],lv+1); break; case KUnion: case KAny: r+=v->v?line(v->v,"",lv+1):ind(lv+1)+"(none)\n"; break; default: for(const VP& k: v->kids) r+=k?full(k,"",lv+1):ind(lv+1)+"(none)\n"; }
    return r;
}
static std::string line(const VP& v, const std::string& name, int lv) { if(v->t->k<=KFArray) return ind(lv)+tid(v->t)+" "+name+" "+flat(v)+"\n"; return full(v,name,lv); }
static std::string first(const std::string& a, const std::string& b) { size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++; return "at "+mc::str(i)+" '"+esc(a.substr(i<20?0:i-20,60))+"' want '"+esc(b.substr(i<20?0:i-20,60))+"'"; }
#define TEXT(GOT,WANT,KEY) do { std::string g_=(GOT), w_=(WANT); CHECK(g_==w_,KEY,"prints %s",first(g_,w_).c_str()); } while(0)
struct Out : std::ostringstream { long at; Out(int lv=0) :at(lv) { format::indent_value(*this)=lv; } std::string take() { CHECK(format::indent_value(*this)==at,"indent","indentation %ld left at %ld",at,(long)format::indent_value(*this)); std::string r=str(); str(""); return r; } };
static int nodesOf(const VP& v) { int n=1; for(const VP& k: v->kids) if(k) n+=nodesOf(k); if(v->v) n+=nodesOf(v->v); return n; }
static void judgeValue(const VP& v) {
    mc::op("%s",vstr(v).c_str()); PVFieldPtr f=make(v); int lv=mc::choose(3); Out o(lv); o<<*f; TEXT(o.take(),full(v,"",lv),"value"); mc::step(); mc::state(vhash(v));
    std::string buf("old"); getConvert()->getString(&buf,f.get(),lv); TEXT(buf,full(v,"",0)+"\n","getString");
    if(PVStructure *s=dynamic_cast<PVStructure*>(f.get())) { const PVFieldPtrArray& k=s->getPVFields(); for(size_t i=0;i<k.size();i++) { o<<*k[i]; TEXT(o.take(),full(v->kids[i],v->t->names[i],lv),"member"); }
        o<<s->stream().format(PVStructure::Formatter::Raw); TEXT(o.take(),full(v,"",lv),"raw"); }
    if(PVArray *a=dynamic_cast<PVArray*>(f.get())) { size_t n=v->t->k>=KStructArr?v->kids.size():v->a.size(); for(size_t i=0;i<n;i++) { o<<format::array_at(i)<<*a; TEXT(o.take(),v->t->k<KStructArr?scText(v->t->s,v->a[i],true):v->kids[i]?full(v->kids[i],"",lv):ind(lv)+"(none)\n","element"); } std::string e=thrown([&]{ o<<format::array_at(n)<<*a; }); CHECK(o.take()=="","element","an element behind the end prints something"); }
    std::string c=vcheck(f.get(),v); CHECK(c=="","changed","printing changed the value: %s",c.c_str()); mc::outcome(v->t->k<=KFArray?"one line":"several lines");
}
SCENARIO(leaves, mc::Opts().S(2)) { std::vector<TP> L=allLeaves(); TP t=L[mc::choose(L.size())]; GenV g(mc::choose(7),3,true); judgeValue(genV(g,t)); }
SCENARIO(trees, mc::Opts().S(4)) { GenT g; g.leaves={tScalar(pvString),tScalar(pvBoolean),tArray(pvByte),tArray(pvString),tAny(),tBString(9)}; g.sids={"structure","some.ID:1"}; int b=mc::tier()?4:3; TP t=genT(g,b,true); GenV gv(1+mc::choose(2),mc::tier()?2:1,true); judgeValue(genV(gv,t)); }
SCENARIO(boolean_arrays) { VP v=vdefault(tArray(pvBoolean)); v->a={MS(1),MS(0),MS(1)}; judgeValue(v); }
// ---- selections and highlighting
static void number(const VP& v, std::vector<std::pair<VP,int> >& out, std::vector<std::string>& names, std::vector<int>& par, const std::string& nm, int lv, int p) { int at=out.size(); out.push_back(std::make_pair(v,lv)); names.push_back(nm); par.push_back(p); if(v->t->k==KStruct) for(size_t i=0;i<v->kids.size();i++) number(v->kids[i],out,names,par,v->t->names[i],lv+1,at); }
static void judgeMask(const VP& v, const std::vector<bool> *show, const std::vector<bool> *hl, int mode, int lv=0) { bool ansi=mode==0;
    std::vector<std::pair<VP,int> > n; std::vector<std::string> nm; std::vector<int> par; number(v,n,nm,par,"",lv,-1); size_t N=n.size();
    std::vector<bool> s(N,show==0), h(N,false); for(size_t i=0;i<N;i++) for(int p=i;p>=0;p=par[p]) { if(show&&(*show)[p]) s[i]=true; if(hl&&(*hl)[p]) h[i]=true; } for(size_t i=N;i-->0;) if(s[i]&&par[i]>=0) s[par[i]]=true;
    std::string want; for(size_t i=0;i<N;i++) { if(!s[i]) continue; bool b=h[i]&&ansi; if(b) want+="\x1b[1m"; if(n[i].first->t->k==KStruct) want+=ind(n[i].second)+n[i].first->t->id+" "+nm[i]+"\n"; else want+=line(n[i].first,nm[i],n[i].second); if(b) want+="\x1b[0m"; }
    PVStructurePtr p=makeS(v); BitSet bs, bh; for(size_t i=0;i<N;i++) { if(show&&(*show)[i]) bs.set(i); if(hl&&(*hl)[i]) bh.set(i); } const BitSet s0(bs), h0(bh); Out o(lv); auto f=p->stream(); f.format(PVStructure::Formatter::Raw).mode(ansi?PVStructure::Formatter::ANSI:mode==1?PVStructure::Formatter::Plain:PVStructure::Formatter::Auto); if(show) f.show(bs); if(hl) f.highlight(bh); o<<f; mc::step(); TEXT(o.take(),want,"selection"); CHECK(bs==s0&&bh==h0,"inmask","printing changed the mask"); mc::outcome(want==""?"nothing":ansi&&hl?"highlight":"selection");
}
static std::vector<bool> bits(size_t m, size_t n) { std::vector<bool> r(n); for(size_t i=0;i<n;i++) r[i]=m>>i&1; return r; }
SCENARIO(masks, mc::Opts().S(3)) { GenT g; g.arrays=false; g.leaves={tScalar(pvInt),tArray(pvString)}; int b=mc::tier()?6:4; TP t=genT(g,b,true); GenV gv(1,2,false); VP v=genV(gv,t); size_t n=tcount(t); mc::op("%s",vstr(v).c_str()); mc::state(vhash(v)); int lv=mc::choose(2); for(size_t m=0;m<(1u<<n);m++) { std::vector<bool> s=bits(m,n); judgeMask(v,&s,0,m%3,lv); } }
SCENARIO(highlights, mc::Opts().S(3)) { GenT g; g.leaves={tScalar(pvInt)}; g.unions=false; int b=mc::tier()?4:3; TP t=genT(g,b,true); GenV gv(1,2,false); VP v=genV(gv,t); size_t n=tcount(t); mc::op("%s",vstr(v).c_str()); int ansi=mc::choose(3); for(size_t m=0;m<(1u<<n);m++) { std::vector<bool> h=bits(m,n); judgeMask(v,0,&h,ansi); for(size_t k=0;k<(1u<<n);k++) { std::vector<bool> s=bits(k,n); judgeMask(v,&s,&h,ansi); } } }
// a structure within another one is printed as if it stood alone
static std::string masked(const std::vector<std::pair<VP,int> >& n, const std::vector<std::string>& nm, const std::vector<int>& par, size_t top, std::vector<bool> s, std::string& js) { size_t N=n.size(), end=top+1; for(;end<N;end++) { bool in=false; for(int p=par[end];p>=0;p=par[p]) in|=p==(int)top; if(!in) break; } std::vector<bool> x(N); for(size_t i=top;i<end;i++) for(int p=i;p>=0;p=par[p]) if(s[p]) x[i]=true; for(size_t i=end;i-->top+1;) if(x[i]) x[par[i]]=true; std::string r; for(size_t i=top;i<end;i++) if(x[i]) r+=n[i].first->t->k==KStruct?ind(n[i].second-n[top].second)+"structure "+nm[i]+"\n":line(n[i].first,nm[i],n[i].second-n[top].second); std::function<std::string(size_t)> j=[&](size_t i) { if(n[i].first->t->k!=KStruct) return flat(n[i].first); std::string o; for(size_t k=i+1;k<end;k++) if(par[k]==(int)i&&x[k]) o+=(o!=""?", ":"")+("\""+nm[k]+"\": ")+j(k); return "{"+o+"}"; }; js=x[top]?j(top):""; return r; }
static std::string squash(std::string s) { std::string r; for(char c: s) if(c!=' '&&c!='\n'&&c!='"') r+=c; return r; }
SCENARIO(nested_top, mc::Opts().S(3)) { GenT g; g.leaves={tScalar(pvInt)}; g.unions=false; g.arrays=false; int b=mc::tier()?6:4; TP t=genT(g,b,true); GenV gv(1,2,false); VP v=genV(gv,t); PVStructurePtr p=makeS(v); mc::op("%s",vstr(v).c_str()); std::vector<std::pair<VP,int> > n; std::vector<std::string> nm; std::vector<int> par; number(v,n,nm,par,"",0,-1); size_t N=n.size(); for(size_t i=0;i<N;i++) if(n[i].first->t->k==KStruct) { Out o; PVStructurePtr s=i?p->getSubFieldT<PVStructure>(i):p; o<<*s; TEXT(o.take(),full(n[i].first,nm[i],0),"nested"); o<<s->stream().format(PVStructure::Formatter::Raw); TEXT(o.take(),full(n[i].first,nm[i],0),"nested-top"); std::string js, w=masked(n,nm,par,i,std::vector<bool>(N,true),js); o<<s->stream().format(PVStructure::Formatter::JSON); TEXT(squash(o.take()),squash(js),"nested-json");
    for(size_t m=0;m<(1u<<N);m++) { std::vector<bool> mk=bits(m,N); BitSet bs; for(size_t k=0;k<N;k++) if(mk[k]) bs.set(k); w=masked(n,nm,par,i,mk,js); o<<s->stream().format(PVStructure::Formatter::Raw).show(bs); TEXT(o.take(),w,"nested-mask"); o<<s->stream().format(PVStructure::Formatter::JSON).show(bs); TEXT(squash(o.take()),squash(js),"nested-json"); mc::step(); mc::outcome(js==""?"nothing":"nested"); } } }
// ---- types
static std::string tfields(const TP& t, int lv); static std::string tdump(const TP& t, int lv) { std::string r=ind(lv)+tid(t); switch(t->k) { case KStruct: case KUnion: case KAny: return r+"\n"+tfields(t,lv+1); case KStructArr: case KUnionArr: case KAnyArr: return r+"\n"+tdump(t->elem,lv+1); default: return r; } }
static std::string tfields(const TP& t, int lv) { std::string r; for(size_t i=0;i<t->kids.size();i++) { const TP& k=t->kids[i]; r+=ind(lv)+tid(k)+" "+t->names[i]+"\n"; switch(k->k) { case KStruct: case KUnion: case KAny: r+=tfields(k,lv+1); break; case KStructArr: case KUnionArr: case KAnyArr: r+=t->k==KStruct?tdump(k->elem,lv+1):tdump(k,lv+1); break; default: break; } } return r; }
SCENARIO(types, mc::Opts().S(3)) { TP t; if(mc::choose(2)) { std::vector<TP> L=allLeaves(); t=L[mc::choose(L.size())]; } else { GenT g; g.leaves={tScalar(pvUShort),tBString(5),tFArray(pvDouble,3),tAny(),tAnyArr()}; g.sids={"structure","x:1"}; g.uids={"union","u"}; int b=mc::tier()?4:3; t=genT(g,b,mc::choose(2)); } mc::op("%s",tstr(t).c_str()); int lv=mc::choose(3); Out o(lv); FieldConstPtr f=build(t); o<<*f; TEXT(o.take(),tdump(t,lv),"type"); f->dump(o); TEXT(o.take(),tdump(t,lv),"type"); mc::step(); mc::state(thash(t)); mc::outcome("type"); }
// ---- quoting of strings
static void judgeStr(const std::string& s) {
    mc::op("%s",esc(s).c_str()); std::string e=escape(s).str(); CHECK(unesc(e)==s,"unescape","'%s' does not mean the string with bytes %s",e.c_str(),mc::hex(s.data(),s.size()).c_str()); TEXT(e,esc(s),"escape"); std::string q; bool bad=false; for(unsigned char c: e) bad|=c<32||c>126; CHECK(!bad,"escape","unprintable in '%s'",e.c_str());
    std::ostringstream o; o<<escape(s); TEXT(o.str(),esc(s),"escape"); TEXT(escape(s).style(escape::CSV).str(),esc(s,true),"csv"); o.str(""); o<<maybeQuote(s); q=o.str(); TEXT(q,quo(s),"quote"); mc::step(); mc::outcome(q==s?"plain":"quoted");
    VP v=vdefault(tStruct({"s","a"},{tScalar(pvString),tArray(pvString)})); v->kids[0]->s=MS(s); v->kids[1]->a={MS(s),MS(s)}; Out t; t<<*makeS(v); TEXT(t.take(),full(v,"",0),"value");
}
SCENARIO(bytes_quoted, mc::Opts().S(2)) { std::string s; int n=mc::choose(mc::tier()?4:3); for(int i=0;i<n;i++) { static const char D[]="\0\t \"\\'x9\x1f\x7f\x80\xff,"; s+=i==n-1?(char)mc::choose(256):mc::tier()&&i==0?(char)mc::choose(256):D[mc::choose(13)]; } judgeStr(s); }
// ---- normative types
static std::string timeText(int64_t sec, int nsec) { epicsTimeStamp ts; int64_t E=631152000; ts.secPastEpoch=sec>E?sec-E:0; ts.nsec=nsec; char b[64]; if(ts.secPastEpoch==0&&nsec==0) strcpy(b,"<undefined>"); else { time_t t=sec>E?sec:E; struct tm tm; gmtime_r(&t,&tm); char d[40]; strftime(d,40,"%Y-%m-%d %H:%M:%S",&tm); int ms=(nsec+500000)/1000000; if(ms>999) ms=999; snprintf(b,64,"%s.%03d",d,ms); } std::string r(b); while(r.size()<24) r+=' '; return r+' '; }
static std::string alarmText(int sev, int st, const std::string& m) { if(!sev) return ""; static const char *S[]={"","MINOR","MAJOR","INVALID","UNDEFINED"}, *T[]={"","DEVICE","DRIVER","RECORD","DB","CONF","UNDEFINED","CLIENT"}; std::string r=(sev>0&&sev<5?S[sev]:std::to_string(sev))+" "; if(st) r+=(st>0&&st<8?T[st]:std::to_string(st))+" "; if(m!="") r+=m+" "; return r; }
static TP alarmT() { return tStruct({"severity","status","message"},{tScalar(pvInt),tScalar(pvInt),tScalar(pvString)},"alarm_t"); }
static TP timeT(ScalarType tag=pvInt) { return tStruct({"secondsPastEpoch","nanoseconds","userTag"},{tScalar(pvLong),tScalar(pvInt),tScalar(tag)},"time_t"); }
static TP enumT() { return tStruct({"index","choices"},{tScalar(pvInt),tArray(pvString)},"enum_t"); }
static std::string enumText(const VP& e) { uint32_t i=e->kids[0]->s.u; std::string r="("+std::to_string(i)+")"; return r+(i<e->kids[1]->a.size()?" "+quo(e->kids[1]->a[i].s):" <undefined>"); }
struct Meta { bool a, t; int sev, st, tag; std::string msg; int64_t sec; int ns; Meta() :a(false), t(false), sev(0), st(0), tag(0), sec(0), ns(0) {} std::string al() const { return a?alarmText(sev,st,msg):""; } std::string ti() const { return t?timeText(sec,ns)+(tag?std::to_string(tag)+" ":""):""; } };
static Meta mkMeta(bool small=false) { int q=!mc::tier(); Meta m; m.a=mc::choose(2); if(m.a) { static const int SV[]={0,1,2,3,4,5,-1}; m.sev=SV[mc::choose(small?3:7)]; m.st=small?mc::choose(2)*3:m.sev==2||!q?mc::choose(10)-1:mc::choose(2)*9-1; static const char *M[]={"","msg","two words"}; m.msg=M[mc::choose(small||q?2:3)]; } m.t=mc::choose(2); if(m.t) { static const int64_t S[]={1418148245,0,631152000,631152001,4294967295ll}; static const int NS[]={0,123456789,999999999,600000}; m.sec=S[mc::choose(small?2:5)]; m.ns=NS[mc::choose(small?2:m.sec<2||!q?4:1)]; m.tag=mc::choose(2)*17; } return m; }
static void addMeta(std::vector<std::string>& n, std::vector<TP>& t, const Meta& m) { if(m.a) { n.push_back("alarm"); t.push_back(alarmT()); } if(m.t) { n.push_back("timeStamp"); t.push_back(timeT(mc::choose(2)?pvLong:pvInt)); } }
static void setMeta(const VP& v, const Meta& m) { for(size_t i=0;i<v->kids.size();i++) { if(v->t->names[i]=="alarm"&&m.a) { v->kids[i]->kids[0]->s=MS((int64_t)m.sev); v->kids[i]->kids[1]->s=MS((int64_t)m.st); v->kids[i]->kids[2]->s=MS(m.msg); } if(v->t->names[i]=="timeStamp"&&m.t) { v->kids[i]->kids[0]->s=MS(m.sec); v->kids[i]->kids[1]->s=MS((int64_t)m.ns); v->kids[i]->kids[2]->s=MS((int64_t)m.tag); } } }
// Raw, where alarm, time and enumeration are explained behind their names
static std::string rawNT(const VP& v, const std::string& nm, int lv, const Meta& m) { if(v->t->k!=KStruct) return line(v,nm,lv); std::string r=ind(lv)+v->t->id+" "+nm; if(v->t->id=="alarm_t") r+=" "+m.al(); if(v->t->id=="time_t") r+=" "+m.ti(); if(v->t->id=="enum_t") r+=" "+enumText(v); r+="\n"; for(size_t i=0;i<v->kids.size();i++) r+=rawNT(v->kids[i],v->t->names[i],lv+1,m); return r; }
static void judgeNT(const VP& v, const std::string& want, const Meta& m, int lv) { mc::op("%s",vstr(v).c_str()); PVStructurePtr p=makeS(v); Out o(lv); o<<p->stream(); TEXT(o.take(),want,"nt"); mc::step(); Out r(lv); r<<p->stream().format(PVStructure::Formatter::Raw); TEXT(r.take(),rawNT(v,"",lv,m),"raw"); r<<p->stream().format(PVStructure::Formatter::NT).mode(PVStructure::Formatter::Plain); TEXT(r.take(),want,"nt"); std::string c=vcheck(p.get(),v); CHECK(c=="","changed","printing changed the value: %s",c.c_str()); mc::state(vhash(v)); }
SCENARIO(nt_scalar, mc::Opts().S(3)) { Meta m=mkMeta(); TP t=mc::choose(2)?tScalar((ScalarType)mc::choose(12)):tArray(pvString); std::vector<std::string> n={"value"}; std::vector<TP> k={t}; addMeta(n,k,m); GenV g(1,2,false); VP v=genV(g,tStruct(n,k,"epics:nt/NTScalar:1.0")); setMeta(v,m); int lv=mc::choose(2); std::string x=flat(v->kids[0]); judgeNT(v,t->k==KScalar?ind(lv)+m.ti()+x+" "+m.al()+"\n":ind(lv)+m.ti()+m.al()+x+"\n",m,lv); mc::outcome("scalar"); }
// a normative scalar or array of numbers shows six digits, whatever the stream was set to; other formats follow the stream
SCENARIO(nt_digits, mc::Opts().S(2)) {
    static const double D[]={1.23456789,-123456.789,1234567.89,1e-7/3,99999.95,0.5,2e20/3}; bool arr=mc::choose(2), flt=mc::choose(2); int n=arr?mc::choose(4):1, prec=1+mc::choose(4)*5; TP t=flt?arr?tArray(pvFloat):tScalar(pvFloat):arr?tArray(pvDouble):tScalar(pvDouble); VP v=vdefault(tStruct({"value"},{t},"epics:nt/NTScalar:1.0")); PVStructurePtr p=makeS(v); std::vector<double> d; for(int i=0;i<n;i++) d.push_back(D[mc::choose(7)]);
    if(flt) for(double& x: d) x=(float)x; if(!arr) { if(flt) p->getSubFieldT<PVFloat>("value")->put(d[0]); else p->getSubFieldT<PVDouble>("value")->put(d[0]); } else if(flt) { shared_vector<float> a; for(double x: d) a.push_back(x); p->getSubFieldT<PVFloatArray>("value")->replace(freeze(a)); } else { shared_vector<double> a; for(double x: d) a.push_back(x); p->getSubFieldT<PVDoubleArray>("value")->replace(freeze(a)); }
    auto text=[&](int k) { std::string r; for(size_t i=0;i<d.size();i++) { char b[64]; snprintf(b,64,"%.*g",k,d[i]); r+=(i?",":"")+std::string(b); } return arr?"["+r+"]":r; };
    mc::op("%s at precision %d",text(17).c_str(),prec); { std::ostringstream o; o.precision(prec); o<<p->stream(); TEXT(o.str(),text(6)+(arr?"\n":" \n"),"six digits"); } { std::ostringstream o; o.precision(prec); o<<*p->getSubField("value"); TEXT(o.str(),text(prec),"digits of the stream"); } mc::state(mc::hmix(prec,n)); mc::outcome("digits");
}
SCENARIO(nt_enum, mc::Opts().S(3)) { Meta m=mkMeta(true); std::vector<std::string> n={"value"}; std::vector<TP> k={enumT()}; addMeta(n,k,m); VP v=vdefault(tStruct(n,k,"epics:nt/NTEnum:1.0")); setMeta(v,m); int c=mc::choose(3); static const char *CH[]={"off","two words"}; for(int i=0;i<c;i++) v->kids[0]->kids[1]->a.push_back(MS(CH[i])); v->kids[0]->kids[0]->s=MS((int64_t)(mc::choose(4)-1)); int lv=mc::choose(2); judgeNT(v,ind(lv)+m.ti()+m.al()+enumText(v->kids[0])+"\n",m,lv); mc::outcome("enum"); }
SCENARIO(nt_other, mc::Opts().S(2)) { Meta m=mkMeta(true); std::vector<std::string> n; std::vector<TP> k; int w=mc::choose(6); static const TP V[]={tStruct({"index","choices"},{tArray(pvInt),tScalar(pvString)},"x"),tStruct({"index"},{tScalar(pvInt)},"x"),tAny(),tStructArr(tStruct({"q"},{tScalar(pvInt)})),tStruct(std::vector<std::string>(),std::vector<TP>())}; if(w<5) { n.push_back("value"); k.push_back(V[w]); } addMeta(n,k,m); GenV g(1,2,false); VP v=genV(g,tStruct(n,k,"epics:nt/NTTable:1.0")); setMeta(v,m); judgeNT(v,rawNT(v,"",0,m),m,0); mc::outcome("raw instead"); }
static std::string cell(const std::string& s) { std::string e=esc(s,true); return s.find_first_of("\" ,\\")!=s.npos?'"'+e+'"':e; }
static std::string right(const std::string& s, size_t w) { return std::string(w>s.size()?w-s.size():0,' ')+s; }
SCENARIO(nt_table, mc::Opts().S(4)) {
    Meta m=mkMeta(true); std::vector<std::string> cn; std::vector<TP> ct; static const char *N[]={"a","bb","c_long_name"}; static const ScalarType ST[]={pvString,pvInt,pvDouble,pvBoolean}; int nc=1+mc::choose(mc::tier()?3:2); for(int i=0;i<nc;i++) { cn.push_back(N[i]); ct.push_back(tArray(ST[mc::choose(mc::tier()?4:2)])); }
    std::vector<std::string> n; std::vector<TP> k; int nl=mc::choose(nc+3)-1; if(nl>=0) { n.push_back("labels"); k.push_back(tArray(pvString)); } n.push_back("value"); k.push_back(tStruct(cn,ct)); addMeta(n,k,m); VP v=vdefault(tStruct(n,k,mc::choose(2)?"epics:nt/NTTable:1.0":"epics:nt/NTTable:1")); setMeta(v,m); static const std::string L[]={"first","two words","say \"x\", y","z"}; for(int i=0;i<nl;i++) v->kids[0]->a.push_back(MS(L[i])); VP val=v->kids[nl>=0?1:0];
    size_t rows=99; static const std::string C[]={"v","a,b","quo\"te","tab\there",""}; std::vector<std::vector<std::string> > col; for(int c=0;c<nc;c++) { int r=mc::choose(3); rows=std::min<size_t>(rows,r); col.push_back({c<nl?cell(L[c]):cn[c]}); for(int i=0;i<r;i++) { MS s=ct[c]->s==pvString?MS(C[(i*2+c+nl+1)%5]):sval(ct[c]->s,1+i+c); val->kids[c]->a.push_back(s); col[c].push_back(cell(ct[c]->s==pvString?s.s:ct[c]->s==pvBoolean?(s.u?"true":"false"):scText(ct[c]->s,s,true))); } }
    int lv=mc::choose(2); std::string want; if(m.a||m.t) want+=ind(lv); if(m.t) want+=m.ti()+" "; if(m.a) want+=m.al()+" "; want+="\n"; std::vector<size_t> w; for(auto& c: col) { size_t x=0; for(auto& s: c) x=std::max(x,s.size()); w.push_back(x); } for(size_t r=0;r<=rows;r++) { want+=ind(lv); for(int c=0;c<nc;c++) want+=(c?" ":"")+right(col[c][r],w[c]); want+="\n"; }
    judgeNT(v,want,m,lv); mc::outcome(rows?"table":"empty table");
}
// a structure, whatever its members' types, prints in all formats without failing
SCENARIO(nt_shapes, mc::Opts().S(2)) {
    static const TP V[]={TP(),tScalar(pvInt),tScalar(pvString),tArray(pvInt),alarmT(),timeT(),enumT(),tStruct({"severity","status","message"},{tScalar(pvString),tScalar(pvDouble),tArray(pvString)},"alarm_t"),tStruct({"secondsPastEpoch","nanoseconds","userTag"},{tScalar(pvDouble),tArray(pvInt),tScalar(pvString)},"time_t"),tStruct({"index","choices"},{tScalar(pvString),tArray(pvString)},"enum_t"),tStruct({"secondsPastEpoch"},{tStruct({"x"},{tScalar(pvInt)})},"time_t"),tAny()};
    std::vector<std::string> n; std::vector<TP> k; static const char *N[]={"value","alarm","timeStamp","labels"}; static const char *ID[]={"epics:nt/NTScalar:1.0","epics:nt/NTTable:1.0","enum_t","alarm_t","time_t"}; for(int i=0;i<4;i++) { const TP& t=V[mc::choose(i==3?4:mc::tier()||i==0?12:8)]; if(t) { n.push_back(N[i]); k.push_back(t); } } VP v=vdefault(tStruct(n,k,ID[mc::choose(5)])); bool strnum=false; mc::op("%s",tstr(v->t).c_str()); PVStructurePtr p=makeS(v); if(mc::choose(2)) { GenV g(1,2,false); v=genV(g,v->t); p=makeS(v); }
    for(int f=0;f<2;f++) { Out o; std::string e=thrown([&]{ o<<p->stream().format(f?PVStructure::Formatter::NT:PVStructure::Formatter::Raw); }); mc::step(); CHECK(e!="crash","shape","%s",e.c_str()); mc::outcome(e==""?"printed":"refused: "+e.substr(0,30)); if(e=="") { Out x; x<<p->stream().format(f?PVStructure::Formatter::NT:PVStructure::Formatter::Raw); CHECK(x.str()==o.str(),"repeat","two prints differ"); } } std::string c=vcheck(p.get(),v); CHECK(c=="","changed","printing changed the value: %s",c.c_str());
}
// long values
SCENARIO(large, mc::Opts().S(2)) {
    static const size_t N[]={64,100,255,256,257,300}; size_t n=N[mc::choose(6)]; int kind=mc::choose(17); VP v; if(kind<12) { v=vdefault(tArray((ScalarType)kind)); for(size_t i=0;i<n;i++) v->a.push_back(sval((ScalarType)kind,i%5)); } else if(kind==12||kind==13) { GenV g(2,2,false); v=genV(g,tWide(n,kind-12)); } else if(kind==14) { v=vdefault(tStructArr(tStruct({"x"},{tScalar(pvInt)}))); for(size_t i=0;i<n;i++) v->kids.push_back(i%7==3?VP():vdefault(v->t->elem)); } else if(kind==15) { v=vdefault(tScalar(pvString)); std::string s; for(size_t i=0;i<n*20;i++) s+=i%97==96?'\n':i%89==88?'"':(char)('a'+i%26); v->s=MS(s); } else { TP t=tScalar(pvInt); for(size_t i=0;i<n;i++) t=tStruct({"c"},{t}); v=vdefault(t); }
    judgeValue(v);
}
