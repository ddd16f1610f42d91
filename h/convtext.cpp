// C32: text conversions of Convert for arrays and structures
#include "model.h"
#include <pv/convert.h>
using namespace epics::pvData;

// text number i of a scalar type, what it means (bad: no such value)
struct Txt { std::string s; MS v; bool bad; };
static Txt txt(ScalarType st, int i) {
    Txt t; t.bad=false;
    if(st==pvString) { static const char *S[]={"x",""," y","[z"}; t.s=S[i%4]; t.v=MS(t.s); return t; }
    if(st==pvBoolean) { static const char *S[]={"true","false","TRUE","maybe"}; t.s=S[i%4]; t.bad=i%4==3; t.v=MS((uint64_t)(i%2==0)); return t; }
    if(st==pvFloat||st==pvDouble) { static const char *S[]={"1.5","-2"," 0.25","abc"}; static const double D[]={1.5,-2,0.25,0}; t.s=S[i%4]; t.bad=i%4==3; t.v=st==pvFloat?fbits(D[i%4]):dbits(D[i%4]); return t; }
    bool sg=st==pvByte||st==pvShort||st==pvInt||st==pvLong;
    static const char *U[]={"7","0x10"," 100","7q"}, *S[]={"-7","0x10"," 100",""}; static const int UV[]={7,16,100,0}, SV[]={-7,16,100,0};
    t.s=sg?S[i%4]:U[i%4]; t.bad=i%4==3; t.v=MS(trunc_to(st,(int64_t)(sg?SV[i%4]:UV[i%4]))); return t;
}
static std::vector<MS> prior(ScalarType st, int n) { std::vector<MS> r; for(int i=0;i<n;i++) r.push_back(sval(st,i+1)); return r; }
static std::string show(const std::vector<MS>& a, ScalarType st) { std::string r="{"; for(auto& x: a) r+=msstr(st,x)+","; return r+"}"; }
static PVScalarArrayPtr arr(const TP& t, int n) { VP v=vdefault(t); v->a=prior(t->s,n); return std::tr1::static_pointer_cast<PVScalarArray>(make(v)); }

SCENARIO(array_from_string) {
    ScalarType st=(ScalarType)mc::choose(pvString+1); bool bounded=mc::choose(2); TP t=bounded?tBArray(st,3):tArray(st);
    int have=mc::choose(4); PVScalarArrayPtr a=arr(t,have); std::vector<MS> want; std::string s; bool bad=false; int n=mc::choose(mc::tier()?6:5);
    if(n==0&&st==pvString) mc::skip(); // one empty string or none: not judged
    for(int i=0;i<n;i++) { Txt x=txt(st,mc::choose(4)); bad|=x.bad; want.push_back(x.v); s+=(i?",":"")+x.s; }
    bool br=mc::choose(2); if(st==pvString&&!br&&((n==1&&s=="")||(s.size()&&s[0]=='['&&s[s.size()-1]==']'))) mc::skip(); if(st==pvString&&br&&n==1&&s=="") mc::skip(); if(n==1&&s=="") mc::skip();
    if(br) s="["+s+"]"; bool big=bounded&&n>3;
    mc::op("fromString(%s[%d], \"%s\")",ScalarTypeFunc::name(st),have,s.c_str()); std::vector<MS> old=getArray(a.get(),st); size_t ret=0;
    std::string e=thrown([&]{ ret=getConvert()->fromString(a,s); }); mc::step(); std::vector<MS> now=getArray(a.get(),st);
    if(bad||big) { CHECK(e!="","accepted","accepted; the array is %s",show(now,st).c_str()); CHECK(now==old,"half","a refused string changed the array to %s",show(now,st).c_str()); mc::outcome("refused"); return; }
    CHECK(e=="","refused","refused: %s",e.c_str()); CHECK(now==want,"value","the array is %s, want %s",show(now,st).c_str(),show(want,st).c_str()); CHECK(ret==(size_t)n,"count","returns %zu for %d elements",ret,n); mc::outcome("converted");
}
SCENARIO(array_from_strings) {
    ScalarType st=(ScalarType)mc::choose(pvString+1); TP t=mc::choose(2)?tBArray(st,3):tArray(st); int have=mc::choose(3); PVScalarArrayPtr a=arr(t,have);
    int len=have+mc::choose(3), off=mc::choose(3), extra=mc::choose(2); if(len>3) mc::skip(); StringArray from; std::vector<MS> want; bool bad=false;
    for(int i=0;i<off;i++) from.push_back("junk"); for(int i=0;i<len;i++) { Txt x=txt(st,i==0?mc::choose(4):i); bad|=x.bad; from.push_back(x.s); want.push_back(x.v); } for(int i=0;i<extra;i++) from.push_back("junk");
    mc::op("fromStringArray(%s[%d], 0, %d, %zu strings, %d)",ScalarTypeFunc::name(st),have,len,from.size(),off); std::vector<MS> old=getArray(a.get(),st); size_t ret=0; StringArray keep(from);
    std::string e=thrown([&]{ ret=getConvert()->fromStringArray(a,0,len,from,off); }); mc::step(); std::vector<MS> now=getArray(a.get(),st); CHECK(from==keep,"source","the strings changed");
    if(bad) { CHECK(e!="","accepted","accepted; the array is %s",show(now,st).c_str()); CHECK(now==old,"half","refused, but the array is %s",show(now,st).c_str()); mc::outcome("refused"); return; }
    CHECK(e=="","refused","refused: %s",e.c_str()); CHECK(now==want,"value","the array is %s, want %s",show(now,st).c_str(),show(want,st).c_str()); CHECK(ret==(size_t)len,"count","returns %zu for %d elements",ret,len); mc::outcome("converted");
}
SCENARIO(array_to_strings) {
    ScalarType st=(ScalarType)mc::choose(pvString+1); int have=mc::choose(4), off=mc::choose(5), len=mc::choose(5), toOff=mc::choose(4), toLen=mc::choose(5); TP t=tArray(st);
    PVScalarArrayPtr a=arr(t,0); std::vector<MS> v; std::vector<std::string> each; for(int i=0;i<have;i++) { static const int K[]={1,2,0}; Txt x=txt(st,K[i%3]); v.push_back(x.v); PVScalarPtr s=getPVDataCreate()->createPVScalar(st); putScalar(s.get(),st,x.v); each.push_back(s->getAs<std::string>()); }
    VP vv=vdefault(t); vv->a=v; a=std::tr1::static_pointer_cast<PVScalarArray>(make(vv)); if(off>have) mc::skip(); // nothing said about an offset behind the end
    StringArray to(toLen,"old"), want(to); int n=std::min(len,have-off); if(toOff+n>(int)want.size()) want.resize(toOff+n); for(int i=0;i<n;i++) want[toOff+i]=each[off+i];
    mc::op("toStringArray(%s[%d], %d, %d, %d strings, %d)",ScalarTypeFunc::name(st),have,off,len,toLen,toOff); size_t ret=99; std::string e=thrown([&]{ ret=getConvert()->toStringArray(a,off,len,to,toOff); }); mc::step();
    CHECK(e=="","refused","refused: %s",e.c_str()); CHECK(ret==(size_t)n,"count","returns %zu, want %d",ret,n); std::string g,w; for(auto& x: to) g+=x+","; for(auto& x: want) w+=x+","; CHECK(to==want||n==0,"strings","the strings are %s, want %s",g.c_str(),w.c_str()); CHECK(getArray(a.get(),st)==v,"source","the array changed"); mc::outcome(n?"converted":"nothing");
}
// every structure of up to 3 members, nested ones included: one string per leaf, in order
static TP leafOrStruct(int depth) { int k=mc::choose(depth>0?6:5); switch(k) { case 0: return tScalar(pvInt); case 1: return tScalar(pvString); case 2: return tArray(pvUByte); case 3: return tBString(2); case 4: return tArray(pvString); default: { int n=mc::choose(3); std::vector<std::string> nm; std::vector<TP> k; for(int i=0;i<n;i++) { nm.push_back(std::string(1,'p'+i)); k.push_back(leafOrStruct(depth-1)); } return tStruct(nm,k); } } }
static void leaves(const VP& v, std::vector<VP>& out) { if(v->t->k==KStruct) for(auto& k: v->kids) leaves(k,out); else out.push_back(v); }
SCENARIO(structure_from_strings) {
    int n=mc::choose(mc::tier()?4:3); std::vector<std::string> nm; std::vector<TP> k; for(int i=0;i<n;i++) { nm.push_back(std::string(1,'a'+i)); k.push_back(leafOrStruct(mc::tier()?2:1)); }
    TP t=tStruct(nm,k); VP want=vdefault(t); std::vector<VP> l; leaves(want,l); StringArray from; int start=mc::choose(3); for(int i=0;i<start;i++) from.push_back("junk"); bool bad=false; int badAt=l.empty()?-1:(int)mc::choose(l.size()+1)-1; // which leaf gets a string it cannot take
    for(size_t i=0;i<l.size();i++) { VP x=l[i]; std::string s=std::to_string(i+3); bool b=(int)i==badAt; switch(x->t->k) { case KScalar: if(x->t->s==pvInt) { x->s=MS(i+3); if(b) { s="q"; bad=true; } } else x->s=MS(s); break; case KBString: if(b) { s="xyz"; bad=true; } else x->s=MS(s); break; default: if(i%2) { s="["+s+",4]"; x->a={x->t->s==pvString?MS(std::to_string(i+3)):MS(i+3),x->t->s==pvString?MS(std::string("4")):MS(4)}; } else x->a={x->t->s==pvString?MS(s):MS(i+3)}; if(b&&x->t->s!=pvString) { s="1,-"; bad=true; } } from.push_back(s); }
    int cut=mc::choose(3); bool few=false; if(cut==1) from.push_back("junk"); else if(cut==2) { if(l.empty()) mc::skip(); from.pop_back(); few=true; }
    PVStructurePtr s=std::tr1::static_pointer_cast<PVStructure>(make(t)); std::string list; for(auto& x: from) list+=x+";"; mc::op("fromString(%s, %s from %d)",tstr(t).c_str(),list.c_str(),start); size_t ret=0;
    std::string e=thrown([&]{ ret=start||mc::choose(2)?getConvert()->fromString(s,from,start):getConvert()->fromString(s,from); }); mc::step();
    if(bad||few) { CHECK(e!="","accepted","%s: accepted",few?"too few strings":"a string no value of its field"); mc::outcome("refused"); return; }
    CHECK(e=="","refused","refused: %s",e.c_str()); std::string d=vcheck(s.get(),want); CHECK(d=="","value","%s",d.c_str()); CHECK(ret==l.size(),"count","returns %zu for %zu fields",ret,l.size()); mc::outcome("converted");
}
// fields which have no text form are refused
SCENARIO(structure_refused) {
    int w=mc::choose(4); TP odd=w==0?tUnion({"i"},{tScalar(pvInt)}):w==1?tAny():w==2?tStructArr(tStruct({"i"},{tScalar(pvInt)})):tAnyArr(); bool nest=mc::choose(2), before=mc::choose(2);
    TP in=nest?tStruct({"n"},{odd}):odd; TP t=before?tStruct({"a","b"},{tScalar(pvInt),in}):tStruct({"b","a"},{in,tScalar(pvInt)}); PVStructurePtr s=std::tr1::static_pointer_cast<PVStructure>(make(t)); StringArray from(4,"1"); mc::op("fromString(%s)",tstr(t).c_str()); std::string e=thrown([&]{ getConvert()->fromString(s,from); }); mc::step(); CHECK(e!="","accepted","accepted"); mc::outcome("refused");
}
// getString is the printed value and a line end
SCENARIO(get_string) {
    static const TP T[]={tScalar(pvInt),tScalar(pvString),tBString(4),tArray(pvShort),tArray(pvString),tStruct({"a","b"},{tScalar(pvDouble),tStruct({"c"},{tArray(pvByte)})}),tUnion({"i","s"},{tScalar(pvInt),tScalar(pvString)}),tAny(),tStructArr(tStruct({"i"},{tScalar(pvInt)})),tAnyArr()};
    GenV g(2,2,false); VP v=genV(g,T[mc::choose(10)]); PVFieldPtr f=make(v); mc::op("getString(%s)",vstr(v).c_str()); std::ostringstream o; f->dumpValue(o); std::string s="old"; getConvert()->getString(&s,f); mc::step(); CHECK(s==o.str()+"\n","text","getString() gives %s, want %s",s.c_str(),o.str().c_str()); mc::outcome("printed");
}
// long lists
SCENARIO(large) {
    ScalarType st=(ScalarType)mc::choose(pvString+1); static const int N[]={9,63,64,65,255,256,1000}; int n=N[mc::choose(7)], have=mc::choose(2)*N[mc::choose(7)]; PVScalarArrayPtr a=arr(tArray(st),have); std::string s; std::vector<MS> want; StringArray from; for(int i=0;i<n;i++) { Txt x=txt(st,i%3==2&&st==pvString?2:i%3); s+=(i?",":"")+x.s; from.push_back(x.s); want.push_back(x.v); } int op=mc::choose(3); mc::op("%d texts into %s[%d], %d",n,ScalarTypeFunc::name(st),have,op);
    if(op<2) { size_t ret=0; std::string e=thrown([&]{ ret=getConvert()->fromString(a,op?"["+s+"]":s); }); CHECK(e==""&&ret==(size_t)n,"refused","fromString gives %zu: %s",ret,e.c_str()); } else { if(have>n) mc::skip(); size_t ret=0; std::string e=thrown([&]{ ret=getConvert()->fromStringArray(a,0,n,from,0); }); CHECK(e==""&&ret==(size_t)n,"refused","fromStringArray gives %zu: %s",ret,e.c_str()); }
    CHECK(getArray(a.get(),st)==want,"value","the array is wrong after %d texts",n); StringArray to(n+3,"keep"); size_t g=getConvert()->toStringArray(a,n/3,n/2,to,2); CHECK(g==(size_t)(n/2),"count","toStringArray gives %zu",g); for(int i=0;i<n+3;i++) { bool in=i>=2&&i<2+n/2; CHECK(in!=(to[i]=="keep"),"place","toStringArray and string %d",i); if(in) { PVScalarPtr o=getPVDataCreate()->createPVScalar(st); o->putFrom<std::string>(to[i]); CHECK(getScalar(o.get(),st)==want[n/3+i-2],"text","toStringArray writes '%s' for element %d",to[i].c_str(),n/3+i-2); } } mc::state(n*100+st); mc::outcome("converted");
}
