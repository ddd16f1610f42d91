// C10: one conversion table for all entry points
#include "model.h"
#include <pv/anyscalar.h>
#include <pv/typeCast.h>
#include <pv/convert.h>
#include <charconv>
#include <float.h>
#include <math.h>
using namespace epics::pvData;
typedef __int128 I;

// ---- reference table on values of any type
struct X { enum K { Err, Undef, Int, Flt, Str, Bool, AnyFlt } k; I i; double d; std::string s; X():k(Undef),i(0),d(0) {} };
static X xe() { X x; x.k=X::Err; return x; } static X xu() { return X(); } static X xi(I i) { X x; x.k=X::Int; x.i=i; return x; } static X xf(double d) { X x; x.k=X::Flt; x.d=d; return x; } static X xs(const std::string& s) { X x; x.k=X::Str; x.s=s; return x; } static X xb(unsigned char b) { X x; x.k=X::Bool; x.i=b; return x; }
static bool isInt(ScalarType t) { return t!=pvBoolean&&t!=pvString&&t!=pvFloat&&t!=pvDouble; }
static int bits(ScalarType t) { return t==pvByte||t==pvUByte?8:t==pvShort||t==pvUShort?16:t==pvInt||t==pvUInt?32:64; }
static bool sgn(ScalarType t) { return t==pvByte||t==pvShort||t==pvInt||t==pvLong; }
static I lo(ScalarType t) { return sgn(t)?-((I)1<<(bits(t)-1)):0; } static I hi(ScalarType t) { return ((I)1<<(bits(t)-sgn(t)))-1; }
static I wrap(ScalarType t, I v) { I m=(I)1<<bits(t); v%=m; if(v<0) v+=m; if(v>hi(t)) v-=m; return v; }
static std::string dec(I v) { if(v==0) return "0"; bool n=v<0; std::string s; if(n) v=-v; while(v) { s.insert(s.begin(),'0'+(int)(v%10)); v/=10; } return n?"-"+s:s; }
static bool sp(char c) { return c==' '||(c>='\t'&&c<='\r'); } static int dig(char c) { return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:99; }
// text -> integer: 0 not a number, 1 number (saturated beyond 2^100)
static int textInt(const std::string& s, I& v, bool& neg) {
    size_t i=0,n=s.size(); while(i<n&&sp(s[i])) i++; neg=false; if(i<n&&(s[i]=='-'||s[i]=='+')) neg=s[i++]=='-'; int base=10;
    if(i+2<n&&s[i]=='0'&&(s[i+1]=='x'||s[i+1]=='X')&&dig(s[i+2])<16) { base=16; i+=2; } else if(i<n&&s[i]=='0') base=8;
    if(i>=n||dig(s[i])>=base) return 0; v=0; while(i<n&&dig(s[i])<base) { v=v*base+dig(s[i++]); if(v>((I)1<<100)) v=(I)1<<100; } if(neg) v=-v; while(i<n&&sp(s[i])) i++; return i==n;
}
// 0 not a number, 1 number, 2 out of range, 3 not judged
static int textFlt(const std::string& s, double& d) {
    size_t i=0,n=s.size(); while(i<n&&sp(s[i])) i++; bool neg=false; if(i<n&&(s[i]=='-'||s[i]=='+')) neg=s[i++]=='-'; bool hex=i+1<n&&s[i]=='0'&&(s[i+1]=='x'||s[i+1]=='X'); size_t e=n; while(e>i&&sp(s[e-1])) e--; 
    if(i>=e) return 0; 
    if(!strncasecmp(s.c_str()+i,"nan",3)||!strncasecmp(s.c_str()+i,"inf",3)) return 3;
    if(hex) { size_t j=i+2, h=0; while(j<e&&dig(s[j])<16) j++,h++; if(j<e&&s[j]=='.') { j++; while(j<e&&dig(s[j])<16) j++,h++; } if(!h) return 0; if(j<e&&(s[j]=='p'||s[j]=='P')) return 3; if(j!=e) return 0; std::from_chars(s.c_str()+i+2,s.c_str()+e,d,std::chars_format::hex); if(neg) d=-d; return 1; }
    size_t j=i, h=0; while(j<e&&isdigit(s[j])) j++,h++; if(j<e&&s[j]=='.') { j++; while(j<e&&isdigit(s[j])) j++,h++; } if(!h) return 0;
    if(j<e&&(s[j]=='e'||s[j]=='E')) { size_t k=j+1; if(k<e&&(s[k]=='+'||s[k]=='-')) k++; size_t q=k; while(k<e&&isdigit(s[k])) k++; if(k==q) return 0; j=k; } if(j!=e) return 0;
    std::string c(s,i,e-i); size_t p=c.find('+'); if(p!=std::string::npos) c.erase(p,1); auto r=std::from_chars(c.data(),c.data()+c.size(),d,std::chars_format::general); if(neg) d=-d; if(r.ec==std::errc::result_out_of_range) return c.find('-')==std::string::npos?2:3; return 1;
}
struct S { ScalarType t; I i; double d; std::string s; }; // a source value
static X table(const S& v, ScalarType to) {
    if(v.t==pvBoolean) return to==pvBoolean?xb(v.i):to==pvString?xs(v.i?"true":"false"):xe();
    if(to==pvBoolean) { if(v.t!=pvString) return xe(); return !strcasecmp(v.s.c_str(),"true")?xb(1):!strcasecmp(v.s.c_str(),"false")?xb(0):xe(); }
    if(isInt(v.t)) { if(isInt(to)) return xi(wrap(to,v.i)); if(to==pvString) return xs(dec(v.i)); return xf(to==pvFloat?(double)(float)(long double)v.i:(double)(long double)v.i); }
    if(v.t==pvFloat||v.t==pvDouble) {
        if(isInt(to)) { if(!(v.d==v.d)||!(fabs(v.d)<1e19)) return xu(); I t=(I)truncl((long double)v.d); return t<lo(to)||t>hi(to)?xu():xi(t); }
        if(to==pvString) { if(v.d!=v.d||isinf(v.d)) return xu(); if(v.d==floor(v.d)&&fabs(v.d)<1e6&&!(v.d==0&&signbit(v.d))) return xs(dec((I)v.d)); X x=xf(v.d); x.k=X::AnyFlt; return x; }
        if(to==pvDouble||v.t==pvFloat) return xf(v.d); double a=fabs(v.d); if(!(a==a)||isinf(a)||a==0) return xf(v.d); if(a>=FLT_MAX) return xf(copysign(FLT_MAX,v.d)); if(a<=FLT_MIN) return xf(copysign(FLT_MIN,v.d)); return xf((float)v.d);
    }
    if(to==pvString) return xs(v.s);
    if(isInt(to)) { I i; bool neg; if(!textInt(v.s,i,neg)) return xe(); if(neg&&!sgn(to)) return xu(); if(!sgn(to)&&bits(to)<64&&i>((I)1<<64)-((I)1<<bits(to))&&i<((I)1<<64)) return xu(); /* libCom takes these for negative numbers */ return i<lo(to)||i>hi(to)?xe():xi(i); }
    double d; int r=textFlt(v.s,d); if(r==0||r==2) return xe(); if(r==3) return xu(); if(to==pvDouble) return d!=0&&fabs(d)<DBL_MIN?xu():xf(d); if(fabs(d)>FLT_MAX) return xe(); if(d!=0&&fabs(d)<=FLT_MIN) return xu(); return xf((float)d);
}
static std::string show(const X& x) { switch(x.k) { case X::Err: return "an exception"; case X::Undef: return "anything"; case X::Int: return dec(x.i); case X::Flt: case X::AnyFlt: return sfmt("%.17g",x.d); case X::Str: return "'"+x.s+"'"; default: return x.i?"true":"false"; } }
static std::string show(const S& s) { return std::string(ScalarTypeFunc::name(s.t))+" "+(s.t==pvString?"'"+s.s+"'":s.t==pvFloat||s.t==pvDouble?sfmt("%.17g",s.d):dec(s.i)); }
template<typename T> static T mk(const S& v) { return (T)v.i; }
template<> float mk<float>(const S& v) { return (float)v.d; } template<> double mk<double>(const S& v) { return v.d; } template<> std::string mk<std::string>(const S& v) { return v.s; }
template<typename T> static bool fits(const X& x, const T& g) { return x.k==X::Undef||(x.k==X::Int&&(I)g==x.i)||(x.k==X::Bool&&(I)g==x.i); }
template<> bool fits<float>(const X& x, const float& g) { return x.k==X::Undef||(x.k==X::Flt&&(g==x.d?signbit(g)==signbit(x.d):(g!=g&&x.d!=x.d))); } template<> bool fits<double>(const X& x, const double& g) { return x.k==X::Undef||(x.k==X::Flt&&(g==x.d?signbit(g)==signbit(x.d):(g!=g&&x.d!=x.d))); }
template<> bool fits<std::string>(const X& x, const std::string& g) { if(x.k==X::Undef) return true; if(x.k==X::AnyFlt) { double d; int r=textFlt(g,d); return r==3||(r==1&&(fabs(d-x.d)<=1.01e-5*fabs(x.d))); } return x.k==X::Str&&g==x.s; }
template<typename T> static std::string pr(const T& g) { return mc::str(print_cast(g)); }
template<> std::string pr<double>(const double& g) { return sfmt("%.17g",g); } template<> std::string pr<float>(const float& g) { return sfmt("%.17g",g); }
template<typename T> static bool same(const T& a, const T& b) { return !memcmp(&a,&b,sizeof a); } template<> bool same<std::string>(const std::string& a, const std::string& b) { return a==b; }

template<typename TO> struct Got { bool any; TO v; std::string by; };
template<typename TO> static void judge(const S& s, const X& x, const char *by, const std::string& err, const TO& g, Got<TO>& first) {
    mc::step(); std::string d=show(s)+" to "+ScalarTypeFunc::name((ScalarType)ScalarTypeID<TO>::value)+" by "+by;
    if(x.k==X::Err) { CHECK(err!="","accepted","%s: gives %s, want an exception",d.c_str(),pr(g).c_str()); return; }
    if(x.k==X::Undef&&err!="") { CHECK(!first.any||first.by[0]=='!',"disagree","%s throws, %s did not",d.c_str(),first.by.c_str()); first.any=true; first.by=std::string("!")+by; return; }
    CHECK(err=="","refused","%s: %s, want %s",d.c_str(),err.c_str(),show(x).c_str());
    CHECK(fits<TO>(x,g),"value","%s: gives %s, want %s",d.c_str(),pr(g).c_str(),show(x).c_str());
    bool floatCast=s.t==pvFloat||s.t==pvDouble; // out of range: not defined, may also differ
    if(!(x.k==X::Undef&&floatCast)) { if(!first.any) { first.any=true; first.v=g; first.by=by; } else CHECK(first.by[0]!='!'&&same(first.v,g),"disagree","%s gives %s, but %s by %s",d.c_str(),pr(g).c_str(),first.by[0]=='!'?"an exception":pr(first.v).c_str(),first.by.c_str()); }
}
template<typename TO, typename FROM, bool B> struct Inline { static void go(const S&, const X&, const FROM&, PVScalarValue<FROM>&, PVScalarValue<TO>&, Got<TO>&) {} };
template<typename TO, typename FROM> struct Inline<TO,FROM,true> { static void go(const S& s, const X& x, const FROM& v, PVScalarValue<FROM>& from, PVScalarValue<TO>& to, Got<TO>& first) {
    TO g=TO(); std::string e=thrown([&]{ g=castUnsafe<TO,FROM>(v); }); judge(s,x,"castUnsafe",e,g,first); g=TO(); e=thrown([&]{ g=from.template getAs<TO>(); }); judge(s,x,"typed getAs",e,g,first);
    TO was=to.get(); e=thrown([&]{ to.template putFrom<FROM>(v); }); judge(s,x,"typed putFrom",e,to.get(),first); if(e!="") CHECK(same(was,TO(to.get())),"changed","failed putFrom changed the value");
} };
static bool undefCast(const X& x, const S& s) { return x.k==X::Undef&&(s.t==pvFloat||s.t==pvDouble); }
template<typename TO, typename FROM> static void pair(const S& s, const S& other) {
    const ScalarType tt=(ScalarType)ScalarTypeID<TO>::value; X x=table(s,tt); FROM v=mk<FROM>(s); Got<TO> first; first.any=false; std::string e;
    { TO d[3]; d[0]=d[2]=mk<TO>(other); TO keep=d[0]; d[1]=TO(); e=thrown([&]{ castUnsafeV(1,tt,&d[1],s.t,&v); }); judge(s,x,"castUnsafeV",e,d[1],first); CHECK(same(d[0],keep)&&same(d[2],keep),"overrun","castUnsafeV of one element changed its neighbour"); }
    typedef PVScalarValue<FROM> PF; typedef PVScalarValue<TO> PT; std::tr1::shared_ptr<PF> pf(getPVDataCreate()->createPVScalar<PF>()); std::tr1::shared_ptr<PT> pt(getPVDataCreate()->createPVScalar<PT>()); PVScalar &bf=*pf, &bt=*pt; pf->put(v); pt->put(mk<TO>(other)); TO was=pt->get();
    { TO g=TO(); e=thrown([&]{ g=bf.template getAs<TO>(); }); judge(s,x,"getAs",e,g,first); }
#define PUT(NAME, CODE) pt->put(was); e=thrown([&]{ CODE; }); judge(s,x,NAME,e,TO(pt->get()),first); if(e!="") CHECK(same(was,TO(pt->get())),"changed","failed " NAME " changed the value to %s",pr(TO(pt->get())).c_str());
    PUT("putFrom",bt.template putFrom<FROM>(v)) PUT("assign",bt.assign(bf)) PUT("copy",bt.copy(bf))
    { AnyScalar a(v); CHECK(a.type()==s.t,"anyscalar","type"); PUT("putFrom(AnyScalar)",bt.putFrom(a)) TO g=TO(); e=thrown([&]{ g=a.template as<TO>(); }); judge(s,x,"AnyScalar::as",e,g,first); AnyScalar b; bf.getAs(b); CHECK(b.type()==s.t&&same(b.template ref<FROM>(),v),"anyscalar","getAs(AnyScalar)"); }
    Inline<TO,FROM,!std::is_same<TO,boolean>::value&&!std::is_same<FROM,boolean>::value>::go(s,x,v,*pf,*pt,first);
    // arrays: a good element on both sides
    typedef PVValueArray<FROM> AF; typedef PVValueArray<TO> AT; X ox=table(other,tt); if(ox.k==X::Err||ox.k==X::Undef||other.t!=s.t) return;
    shared_vector<FROM> src(3); src[0]=src[2]=mk<FROM>(other); src[1]=v; shared_vector<const FROM> csrc(freeze(src)); std::tr1::shared_ptr<AF> af(getPVDataCreate()->createPVScalarArray<AF>()); std::tr1::shared_ptr<AT> at(getPVDataCreate()->createPVScalarArray<AT>()); af->replace(csrc); PVScalarArray &abf=*af, &abt=*at;
    auto arr=[&](const char *by, const std::string& e, const shared_vector<const TO>& g) {
        if(e=="") CHECK(g.size()==3,"array","%s gives %zu of 3 elements",by,g.size());
        TO mid=e==""?TO(g[1]):TO(); judge(s,x,by,e,mid,first); if(e=="") CHECK(fits<TO>(ox,g[0])&&fits<TO>(ox,g[2]),"array","%s: a neighbour of the element became %s",by,pr(g[0]).c_str());
        else if(s.t==pvString&&tt!=pvString) CHECK(e.find("1")!=std::string::npos&&e.find(" 0")==std::string::npos,"index","%s: element 1 can not be converted, the exception says %s",by,e.c_str()); };
    { shared_vector<const TO> g; e=thrown([&]{ abf.getAs(g); }); arr("array getAs",e,g); } { shared_vector<const TO> g; e=thrown([&]{ g=shared_vector_convert<const TO>(static_shared_vector_cast<const void>(csrc)); }); arr("shared_vector_convert",e,g); }
    shared_vector<TO> init(1); init[0]=was; at->replace(freeze(init));
    { e=thrown([&]{ abt.putFrom(csrc); }); arr("array putFrom",e,at->view()); if(e!="") CHECK(at->getLength()==1&&same(at->view()[0],was),"changed","failed array putFrom changed the array"); } { shared_vector<TO> i2(1); i2[0]=was; at->replace(freeze(i2)); e=thrown([&]{ abt.assign(abf); }); arr("array assign",e,at->view()); if(e!="") CHECK(at->getLength()==1&&same(at->view()[0],was),"changed","failed array assign changed the array"); }
}
template<typename FROM> static void from(const S& s, const S& other, ScalarType to) { SDISPATCH(to, (pair<T,FROM>(s,other))) }
static S si(ScalarType t, I i) { S s; s.t=t; s.i=i; s.d=0; return s; } static S sd(ScalarType t, double d) { S s; s.t=t; s.i=0; s.d=d; return s; } static S ss(const std::string& x) { S s; s.t=pvString; s.i=0; s.d=0; s.s=x; return s; }
static std::vector<S> values(ScalarType t) {
    std::vector<S> r; if(t==pvBoolean) { r.push_back(si(t,0)); r.push_back(si(t,1)); return r; }
    std::vector<I> b; for(int k: {0,7,8,15,16,24,31,32,53,63,64}) for(int q: {-2,-1,0,1,2}) { b.push_back(((I)1<<k)+q); b.push_back(-((I)1<<k)+q); } for(I k: {(I)9,(I)42,(I)123456789,(I)16777217,(I)9007199254740993LL}) { b.push_back(k); b.push_back(-k); } std::sort(b.begin(),b.end()); b.erase(std::unique(b.begin(),b.end()),b.end());
    if(isInt(t)) { for(I i: b) if(i>=lo(t)&&i<=hi(t)) r.push_back(si(t,i)); return r; }
    if(t==pvString) { for(const char *x: {"true","TRUE","False","fAlSe","tru","true ","1","0","","inf","-inf","nan","NaN","1e400","-1e400","1e-400","3.4028235e38","3.5e38","-3.5e38","1e-39","1e-45","1.17549435e-38","0x1p3","1.5","-0.25","0x10","0X1F","0777","-0x80","+0x7f","  12","12  "," 1 2","1\n","\t7","12abc","0xg","0x","08","-","+","1e","1e+",".5","5.",".","1e5","-1e-5","1E3","99999999999999999999999","-99999999999999999999999","0x123456789abcdef0123","+-1","1,2","\xff","0b1","1f","1L"}) r.push_back(ss(x)); for(I i: b) { r.push_back(ss(dec(i))); std::string h; I a=i<0?-i:i; if(a<((I)1<<64)) { h=sfmt("%s0x%llx",i<0?"-":"",(unsigned long long)a); r.push_back(ss(h)); h=sfmt("%s0%llo",i<0?"-":"+",(unsigned long long)a); r.push_back(ss(h)); } } return r; }
    std::vector<double> f={0.0,-0.0,0.1,0.5,-0.5,0.99999994,1,-1,1.5,-1.5,1.9999999,126.9,127.0,127.5,-128.9,-127.1,255.9,32767.5,65535.9,2147483520.0,1e6,123456,1234567,1e10,-1e10,1e19,FLT_MAX,-FLT_MAX,FLT_MIN,-FLT_MIN,INFINITY,-INFINITY,NAN}; if(t==pvDouble) for(double d: {2147483647.0,2147483647.9,-2147483648.9,4294967295.5,9007199254740992.0,9.2233720368547748e18,1.8446744073709550e19,(double)FLT_MAX*1.0000001,(double)FLT_MAX*2,-(double)FLT_MAX*2,FLT_MIN/2.0,-FLT_MIN/2.0,1e-300,1e300,-1e300,DBL_MAX,DBL_MIN,4e-324,0.1f+1e-9,16777217.0}) f.push_back(d); else for(float d: {1e-45f,0.1f,16777216.0f,9.2233715e18f}) f.push_back(d);
    for(double d: f) r.push_back(sd(t,t==pvFloat?(double)(float)d:d)); return r;
}
static S neighbour(ScalarType t) { return t==pvBoolean?si(t,1):t==pvString?ss("7"):t==pvFloat||t==pvDouble?sd(t,7):si(t,7); }
SCENARIO(all_pairs) {
    ScalarType f=(ScalarType)mc::choose(12); static std::map<int,std::vector<S> > V; if(V[f].empty()) V[f]=values(f); const S& s=V[f][mc::choose(V[f].size())]; mc::op("%s to every type",show(s).c_str()); mc::state(mc::hstr(show(s)));
    for(int to=0;to<12;to++) { S o=neighbour(f); if(f==pvString&&to==pvBoolean) o=ss("true"); SDISPATCH(f, from<T>(s,o,(ScalarType)to)) X x=table(s,(ScalarType)to); mc::outcome(x.k==X::Err?"exception":x.k==X::Undef?"not defined":"value"); }
}
// every short text
static void texts(int maxlen, const char *alpha) {
    std::string t; int n=mc::choose(maxlen+1), A=strlen(alpha); for(int i=0;i<n;i++) t+=alpha[mc::choose(A)]; S s=ss(t); mc::op("'%s'",t.c_str()); mc::state(mc::hstr(t));
    for(int to=0;to<12;to++) { X x=table(s,(ScalarType)to); Got<std::string> dummy; dummy.any=false; std::string e; const ScalarType tt=(ScalarType)to;
        SDISPATCH(tt, Got<T> first; first.any=false; T g=T(); e=thrown([&]{ castUnsafeV(1,tt,&g,pvString,&t); }); judge<T>(s,x,"castUnsafeV",e,g,first)) mc::outcome(x.k==X::Err?"exception":x.k==X::Undef?"not defined":"value"); }
}
SCENARIO(short_texts) { texts(mc::tier()?5:4,"017x8a-.e+ "); }
// print and parse back
template<typename T> static void round(I v) { T t=(T)v; std::string s=castUnsafe<std::string,T>(t); T b=castUnsafe<T,std::string>(s); CHECK(b==t,"round-trip","%s prints as '%s', which parses as %s",dec(v).c_str(),s.c_str(),pr(b).c_str()); CHECK(s==dec(v),"print","%s prints as '%s'",dec(v).c_str(),s.c_str()); mc::step(); }
SCENARIO(print_parse) {
    int hi=mc::choose(256); mc::op("integers %d..",hi*256); for(int k=0;k<256;k++) { int v=hi*256+k; round<uint16>(v); round<int16>((int16)v); round<int32>(v-32768); round<int64>((I)(v-32768)*1000003LL*70001); round<uint64>((I)v*281474976710656LL+v); round<uint32>((I)v*65537); } if(hi==0) for(int v=0;v<256;v++) { round<uint8>(v); round<int8>((int8)v); } if(hi==1) for(int v=0;v<2;v++) { std::string s; boolean b=v, c=!v; castUnsafeV(1,pvString,&s,pvBoolean,&b); castUnsafeV(1,pvBoolean,&c,pvString,&s); CHECK(b==c&&s==(v?"true":"false"),"round-trip","boolean %d prints as %s",v,s.c_str()); } mc::state(hi);
}
// the Convert interface
SCENARIO(convert_interface) {
    ScalarType f=(ScalarType)mc::choose(12); if(f==pvBoolean) mc::skip(); static std::map<int,std::vector<S> > V; if(V[f].empty()) V[f]=values(f); const S& s=V[f][mc::choose(V[f].size())]; mc::op("%s",show(s).c_str()); PVScalarPtr p(getPVDataCreate()->createPVScalar(f)); SDISPATCH(f, dynamic_cast<PVScalarValue<T>&>(*p).put(mk<T>(s))) ConvertPtr c(getConvert()); std::string e; mc::state(mc::hstr(show(s)));
#define TO(T,M) { X x=table(s,(ScalarType)ScalarTypeID<T>::value); T g=T(); Got<T> first; first.any=false; e=thrown([&]{ g=c->to##M(p); }); judge<T>(s,x,"Convert::to" #M,e,g,first); }
    TO(int8,Byte) TO(int16,Short) TO(int32,Int) TO(int64,Long) TO(uint8,UByte) TO(uint16,UShort) TO(uint32,UInt) TO(uint64,ULong) TO(float,Float) TO(double,Double) TO(std::string,String)
#define FROMX(T,M) if(f==(ScalarType)ScalarTypeID<T>::value) { for(int to=0;to<12;to++) { const ScalarType tt=(ScalarType)to; PVScalarPtr q(getPVDataCreate()->createPVScalar(tt)); e=thrown([&]{ c->from##M(q,mk<T>(s)); }); X x=table(s,tt); typedef T FT; (void)sizeof(FT); std::string ee=e; judgeField(s,x,"Convert::from" #M,ee,q); } }
    auto judgeField=[&](const S& s, const X& x, const char *by, const std::string& e, const PVScalarPtr& q) { ScalarType tt=q->getScalar()->getScalarType(); SDISPATCH(tt, Got<T> first; first.any=false; judge<T>(s,x,by,e,T(dynamic_cast<PVScalarValue<T>&>(*q).get()),first)) };
    FROMX(int8,Byte) FROMX(int16,Short) FROMX(int32,Int) FROMX(int64,Long) FROMX(uint8,UByte) FROMX(uint16,UShort) FROMX(uint32,UInt) FROMX(uint64,ULong) FROMX(float,Float) FROMX(double,Double)
    if(f==pvString) for(int to=0;to<12;to++) { PVScalarPtr q(getPVDataCreate()->createPVScalar((ScalarType)to)); e=thrown([&]{ c->fromString(q,s.s); }); judgeField(s,table(s,(ScalarType)to),"Convert::fromString",e,q); }
}
// names, sizes and classes of the types
SCENARIO(type_functions) {
    static const char *NM[]={"boolean","byte","short","int","long","ubyte","ushort","uint","ulong","float","double","string"};
    int k=mc::choose(12+20); if(k<12) {
        ScalarType t=(ScalarType)k; mc::op("%s",NM[k]); bool num=k>=1&&k<=10, in=k>=1&&k<=8, un=k>=5&&k<=8;
        CHECK(ScalarTypeFunc::isInteger(t)==in&&ScalarTypeFunc::isUInteger(t)==un&&ScalarTypeFunc::isNumeric(t)==num&&ScalarTypeFunc::isPrimitive(t)==(k<11),"class","%s is integer %d, unsigned %d, numeric %d, primitive %d",NM[k],ScalarTypeFunc::isInteger(t),ScalarTypeFunc::isUInteger(t),ScalarTypeFunc::isNumeric(t),ScalarTypeFunc::isPrimitive(t));
        CHECK(std::string(ScalarTypeFunc::name(t))==NM[k]&&ScalarTypeFunc::getScalarType(NM[k])==t,"name","%s is named %s",NM[k],ScalarTypeFunc::name(t)); std::ostringstream o; o<<t; CHECK(o.str()==NM[k],"name","%s prints as %s",NM[k],o.str().c_str());
        SDISPATCH(t, CHECK(ScalarTypeFunc::elementSize(t)==sizeof(T),"size","elements of %s have %zu bytes",NM[k],ScalarTypeFunc::elementSize(t)); CHECK(ScalarTypeID<T>::value==t,"id","type id of %s",NM[k]))
        for(size_t n=0;n<4;n++) { epics::pvData::shared_vector<void> v=ScalarTypeFunc::allocArray(t,n); SDISPATCH(t, CHECK(v.original_type()==t&&v.size()==n*sizeof(T),"alloc","%zu elements of %s have type %d and %zu bytes",n,NM[k],v.original_type(),v.size()); epics::pvData::shared_vector<T> w=static_shared_vector_cast<T>(v); for(size_t i=0;i<n;i++) { w[i]=T(); CHECK(w[i]==T(),"alloc","element"); }) }
    } else {
        static const char *X[]={"","Boolean","INT","int8","byte ","bytes","dou","strin","string\n","ulongx","uLong","0"," int"}; k-=12;
        if(k<13) { mc::op("'%s'",X[k]); std::string e=thrown([&]{ ScalarTypeFunc::getScalarType(X[k]); }); CHECK(e!="","unknown","the name '%s' is accepted",X[k]); }
        else { static const int C[]={-1,12,13,255,-128,1000,0x7fffffff}; int c=C[k-13]; mc::op("code %d",c); std::string e=thrown([&]{ ScalarTypeFunc::name((ScalarType)c); }), e2=thrown([&]{ ScalarTypeFunc::elementSize((ScalarType)c); }), e3=thrown([&]{ ScalarTypeFunc::allocArray((ScalarType)c,1); }); CHECK(e!=""&&e2!=""&&e3!="","unknown","the type code %d is accepted",c); if(c!=1000) { std::string e4=thrown([&]{ TypeFunc::name((Type)(c==12?6:c)); }); CHECK(e4!="","unknown","the kind %d is accepted",c); } CHECK(!ScalarTypeFunc::isInteger((ScalarType)c)&&!ScalarTypeFunc::isUInteger((ScalarType)c)&&!ScalarTypeFunc::isNumeric((ScalarType)c),"class","code %d has a class",c); }
    }
    mc::outcome("ok");
}
#undef TO
// long arrays, with one element which may not convert
template<typename TO> static void longOne(const S& s, const S& other, size_t n, size_t at) {
    typedef PVValueArray<TO> AT; const ScalarType tt=(ScalarType)ScalarTypeID<TO>::value; X x=table(s,tt), ox=table(other,tt); if(ox.k==X::Err||ox.k==X::Undef||x.k==X::Undef) mc::skip(); S so(other), sb(s);
    const ScalarType ft=s.t; shared_vector<const void> cv; SDISPATCH(ft, shared_vector<T> v(n); T o=mk<T>(so); for(size_t i=0;i<n;i++) v[i]=o; v[at]=mk<T>(sb); cv=static_shared_vector_cast<const void>(freeze(v))) std::string e; std::tr1::shared_ptr<AT> a(getPVDataCreate()->createPVScalarArray<AT>()); shared_vector<const TO> g; PVScalarArrayPtr src(getPVDataCreate()->createPVScalarArray(ft)); SDISPATCH(ft, dynamic_cast<PVValueArray<T>&>(*src).replace(static_shared_vector_cast<const T>(cv))) PVScalarArray& ba=*a;
    for(int way=0;way<4;way++) { mc::step(); shared_vector<TO> was(2); was[0]=mk<TO>(S(neighbour(tt))); a->replace(freeze(was)); if(way==0) { e=thrown([&]{ src->getAs(g); }); } else if(way==1) e=thrown([&]{ ba.assign(*src); }); else if(way==2) { SDISPATCH(ft, e=thrown([&]{ ba.putFrom(static_shared_vector_cast<const T>(cv)); })) } else { std::vector<TO> r(n+1,TO()); std::vector<char> dummy; e=thrown([&]{ TO *q=new TO[n]; struct D { TO *q; ~D() { delete[] q; } } d={q}; castUnsafeV(n,tt,q,ft,cv.data()); shared_vector<TO> k(n); for(size_t i=0;i<n;i++) k[i]=q[i]; g=freeze(k); }); }
        bool bad=x.k==X::Err; CHECK((e=="")==!bad,e==""?"accepted":"refused","element %zu of %zu: %s to %s by way %d: %s",at,n,show(s).c_str(),ScalarTypeFunc::name(tt),way,e.c_str());
        if(bad) { if(s.t==pvString&&tt!=pvString&&way!=3) CHECK(e.find(mc::str(at))!=std::string::npos,"index","element %zu can not be converted, the exception says %s",at,e.c_str()); if(way==1||way==2) CHECK(a->getLength()==2&&same(TO(a->view()[0]),mk<TO>(S(neighbour(tt)))),"changed","a failed conversion changed the array"); continue; }
        shared_vector<const TO> r= way==1||way==2?a->view():g; CHECK(r.size()==n,"array","%zu of %zu elements",r.size(),n); for(size_t i=0;i<n;i++) CHECK(fits<TO>(i==at?x:ox,r[i]),"array","element %zu of %zu (special one: %zu) by way %d is %s",i,n,at,way,pr(TO(r[i])).c_str()); }
}
SCENARIO(long_arrays, mc::Opts().S(3)) {
    ScalarType f=(ScalarType)mc::choose(12), t=(ScalarType)mc::choose(12); static const size_t N[]={7,16,17,64,255,257,1030}; size_t n=N[mc::choose(7)]; size_t P[]={0,1,n/2,n-2,n-1}; size_t at=P[mc::choose(5)]; S bad=f==pvString?ss(mc::choose(2)?"zz":"12"):f==pvBoolean?si(f,0):f==pvFloat||f==pvDouble?sd(f,-3.5):si(f,100), o=neighbour(f); if(f==pvString&&t==pvBoolean) o=ss("true"); mc::op("%zu of %s to %s, at %zu %s",n,ScalarTypeFunc::name(f),ScalarTypeFunc::name(t),at,show(bad).c_str()); SDISPATCH(t, longOne<T>(bad,o,n,at)) mc::outcome("ok");
}
