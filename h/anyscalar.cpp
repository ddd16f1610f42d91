// C11: a type-erased scalar holds exactly one typed value
#include "model.h"
#include <pv/anyscalar.h>
#include <pv/typeCast.h>
using namespace epics::pvData;
template<typename T> static constexpr bool isStr() { return std::is_same<T,std::string>::value; }
struct M { int t; MS v; M():t(-1) {} bool operator==(const M& o) const { return t==o.t&&(t<0||v==o.v); } };
static std::string show(const M& m) { return m.t<0?std::string("(nil)"):std::string(ScalarTypeFunc::name((ScalarType)m.t))+" "+(m.t==pvString?m.v.s:sfmt("%llx",(unsigned long long)m.v.u)); }
template<typename T> static M mk(int which) { M m; m.t=(ScalarType)ScalarTypeID<T>::value; m.v=sval((ScalarType)m.t,which); if(m.t==pvBoolean) m.v=MS((uint64_t)(which&1)); return m; }
template<> M mk<std::string>(int which) { M m; m.t=pvString; m.v=MS(which==0?std::string():which==1?std::string("5"):std::string(200,'x')+std::string("\0end",4)); return m; }
static std::string direct(const M& m, ScalarType tt, void *w) { std::string f; const ScalarType st=(ScalarType)m.t; SDISPATCH(st, T s=Conv<T>::to(m.v); f=thrown([&]{ castUnsafeV(1,tt,w,st,&s); })) return f; }
template<typename T> static std::string as(const AnyScalar& a, const M& m) {
    const ScalarType tt=(ScalarType)ScalarTypeID<T>::value; T g=T(), w=T(); std::string e=thrown([&]{ g=a.as<T>(); }), r;
    if(m.t<0) return e!=""?"":std::string("as<")+ScalarTypeFunc::name(tt)+"> of an empty one accepted";
    std::string f(direct(m,tt,&w));
    if((e=="")!=(f=="")) return std::string("as<")+ScalarTypeFunc::name(tt)+"> "+(e==""?"accepted":"refused: "+e); if(e==""&&!(Conv<T>::from(g)==Conv<T>::from(w))) return std::string("as<")+ScalarTypeFunc::name(tt)+"> differs from the conversion"; return "";
}
template<typename T> static std::string ref(AnyScalar& a, const M& m) {
    const ScalarType tt=(ScalarType)ScalarTypeID<T>::value; T g=T(), h=T(); const AnyScalar& c=a; bool bc=false, bd=false; try { g=a.ref<T>(); } catch(AnyScalar::bad_cast&) { bc=true; } try { h=c.ref<T>(); } catch(AnyScalar::bad_cast&) { bd=true; }
    if(bc!=bd||bc!=(m.t!=tt)) return std::string("ref<")+ScalarTypeFunc::name(tt)+"> "+(bc?"refused":"accepted"); if(!bc&&!(Conv<T>::from(g)==m.v&&Conv<T>::from(h)==m.v)) return std::string("ref<")+ScalarTypeFunc::name(tt)+"> gives another value"; return "";
}
static void check(AnyScalar& a, const M& m, const char *nm, const std::string& what, bool full) {
    CHECK((int)a.type()==m.t&&a.empty()==(m.t<0)&&bool(a)==(m.t>=0),"type","after %s: %s has type %d (empty %d), want %s",what.c_str(),nm,(int)a.type(),a.empty(),show(m).c_str()); std::string r;
    if(m.t>=0&&!full) { SDISPATCH(((ScalarType)m.t), r=ref<T>(a,m)) CHECK(r=="","ref","after %s: %s of %s: %s",what.c_str(),nm,show(m).c_str(),r.c_str()); }
    if(full) { for(int t=0;t<12;t++) { SDISPATCH(((ScalarType)t), r=ref<T>(a,m); if(r=="") r=as<T>(a,m)) CHECK(r=="","access","after %s: %s of %s: %s",what.c_str(),nm,show(m).c_str(),r.c_str()); }
        if(m.t==pvString) CHECK(!memcmp(m.v.s.c_str(),a.bufferUnsafe(),m.v.s.size()+1),"buffer","bufferUnsafe"); else if(m.t>=0) { SDISPATCH(((ScalarType)m.t), T x; if(!isStr<T>()) memcpy((void*)&x,a.bufferUnsafe(),sizeof(x)); r=(isStr<T>()||Conv<T>::from(x)==m.v)?"":"bufferUnsafe") CHECK(r=="","buffer","%s",r.c_str()); }
        std::string p=mc::str((const AnyScalar&)a); if(m.t<0) CHECK(p=="(nil)","print","empty one prints as %s",p.c_str()); else if(m.t==pvString) CHECK(p==m.v.s,"print","prints as %s",p.c_str()); else if(m.t==pvInt||m.t==pvLong||m.t==pvShort) CHECK(p==mc::str((int64_t)m.v.u),"print","%s prints as %s",show(m).c_str(),p.c_str()); else if(m.t==pvUInt||m.t==pvULong||m.t==pvUShort) CHECK(p==mc::str(m.v.u),"print","%s prints as %s",show(m).c_str(),p.c_str());
    }
}
template<typename T> static void setT(AnyScalar& a, M& m, int how, int w) {
    m=mk<T>(w); T v=Conv<T>::to(m.v); switch(how) { case 0: a=v; break; case 1: a=AnyScalar(v); break; case 2: { AnyScalar t(((ScalarType)m.t),(const void*)&v); a=t; break; } case 3: { const T c=v; AnyScalar t(c); a.swap(t); break; } case 4: { PVScalarPtr p(getPVDataCreate()->createPVScalar((ScalarType)m.t)); p->putFrom<T>(v); p->getAs(a); break; } }
}
static void start(AnyScalar& a, M& m) { int n=mc::choose(6); switch(n) { case 0: return; case 1: setT<std::string>(a,m,1,2); return; case 2: setT<std::string>(a,m,0,1); return; case 3: setT<double>(a,m,1,2); return; case 4: setT<boolean>(a,m,1,1); return; case 5: setT<int32>(a,m,1,2); } }
static void run(int depth, bool all) {
    AnyScalar o[2]; M m[2]; start(o[0],m[0]); start(o[1],m[1]); mc::op("start %s, %s",show(m[0]).c_str(),show(m[1]).c_str());
    for(int d=0;d<depth;d++) { bool last=d==depth-1; int k=mc::choose(2); AnyScalar &a=o[k], &b=o[!k]; M &x=m[k], &y=m[!k]; std::string what;
        switch(mc::choose(12)) {
        case 0: { static const int few[4]={pvString,pvDouble,pvBoolean,pvInt}; if(last&&!all) mc::skip(); int t=all?mc::choose(12):few[mc::choose(4)], w=t==pvString?mc::choose(2)+1:2, how=all&&last?mc::choose(5):0; SDISPATCH(((ScalarType)t), setT<T>(a,x,how,w)) what="assigning "+show(x); break; }
        case 1: a=b; x=y; what="copy assignment"; break;
        case 2: a=std::move(b); x=y; y=M(); what="move assignment"; break;
        case 3: a.swap(b); std::swap(x,y); what="swap"; break;
        case 4: a.clear(); x=M(); what="clear"; break;
        case 5: { AnyScalar t(a); a.clear(); b=t; y=x; x=M(); what="copy construction"; break; }
        case 6: { AnyScalar t(std::move(a)); M tm=x; x=M(); check(a,x,"moved from","move construction",last&&all); check(t,tm,"moved to","move construction",last&&all); b=std::move(t); y=tm; what="move construction"; break; }
        case 7: { AnyScalar& s=a; a=s; what="self assignment"; break; }
        case 8: { a.swap(a); what="self swap"; break; }
        case 9: if(x.t<0) mc::skip(); x.v=mk<std::string>(0).v; SDISPATCH(((ScalarType)x.t), (x=mk<T>(1), a.ref<T>()=Conv<T>::to(x.v))) what="changing through ref"; break;
        case 10: { AnyScalar *h=new AnyScalar(a); AnyScalar *g=new AnyScalar(std::move(*h)); delete h; b=*g; delete g; y=x; what="copies on the heap"; break; }
        case 11: { a="text"; M n; n.t=pvString; n.v=MS("text"); x=n; if(mc::choose(2)) { a=42; x=M(); x.t=pvInt; x.v=MS((uint64_t)42); } what="assigning a constant"; break; }
        }
        mc::op("%d: %s",k,what.c_str()); for(int j=0;j<2;j++) { check(o[j],m[j],j?"1":"0",what,last&&all); mc::state(mc::hmix(mc::hstr(show(m[j])),j)); } mc::outcome(show(m[0]).substr(0,6));
    }
}
SCENARIO(sequences, mc::Opts().S(4)) { run(3,false); }
SCENARIO(pairs_all, mc::Opts().S(4)) { run(2,true); }
SCENARIO(sequences_all, mc::Opts().S(4), 1) { run(3,true); }
SCENARIO(every_value) { int t=mc::choose(12), w=mc::choose(3), how=mc::choose(5), u=mc::choose(12); AnyScalar a; M m; start(a,m); SDISPATCH(((ScalarType)t), setT<T>(a,m,how,w)) mc::op("%s",show(m).c_str()); check(a,m,"it","assignment",true); AnyScalar b; M n; SDISPATCH(((ScalarType)u), setT<T>(b,n,0,1)) a.swap(b); check(a,n,"it","swap",true); check(b,m,"other","swap",true); AnyScalar c(b); c.clear(); check(b,m,"other","clearing a copy",false); mc::state(mc::hmix(mc::hstr(show(m)),u)); }
