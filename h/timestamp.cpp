// C28: TimeStamp
#include "pvdh.h"
#include <math.h>
#include <pv/timeStamp.h>
#include <epicsTime.h>
using namespace epics::pvData;
typedef __int128 ns_t; static const ns_t G=1000000000;
struct M { ns_t t; int32 tag; M() :t(0), tag(0) {} };
static int64 floorDiv(ns_t a, ns_t b) { ns_t q=a/b; return (int64)(a%b<0?q-1:q); }
static std::string show(const M& m) { int64 s=floorDiv(m.t,G); return mc::str(s)+"s+"+mc::str((int64)(m.t-s*G))+"ns"; }
static void check(const TimeStamp& t, const M& m, const char *what) {
    CHECK(t.getNanoseconds()>=0&&t.getNanoseconds()<1000000000,"normal","%s leaves %lld s %d ns",what,(long long)t.getSecondsPastEpoch(),t.getNanoseconds());
    CHECK((ns_t)t.getSecondsPastEpoch()*G+t.getNanoseconds()==m.t,"value","%s gives %lld s %d ns want %s",what,(long long)t.getSecondsPastEpoch(),t.getNanoseconds(),show(m).c_str()); CHECK(t.getUserTag()==m.tag,"tag","%s: user tag %d want %d",what,t.getUserTag(),m.tag);
    CHECK(t.getEpicsSecondsPastEpoch()==t.getSecondsPastEpoch()-631152000,"epics","%s: seconds of the EPICS epoch",what);
    TimeStamp c(t); CHECK(c.getMilliseconds()==floorDiv(m.t,1000000),"ms","%s: %lld milliseconds of %s",what,(long long)c.getMilliseconds(),show(m).c_str());
    double d=t.toSeconds(), w=(double)((long double)m.t/1e9L); CHECK(fabs(d-w)<=fabs(w)*3e-16+1e-15,"seconds","%s: toSeconds %.17g want %.17g",what,d,w);
    c.normalize(); CHECK(c==t&&c.getSecondsPastEpoch()==t.getSecondsPastEpoch()&&c.getNanoseconds()==t.getNanoseconds(),"normal","normalize() changes a normal time");
}
static void compare(const TimeStamp& a, const M& x, const TimeStamp& b, const M& y) {
    bool eq=x.t==y.t, lt=x.t<y.t; CHECK((a==b)==eq&&(a!=b)==!eq&&(a<b)==lt&&(a<=b)==(lt||eq)&&(a>b)==(!lt&&!eq)&&(a>=b)==!lt,"compare","%s and %s: == %d != %d < %d <= %d > %d >= %d",show(x).c_str(),show(y).c_str(),a==b,a!=b,a<b,a<=b,a>b,a>=b);
    double d=TimeStamp::diff(a,b), w=(double)((long double)(x.t-y.t)/1e9L); CHECK(fabs(d-w)<=fabs(w)*3e-16+1e-9*1e-6,"diff","diff of %s and %s is %.17g want %.17g",show(x).c_str(),show(y).c_str(),d,w); mc::step(); mc::outcome(eq?"equal":lt?"earlier":"later");
}
static const int64 S[]={0,1,-1,2,-2,631152000,631151999,1700000000,-62135596800ll,253402300799ll,9223372036ll,9223372037ll,-9223372037ll,1ll<<40,-(1ll<<40),4294967295ll,2147483648ll};
static const int32 N[]={0,1,-1,999999999,1000000000,-1000000000,1999999999,-999999999,2147483647,-2147483647-1,500000000,999999,1000000};
static const int NS=sizeof(S)/sizeof(*S), NN=sizeof(N)/sizeof(*N);
static M model(int64 s, int32 n) { M m; m.t=(ns_t)s*G+n; return m; }
SCENARIO(pairs) { int64 s=S[mc::choose(NS)]; int32 n=N[mc::choose(NN)]; M x=model(s,n); x.tag=7; TimeStamp a(s,n,7); mc::op("%s",show(x).c_str()); check(a,x,"constructor"); TimeStamp z; check(z,M(),"default"); z.put(s,n); M p=model(s,n); check(z,p,"put"); mc::state(mc::hmix(s,n)); for(int i=0;i<NS;i++) for(int j=0;j<NN;j++) { TimeStamp b(S[i],N[j]); compare(a,x,b,model(S[i],N[j])); } }
static const double D[]={0.0,0.5,-0.5,1.0,-1.0,0.999999999,-0.999999999,1e-9,-1e-9,1.5,-1.5,0.1,-0.1,123456.789,-123456.789,1e9,-1e9,0.25,0.75,-0.75,1e-10,3.0000000001,1e12,-1e12,0.9999999999,-0.9999999999};
static void op(TimeStamp& t, M& m) {
    switch(mc::choose(7)) {
    case 0: { int64 s=S[mc::choose(mc::tier()?NS:5)]; int32 n=N[mc::choose(mc::tier()?NN:6)]; mc::op("put %lld %d",(long long)s,n); t.put(s,n); m.t=model(s,n).t; check(t,m,"put"); break; }
    case 1: { static const int64 MS[]={0,1,-1,999,1000,-999,-1000,-1001,1700000000123ll,-1700000000123ll,-62135596800001ll}; int64 v=MS[mc::choose(11)]; mc::op("put %lld ms",(long long)v); void (TimeStamp::*f)(int64)=&TimeStamp::put; (t.*f)(v); m.t=(ns_t)v*1000000; check(t,m,"put of milliseconds"); break; }
    case 2: { int64 v=S[mc::choose(mc::tier()?NS:6)]; mc::op("+= %lld",(long long)v); CHECK(&(t+=v)==&t,"self","+= does not return the time"); m.t+=(ns_t)v*G; check(t,m,"+="); break; }
    case 3: { int64 v=S[mc::choose(mc::tier()?NS:6)]; mc::op("-= %lld",(long long)v); t-=v; m.t-=(ns_t)v*G; check(t,m,"-="); break; }
    case 4: case 5: { double v=D[mc::choose(mc::tier()?26:26)]; bool minus=mc::choose(2); mc::op("%s %.17g",minus?"-=":"+=",v); if(minus) t-=v; else t+=v; long double w=(long double)(minus?-v:v)*1e9L; long double got=(long double)((ns_t)t.getSecondsPastEpoch()*G+t.getNanoseconds()-m.t), tol=1+fabsl(w)*3e-16L; CHECK(fabsl(got-w)<=tol,"value","adding %.17g s to %s moves by %.3Lf ns",minus?-v:v,show(m).c_str(),got); m.t=(ns_t)t.getSecondsPastEpoch()*G+t.getNanoseconds(); check(t,m,"+= of a fraction"); break; }
    default: { int32 v=mc::choose(2)?-5:2147483647; mc::op("tag %d",v); t.setUserTag(v); m.tag=v; check(t,m,"setUserTag"); }
    }
    mc::step(); mc::state(mc::hmix((uint64_t)m.t,mc::hmix((uint64_t)(m.t>>64),m.tag)));
}
SCENARIO(sequences, mc::Opts().S(3)) { TimeStamp t(1,999999999,3), t0(t); M m=model(1,999999999); m.tag=3; M m0=m; int n=mc::tier()?3:2; for(int i=0;i<n;i++) op(t,m); compare(t,m,t0,m0); compare(t0,m0,t,m); }
SCENARIO(time_t_) { static const int64 T[]={631152001,631152000,1000000000,1700000000,2147483647,2147483648ll,4294967295ll,4294967296ll,631152000+4294967295ll}; time_t x=T[mc::choose(9)]; TimeStamp t(5,7,9); t.fromTime_t(x); M m=model(x,0); m.tag=9; mc::op("%lld",(long long)x); check(t,m,"fromTime_t"); TimeStamp u(x,N[mc::choose(NN)]); if(u.getSecondsPastEpoch()<631152000||u.getSecondsPastEpoch()>631152000+4294967295ll) { mc::outcome("out of range"); return; } time_t y=0; u.toTime_t(y); CHECK(y==u.getSecondsPastEpoch(),"time_t","toTime_t %lld of %lld",(long long)y,(long long)u.getSecondsPastEpoch()); mc::step(); mc::outcome("there and back"); }
SCENARIO(current) { epicsTimeStamp a, b; epicsTimeGetCurrent(&a); TimeStamp t; t.setUserTag(4); t.getCurrent(); epicsTimeGetCurrent(&b); TimeStamp x(a.secPastEpoch+631152000ll,a.nsec), y(b.secPastEpoch+631152000ll,b.nsec); CHECK(x<=t&&t<=y&&t.getUserTag()==4,"current","the current time is not between two readings of the clock"); mc::step(); mc::outcome("now"); }
