// C31: standard structures
#include "model.h"
#include <pv/standardField.h>
#include <pv/standardPVField.h>
using namespace epics::pvData;

static const char *PROP[]={"alarm","timeStamp","display","control","valueAlarm"};
static TP alarmT() { return tStruct({"severity","status","message"},{tScalar(pvInt),tScalar(pvInt),tScalar(pvString)},"alarm_t"); }
static TP timeT() { return tStruct({"secondsPastEpoch","nanoseconds","userTag"},{tScalar(pvLong),tScalar(pvInt),tScalar(pvInt)},"time_t"); }
static TP displayT() { return tStruct({"limitLow","limitHigh","description","format","units"},{tScalar(pvDouble),tScalar(pvDouble),tScalar(pvString),tScalar(pvString),tScalar(pvString)},"display_t"); }
static TP controlT() { return tStruct({"limitLow","limitHigh","minStep"},{tScalar(pvDouble),tScalar(pvDouble),tScalar(pvDouble)},"control_t"); }
static TP boolAlarmT() { return tStruct({"active","falseSeverity","trueSeverity","changeStateSeverity"},{tScalar(pvBoolean),tScalar(pvInt),tScalar(pvInt),tScalar(pvInt)},"valueAlarm_t"); }
static TP numAlarmT(ScalarType s) { return tStruct({"active","lowAlarmLimit","lowWarningLimit","highWarningLimit","highAlarmLimit","lowAlarmSeverity","lowWarningSeverity","highWarningSeverity","highAlarmSeverity","hysteresis"},{tScalar(pvBoolean),tScalar(s),tScalar(s),tScalar(s),tScalar(s),tScalar(pvInt),tScalar(pvInt),tScalar(pvInt),tScalar(pvInt),tScalar(pvByte)},"valueAlarm_t"); }
static TP enumAlarmT() { return tStruct({"active","stateSeverity","changeStateSeverity"},{tScalar(pvBoolean),tScalar(pvInt),tScalar(pvInt)},"valueAlarm_t"); }
static TP enumT() { return tStruct({"index","choices"},{tScalar(pvInt),tArray(pvString)},"enum_t"); }
static TP elemS(int i) { return i==0?tStruct({"x"},{tScalar(pvInt)},"E"):i==1?tStruct({},{},"structure"):enumT(); }
static TP elemU(int i) { return i==0?tUnion({"i","s"},{tScalar(pvInt),tScalar(pvString)}):i==1?tUnion({"only"},{tAny()},"U")  :tAny(); }

struct What { int kind, n; };     // 0 scalar, 1 scalar array, 2 union, 3 variant union, 4 structure array, 5 union array, 6 enumerated
static What what() { What w; w.kind=mc::choose(7); w.n=w.kind<2?mc::choose(pvString+1):w.kind==2?mc::choose(2):w.kind==4||w.kind==5?mc::choose(3):0; return w; }
static const char *KNAME[]={"scalar","scalarArray","regUnion","variantUnion","structureArray","unionArray","enumerated"};
static const char *KID[]={"epics:nt/NTScalar:1.0","epics:nt/NTScalarArray:1.0","epics:nt/NTUnion:1.0","epics:nt/NTUnion:1.0","epics:nt/NTStructureArray:1.0","epics:nt/NTUnionArray:1.0","epics:nt/NTEnum:1.0"};
static TP valueT(const What& w) { switch(w.kind) { case 0: return tScalar((ScalarType)w.n); case 1: return tArray((ScalarType)w.n); case 2: return elemU(w.n); case 3: return tAny(); case 4: return tStructArr(elemS(w.n)); case 5: return w.n==2?tAnyArr():tUnionArr(elemU(w.n)); default: return enumT(); } }
// the expected type, null: refused
static TP want(const What& w, unsigned mask) {
    std::vector<std::string> n={"value"}; std::vector<TP> k={valueT(w)};
    for(int i=0;i<5;i++) if(mask&(1<<i)) { n.push_back(PROP[i]); switch(i) { case 0: k.push_back(alarmT()); break; case 1: k.push_back(timeT()); break; case 2: k.push_back(displayT()); break; case 3: k.push_back(controlT()); break;
        default: if(w.kind<2&&w.n==pvString) return TP(); if(w.kind>=2&&w.kind!=6) return TP(); k.push_back(w.kind==6?enumAlarmT():w.n==pvBoolean?boolAlarmT():numAlarmT((ScalarType)w.n)); } }
    return tStruct(n,k,KID[w.kind]);
}
static UnionConstPtr uni(int i) { return std::tr1::static_pointer_cast<const Union>(build(elemU(i))); }
static StructureConstPtr stru(int i) { return std::tr1::static_pointer_cast<const Structure>(build(elemS(i))); }
static StructureConstPtr type(const What& w, const std::string& p) { StandardFieldPtr s=StandardField::getStandardField(); switch(w.kind) { case 0: return s->scalar((ScalarType)w.n,p); case 1: return s->scalarArray((ScalarType)w.n,p); case 2: return s->regUnion(uni(w.n),p); case 3: return s->variantUnion(p); case 4: return s->structureArray(stru(w.n),p); case 5: return s->unionArray(uni(w.n),p); default: return s->enumerated(p); } }
static StringArray choices(int n) { static const char *C[]={"off","on","off",""}; StringArray r; for(int i=0;i<n;i++) r.push_back(C[i]); return r; }
static PVStructurePtr value(const What& w, const std::string& p, int nc) { StandardPVFieldPtr s=getStandardPVField(); switch(w.kind) { case 0: return s->scalar((ScalarType)w.n,p); case 1: return s->scalarArray((ScalarType)w.n,p); case 4: return s->structureArray(stru(w.n),p); case 5: return s->unionArray(uni(w.n),p); default: return s->enumerated(choices(nc),p); } }
static bool hasValue(const What& w) { return w.kind!=2&&w.kind!=3; }
// an order of a subset of the properties (repetition allowed in the thorough tier)
static std::string props(unsigned& mask) { std::string s; mask=0; int n=mc::choose(6); bool sp=n>1&&mc::choose(2); for(int i=0;i<n;i++) { int k; if(n==5&&!mc::tier()) { k=(mc::choose(i==0?5:i==1?2:1)+i)%5; for(int g=0;(mask&(1<<k))&&g<5;g++) k=(k+1)%5; } else k=mc::choose(5); if(mask&(1<<k)) { if(!mc::tier()) mc::skip(); } mask|=1<<k; s+=(s.empty()?"":sp?", ":",")+std::string(PROP[k]); } return s; }
static void judge(const What& w, const std::string& p, unsigned mask) {
    TP t=want(w,mask); bool val=hasValue(w)&&mc::choose(2); int nc=val&&w.kind==6?mc::choose(5):0; mc::op("%s%s(%s, \"%s\")",val?"value ":"",KNAME[w.kind],tstr(valueT(w)).c_str(),p.c_str()); mc::step();
    if(!val) { StructureConstPtr s; std::string e=thrown([&]{ s=type(w,p); }); if(!t) { CHECK(e!="","accepted","accepted a value alarm for %s",tstr(valueT(w)).c_str()); mc::outcome("refused"); return; } CHECK(e=="","refused","refused: %s",e.c_str()); std::string r=tcheck(s.get(),t); CHECK(r=="","type","%s",r.c_str()); StructureConstPtr again=type(w,p); CHECK(*again==*s,"again","a second call gives another type"); mc::outcome("type"); return; }
    PVStructurePtr v; std::string e=thrown([&]{ v=value(w,p,nc); }); if(!t) { CHECK(e!="","accepted","accepted a value alarm for %s",tstr(valueT(w)).c_str()); mc::outcome("refused"); return; } CHECK(e=="","refused","refused: %s",e.c_str());
    VP m=vdefault(t); if(w.kind==6) for(auto& c: choices(nc)) m->kids[0]->kids[1]->a.push_back(MS(c)); std::string r=vcheck(v.get(),m); CHECK(r=="","value","%s",r.c_str()); CHECK(v->getParent()==0&&v->getFieldOffset()==0,"top","not a top-level structure"); mc::outcome("value");
}
SCENARIO(one_structure) { What w=what(); unsigned m; std::string p=props(m); judge(w,p,m); }
// a structure does not depend on what was made before, and earlier ones stay what they are
SCENARIO(two_structures) {
    What w[2]; unsigned m[2]; std::string p[2]; StructureConstPtr s[2]; TP t[2]; PVStructurePtr v[2];
    for(int i=0;i<2;i++) { w[i].kind=mc::choose(7); static const int SM[]={pvBoolean,pvInt,pvString,pvDouble}; w[i].n=w[i].kind<2?SM[mc::choose(mc::tier()?4:2)]:0; m[i]=0; for(int k=0;k<5;k++) if((mc::tier()||k==0||k==4)&&mc::choose(2)) { m[i]|=1<<k; p[i]+=(p[i].empty()?"":",")+std::string(PROP[k]); } t[i]=want(w[i],m[i]); if(!t[i]) { std::string e=thrown([&]{ type(w[i],p[i]); }); CHECK(e!="","accepted","accepted"); continue; } mc::op("%s(%s)",KNAME[w[i].kind],p[i].c_str()); s[i]=type(w[i],p[i]); if(hasValue(w[i])) { v[i]=value(w[i],p[i],2); if(PVIntPtr x=v[i]->getSubField<PVInt>("alarm.severity")) x->put(2); } mc::step(); }
    for(int i=0;i<2;i++) { if(!s[i]) continue; std::string r=tcheck(s[i].get(),t[i]); CHECK(r=="","type","%d: %s",i,r.c_str()); if(v[i]) { VP x=vdefault(t[i]); if(w[i].kind==6) for(auto& c: choices(2)) x->kids[0]->kids[1]->a.push_back(MS(c)); if(m[i]&1) x->kids[1]->kids[0]->s=MS(2); r=vcheck(v[i].get(),x); CHECK(r=="","value","%d: %s",i,r.c_str()); } }
    mc::outcome("made");
}
SCENARIO(single_parts) {
    StandardFieldPtr s=StandardField::getStandardField(); CHECK(s.get()==StandardField::getStandardField().get(),"single","two StandardField objects"); int k=mc::choose(19); StructureConstPtr f; TP t;
    switch(k) { case 0: f=s->alarm(); t=alarmT(); break; case 1: f=s->timeStamp(); t=timeT(); break; case 2: f=s->display(); t=displayT(); break; case 3: f=s->control(); t=controlT(); break; case 4: f=s->booleanAlarm(); t=boolAlarmT(); break;
    case 5: f=s->byteAlarm(); t=numAlarmT(pvByte); break; case 6: f=s->ubyteAlarm(); t=numAlarmT(pvUByte); break; case 7: f=s->shortAlarm(); t=numAlarmT(pvShort); break; case 8: f=s->ushortAlarm(); t=numAlarmT(pvUShort); break; case 9: f=s->intAlarm(); t=numAlarmT(pvInt); break; case 10: f=s->uintAlarm(); t=numAlarmT(pvUInt); break; case 11: f=s->longAlarm(); t=numAlarmT(pvLong); break; case 12: f=s->ulongAlarm(); t=numAlarmT(pvULong); break; case 13: f=s->floatAlarm(); t=numAlarmT(pvFloat); break; case 14: f=s->doubleAlarm(); t=numAlarmT(pvDouble); break; case 15: f=s->enumeratedAlarm(); t=enumAlarmT(); break; case 16: f=s->enumerated(); t=enumT(); break;
    case 17: { int n=mc::choose(5); mc::op("value enumerated %d",n); PVStructurePtr v=getStandardPVField()->enumerated(choices(n)); VP m=vdefault(enumT()); for(auto& c: choices(n)) m->kids[1]->a.push_back(MS(c)); std::string r=vcheck(v.get(),m); CHECK(r=="","value","%s",r.c_str()); mc::step(); mc::outcome("value"); return; }
    default: { // nesting a standard structure as the value of another one
        TP e=want(What{0,pvInt},1); StructureConstPtr q=getFieldCreate()->createFieldBuilder()->add("p",type(What{0,pvInt},"alarm"))->createStructure(); StructureConstPtr z=s->structureArray(q,"timeStamp"); TP w=tStruct({"value","timeStamp"},{tStructArr(tStruct({"p"},{e})),timeT()},KID[4]); std::string r=tcheck(z.get(),w); CHECK(r=="","type","%s",r.c_str()); mc::step(); mc::outcome("type"); return; } }
    mc::op("part %d",k); std::string r=tcheck(f.get(),t); CHECK(r=="","type","part %d: %s",k,r.c_str()); mc::step(); mc::outcome("type");
}
