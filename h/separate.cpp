// C34: threads which work with values of their own need no locks. The values have the same types and share array data.
#include "schedh.h"
#include <pv/pvData.h>
#include <pv/convert.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/createRequest.h>
#include <pv/bitSetUtil.h>
#include <pv/pvSubArrayCopy.h>
#include <pv/valueBuilder.h>
#include <pv/anyscalar.h>
#include <pv/json.h>
#include <pv/status.h>
#include <pv/byteBuffer.h>
#include <pv/serialize.h>
#include <pv/serializeHelper.h>
#include <pv/timeStamp.h>
#include <pv/pvTimeStamp.h>
#include <pv/pvAlarm.h>
#include <pv/pvControl.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
#include <pv/reftrack.h>
#include <pv/event.h>
#include <pv/lock.h>
#include <pv/epicsException.h>
#include <epicsEndian.h>
#include <sstream>
#include <iomanip>
using namespace epics::pvData;
using std::string;
namespace {
// a private stream
struct Wire : public SerializableControl, public DeserializableControl {
    std::vector<char> mem, all; ByteBuffer buf; size_t given;
    Wire(size_t cap, bool be) :mem(cap), buf(&mem[0],cap,be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE), given(0) {}
    void flushSerializeBuffer() { all.insert(all.end(),mem.begin(),mem.begin()+buf.getPosition()); buf.clear(); }
    void ensureBuffer(std::size_t n) { if(buf.getRemaining()<n) flushSerializeBuffer(); }
    bool directSerialize(ByteBuffer*, const char*, std::size_t, std::size_t) { return false; }
    void cachedSerialize(FieldConstPtr const& f, ByteBuffer *b) { f->serialize(b,this); }
    // receiving
    void begin() { flushSerializeBuffer(); given=0; buf.setLimit(0); }
    void ensureData(std::size_t n) { size_t r=buf.getRemaining(); if(r>=n) return; std::vector<char> rest(mem.begin()+buf.getPosition(),mem.begin()+buf.getPosition()+r); buf.clear(); for(char c: rest) buf.putByte(c); while(buf.getRemaining()&&given<all.size()) buf.putByte(all[given++]); buf.flip(); if(buf.getRemaining()<n) throw std::runtime_error("no more data"); }
    void alignData(std::size_t) {}
    bool directDeserialize(ByteBuffer*, char*, std::size_t, std::size_t) { return false; }
    FieldConstPtr cachedDeserialize(ByteBuffer *b) { return getFieldCreate()->deserialize(b,this); }
    string hex() { string s; char t[4]; for(char c: all) { snprintf(t,sizeof t,"%02x",c&0xff); s+=t; } return s; }
};
// what the threads have in common: types and constant data
struct Common { StructureConstPtr type; PVDoubleArray::const_svector d; PVStringArray::const_svector s; };
StructureConstPtr theType() {
    return getFieldCreate()->createFieldBuilder()->setId("top/1")->add("i",pvInt)->add("s",pvString)->addArray("d",pvDouble)->addArray("t",pvString)->addBoundedString("b",9)
        ->addNestedStructure("n")->add("x",pvUByte)->add("y",pvDouble)->endNested()
        ->addNestedUnion("u")->add("ui",pvInt)->add("us",pvString)->endNested()->add("v",getFieldCreate()->createVariantUnion())
        ->addNestedStructureArray("a")->add("q",pvLong)->endNested()
        ->add("alarm",getStandardField()->alarm())->add("timeStamp",getStandardField()->timeStamp())->add("e",getStandardField()->enumerated())->createStructure();
}
PVStructurePtr value(const Common& c, int k) {
    PVStructurePtr v=getPVDataCreate()->createPVStructure(c.type);
    v->getSubFieldT<PVInt>("i")->put(100+k); v->getSubFieldT<PVString>("s")->put(string("text \"")+char('a'+k)+"\"\n"); v->getSubFieldT<PVDoubleArray>("d")->replace(c.d); v->getSubFieldT<PVStringArray>("t")->replace(c.s);
    v->getSubFieldT<PVUByte>("n.x")->put(k); v->getSubFieldT<PVDouble>("n.y")->put(k+0.5);
    if(k&1) v->getSubFieldT<PVUnion>("u")->select<PVInt>("ui")->put(k); else v->getSubFieldT<PVUnion>("u")->select<PVString>("us")->put("u");
    if(k&1) v->getSubFieldT<PVUnion>("v")->set(getPVDataCreate()->createPVScalar<PVShort>());
    PVStructureArrayPtr a=v->getSubFieldT<PVStructureArray>("a"); PVStructureArray::svector l(2); l[0]=getPVDataCreate()->createPVStructure(a->getStructureArray()->getStructure()); l[0]->getSubFieldT<PVLong>("q")->put(k); a->replace(freeze(l));
    return v;
}
string dump(const PVStructurePtr& v) { std::ostringstream o; o<<*v; return o.str(); }
typedef std::ostringstream OS;
struct Menu { const char *name; string (*fn)(const Common&, int); };
const Menu MENU[]={
 {"make and print", [](const Common& c, int k) { return dump(value(c,k)); }},
 {"copy and compare", [](const Common& c, int k) { PVStructurePtr a=value(c,k), b=getPVDataCreate()->createPVStructure(a), d=getPVDataCreate()->createPVStructure(c.type); OS o; o<<(*a==*b)<<(*a==*d); d->copy(*a); o<<(*a==*d); d->getSubFieldT<PVDoubleArray>("d")->replace(PVDoubleArray::const_svector()); o<<(*a!=*d)<<dump(b); return o.str(); }},
 {"send and receive", [](const Common& c, int k) { PVStructurePtr a=value(c,k), b=getPVDataCreate()->createPVStructure(c.type); Wire w(k&2?64:700,k&1); a->serialize(&w.buf,&w); w.begin(); b->deserialize(&w.buf,&w); return w.hex()+(*a==*b?"same":"different"); }},
 {"send and receive a part", [](const Common& c, int k) { PVStructurePtr a=value(c,k), b=getPVDataCreate()->createPVStructure(c.type); Wire w(k&2?64:700,k&1); BitSet m; m.set(1+k); m.set(a->getSubFieldT("n")->getFieldOffset()); m.set(a->getSubFieldT("u")->getFieldOffset()); m.serialize(&w.buf,&w); a->serialize(&w.buf,&w,&m); w.begin(); BitSet n; n.deserialize(&w.buf,&w); b->deserialize(&w.buf,&w,&n); OS o; o<<w.hex()<<n<<dump(b); return o.str(); }},
 {"send and receive the type", [](const Common& c, int k) { Wire w(k&2?64:700,k&1); c.type->serialize(&w.buf,&w); w.begin(); FieldConstPtr f=getFieldCreate()->deserialize(&w.buf,&w); return w.hex()+(f==c.type?"same":"other"); }},
 {"print as JSON and parse", [](const Common& c, int k) { PVStructurePtr a=value(c,k), b=getPVDataCreate()->createPVStructure(c.type); BitSet m,as; m.set(1+k); m.set(3); m.set(a->getSubFieldT("n")->getFieldOffset()); OS o; JSONPrintOptions op; op.multiLine=k&1; printJSON(o,*a,m,op); std::istringstream i(o.str()); parseJSON(i,*b,&as); o<<as<<dump(b); return o.str(); }},
 {"parse any JSON", [](const Common& c, int k) { std::istringstream i(k&1?"{\"a\":1, // c\n \"b\":{\"c\":[1.5,2.5],\"d\":\"x\"}}":"{\"z\":true,\"y\":[\"a\",\"b\"]}"); return dump(parseJSON(i)); }},
 {"bad JSON", [](const Common& c, int k) { PVStructurePtr a=value(c,k); std::istringstream i(k&1?"{\"i\":1,\n\"nosuch\":2}":"{\"i\":1,\n\"s\":}"); try { parseJSON(i,*a); return string("accepted"); } catch(std::exception& e) { return string(e.what())+dump(a); } }},
 {"parse a request", [](const Common& c, int k) { OS o; o<<*createRequest(k&1?"record[a=b]putField(n{x,y},i)getField(s)":"field(n.x[o=1],u,alarm.status)"); try { createRequest(k&1?"field(a":"field(a,a)"); } catch(std::exception& e) { o<<e.what(); } CreateRequest::shared_pointer p=CreateRequest::create(); if(!p->createRequest("field(a[)")) o<<p->getMessage(); return o.str(); }},
 {"map a request", [](const Common& c, int k) { PVStructurePtr a=value(c,k); PVRequestMapper m; m.compute(*a,*createRequest(k&1?"field(n.x,s,nosuch)":"field(u,i,alarm{status})"),k&1?PVRequestMapper::Slice:PVRequestMapper::Mask); PVStructurePtr r=m.buildRequested(); BitSet all,got; all.set(0); m.copyBaseToRequested(*a,all,*r,got); PVStructurePtr b=m.buildBase(); BitSet back; m.copyBaseFromRequested(*b,back,*r,got); OS o; o<<m.warnings()<<m.requestedMask()<<got<<back<<dump(r)<<dump(b); return o.str(); }},
 {"bit sets", [](const Common& c, int k) { PVStructurePtr a=value(c,k); BitSet m; for(size_t i=k;i<a->getNumberFields();i+=1+(k&1)) m.set(i); BitSet x(m); x.flip(70); x|=m; x.or_and(m,x); OS o; o<<m<<x<<x.cardinality(); o<<BitSetUtil::compress(std::tr1::shared_ptr<BitSet>(new BitSet(m)),a); return o.str(); }},
 {"convert", [](const Common& c, int k) { PVStructurePtr a=value(c,k); ConvertPtr cv=getConvert(); OS o; PVScalarPtr i=a->getSubFieldT<PVInt>("i"); o<<cv->toString(i)<<cv->toDouble(i); cv->fromString(i,k&1?"0x1f":"-7"); o<<cv->toLong(i); PVScalarArrayPtr d=a->getSubFieldT<PVDoubleArray>("d"); cv->fromString(d,k&1?"[1,2.5,3]":"4 , 5"); o<<*d; StringArray t; t.push_back("8"); t.push_back("9"); d->setLength(2); o<<cv->fromStringArray(d,0,2,t,0); StringArray u; o<<cv->toStringArray(d,0,2,u,0); for(string& s: u) o<<s<<","; try { cv->fromString(i,"zz"); } catch(std::exception& e) { o<<e.what(); } return o.str(); }},
 {"casts", [](const Common& c, int k) { OS o; o<<castUnsafe<string>(k+1.25)<<castUnsafe<int32>(string("12"))<<castUnsafe<double>(string("1e3"))<<castUnsafe<string>(uint8(k))<<castUnsafe<boolean>(string("true")); try { castUnsafe<int8>(string("300")); } catch(std::exception& e) { o<<e.what(); } shared_vector<string> s(shared_vector_convert<string>(c.d)); for(size_t i=0;i<s.size();i++) o<<s[i]; o<<print_cast(1.0f/3); shared_vector<const int16> t(shared_vector_convert<const int16>(static_shared_vector_cast<const void>(c.d))); o<<t; return o.str(); }},
 {"status", [](const Common& c, int k) { Status s(k&1?Status::STATUSTYPE_WARNING:Status::STATUSTYPE_ERROR,string("message")+char('0'+k),"stack"); Wire w(k&2?64:700,k&1); s.serialize(&w.buf,&w); Status::Ok.serialize(&w.buf,&w); w.begin(); Status r,q; r.deserialize(&w.buf,&w); q.deserialize(&w.buf,&w); q.maximize(r); OS o; o<<s<<r<<q<<Status::Ok<<r.isSuccess()<<Status::StatusTypeName[k&1]; r=Status::Ok; o<<r; return o.str(); }},
 {"time stamps", [](const Common& c, int k) { PVStructurePtr a=value(c,k); PVTimeStamp p; p.attach(a->getSubFieldT<PVStructure>("timeStamp")); TimeStamp t(1000+k,5,k), u; p.set(t); p.get(u); t+=0.25*k; t-=1.5; OS o; o<<t.getSecondsPastEpoch()<<t.getNanoseconds()<<(t<u)<<TimeStamp::diff(t,u)<<u.getMilliseconds(); time_t tt; u.toTime_t(tt); o<<tt; t.put(static_cast<int64>(123456+k),int32(k)); o<<t.getSecondsPastEpoch()<<dump(a); return o.str(); }},
 {"properties", [](const Common& c, int k) { PVStructurePtr a=value(c,k); PVAlarm p; OS o; o<<p.attach(a->getSubFieldT<PVStructure>("alarm")); Alarm al; al.setMessage("m"); al.setSeverity(k&1?majorAlarm:minorAlarm); al.setStatus(deviceStatus); p.set(al); Alarm b; p.get(b); o<<b.getMessage()<<(*AlarmSeverityFunc::getSeverityNames())[b.getSeverity()]<<(*AlarmStatusFunc::getStatusNames())[b.getStatus()]; PVEnumerated e; o<<e.attach(a->getSubFieldT<PVStructure>("e")); StringArray ch; ch.push_back("zero"); ch.push_back(k&1?"one":"eins"); e.setChoices(ch); e.setIndex(1); o<<e.getChoice()<<dump(a); PVStructurePtr s=getStandardPVField()->scalar(pvDouble,"control,display"); PVControl ct; PVDisplay dp; ct.attach(s->getSubFieldT("control")); dp.attach(s->getSubFieldT("display")); Control cx; cx.setHigh(k); ct.set(cx); Display dx; dx.setUnits("V"); dp.set(dx); o<<dump(s); return o.str(); }},
 {"unions", [](const Common& c, int k) { PVStructurePtr a=value(c,k); PVUnionPtr u=a->getSubFieldT<PVUnion>("u"), v=a->getSubFieldT<PVUnion>("v"); u->select("us"); u->get<PVString>()->put("new"); v->set(u->get()); OS o; o<<u->getSelectedFieldName()<<u->getSelectedIndex(); v->copyUnchecked(*v); try { u->select("zz"); } catch(std::exception& e) { o<<e.what(); } o<<dump(a); u->select(PVUnion::UNDEFINED_INDEX); o<<dump(a); int32 g=u->getUnion()->guess(scalar,pvUInt); o<<g; return o.str(); }},
 {"look up", [](const Common& c, int k) { PVStructurePtr a=value(c,k); OS o; o<<a->getSubFieldT("n.y")->getFieldOffset()<<a->getSubFieldT(size_t(3+k))->getFullName()<<a->getNumberFields()<<!a->getSubField("n.z")<<!a->getSubField<PVDouble>("i"); try { a->getSubFieldT<PVInt>(k&1?"n.q":"s"); } catch(std::exception& e) { o<<e.what(); } const StructureConstPtr& t=c.type; o<<t->getFieldIndex("u")<<t->getField("n")->getType()<<!t->getField("zz")<<t->getID()<<t->getFieldName(2); try { t->getFieldT("n.zz"); } catch(std::exception& e) { o<<e.what(); } return o.str(); }},
 {"array data", [](const Common& c, int k) { PVStructurePtr a=value(c,k); PVDoubleArrayPtr d=a->getSubFieldT<PVDoubleArray>("d"); PVDoubleArray::svector w(d->reuse()); w.resize(4+k,9.5); w[0]=k; d->replace(freeze(w)); PVStringArrayPtr t=a->getSubFieldT<PVStringArray>("t"); PVStringArray::const_svector old(t->view()); t->replace(PVStringArray::const_svector()); PVStringArray::svector x(thaw(old)); x.push_back("more"); x[0]="first"; t->replace(freeze(x)); d->setLength(2); t->setLength(5); PVStructureArrayPtr s=a->getSubFieldT<PVStructureArray>("a"); s->append(2); s->remove(0,1); s->compress(); OS o; o<<dump(a)<<c.d.size()<<c.s.size(); return o.str(); }},
 {"array as other type", [](const Common& c, int k) { PVStructurePtr a=value(c,k); PVScalarArrayPtr d=a->getSubFieldT<PVScalarArray>("d"); shared_vector<const int32> i; d->getAs<int32>(i); shared_vector<const string> s; d->getAs<string>(s); a->getSubFieldT<PVScalarArray>("t")->putFrom<int32>(i); shared_vector<const void> raw; d->getAs<void>(raw); PVStringArrayPtr t=a->getSubFieldT<PVStringArray>("t"); t->putFrom(raw); OS o; o<<dump(a)<<i<<s; return o.str(); }},
 {"copy parts of arrays", [](const Common& c, int k) { PVStructurePtr a=value(c,k), b=value(c,k); copy(*a->getSubFieldT<PVDoubleArray>("d"),0,1,*b->getSubFieldT<PVDoubleArray>("d"),1+k,1,2); copy(*a->getSubFieldT<PVStringArray>("t"),1,1,*b->getSubFieldT<PVStringArray>("t"),k,2,1); try { copy(*a->getSubFieldT<PVStringArray>("t"),9,1,*b->getSubFieldT<PVStringArray>("t"),k,2,1); } catch(std::exception& e) { return dump(b)+e.what(); } return dump(b); }},
 {"build types", [](const Common& c, int k) { FieldBuilderPtr b=getFieldCreate()->createFieldBuilder(); b->setId(k&1?"odd":"even")->addFixedArray("f",pvInt,3+k)->addBoundedArray("g",pvString,4)->addNestedUnionArray("h")->add("i",pvInt)->endNested()->add("c",c.type); StructureConstPtr s=b->createStructure(); OS o; o<<*s<<(s==b->addFixedArray("f",pvInt,3)->createStructure()); try { getFieldCreate()->createFieldBuilder()->add(k&1?"1a":"",pvInt)->createStructure(); } catch(std::exception& e) { o<<e.what(); } o<<*getFieldCreate()->appendField(c.type,"zz",getFieldCreate()->createScalar(pvFloat)); return o.str(); }},
 {"build values", [](const Common& c, int k) { PVStructurePtr a=ValueBuilder(k&1?"id":"structure").add<pvInt>("i",k).add<pvString>("s","x").addNested("n").add<pvDouble>("d",0.5).endNested().add("arr",static_shared_vector_cast<const void>(c.d)).buildPVStructure(); PVStructurePtr b=ValueBuilder(*getStandardPVField()->scalar(pvInt,"alarm")).add<pvInt>("value",7).buildPVStructure(); return dump(a)+dump(b); }},
 {"standard structures", [](const Common& c, int k) { StandardFieldPtr f=getStandardField(); OS o; o<<*f->scalar(k&1?pvInt:pvDouble,"alarm,timeStamp,display,control,valueAlarm")<<*f->scalarArray(pvShort,"alarm")<<*f->enumerated("alarm")<<*f->regUnion(getFieldCreate()->createFieldBuilder()->add("a",pvInt)->createUnion(),"timeStamp"); PVStringArray::svector ch; ch.push_back("z"); o<<dump(getStandardPVField()->scalarArray(pvByte,"timeStamp")); return o.str(); }},
 {"type-erased scalars", [](const Common& c, int k) { AnyScalar a(string("text")+char('0'+k)), b(k+0.5), d(a); d.swap(b); OS o; o<<a.type()<<d.as<string>()<<b.ref<string>()<<a; try { a.as<int32>(); } catch(std::exception& e) { o<<e.what(); } a.clear(); a=b; o<<a; return o.str(); }},
 {"escapes and streams", [](const Common& c, int k) { PVStructurePtr a=value(c,k); OS o; o<<escape(string("a\n\"\x01\xff",5)).style(k&1?escape::C:escape::CSV)<<maybeQuote("a b"); { format::indent_scope s(o); o<<format::indent()<<"x"<<format::indent_level(3)<<format::indent(); } BitSet m; m.set(1+k); o<<a->stream().format(k&1?PVStructure::Formatter::Raw:PVStructure::Formatter::NT).show(m).highlight(m)<<a->stream().format(PVStructure::Formatter::JSON); o<<format::array_at(0)<<*a->getSubFieldT<PVDoubleArray>("d")<<*c.type; a->dumpValue(o); return o.str(); }},
 {"immutable values", [](const Common& c, int k) { PVStructurePtr a=value(c,k); a->setImmutable(); OS o; try { a->getSubFieldT<PVInt>("i")->put(5); a->getSubFieldT<PVDoubleArray>("d")->replace(PVDoubleArray::const_svector()); } catch(std::exception& e) { o<<e.what(); } PVStructurePtr b=getPVDataCreate()->createPVStructure(a); o<<b->isImmutable()<<dump(a); return o.str(); }},
 {"handlers", [](const Common& c, int k) { struct H : public PostHandler { int n; H() :n(0) {} void postPut() { n++; } }; std::tr1::shared_ptr<H> h(new H); PVStructurePtr a=value(c,k); a->getSubFieldT("i")->setPostHandler(h); for(int j=0;j<=k;j++) a->getSubFieldT<PVInt>("i")->put(j); a->getSubFieldT<PVUByte>("n.x")->put(1); OS o; o<<h->n; try { a->getSubFieldT("i")->setPostHandler(std::tr1::shared_ptr<H>(new H)); } catch(std::exception& e) { o<<e.what(); } return o.str(); }},
 {"compare types", [](const Common& c, int k) { const StructureConstPtr& t=c.type; StructureConstPtr n(std::tr1::static_pointer_cast<const Structure>(t->getField("n"))), al(getStandardField()->alarm()); OS o; o<<(*t==*t)<<(*t!=*n)<<(*n==*al)<<(*t->getField("alarm")==*al)<<(t->getField("alarm")==al)<<t->build()->getNumberFields(); ScalarArrayConstPtr d(std::tr1::static_pointer_cast<const ScalarArray>(t->getField("d"))); o<<d->getID()<<d->getElementType()<<ScalarTypeFunc::name(pvInt)<<ScalarTypeFunc::getScalarType("double")<<TypeFunc::name(scalar); try { ScalarTypeFunc::getScalarType(k&1?"in":"x"); } catch(std::exception& e) { o<<e.what(); } return o.str(); }},
 {"ask types", [](const Common& c, int k) { const StructureConstPtr& t=c.type; OS o; static const char *const NM[]={"i","s","d","n","u","alarm","e","nosuch"}; for(int j=0;j<8;j++) o<<t->getFieldIndex(NM[(j+k)%8])<<','; UnionConstPtr u=std::tr1::static_pointer_cast<const Union>(t->getFieldT("u")); o<<u->getFieldIndex(k&1?"us":"ui")<<u->getFieldIndex("x")<<u->getFieldName(k&1)<<*u->getField(k&1)<<t->getNumberFields()<<t->getFieldName(3)<<t->getID()<<*t->getFieldT(3)<<!t->getField("q"); try { t->getFieldT("q"); } catch(std::exception& e) { o<<e.what(); } PVUnionPtr g=getPVDataCreate()->createPVUnion(u); o<<u->guess(scalar,k&1?pvString:pvDouble)<<ScalarTypeFunc::name((ScalarType)(k+3))<<TypeFunc::name((Type)(k+1))<<ScalarTypeFunc::getScalarType("uint")<<ScalarTypeFunc::isInteger((ScalarType)(k+3))<<ScalarTypeFunc::elementSize((ScalarType)(k+3)); return o.str(); }},
 {"types from types", [](const Common& c, int k) { OS o; StructureConstPtr t=getFieldCreate()->createFieldBuilder(c.type)->add(k&1?"more":"extra",pvInt)->setId("t2")->createStructure(); o<<*t; UnionConstPtr u=std::tr1::static_pointer_cast<const Union>(c.type->getFieldT("u")); o<<*getFieldCreate()->appendField(std::tr1::static_pointer_cast<const Structure>(c.type->getFieldT("n")),"z",getFieldCreate()->createScalar(pvInt))<<*getFieldCreate()->createUnionArray(u)<<*getFieldCreate()->createVariantUnionArray()<<*getFieldCreate()->createBoundedScalarArray(pvInt,3+k)<<*getFieldCreate()->createFixedScalarArray(pvInt,3+k)<<*getFieldCreate()->createBoundedString(4+k); return o.str(); }},
 {"every kind of type on the wire", [](const Common& c, int k) { OS o; FieldConstPtr T[]={getFieldCreate()->createScalar(pvUInt),getFieldCreate()->createScalarArray(pvString),getFieldCreate()->createBoundedScalarArray(pvInt,3),getFieldCreate()->createFixedScalarArray(pvDouble,300),getFieldCreate()->createBoundedString(9),getFieldCreate()->createVariantUnion(),getFieldCreate()->createVariantUnionArray(),c.type->getFieldT("a"),getFieldCreate()->createUnionArray(std::tr1::static_pointer_cast<const Union>(c.type->getFieldT("u")))}; Wire w(k&2?64:700,k&1); for(int j=0;j<9;j++) T[(j+k)%9]->serialize(&w.buf,&w); w.begin(); for(int j=0;j<9;j++) { FieldConstPtr f=getFieldCreate()->deserialize(&w.buf,&w); o<<(f==T[(j+k)%9]||*f==*T[(j+k)%9])<<*f; } return w.hex()+o.str(); }},
 {"every scalar type", [](const Common& c, int k) { OS o; for(int t=0;t<=pvString;t++) { PVScalarPtr a=getPVDataCreate()->createPVScalar((ScalarType)t), b=getPVDataCreate()->createPVScalar((ScalarType)t); if(t) a->putFrom<int32>(k+1); else a->putFrom<boolean>(true); AnyScalar x; a->getAs(x); b->putFrom(x); o<<*a<<(*a==*b)<<a->getAs<string>(); b->assign(*getPVDataCreate()->createPVScalar((ScalarType)t)); b->copy(*a); Wire w(64,k&1); a->serialize(&w.buf,&w); w.begin(); b->deserialize(&w.buf,&w); o<<(*a==*b)<<w.hex(); } return o.str(); }},
 {"every array type", [](const Common& c, int k) { OS o; for(int t=0;t<=pvString;t++) { PVScalarArrayPtr a=getPVDataCreate()->createPVScalarArray((ScalarType)t), b=getPVDataCreate()->createPVScalarArray((ScalarType)t); shared_vector<int32> v(20,k+1); v[0]=0; if(t) a->putFrom<int32>(freeze(v)); else { shared_vector<boolean> q(20,1); q[k]=0; a->putFrom<boolean>(freeze(q)); } b->assign(*a); o<<(*a==*b)<<a->getLength()<<*a; b->setLength(3); a->setCapacity(30); Wire w(64,k&1); a->serialize(&w.buf,&w); w.begin(); b->deserialize(&w.buf,&w); o<<(*a==*b); a->dumpValue(o,1); o<<w.all.size(); } return o.str(); }},
 {"arrays of structures and unions", [](const Common& c, int k) { OS o; PVStructureArrayPtr a=getPVDataCreate()->createPVStructureArray(std::tr1::static_pointer_cast<const StructureArray>(c.type->getFieldT("a"))), b=getPVDataCreate()->createPVStructureArray(a->getStructureArray()); a->append(3); a->view()[1]->getSubFieldT<PVLong>("q")->put(k); a->remove(0,1); PVStructureArray::svector v(a->reuse()); v.push_back(PVStructurePtr()); a->replace(freeze(v)); b->copy(*a); o<<(*a==*b)<<*a; a->compress(); o<<a->getLength()<<(*a==*b); PVUnionArrayPtr u=getPVDataCreate()->createPVUnionArray(std::tr1::static_pointer_cast<const Union>(c.type->getFieldT("u"))), x=getPVDataCreate()->createPVUnionArray(u->getUnionArray()); u->append(2); u->view()[k&1]->select<PVString>("us")->put("s"); Wire w(64,k&1); u->serialize(&w.buf,&w); w.begin(); x->deserialize(&w.buf,&w); o<<(*u==*x)<<*x; u->remove(0,1); u->compress(); x->copyUnchecked(*u); o<<(*u==*x); PVUnionArrayPtr y=getPVDataCreate()->createPVVariantUnionArray(); y->append(1+k); o<<*y; return o.str()+w.hex(); }},
 {"copy what a mask names", [](const Common& c, int k) { PVStructurePtr a=value(c,k), b=getPVDataCreate()->createPVStructure(c.type); BitSet m; m.set(1+k); m.set(a->getSubFieldT("n")->getFieldOffset()); m.set(a->getSubFieldT("alarm.message")->getFieldOffset()); b->copyUnchecked(*a,m); string r=dump(b); b->copyUnchecked(*a,m,true); BitSet n(m); n^=m; n.set(3,true); return r+dump(b)+(n==m?"same":"other")+(n.logical_and(m)?"1":"0"); }},
 {"print normative types", [](const Common& c, int k) { OS o; FieldBuilderPtr f=getFieldCreate()->createFieldBuilder(); StandardFieldPtr s=getStandardField(); PVStructurePtr v; switch(k%3) { case 0: v=getPVDataCreate()->createPVStructure(f->setId("epics:nt/NTScalar:1.0")->add("value",pvDouble)->add("alarm",s->alarm())->add("timeStamp",s->timeStamp())->createStructure()); v->getSubFieldT<PVDouble>("value")->put(k+0.5); break; case 1: v=getPVDataCreate()->createPVStructure(f->setId("epics:nt/NTEnum:1.0")->add("value",s->enumerated())->add("alarm",s->alarm())->add("timeStamp",s->timeStamp())->createStructure()); v->getSubFieldT<PVStringArray>("value.choices")->replace(c.s); v->getSubFieldT<PVInt>("value.index")->put(1); break;
    default: v=getPVDataCreate()->createPVStructure(f->setId("epics:nt/NTTable:1.0")->addArray("labels",pvString)->addNestedStructure("value")->addArray("x",pvString)->addArray("y",pvDouble)->endNested()->add("alarm",s->alarm())->add("timeStamp",s->timeStamp())->createStructure()); v->getSubFieldT<PVStringArray>("labels")->replace(c.s); v->getSubFieldT<PVStringArray>("value.x")->replace(c.s); v->getSubFieldT<PVDoubleArray>("value.y")->replace(c.d); }
    v->getSubFieldT<PVInt>("alarm.severity")->put(1+k%3); v->getSubFieldT<PVInt>("alarm.status")->put(1+k); v->getSubFieldT<PVString>("alarm.message")->put("m m"); v->getSubFieldT<PVLong>("timeStamp.secondsPastEpoch")->put(1000000000+k*77777); v->getSubFieldT<PVInt>("timeStamp.nanoseconds")->put(k*1000); o<<v->stream(); o<<v->stream().format(PVStructure::Formatter::Raw); o<<v->stream().format(PVStructure::Formatter::JSON); return o.str(); }},
 {"to and from a vector", [](const Common& c, int k) { PVStructurePtr a=value(c,k), b=getPVDataCreate()->createPVStructure(c.type); std::vector<epicsUInt8> v; int e=k&1?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE; serializeToVector(a.get(),e,v); deserializeFromVector(b.get(),e,v); v.pop_back(); string r; try { deserializeFromVector(getPVDataCreate()->createPVStructure(c.type).get(),e,v); } catch(std::exception& x) { r=x.what(); } char t[20]; snprintf(t,sizeof t,"%u",(unsigned)v.size()); return r+t+(*a==*b?"same":"different"); }},
 {"exceptions and events", [](const Common& c, int k) { OS o; try { throw BaseException(k&1?"one":"two"); } catch(BaseException& e) { o<<e.what(); } Event e(k&1); o<<e.tryWait()<<e.tryWait(); e.signal(); o<<e.wait(); Mutex m; { Lock l(m); o<<l.ownsLock(); } return o.str(); }},
};
enum { N=sizeof(MENU)/sizeof(*MENU) };
string run(const Common& c, int op, int k) { try { return MENU[op].fn(c,k); } catch(std::exception& e) { return string("exception: ")+e.what(); } }
void pairOf(int a, int b, int third, const sched::Opt& o) {
    sched::run([&]{ sched::Quiet quiet; Common c; { sched::Loud l; c.type=theType(); }
        { PVDoubleArray::svector d(20,0.25); d[0]=1.5; d[1]=-2; d[2]=3e10; c.d=freeze(d); PVStringArray::svector s(2); s[0]="one"; s[1]="two"; c.s=freeze(s); }
        mc::op("%s | %s%s%s",MENU[a].name,MENU[b].name,third>=0?" | ":"",third>=0?MENU[third].name:""); string r[3]; int op[3]={a,b,third}, n=third>=0?3:2, id[3];
        for(int i=1;i<n;i++) id[i]=sched::spawn([&,i]{ sched::Loud l; r[i]=run(c,op[i],i); },i==1?"second":"third");
        { sched::Loud l; r[0]=run(c,op[0],0); } for(int i=1;i<n;i++) sched::join(id[i]);
        // alone, the same comes out
        for(int i=0;i<n;i++) { string w=run(c,op[i],i); if(w!=r[i]) mc::fail(string("result ")+MENU[op[i]].name,"%s: with another thread it gives\n%s\nand alone\n%s",MENU[op[i]].name,r[i].c_str(),w.c_str()); if(w.compare(0,10,"exception:")==0) mc::fail(string("exception ")+MENU[op[i]].name,"%s: %s",MENU[op[i]].name,w.c_str()); mc::outcome(MENU[op[i]].name); }
    },o);
}
}
SCENARIO(twoThreads, mc::Opts().F().D(1,2)) { int a=mc::choose(N), b=mc::choose(N); if(b<a) mc::skip(); pairOf(a,b,-1,sched::Opt().P()); }
SCENARIO(threeThreads, mc::Opts().F().D(0,1)) { int a=mc::choose(N), b=mc::choose(N), c=mc::choose(N); if(b<a||c<b) mc::skip(); if(!mc::tier()&&(a+b+c)%23) mc::skip(); pairOf(a,b,c,sched::Opt().P()); }
// one after the other: what was done before has no influence
SCENARIO(oneThread, mc::Opts().F().D(0,0)) { int a=mc::choose(N), b=mc::choose(N); sched::run([&]{ sched::Quiet quiet; Common c; { sched::Loud l; c.type=theType(); } PVDoubleArray::svector d(3,2.5); c.d=freeze(d); PVStringArray::svector s(2,"x"); c.s=freeze(s);
    mc::op("%s, %s",MENU[a].name,MENU[b].name); string r=run(c,a,0), q=run(c,b,1), w=run(c,a,0), v=run(c,b,1); if(w!=r) mc::fail(string("result ")+MENU[a].name,"%s gives\n%s\nand later\n%s",MENU[a].name,r.c_str(),w.c_str()); if(v!=q) mc::fail(string("result ")+MENU[b].name,"%s gives\n%s\nand later\n%s",MENU[b].name,q.c_str(),v.c_str()); if(a==b) for(const string& x: {r,q}) { if(x.compare(0,10,"exception:")==0) mc::fail(string("exception ")+MENU[a].name,"%s: %s",MENU[a].name,x.c_str()); mc::note("%s -> %s",MENU[a].name,x.c_str()); } mc::outcome(MENU[a].name); },sched::Opt().P()); }
