// Reference model of types and values, written from the protocol and API documentation
// and independent of the library: trees, comparison, encoding, enumeration.
#ifndef MODEL_H
#define MODEL_H
#include "pvdh.h"
#include <memory>
#include <math.h>
#include <pv/pvData.h>

struct MT; struct MV;
typedef std::shared_ptr<const MT> TP;
typedef std::shared_ptr<MV> VP;

enum Kind { KScalar, KBString, KArray, KBArray, KFArray, KStruct, KUnion, KAny, KStructArr, KUnionArr, KAnyArr };

struct MT {
    Kind k; pvd::ScalarType s; size_t n; std::string id;
    std::vector<std::string> names; std::vector<TP> kids; TP elem;
    MT(Kind k) :k(k), s(pvd::pvInt), n(0) {}
};
inline TP tScalar(pvd::ScalarType s) { std::shared_ptr<MT> t(new MT(KScalar)); t->s=s; return t; }
inline TP tBString(size_t n) { std::shared_ptr<MT> t(new MT(KBString)); t->s=pvd::pvString; t->n=n; return t; }
inline TP tArray(pvd::ScalarType s) { std::shared_ptr<MT> t(new MT(KArray)); t->s=s; return t; }
inline TP tBArray(pvd::ScalarType s, size_t n) { std::shared_ptr<MT> t(new MT(KBArray)); t->s=s; t->n=n; return t; }
inline TP tFArray(pvd::ScalarType s, size_t n) { std::shared_ptr<MT> t(new MT(KFArray)); t->s=s; t->n=n; return t; }
inline TP tStruct(const std::vector<std::string>& names, const std::vector<TP>& kids, const std::string& id="structure") { std::shared_ptr<MT> t(new MT(KStruct)); t->id=id; t->names=names; t->kids=kids; return t; }
inline TP tUnion(const std::vector<std::string>& names, const std::vector<TP>& kids, const std::string& id="union") { std::shared_ptr<MT> t(new MT(KUnion)); t->id=id; t->names=names; t->kids=kids; return t; }
inline TP tAny() { std::shared_ptr<MT> t(new MT(KAny)); t->id="any"; return t; }
inline TP tStructArr(const TP& e) { std::shared_ptr<MT> t(new MT(KStructArr)); t->elem=e; return t; }
inline TP tUnionArr(const TP& e) { std::shared_ptr<MT> t(new MT(KUnionArr)); t->elem=e; return t; }
inline TP tAnyArr() { std::shared_ptr<MT> t(new MT(KAnyArr)); t->elem=tAny(); return t; }

static const char *SNAME[]={"boolean","byte","short","int","long","ubyte","ushort","uint","ulong","float","double","string"};
static const uint8_t SCODE[]={0x00,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x42,0x43,0x60};
static const int SSIZE[]={1,1,2,4,8,1,2,4,8,4,8,0};

inline std::string tstr(const TP& t) {
    std::ostringstream o;
    switch(t->k) {
    case KScalar: o<<SNAME[t->s]; break;
    case KBString: o<<"string("<<t->n<<")"; break;
    case KArray: o<<SNAME[t->s]<<"[]"; break;
    case KBArray: o<<SNAME[t->s]<<"<"<<t->n<<">"; break;
    case KFArray: o<<SNAME[t->s]<<"["<<t->n<<"]"; break;
    case KStruct: case KUnion: o<<t->id<<"{"; for(size_t i=0;i<t->kids.size();i++) o<<(i?",":"")<<t->names[i]<<":"<<tstr(t->kids[i]); o<<"}"; break;
    case KAny: o<<"any"; break;
    case KStructArr: case KUnionArr: case KAnyArr: o<<tstr(t->elem)<<"[]"; break;
    }
    return o.str();
}
// the text that getID() gives
inline std::string tid(const TP& t) {
    switch(t->k) {
    case KStruct: case KUnion: case KAny: return t->id;
    case KStructArr: case KUnionArr: case KAnyArr: return t->elem->id+"[]";
    default: return tstr(t);
    }
}
inline bool tsame(const TP& a, const TP& b) {
    if(a.get()==b.get()) return true;
    if(a->k!=b->k) return false;
    switch(a->k) {
    case KScalar: case KArray: return a->s==b->s;
    case KBString: return a->n==b->n;
    case KBArray: case KFArray: return a->s==b->s && a->n==b->n;
    case KStruct: case KUnion:
        if(a->id!=b->id||a->names!=b->names) return false;
        for(size_t i=0;i<a->kids.size();i++) if(!tsame(a->kids[i],b->kids[i])) return false;
        return true;
    case KAny: case KAnyArr: return true;
    case KStructArr: case KUnionArr: return tsame(a->elem,b->elem);
    }
    return false;
}
inline pvd::Type ttype(const TP& t) {
    switch(t->k) { case KScalar: case KBString: return pvd::scalar; case KArray: case KBArray: case KFArray: return pvd::scalarArray;
    case KStruct: return pvd::structure; case KUnion: case KAny: return pvd::union_; case KStructArr: return pvd::structureArray; default: return pvd::unionArray; }
}
inline pvd::FieldConstPtr build(const TP& t) {
    pvd::FieldCreatePtr c=pvd::getFieldCreate();
    switch(t->k) {
    case KScalar: return c->createScalar(t->s);
    case KBString: return c->createBoundedString(t->n);
    case KArray: return c->createScalarArray(t->s);
    case KBArray: return c->createBoundedScalarArray(t->s,t->n);
    case KFArray: return c->createFixedScalarArray(t->s,t->n);
    case KStruct: { pvd::FieldConstPtrArray f; for(size_t i=0;i<t->kids.size();i++) f.push_back(build(t->kids[i])); return c->createStructure(t->id,t->names,f); }
    case KUnion: { pvd::FieldConstPtrArray f; for(size_t i=0;i<t->kids.size();i++) f.push_back(build(t->kids[i])); return c->createUnion(t->id,t->names,f); }
    case KAny: return c->createVariantUnion();
    case KStructArr: return c->createStructureArray(std::tr1::static_pointer_cast<const pvd::Structure>(build(t->elem)));
    case KUnionArr: return c->createUnionArray(std::tr1::static_pointer_cast<const pvd::Union>(build(t->elem)));
    case KAnyArr: return c->createVariantUnionArray();
    }
    return pvd::FieldConstPtr();
}
// does the real type say it is what the model says? (uses only accessors)
inline std::string tcheck(const pvd::Field *f, const TP& t) {
    if(!f) return "null";
    if(f->getType()!=ttype(t)) return "type() of "+tstr(t)+" is "+mc::str(f->getType());
    if(f->getID()!=tid(t)) return "ID of "+tstr(t)+" is '"+f->getID()+"'";
    switch(t->k) {
    case KScalar: if(dynamic_cast<const pvd::BoundedString*>(f)) return "bounded"; if(((const pvd::Scalar*)f)->getScalarType()!=t->s) return "scalar type"; break;
    case KBString: { const pvd::BoundedString *b=dynamic_cast<const pvd::BoundedString*>(f); if(!b||b->getMaximumLength()!=t->n||b->getScalarType()!=pvd::pvString) return "bounded string"; break; }
    case KArray: case KBArray: case KFArray: { const pvd::ScalarArray *a=dynamic_cast<const pvd::ScalarArray*>(f); if(!a||a->getElementType()!=t->s) return "element type of "+tstr(t);
        if(a->getArraySizeType()!=(t->k==KArray?pvd::Array::variable:t->k==KBArray?pvd::Array::bounded:pvd::Array::fixed)) return "size type of "+tstr(t);
        if(a->getMaximumCapacity()!=(t->k==KArray?0:t->n)) return "capacity of "+tstr(t); break; }
    case KStruct: { const pvd::Structure *s=dynamic_cast<const pvd::Structure*>(f); if(!s||s->getNumberFields()!=t->kids.size()||s->getFields().size()!=t->kids.size()) return "number of fields of "+tstr(t);
        if(s->getFieldNames()!=t->names) return "names of "+tstr(t);
        for(size_t i=0;i<t->kids.size();i++) { if(s->getFieldName(i)!=t->names[i]) return "name"; std::string r=tcheck(s->getField(i).get(),t->kids[i]); if(r!="") return t->names[i]+": "+r; } break; }
    case KAny: case KUnion: { const pvd::Union *s=dynamic_cast<const pvd::Union*>(f); if(!s||s->getNumberFields()!=t->kids.size()||s->getFields().size()!=t->kids.size()) return "number of fields of "+tstr(t);
        if(s->isVariant()!=(t->k==KAny)) return "isVariant of "+tstr(t); if(s->getFieldNames()!=t->names) return "names of "+tstr(t);
        for(size_t i=0;i<t->kids.size();i++) { if(s->getFieldName(i)!=t->names[i]) return "name"; std::string r=tcheck(s->getField(i).get(),t->kids[i]); if(r!="") return t->names[i]+": "+r; } break; }
    case KStructArr: { const pvd::StructureArray *a=dynamic_cast<const pvd::StructureArray*>(f); if(!a) return "class"; return tcheck(a->getStructure().get(),t->elem); }
    case KUnionArr: case KAnyArr: { const pvd::UnionArray *a=dynamic_cast<const pvd::UnionArray*>(f); if(!a) return "class"; return tcheck(a->getUnion().get(),t->elem); }
    }
    return "";
}
// wire form of a type description
inline void encType(const TP& t, Enc& e) {
    switch(t->k) {
    case KScalar: e.u8(SCODE[t->s]); break;
    case KBString: e.u8(0x83); e.size(t->n); break;
    case KArray: e.u8(SCODE[t->s]|0x08); break;
    case KBArray: e.u8(SCODE[t->s]|0x10); e.size(t->n); break;
    case KFArray: e.u8(SCODE[t->s]|0x18); e.size(t->n); break;
    case KStruct: case KUnion: e.u8(t->k==KStruct?0x80:0x81); e.str(t->id==(t->k==KStruct?"structure":"union")?std::string():t->id); e.size(t->kids.size());
        for(size_t i=0;i<t->kids.size();i++) { e.str(t->names[i]); encType(t->kids[i],e); } break;
    case KAny: e.u8(0x82); break;
    case KStructArr: e.u8(0x88); encType(t->elem,e); break;
    case KUnionArr: e.u8(0x89); encType(t->elem,e); break;
    case KAnyArr: e.u8(0x8a); break;
    }
}

// ---- values
// a scalar is held as raw bits (integers sign/zero extended, floats as their bits) or as text
struct MS { uint64_t u; std::string s; MS(uint64_t u=0) :u(u) {} MS(const std::string& s) :u(0), s(s) {} bool operator==(const MS& o) const { return u==o.u&&s==o.s; } bool operator<(const MS& o) const { return u!=o.u?u<o.u:s<o.s; } };
struct MV {
    TP t; MS s; std::vector<MS> a; std::vector<VP> kids; // struct members / array elements (null allowed)
    int sel; VP v; // union
    MV(const TP& t) :t(t), sel(-1) {}
};
inline uint64_t trunc_to(pvd::ScalarType st, uint64_t u) {
    switch(st) { case pvd::pvBoolean: return u&1; case pvd::pvByte: return (int64_t)(int8_t)u; case pvd::pvShort: return (int64_t)(int16_t)u; case pvd::pvInt: return (int64_t)(int32_t)u;
    case pvd::pvUByte: return (uint8_t)u; case pvd::pvUShort: return (uint16_t)u; case pvd::pvUInt: return (uint32_t)u; default: return u; }
}
inline MS fbits(float f) { uint32_t x; memcpy(&x,&f,4); return MS(x); }
inline MS dbits(double f) { uint64_t x; memcpy(&x,&f,8); return MS(x); }
// value number i of each scalar type: 0 is the default value
inline MS sval(pvd::ScalarType st, int i) {
    switch(st) {
    case pvd::pvBoolean: return MS(i&1);
    case pvd::pvFloat: { static const float V[]={0,1.5f,-2.25f,3.4028235e38f,1e-45f,INFINITY}; return fbits(V[i%6]); }
    case pvd::pvDouble: { static const double V[]={0,-0.1,1234.5,1.7976931348623157e308,5e-324,-INFINITY}; return dbits(V[i%6]); }
    case pvd::pvString: { static const std::string V[]={"","x","two words",std::string("z\0q",3),"\xc3\xa9\"\\\n",std::string(260,'L')}; return MS(V[i%6]); }
    default: { static const uint64_t V[]={0,1,~0ull,0x8182838485868788ull,0x7f7e7d7c7b7a7978ull,0x8000000000000000ull}; uint64_t v=V[i%6]; if(i%6==5) { int n=SSIZE[st]*8; v=1ull<<(n-1); } if(i%6==4) v>>=8*(8-SSIZE[st]); return MS(trunc_to(st,v)); }
    }
}
inline std::string msstr(pvd::ScalarType st, const MS& v) {
    std::ostringstream o;
    if(st==pvd::pvString) { o<<'"'; for(char c: v.s) { if(c>=' '&&c<127) o<<c; else { char b[8]; snprintf(b,8,"\\x%02x",(uint8_t)c); o<<b; } if(o.str().size()>40) { o<<"..."<<v.s.size(); break; } } o<<'"'; }
    else if(st==pvd::pvFloat) { float f; uint32_t x=v.u; memcpy(&f,&x,4); o<<f; } else if(st==pvd::pvDouble) { double f; memcpy(&f,&v.u,8); o<<f; }
    else if(st==pvd::pvULong) o<<v.u; else o<<(int64_t)v.u;
    return o.str();
}
inline std::string vstr(const VP& v) {
    if(!v) return "null";
    std::ostringstream o;
    switch(v->t->k) {
    case KScalar: case KBString: o<<msstr(v->t->s,v->s); break;
    case KArray: case KBArray: case KFArray: o<<"["; for(size_t i=0;i<v->a.size();i++) o<<(i?",":"")<<msstr(v->t->s,v->a[i]); o<<"]"; break;
    case KStruct: o<<"{"; for(size_t i=0;i<v->kids.size();i++) o<<(i?",":"")<<v->t->names[i]<<"="<<vstr(v->kids[i]); o<<"}"; break;
    case KUnion: if(v->sel<0) o<<"(none)"; else o<<"("<<v->t->names[v->sel]<<":"<<vstr(v->v)<<")"; break;
    case KAny: if(!v->v) o<<"(none)"; else o<<"("<<tstr(v->v->t)<<":"<<vstr(v->v)<<")"; break;
    default: o<<"["; for(size_t i=0;i<v->kids.size();i++) o<<(i?",":"")<<vstr(v->kids[i]); o<<"]"; break;
    }
    return o.str();
}
inline VP vcopy(const VP& v) { if(!v) return v; VP r(new MV(*v)); for(size_t i=0;i<r->kids.size();i++) r->kids[i]=vcopy(r->kids[i]); r->v=vcopy(r->v); return r; }
inline bool vsame(const VP& a, const VP& b) {
    if(!a||!b) return !a&&!b;
    if(!tsame(a->t,b->t)) return false;
    if(!(a->s==b->s)||!(a->a==b->a)||a->kids.size()!=b->kids.size()||a->sel!=b->sel) return false;
    for(size_t i=0;i<a->kids.size();i++) if(!vsame(a->kids[i],b->kids[i])) return false;
    return vsame(a->v,b->v);
}
inline VP vdefault(const TP& t) { VP v(new MV(t)); if(t->k==KStruct) for(size_t i=0;i<t->kids.size();i++) v->kids.push_back(vdefault(t->kids[i])); if(t->k==KFArray) v->a.assign(t->n,sval(t->s,0)); return v; }

// wire form of a value
inline void encS(pvd::ScalarType st, const MS& v, Enc& e) { if(st==pvd::pvString) e.str(v.s); else e.raw(v.u,SSIZE[st]); }
inline void encArr(const VP& v, size_t off, size_t cnt, Enc& e) {
    size_t n = v->t->k>=KStructArr?v->kids.size():v->a.size();
    off=std::min(off,n); cnt=std::min(cnt,n-off);
    if(v->t->k!=KFArray) e.size(cnt);
    for(size_t i=off;i<off+cnt;i++) {
        if(v->t->k<KStructArr) encS(v->t->s,v->a[i],e);
        else { void encValue(const VP&,Enc&); if(!v->kids[i]) e.u8(0); else { e.u8(1); encValue(v->kids[i],e); } }
    }
}
inline void encValue(const VP& v, Enc& e) {
    switch(v->t->k) {
    case KScalar: case KBString: encS(v->t->s,v->s,e); break;
    case KStruct: for(size_t i=0;i<v->kids.size();i++) encValue(v->kids[i],e); break;
    case KUnion: e.size(v->sel<0?(uint64_t)-1:v->sel); if(v->sel>=0) encValue(v->v,e); break;
    case KAny: if(!v->v) e.u8(0xff); else { encType(v->v->t,e); encValue(v->v,e); } break;
    default: encArr(v,0,(size_t)-1,e);
    }
}
// number of fields in the numbering, and the fields in that order
inline size_t tcount(const TP& t) { size_t n=1; if(t->k==KStruct) for(size_t i=0;i<t->kids.size();i++) n+=tcount(t->kids[i]); return n; }
inline void encMasked(const VP& v, size_t at, const std::vector<bool>& m, Enc& e) {
    if(m[at]) { encValue(v,e); return; }
    if(v->t->k!=KStruct) return;
    size_t c=at+1; for(size_t i=0;i<v->kids.size();i++) { encMasked(v->kids[i],c,m,e); c+=tcount(v->t->kids[i]); }
}
// a structure of about n fields; shape 0: integers only; 1: with nested structures, arrays and unions in between; 2: one member per level
inline TP tWide(size_t n, int shape) {
    std::vector<std::string> nm; std::vector<TP> k; if(shape==2) { TP t=tScalar(pvd::pvInt); for(size_t i=0;i+1<n;i++) t=tStruct({"c"},{t}); return tStruct({"c"},{t}); }
    for(size_t i=1;i<n;) { nm.push_back("f"+mc::str(i)); TP l=tScalar((pvd::ScalarType)(shape?i%12:(int)pvd::pvInt)); if(shape&&i%10==4) l=tStruct({"a","b"},{tScalar(pvd::pvInt),tStruct({"a"},{tScalar(pvd::pvString)},"S")}); else if(shape&&i%10==7) l=tArray((pvd::ScalarType)(i/10%12)); else if(shape&&i%20==9) l=tUnion({"x","y"},{tScalar(pvd::pvInt),tScalar(pvd::pvString)}); k.push_back(l); i+=tcount(l); }
    return tStruct(nm,k,"W");
}
// what the receiver 'd' holds after an update from 's' with mask m
inline VP maskedUpdate(const VP& d, const VP& s, size_t at, const std::vector<bool>& m) {
    if(m[at]) return vcopy(s);
    if(d->t->k!=KStruct) return vcopy(d);
    VP r(new MV(*d)); size_t c=at+1; for(size_t i=0;i<d->kids.size();i++) { r->kids[i]=maskedUpdate(d->kids[i],s->kids[i],c,m); c+=tcount(d->t->kids[i]); }
    return r;
}

// ---- binding of model values to the implementation
template<typename T> struct Conv { static T to(const MS& v) { return (T)v.u; } static MS from(const T& v) { return MS((uint64_t)(std::is_signed<T>::value?(uint64_t)(int64_t)v:(uint64_t)v)); } };
template<> struct Conv<float> { static float to(const MS& v) { uint32_t x=v.u; float f; memcpy(&f,&x,4); return f; } static MS from(const float& f) { return fbits(f); } };
template<> struct Conv<double> { static double to(const MS& v) { double f; memcpy(&f,&v.u,8); return f; } static MS from(const double& f) { return dbits(f); } };
template<> struct Conv<std::string> { static std::string to(const MS& v) { return v.s; } static MS from(const std::string& f) { return MS(f); } };

#define FOR_STYPES(X) X(pvBoolean,boolean) X(pvByte,int8) X(pvShort,int16) X(pvInt,int32) X(pvLong,int64) X(pvUByte,uint8) X(pvUShort,uint16) X(pvUInt,uint32) X(pvULong,uint64) X(pvFloat,float) X(pvDouble,double) X(pvString,std::string)
template<typename F> struct SDisp;
// call f.template go<T>() for the scalar type
#define SDISPATCH(ST, BODY) switch(ST) { \
  case pvd::pvBoolean: { typedef pvd::boolean T; BODY; break; } case pvd::pvByte: { typedef pvd::int8 T; BODY; break; } case pvd::pvShort: { typedef pvd::int16 T; BODY; break; } \
  case pvd::pvInt: { typedef pvd::int32 T; BODY; break; } case pvd::pvLong: { typedef pvd::int64 T; BODY; break; } case pvd::pvUByte: { typedef pvd::uint8 T; BODY; break; } \
  case pvd::pvUShort: { typedef pvd::uint16 T; BODY; break; } case pvd::pvUInt: { typedef pvd::uint32 T; BODY; break; } case pvd::pvULong: { typedef pvd::uint64 T; BODY; break; } \
  case pvd::pvFloat: { typedef float T; BODY; break; } case pvd::pvDouble: { typedef double T; BODY; break; } case pvd::pvString: { typedef std::string T; BODY; break; } }

inline void putScalar(pvd::PVField *f, pvd::ScalarType st, const MS& v) { SDISPATCH(st, dynamic_cast<pvd::PVScalarValue<T>&>(*f).put(Conv<T>::to(v))) }
inline MS getScalar(const pvd::PVField *f, pvd::ScalarType st) { MS r; SDISPATCH(st, r=Conv<T>::from(dynamic_cast<const pvd::PVScalarValue<T>&>(*f).get())) return r; }
inline void putArray(pvd::PVField *f, pvd::ScalarType st, const std::vector<MS>& a) {
    SDISPATCH(st, pvd::PVValueArray<T>& p=dynamic_cast<pvd::PVValueArray<T>&>(*f); pvd::shared_vector<T> v(a.size()); for(size_t i=0;i<a.size();i++) v[i]=Conv<T>::to(a[i]); p.replace(pvd::freeze(v)))
}
inline std::vector<MS> getArray(const pvd::PVField *f, pvd::ScalarType st) {
    std::vector<MS> r;
    SDISPATCH(st, const pvd::PVValueArray<T>& p=dynamic_cast<const pvd::PVValueArray<T>&>(*f); pvd::shared_vector<const T> v(p.view()); for(size_t i=0;i<v.size();i++) r.push_back(Conv<T>::from(v[i])))
    return r;
}
inline pvd::PVFieldPtr make(const VP& v);
inline void assign(pvd::PVField *f, const VP& v) {
    switch(v->t->k) {
    case KScalar: case KBString: putScalar(f,v->t->s,v->s); break;
    case KArray: case KBArray: case KFArray: putArray(f,v->t->s,v->a); break;
    case KStruct: { pvd::PVStructure *s=dynamic_cast<pvd::PVStructure*>(f); for(size_t i=0;i<v->kids.size();i++) assign(s->getPVFields()[i].get(),v->kids[i]); break; }
    case KUnion: { pvd::PVUnion *u=dynamic_cast<pvd::PVUnion*>(f); if(v->sel<0) u->select(-1); else { u->select(v->sel); assign(u->get().get(),v->v); } break; }
    case KAny: { pvd::PVUnion *u=dynamic_cast<pvd::PVUnion*>(f); u->set(v->v?make(v->v):pvd::PVFieldPtr()); break; }
    case KStructArr: { pvd::PVStructureArray *a=dynamic_cast<pvd::PVStructureArray*>(f); pvd::PVStructureArray::svector d(v->kids.size()); for(size_t i=0;i<d.size();i++) if(v->kids[i]) d[i]=std::tr1::static_pointer_cast<pvd::PVStructure>(make(v->kids[i])); a->replace(pvd::freeze(d)); break; }
    case KUnionArr: case KAnyArr: { pvd::PVUnionArray *a=dynamic_cast<pvd::PVUnionArray*>(f); pvd::PVUnionArray::svector d(v->kids.size()); for(size_t i=0;i<d.size();i++) if(v->kids[i]) d[i]=std::tr1::static_pointer_cast<pvd::PVUnion>(make(v->kids[i])); a->replace(pvd::freeze(d)); break; }
    }
}
inline pvd::PVFieldPtr make(const TP& t) { return pvd::getPVDataCreate()->createPVField(build(t)); }
inline pvd::PVFieldPtr make(const VP& v) { pvd::PVFieldPtr p=make(v->t); assign(p.get(),v); return p; }
inline pvd::PVStructurePtr makeS(const VP& v) { return std::tr1::static_pointer_cast<pvd::PVStructure>(make(v)); }
// "" when the real object holds exactly the model value, else where they differ
inline std::string vcheck(const pvd::PVField *f, const VP& v, bool types=true) {
    if(!f) return v?"null":"";
    if(!v) return "not null";
    if(types) { std::string r=tcheck(f->getField().get(),v->t); if(r!="") return "type: "+r; }
    switch(v->t->k) {
    case KScalar: case KBString: { MS g=getScalar(f,v->t->s); if(!(g==v->s)) return "is "+msstr(v->t->s,g)+" want "+msstr(v->t->s,v->s); break; }
    case KArray: case KBArray: case KFArray: { std::vector<MS> g=getArray(f,v->t->s); const pvd::PVArray *pa=dynamic_cast<const pvd::PVArray*>(f); if(pa->getLength()!=g.size()) return "getLength differs from the view";
        if(!(g==v->a)) { VP x(new MV(v->t)); x->a=g; return "is "+vstr(x)+" want "+vstr(v); } break; }
    case KStruct: { const pvd::PVStructure *s=dynamic_cast<const pvd::PVStructure*>(f); const pvd::PVFieldPtrArray& k=s->getPVFields(); if(k.size()!=v->kids.size()) return "number of sub-fields";
        for(size_t i=0;i<k.size();i++) { if(k[i]->getFieldName()!=v->t->names[i]) return "name of sub-field "+v->t->names[i]; if(k[i]->getParent()!=s) return "parent of sub-field "+v->t->names[i]; std::string r=vcheck(k[i].get(),v->kids[i],false); if(r!="") return v->t->names[i]+": "+r; } break; }
    case KUnion: { const pvd::PVUnion *u=dynamic_cast<const pvd::PVUnion*>(f); if(u->getSelectedIndex()!=v->sel) return "selected "+mc::str(u->getSelectedIndex())+" want "+mc::str(v->sel);
        if(u->getSelectedFieldName()!=(v->sel<0?std::string():v->t->names[v->sel])) return "selected name"; std::string r=vcheck(u->get().get(),v->v); if(r!="") return "union value: "+r; break; }
    case KAny: { const pvd::PVUnion *u=dynamic_cast<const pvd::PVUnion*>(f); if(u->getSelectedIndex()!=-1||u->getSelectedFieldName()!="") return "a variant has a selection"; std::string r=vcheck(u->get().get(),v->v); if(r!="") return "variant value: "+r; break; }
    case KStructArr: { const pvd::PVStructureArray *a=dynamic_cast<const pvd::PVStructureArray*>(f); pvd::PVStructureArray::const_svector d(a->view()); if(d.size()!=v->kids.size()||a->getLength()!=d.size()) return "length "+mc::str(d.size())+" want "+mc::str(v->kids.size());
        for(size_t i=0;i<d.size();i++) { std::string r=vcheck(d[i].get(),v->kids[i]); if(r!="") return "["+mc::str(i)+"]: "+r; } break; }
    default: { const pvd::PVUnionArray *a=dynamic_cast<const pvd::PVUnionArray*>(f); pvd::PVUnionArray::const_svector d(a->view()); if(d.size()!=v->kids.size()||a->getLength()!=d.size()) return "length "+mc::str(d.size())+" want "+mc::str(v->kids.size());
        for(size_t i=0;i<d.size();i++) { std::string r=vcheck(d[i].get(),v->kids[i]); if(r!="") return "["+mc::str(i)+"]: "+r; } break; }
    }
    return "";
}

// ---- enumeration
struct GenT {
    std::vector<TP> leaves;        // leaf types to use below the top
    std::vector<std::string> sids; // structure IDs
    std::vector<std::string> uids; // union IDs
    bool unions, arrays;           // compound kinds beside structures
    int maxFields;
    GenT() :unions(true), arrays(true), maxFields(3) { sids.push_back("structure"); uids.push_back("union"); }
};
static const char *NAMES[]={"a","b","c","d","e","f","g"};
// every tree with at most 'budget' nodes below this one
inline TP genT(const GenT& g, int& budget, bool topStruct=false);
inline TP genMembers(const GenT& g, int& budget, Kind k) {
    std::shared_ptr<MT> t(new MT(k));
    const std::vector<std::string>& ids = k==KStruct?g.sids:g.uids;
    t->id=ids[mc::choose(ids.size())];
    int lo = k==KUnion?1:0, hi=std::min(g.maxFields,budget);
    int n=lo+mc::choose(hi-lo+1);
    budget-=n;
    for(int i=0;i<n;i++) { t->names.push_back(NAMES[i]); t->kids.push_back(genT(g,budget)); }
    return t;
}
inline TP genT(const GenT& g, int& budget, bool topStruct) {
    if(topStruct) return genMembers(g,budget,KStruct);
    int nl=g.leaves.size(), comp=0;
    // compound kinds: structure (0.. members), union (>=1 member), structure array, union array
    comp = 1; if(g.unions && budget>=1) comp=2; if(g.arrays) comp = (g.unions && budget>=1)?4:2;
    int c=mc::choose(nl+comp);
    if(c<nl) return g.leaves[c];
    c-=nl;
    if(!(g.unions && budget>=1)) return c==0?genMembers(g,budget,KStruct):tStructArr(genMembers(g,budget,KStruct));
    switch(c) { case 0: return genMembers(g,budget,KStruct); case 1: return genMembers(g,budget,KUnion); case 2: return tStructArr(genMembers(g,budget,KStruct)); default: return tUnionArr(genMembers(g,budget,KUnion)); }
}
// enumerate values; leaf data follow from 'seed', structural choices are enumerated
struct GenV {
    int seed; int maxLen; bool choices; // choices=false: structure derived from the seed too
    std::vector<TP> anyTypes; int counter;
    GenV(int seed, int maxLen=2, bool choices=true) :seed(seed), maxLen(maxLen), choices(choices), counter(0) { anyTypes.push_back(tScalar(pvd::pvInt)); anyTypes.push_back(tStruct({"q"},{tScalar(pvd::pvString)},"S")); }
    int pick(int n) { if(n<=1) return 0; return choices?mc::choose(n):(seed*5+counter++*3)%n; }
};
inline VP genV(GenV& g, const TP& t) {
    VP v(new MV(t));
    switch(t->k) {
    case KScalar: v->s=sval(t->s,g.seed?g.seed+g.counter++:0); break;
    case KBString: v->s=MS(std::string("bounded").substr(0,std::min<size_t>(t->n,g.seed?1+(g.seed+g.counter++)%7:0))); break;
    case KArray: case KBArray: case KFArray: { size_t n= t->k==KFArray?t->n:g.pick(std::min<size_t>(g.maxLen,t->k==KBArray?t->n:99)+1); for(size_t i=0;i<n;i++) v->a.push_back(sval(t->s,g.seed?g.seed+g.counter++:0)); break; }
    case KStruct: for(size_t i=0;i<t->kids.size();i++) v->kids.push_back(genV(g,t->kids[i])); break;
    case KUnion: v->sel=g.pick(t->kids.size()+1)-1; if(v->sel>=0) v->v=genV(g,t->kids[v->sel]); break;
    case KAny: { int k=g.pick(g.anyTypes.size()+1); if(k) v->v=genV(g,g.anyTypes[k-1]); break; }
    default: { int n=g.pick(g.maxLen+1); for(int i=0;i<n;i++) v->kids.push_back(g.pick(2)?VP():genV(g,t->elem)); break; }
    }
    return v;
}
inline std::vector<TP> allLeaves() {
    std::vector<TP> r; for(int s=0;s<12;s++) r.push_back(tScalar((pvd::ScalarType)s)); r.push_back(tBString(3)); r.push_back(tBString(300));
    for(int s=0;s<12;s++) { r.push_back(tArray((pvd::ScalarType)s)); r.push_back(tBArray((pvd::ScalarType)s,2)); r.push_back(tFArray((pvd::ScalarType)s,2)); }
    r.push_back(tBArray(pvd::pvInt,254)); r.push_back(tFArray(pvd::pvInt,300)); r.push_back(tAny()); r.push_back(tAnyArr());
    return r;
}
inline uint64_t thash(const TP& t) { return mc::hstr(tstr(t)); }
inline uint64_t vhash(const VP& v) { return mc::hstr(tstr(v->t)+vstr(v)); }
#endif
