// encode / decode helpers for whole values
#ifndef VALUESH_H
#define VALUESH_H
#include "model.h"
inline bytes encReal(const pvd::PVField *f, bool be, size_t cap, size_t pre, bool direct, pvd::BitSet *m=0) {
    FragSer s(cap,be,pre); s.allowDirect=direct;
    if(m) dynamic_cast<const pvd::PVStructure*>(f)->serialize(&s.buf,&s,m); else f->serialize(&s.buf,&s);
    return s.finish();
}
inline bytes encModel(const VP& v, bool be) { Enc e(be); encValue(v,e); return e.b; }
// every way of splitting 'n' bytes: 0 none, 1..n-1 one cut, then byte by byte
struct Split { std::vector<size_t> cuts; bool minimal; };
inline size_t nsplits(size_t n) { return n+1; }
inline Split split(size_t i, size_t n) { Split s; s.minimal=i==n; if(i>0&&i<n) s.cuts.push_back(i); return s; }
inline void decReal(pvd::PVField *f, const bytes& in, bool be, const Split& s, bool direct, size_t want, const char *key, const std::string& what, pvd::BitSet *m=0) {
    FragDes d(in,be,s.cuts,s.minimal); d.allowDirect=direct;
    if(m) dynamic_cast<pvd::PVStructure*>(f)->deserialize(&d.buf,&d,m); else f->deserialize(&d.buf,&d);
    mc::step();
    CHECK(d.consumed()==want,key,"%s: decoding consumed %zu of %zu bytes",what.c_str(),d.consumed(),want);
}
#endif
