// helpers shared by the harnesses
#ifndef PVDH_H
#define PVDH_H
#include "mc.h"
#include <string.h>
#include <stdarg.h>
#include <algorithm>
#include <stdexcept>
#include <pv/byteBuffer.h>
#include <pv/serialize.h>
#include <pv/serializeHelper.h>
#include <pv/pvIntrospect.h>
#include <pv/pvData.h>
#include <pv/bitSet.h>
#include <epicsEndian.h>

namespace pvd = epics::pvData;
typedef std::vector<uint8_t> bytes;

inline std::string hexb(const bytes& b) { return b.empty()?std::string():mc::hex(&b[0],b.size()); }

// ---- independent encoder of the wire primitives
struct Enc {
    bytes b; bool be;
    explicit Enc(bool be) :be(be) {}
    void raw(uint64_t v, int n) { for(int i=0;i<n;i++) b.push_back(uint8_t(v>>(8*(be?n-1-i:i)))); }
    void u8(uint8_t v) { b.push_back(v); }
    void size(uint64_t n) { if(n==(uint64_t)-1) u8(0xff); else if(n<254) u8(n); else { u8(0xfe); raw(n,4); } }
    void str(const std::string& s) { size(s.size()); b.insert(b.end(),s.begin(),s.end()); }
};

struct WireEnd : public std::runtime_error { WireEnd() :std::runtime_error("test stream: out of data") {} };

// Sender side: a buffer of limited capacity which is drained into 'out' when it fills up.
struct FragSer : public pvd::SerializableControl {
    std::vector<char> store; pvd::ByteBuffer buf; bytes out; size_t flushes, direct; bool allowDirect;
    FragSer(size_t cap, bool be, size_t prefill=0)
        :store(cap), buf(&store[0], cap, be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE), flushes(0), direct(0), allowDirect(false)
    { for(size_t i=0;i<prefill;i++) buf.putByte(0x55); pre=prefill; }
    size_t pre;
    virtual void flushSerializeBuffer() {
        out.insert(out.end(), store.begin(), store.begin()+buf.getPosition());
        buf.clear(); flushes++;
        if(flushes>100000) throw std::logic_error("test sender: flushed 100000 times");
    }
    virtual void ensureBuffer(std::size_t n) {
        if(buf.getRemaining()>=n) return;
        flushSerializeBuffer();
        if(buf.getRemaining()<n) throw std::logic_error("test sender: request larger than the buffer");
    }
    virtual bool directSerialize(pvd::ByteBuffer *, const char*p, std::size_t count, std::size_t sz) {
        if(!allowDirect) return false;
        flushSerializeBuffer();
        out.insert(out.end(), (const uint8_t*)p, (const uint8_t*)p+count*sz); direct++;
        return true;
    }
    virtual void cachedSerialize(std::tr1::shared_ptr<const pvd::Field> const & field, pvd::ByteBuffer* b) { 
        if(!field) b->putByte((pvd::int8)-1); else field->serialize(b,this); }
    bytes finish() { flushSerializeBuffer(); bytes r(out.begin()+pre,out.end()); return r; }
};

// Receiver side: bytes arrive in pieces; 'cuts' are stream positions at which the data seen so far ends.
struct FragDes : public pvd::DeserializableControl {
    const bytes& in; size_t fed; std::vector<char> store; pvd::ByteBuffer buf; std::vector<size_t> cuts; size_t ensures; bool minimal, allowDirect; bool be; size_t direct;
    FragDes(const bytes& in, bool be, const std::vector<size_t>& cuts, bool minimal=false)
        :in(in), fed(0), store(in.size()+64), buf(&store[0], store.size(), be?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE), cuts(cuts), ensures(0), minimal(minimal), allowDirect(false), be(be), direct(0)
    { buf.setLimit(0); feed(minimal?0:nextCut(0)); }
    size_t nextCut(size_t from) { size_t r=in.size(); for(size_t i=0;i<cuts.size();i++) if(cuts[i]>from && cuts[i]<r) r=cuts[i]; return r; }
    void feed(size_t upto) {
        if(upto<=fed) return;
        size_t rem=buf.getRemaining(), pos=buf.getPosition();
        std::vector<char> keep(buf.getBuffer()+pos, buf.getBuffer()+pos+rem);
        memset(&store[0], 0xee, store.size());
        buf.clear();
        if(rem) memcpy(&store[0], &keep[0], rem);
        memcpy(&store[0]+rem, &in[fed], upto-fed);
        rem += upto-fed; fed=upto;
        buf.setPosition(0); buf.setLimit(rem);
    }
    size_t consumed() const { return fed-buf.getRemaining(); }
    virtual void ensureData(std::size_t n) {
        if(++ensures>100000) throw std::logic_error("test receiver: 100000 requests");
        while(buf.getRemaining()<n) {
            if(fed>=in.size()) throw WireEnd();
            size_t need = fed + (n-buf.getRemaining());
            if(minimal) feed(std::min(need,in.size()));
            else feed(nextCut(fed));
        }
    }
    virtual bool directDeserialize(pvd::ByteBuffer *, char* p, std::size_t count, std::size_t sz) {
        if(!allowDirect || be!=(EPICS_BYTE_ORDER==EPICS_ENDIAN_BIG)) return false;
        size_t n=count*sz; direct++;
        while(n) {
            if(buf.getRemaining()==0) { if(fed>=in.size()) throw WireEnd(); feed(minimal?fed+1:nextCut(fed)); }
            size_t k=std::min(n,buf.getRemaining()); memcpy(p,buf.getBuffer()+buf.getPosition(),k); buf.setPosition(buf.getPosition()+k); p+=k; n-=k;
        }
        return true;
    }
    virtual std::tr1::shared_ptr<const pvd::Field> cachedDeserialize(pvd::ByteBuffer* b) { return pvd::getFieldCreate()->deserialize(b,this); }
};

inline std::string sfmt(const char *f, ...) __attribute__((format(printf,1,2)));
inline std::string sfmt(const char *f, ...) { char b[4000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
// run fn, return "" or the exception type/text
template<typename F> std::string thrown(F fn) {
    try { fn(); return ""; }
    catch(mc::Violation&) { throw; }
    catch(mc::Skip&) { throw; }
    catch(std::exception& e) { std::string s=e.what(); return s.empty()?"exception":s; }
}
#endif
