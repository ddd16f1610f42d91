// type descriptions on the wire, identity of equal descriptions, single threaded part of interning
#include "model.h"
using namespace epics::pvData;

static bytes encodeReal(const FieldConstPtr& f, bool be, size_t cap, size_t pre, size_t *flushes=0) { FragSer s(cap,be,pre); f->serialize(&s.buf,&s); if(flushes) *flushes=s.flushes; return s.finish(); }
static void roundtrip(const TP& t, bool be, bool frag) {
    mc::op("type %s be=%d",tstr(t).c_str(),be);
    FieldConstPtr f=build(t);
    std::string r=tcheck(f.get(),t); CHECK(r=="","build","built type is not what was asked: %s",r.c_str());
    Enc e(be); encType(t,e); bytes want=e.b;
    size_t fl=0;
    for(size_t cap=9;cap<12;cap++) for(size_t pre=0;pre<=cap;pre+= frag?1:5) { bytes w=encodeReal(f,be,cap,pre,&fl); CHECK(w==want,"encode","%s encodes to %s want %s (capacity %zu prefilled %zu)",tstr(t).c_str(),hexb(w).c_str(),hexb(want).c_str(),cap,pre); mc::step(); }
    mc::state(mc::hmix(thash(t),be)); mc::outcome("len "+mc::str(want.size()));
    bytes in(want); in.push_back(0x77); in.push_back(0x77);
    FieldCreatePtr c=getFieldCreate();
    size_t nf = frag?in.size()-1:1;
    for(size_t cut=0; cut<=nf; cut++) {
        std::vector<size_t> cuts; if(cut>0) cuts.push_back(cut);
        FragDes d(in,be,cuts,cut==nf);
        FieldConstPtr g=c->deserialize(&d.buf,&d); mc::step();
        CHECK(g.get()!=0,"decode","%s decodes to nothing",hexb(want).c_str());
        r=tcheck(g.get(),t); CHECK(r=="","decode","%s decodes wrongly: %s",hexb(want).c_str(),r.c_str());
        CHECK(d.consumed()==want.size(),"decode","%s: consumed %zu of %zu bytes",hexb(want).c_str(),d.consumed(),want.size());
        CHECK(*g==*f,"decode","decoded type is not equal");
        CHECK(g.get()==f.get(),"intern","decoding %s gives another object than the equal one in use",tstr(t).c_str());
    }
}
static GenT small(bool ids) { GenT g; g.leaves={tScalar(pvInt),tScalar(pvString),tArray(pvDouble),tBString(5),tAny(),tFArray(pvByte,3)}; if(ids) { g.sids.push_back("S"); g.uids.push_back("U"); } return g; }

SCENARIO(leaf_types) { static std::vector<TP> L=allLeaves(); TP t=L[mc::choose(L.size())]; bool be=mc::choose(2); int wrap=mc::choose(5);
    if(wrap==1) t=tStruct({"x"},{t}); if(wrap==2) t=tUnion({"x"},{t},"U"); if(wrap==3) t=tStructArr(tStruct({"x"},{t},"id")); if(wrap==4) t=tUnionArr(tUnion({"x","y"},{t,t}));
    roundtrip(t,be,true); }
SCENARIO(type_trees) { GenT g=small(false); int budget=mc::tier()?4:3; TP t=genT(g,budget); roundtrip(t,mc::choose(2),false); }
SCENARIO(type_trees_fragmented) { GenT g=small(true); g.leaves={tScalar(pvInt),tBArray(pvInt,300),tAnyArr()}; int budget=mc::tier()?3:2; TP t=genT(g,budget); roundtrip(t,mc::choose(2),true); }
// every kind of bound, around the limits of the ways a size is written
SCENARIO(bounds) { static const size_t B[]={1,2,127,128,252,253,254,255,256,257,32767,32768,65535,65536,0x7ffffffe,0x7fffffff}; size_t b=B[mc::choose(16)]; int kind=mc::choose(4), wrap=mc::choose(2); bool be=mc::choose(2); static const ScalarType E[]={pvBoolean,pvULong,pvString};
    TP t= kind==0?tBString(b):kind==1?tBArray(E[b%3],b):kind==2?tFArray(E[b%3],b):tStructArr(tStruct({"x","y"},{tBArray(pvInt,b),tBString(b)},"id")); if(wrap) t=tUnion({"w"},{t}); roundtrip(t,be,true); }
// long names, many fields, long IDs
SCENARIO(wide_types) {
    static const int N[]={0,1,253,254,255,300}; int n=N[mc::choose(6)]; static const int IL[]={1,2,253,254,300}; size_t il=IL[mc::choose(5)]; int kind=mc::choose(2); bool be=mc::choose(2);
    if(kind==1&&n==0) mc::skip();
    std::vector<std::string> names; std::vector<TP> kids; for(int i=0;i<n;i++) { std::string s="f"+mc::str(i); if(i==0) s=std::string(260,'n'); names.push_back(s); kids.push_back(tScalar((ScalarType)(i%12))); }
    TP t= kind?tUnion(names,kids,std::string(il,'I')):tStruct(names,kids,std::string(il,'I'));
    roundtrip(t,be,false);
}
// a null description, the short IDs, and IDs which are the default ones
SCENARIO(special) {
    bool be=mc::choose(2); mc::step();
    FieldCreatePtr c=getFieldCreate();
    { bytes in(1,0xff); FragDes d(in,be,std::vector<size_t>()); CHECK(!c->deserialize(&d.buf,&d),"null","0xff must decode to a null description"); }
    TP s=tStruct({"a"},{tScalar(pvInt)},"structure"), u=tUnion({"a"},{tScalar(pvInt)},"union"), su=tStruct({"a"},{tScalar(pvInt)},"union"), us=tUnion({"a"},{tScalar(pvInt)},"structure");
    roundtrip(s,be,true); roundtrip(u,be,true); roundtrip(su,be,true); roundtrip(us,be,true); roundtrip(tStruct({},{},"any"),be,true); roundtrip(tUnion({"a"},{tAny()},"any"),be,true);
    FieldConstPtrArray f; f.push_back(c->createScalar(pvInt)); StringArray n; n.push_back("a");
    CHECK(c->createStructure(n,f)->getID()=="structure"&&c->createUnion(n,f)->getID()=="union","default","default IDs");
    CHECK(c->createStructure()->getNumberFields()==0,"default","empty structure");
    // default constructed types are the same objects as explicit ones
    CHECK(c->createStructure(n,f)==c->createStructure("structure",n,f)&&c->createUnion(n,f)==c->createUnion("union",n,f),"intern","the default ID gives another object");
    // appendField(s)
    StructureConstPtr base=c->createStructure("B",n,f), more=c->appendField(base,"b",c->createVariantUnion());
    CHECK(tcheck(more.get(),tStruct({"a","b"},{tScalar(pvInt),tAny()},"B"))=="","append","appendField gives %s",mc::str(*more).c_str());
    StringArray n2; n2.push_back("x"); n2.push_back("y"); FieldConstPtrArray f2; f2.push_back(c->createScalarArray(pvByte)); f2.push_back(base);
    CHECK(tcheck(c->appendFields(more,n2,f2).get(),tStruct({"a","b","x","y"},{tScalar(pvInt),tAny(),tArray(pvByte),tStruct({"a"},{tScalar(pvInt)},"B")},"B"))=="","append","appendFields wrong");
    CHECK(tcheck(base.get(),tStruct({"a"},{tScalar(pvInt)},"B"))=="","append","appendField changed the original");
}
