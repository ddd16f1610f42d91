// C22: JSON printing and parsing are inverse and strict
#include "jsonref.h"
#include <pv/json.h>
#include <pv/bitSet.h>
using namespace epics::pvData;
static std::vector<bool> bitsOf(const BitSet& b, size_t n) { std::vector<bool> r(n); for(size_t i=0;i<n;i++) r[i]=b.get(i); return r; }
static std::string bstr(const std::vector<bool>& b) { std::string s; for(bool x: b) s+=x?'1':'0'; return s; }
struct Misfit {}; struct Unjudged {};
// what assigning one JSON value to a scalar gives (conversion as by the value itself)
static MS conv(ScalarType st, const JP& j) { PVScalarPtr p=getPVDataCreate()->createPVScalar(st); std::string e=thrown([&]{ switch(j->k) { case JV::Bool: p->putFrom<boolean>(j->b); break; case JV::Int: p->putFrom<int64>(j->i); break; case JV::Dbl: p->putFrom<double>(j->d); break; case JV::Str: p->putFrom<std::string>(j->s); break; default: throw std::runtime_error("misfit"); } }); if(e!="") throw Misfit(); return getScalar(p.get(),st); }
static bool isScalar(const JP& j) { return j->k>=JV::Bool&&j->k<=JV::Str; }
// names may lead through several levels
static bool findSub(const TP& t, const std::string& name, std::vector<size_t>& path) { size_t d=name.find('.'); std::string h=name.substr(0,d); for(size_t i=0;i<t->names.size();i++) if(t->names[i]==h) { path.push_back(i); if(d==name.npos) return true; return t->kids[i]->k==KStruct&&findSub(t->kids[i],name.substr(d+1),path); } return false; }
static VP *sub(VP& v, size_t at, const std::vector<size_t>& path, size_t& num) { VP *p=&v; num=at; for(size_t i: path) { size_t c=num+1; for(size_t k=0;k<i;k++) c+=tcount((*p)->t->kids[k]); num=c; p=&(*p)->kids[i]; } return p; }
static void into(VP& v, size_t at, const JP& j, std::vector<bool> *as) {
    const TP t=v->t; if(j->k==JV::Null) throw Misfit();
    switch(t->k) {
    case KScalar: case KBString: if(!isScalar(j)) throw Misfit(); v->s=conv(t->s,j); if(t->k==KBString&&v->s.s.size()>t->n) throw Misfit(); break;
    case KArray: case KBArray: case KFArray: { if(j->k!=JV::Arr) throw Misfit(); std::vector<MS> a; for(const JP& e: j->a) { if(!isScalar(e)) throw Misfit(); a.push_back(conv(t->s,e)); } if(t->k==KBArray&&a.size()>t->n) throw Misfit(); if(t->k==KFArray&&a.size()!=t->n) { if(a.empty()) throw Unjudged(); throw Misfit(); } v->a=a; break; }
    case KStruct: if(j->k!=JV::Obj) throw Misfit(); for(size_t i=0;i<j->a.size();i++) { std::vector<size_t> p; size_t n; if(!findSub(t,j->keys[i],p)) throw Misfit(); VP *f=sub(v,at,p,n); into(*f,n,j->a[i],as); } return;
    case KStructArr: { if(j->k!=JV::Arr) throw Misfit(); v->kids.clear(); for(const JP& e: j->a) { VP k=vdefault(t->elem); if(e->k!=JV::Obj) throw Misfit(); into(k,0,e,0); v->kids.push_back(k); } break; }
    case KAny: { if(!isScalar(j)) throw Misfit(); static const ScalarType S[]={pvInt,pvBoolean,pvLong,pvDouble,pvString}; v->v=vdefault(tScalar(S[j->k])); v->v->s=conv(S[j->k],j); break; }
    case KUnion: { if(!isScalar(j)) throw Misfit(); for(size_t i=0;i<t->kids.size();i++) { const TP& k=t->kids[i]; if(k->k!=KScalar&&k->k!=KBString) continue; try { VP m=vdefault(k); into(m,0,j,0); v->sel=i; v->v=m; if(as) (*as)[at]=true; return; } catch(Misfit&) {} } throw Misfit(); }
    default: throw Misfit();
    }
    if(as) (*as)[at]=true;
}
// parse 'text' into a value that holds 'old'
static void judgeInto(const VP& old, const std::string& text, bool pre=false) {
    JP j; JState st=jread(text,j); size_t n=tcount(old->t); VP want=vcopy(old); std::vector<bool> as(n); bool fits=false, judged=st!=JUnclear;
    if(st==JValid) { try { into(want,0,j,&as); fits=true; } catch(Misfit&) {} catch(Unjudged&) { judged=false; } }
    mc::op("%s into %s",text.c_str(),vstr(old).c_str()); bool lmin=text.find("-9223372036854775808")!=text.npos; PVFieldPtr f=make(old); BitSet b; if(pre) { b.set(n+3); } std::istringstream s(text); std::string e=thrown([&]{ parseJSON(s,*f,&b); }); mc::step();
    mc::str(*f); if(!judged) { mc::outcome(e==""?"unclear, accepted":"unclear, refused"); return; }
    CHECK((e=="")==fits,e==""?"accepted":lmin?"int64-min":"refused","'%s' into %s is %s%s",text.c_str(),tstr(old->t).c_str(),e==""?"accepted":"refused: ",e.c_str());
    if(fits) { std::string c=vcheck(f.get(),want); CHECK(c=="","value","'%s' into %s: %s",text.c_str(),vstr(old).c_str(),c.c_str()); if(pre) { CHECK(b.get(n+3),"mask","a bit set before is gone"); b.clear(n+3); } std::vector<bool> got=bitsOf(b,n+2); as.resize(n+2); CHECK(got==as,"mask","'%s' into %s: assigned %s want %s",text.c_str(),tstr(old->t).c_str(),bstr(got).c_str(),bstr(as).c_str()); mc::state(vhash(want)); }
    PVFieldPtr g=make(old); std::istringstream s2(text); std::string e2=thrown([&]{ parseJSON(s2,g); }); CHECK((e2=="")==(e==""),"nomask","'%s' without mask: %s",text.c_str(),e2.c_str()); if(e=="") { std::string c=vcheck(g.get(),want); CHECK(c=="","nomask","%s",c.c_str()); }
    mc::outcome(fits?"fits":st==JInvalid?"invalid":"misfit");
}
// parse as a new structure
static bool goodName(const std::string& n) { if(n.empty()||(n[0]>='0'&&n[0]<='9')) return false; for(size_t i=0;i<n.size();i++) { char c=n[i]; if(!((c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='_')) return false; } return true; }
static VP asNew(const JP& j) {
    VP v; switch(j->k) { case JV::Null: throw Misfit(); case JV::Bool: v=vdefault(tScalar(pvBoolean)); v->s=MS(j->b); return v; case JV::Int: v=vdefault(tScalar(pvLong)); v->s=MS(j->i); return v; case JV::Dbl: v=vdefault(tScalar(pvDouble)); v->s=dbits(j->d); return v; case JV::Str: v=vdefault(tScalar(pvString)); v->s=MS(j->s); return v;
    case JV::Arr: { for(const JP& e: j->a) if(!isScalar(e)||e->k!=j->a[0]->k) throw Misfit(); if(j->a.empty()) throw Unjudged(); static const ScalarType S[]={pvInt,pvBoolean,pvLong,pvDouble,pvString}; v=vdefault(tArray(S[j->a[0]->k])); for(const JP& e: j->a) v->a.push_back(conv(v->t->s,e)); return v; }
    default: { std::map<std::string,VP> m; bool un=false, bad=false; for(size_t i=0;i<j->a.size();i++) { if(!goodName(j->keys[i])) bad=true; if(m.count(j->keys[i])) un=true; try { m[j->keys[i]]=asNew(j->a[i]); } catch(Unjudged&) { un=true; } catch(Misfit&) { bad=true; } } if(bad) throw Misfit(); if(un) throw Unjudged(); std::vector<std::string> nm; std::vector<TP> ty; for(auto& x: m) { nm.push_back(x.first); ty.push_back(x.second->t); } v=VP(new MV(tStruct(nm,ty))); for(auto& x: m) v->kids.push_back(x.second); return v; } }
}
static bool emptyArrays(const PVField& f, const JP& j) { return true; }
static void judgeNew(const std::string& text) {
    JP j; JState st=jread(text,j); VP want; bool judged=st!=JUnclear; if(st==JValid) { if(j->k!=JV::Obj) {} else try { want=asNew(j); } catch(Misfit&) {} catch(Unjudged&) { judged=false; } }
    mc::op("%s",text.c_str()); std::istringstream s(text); PVStructurePtr p; std::string e=thrown([&]{ p=parseJSON(s); }); mc::step(); CHECK((e=="")==!!p,"null","parseJSON('%s') returns null",text.c_str()); if(p) mc::str(*p); if(!judged) { mc::outcome(p?"unclear, accepted":"unclear, refused"); return; }
    CHECK((e=="")==!!want,e==""?"accepted":text.find("-9223372036854775808")!=text.npos?"int64-min":"refused","'%s' is %s%s",text.c_str(),e==""?"accepted":"refused: ",e.c_str()); if(want) { std::string c=vcheck(p.get(),want); CHECK(c=="","value","'%s': %s want %s",text.c_str(),c.c_str(),vstr(want).c_str()); mc::state(vhash(want)); } mc::outcome(want?"structure":st==JInvalid?"invalid":"misfit");
}
// ---- documents
static const char *LEAF[]={"1","-2.5","\"7\"","\"x\"","true","[]","[1]","[1,2]","[\"x\",\"3\"]","[true]","{}","{\"a\":1}","[{}]","[{\"a\":1},{\"b\":[2]}]","null","[[1]]","[1,[2]]","[{},1]","[1,{}]","[null]","300","[0.5,300]","\"\"","[[]]","[{},[]]","{\"a\":[1]}"};
static const int NLEAF=sizeof(LEAF)/sizeof(*LEAF);
static TP target(int k) { TP I=tScalar(pvInt), S=tScalar(pvString); switch(k) {
    case 0: return tStruct({"a","b","s"},{I,tArray(pvInt),tStruct({"a","b"},{S,tArray(pvString)},"S")});
    case 1: return tStruct({"a","b","c"},{tStructArr(tStruct({"a","b"},{I,tArray(pvDouble)},"E")),tUnion({"a","b","c"},{tStruct({"a"},{I}),I,S}),tAny()});
    case 2: return tStruct({"a","b","c"},{tBArray(pvByte,2),tBString(3),tFArray(pvInt,2)});
    default: return tStruct({"a","b","c"},{tUnionArr(tUnion({"a"},{I})),tScalar(pvBoolean),tAnyArr()}); } }
static VP filled(const TP& t, int seed) { if(!seed) return vdefault(t); GenV g(seed,2,false); return genV(g,t); }
static std::string doc(const TP& t, int entries, bool extra) { std::string r="{"; for(int i=0;i<entries;i++) { int nk=t->names.size()+(extra?3:1); int k=mc::choose(nk); if(i&&k==0&&mc::choose(2)) break; std::string key=k<(int)t->names.size()?t->names[k]:k==(int)t->names.size()?"zz":k==(int)t->names.size()+1?"s.a":""; if(i) r+=","; r+="\""+key+"\":"; if(k<(int)t->names.size()&&t->kids[k]->k==KStruct&&mc::choose(2)) r+=doc(t->kids[k],1,false); else r+=LEAF[mc::choose(NLEAF)]; } return r+"}"; }
SCENARIO(objects, mc::Opts().S(3)) { TP t=target(mc::choose(4)); int fill=mc::choose(2)*2; judgeInto(filled(t,fill),doc(t,2,true),fill); }
SCENARIO(three_entries, mc::Opts().S(3), 1) { TP t=target(mc::choose(2)); judgeInto(filled(t,2),doc(t,3,false)); }
// a value of every type as the target
SCENARIO(bare, mc::Opts().S(2)) { std::vector<TP> L=allLeaves(); L.push_back(tStruct({"a","b"},{tScalar(pvInt),tArray(pvInt)})); L.push_back(tStructArr(L.back())); L.push_back(tUnion({"a","b"},{tScalar(pvDouble),tScalar(pvString)})); L.push_back(tUnion({"a"},{tArray(pvInt)})); L.push_back(tUnionArr(L.back())); TP t=L[mc::choose(L.size())]; static const char *M[]={"2147483648","-129","9223372036854775807","1e300","\"true\"","[\"abc\"]","false","[1,2,3]","[-1,0.25,\"4\"]"}; int k=mc::choose(NLEAF+9); judgeInto(filled(t,mc::choose(2)*3),k<NLEAF?LEAF[k]:M[k-NLEAF]); }
// a new structure
static std::string anyDoc(int& budget) { static const char *K[]={"a","b","a b","","1a","B_2"}; std::string r="{"; int n=0; while(budget>0&&mc::choose(2)) { budget--; if(n++) r+=","; r+=std::string("\"")+K[mc::choose(6)]+"\":"; int k=mc::choose(NLEAF+1); r+=k<NLEAF?LEAF[k]:anyDoc(budget); } return r+"}"; }
SCENARIO(new_structure, mc::Opts().S(3)) { int b=mc::tier()?3:2; judgeNew(anyDoc(b)); }
SCENARIO(new_bare) { judgeNew(mc::choose(2)?LEAF[mc::choose(NLEAF)]:std::string("{\"a\":")+LEAF[mc::choose(NLEAF)]+",\"b\":{\"c\":"+LEAF[mc::choose(NLEAF)]+"}}"); }
// arrays of several elements of every mix of kinds
static std::string anyArray(int max, const char *const *E, int ne) { int n=mc::choose(max+1); std::string s="["; for(int i=0;i<n;i++) { if(i) s+=","; s+=E[mc::choose(ne)]; } return s+"]"; }
SCENARIO(new_arrays, mc::Opts().S(3)) { static const char *E[]={"1","-0.5","true","\"x\"","false","\"\"","7","{}","null","[]"}; std::string a=anyArray(mc::tier()?5:4,E,mc::tier()?10:9); judgeNew("{\"a\":"+a+"}"); }
SCENARIO(array_targets, mc::Opts().S(3)) { static const char *E[]={"1","true","\"x\"","0.5","\"12\"","300","{}","null"}; std::vector<TP> L; static const ScalarType S[]={pvBoolean,pvByte,pvInt,pvULong,pvFloat,pvDouble,pvString}; for(ScalarType x: S) L.push_back(tArray(x)); L.push_back(tBArray(pvInt,2)); L.push_back(tFArray(pvShort,3)); L.push_back(tAny()); L.push_back(tAnyArr()); TP t=L[mc::choose(L.size())]; int f=mc::choose(2)*2; judgeInto(filled(tStruct({"a"},{t}),f),"{\"a\":"+anyArray(mc::tier()?4:3,E,8)+"}",f); }
// ---- line breaks, blanks and comments at every place
static const char *DOCS[]={"{\"a\":12,\"b\":[3,-4.5,0],\"s\":{\"a\":\"two words\",\"b\":[\"x\",\"\\u0041\\n\"]}}","{\"a\":[{\"a\":1,\"b\":[1.5e3]},{}],\"b\":7,\"c\":true}","{\"a\":[1,\"2\"],\"b\":\"xyz\",\"c\":[false,10]}"};
SCENARIO(gaps, mc::Opts().S(3)) {
    int k=mc::choose(3); std::string t=DOCS[k]; static const std::string G[]={"\n"," ","\r\n","/*c*/","//c\n","/*\n*/","\n\n","// \"}\n","\t"}; int twice=mc::choose(2); size_t p=mc::choose(t.size()+1); const std::string& g=G[mc::choose(9)]; t.insert(p,g);
    if(twice) { size_t q=p+g.size()+mc::choose(std::min<size_t>(t.size()-p-g.size()+1,mc::tier()?60:8)); t.insert(q,G[mc::choose(mc::tier()?9:2)]); } judgeInto(filled(target(k),2),t); judgeNew(t);
}
// every gap between tokens filled
SCENARIO(all_gaps) { int k=mc::choose(3); std::string t=DOCS[k], o; static const std::string G[]={"\n"," ","\r\n","/*c*/","//c\n","/* \" */"}; const std::string &g=G[mc::choose(6)]; bool in=false; for(size_t i=0;i<t.size();i++) { if(t[i]=='"'&&(i==0||t[i-1]!='\\')) { if(!in) o+=g; in=!in; o+=t[i]; if(!in) o+=g; } else if(!in&&strchr("{}[]:,",t[i])) { o+=g; o+=t[i]; o+=g; } else o+=t[i]; } judgeInto(filled(target(k),2),o); judgeNew(o); }
// ---- token sequences
static void tokens(int len, bool fresh) { static const char *T[]={"{","}","[","]","\"a\"","\"b\"","1","true",":",",","\n","null","\"s\"","//","/*","*/"}; std::string s; int n=fresh?0:1+mc::choose(len); int nt=mc::tier()?16:13; for(int i=0;i<n;i++) s+=T[mc::choose(nt)]; judgeInto(filled(target(0),2),s); judgeInto(filled(target(1),1),s); judgeNew(s); }
SCENARIO(token_sequences, mc::Opts().S(3)) { tokens(mc::tier()?5:4,false); }
SCENARIO(token_sequences_inside, mc::Opts().S(3)) { static const char *T[]={"{","}","[","]","\"a\"","1",":",",","\"b\"","\n"}; std::string s; int n=mc::choose(mc::tier()?7:6); for(int i=0;i<n;i++) s+=T[mc::choose(i<4?9:10)]; s="{\"a\":"+s+"}"; judgeInto(filled(target(0),2),s); judgeInto(filled(target(1),1),s); judgeNew(s); }
// one token removed, doubled, replaced
SCENARIO(mutants, mc::Opts().S(3)) { int k=mc::choose(3); std::string t=DOCS[k]; size_t p=mc::choose(t.size()); static const std::string C("{}[]:,\"\\1e-. \n/*\0\xff\x01ut+",22); int w=mc::choose(C.size()+3); if(w<(int)C.size()) t[p]=C[w]; else if(w==(int)C.size()) t.erase(p,1); else if(w==(int)C.size()+1) t.insert(p,1,t[p]); else t.resize(p); judgeInto(filled(target(k),2),t); judgeNew(t); }
SCENARIO(strings, mc::Opts().S(2)) { // escapes and bytes within strings
    static const char *P[]={"\\\"","\\\\","\\/","\\b","\\f","\\n","\\r","\\t","\\u0041","\\u00e9","\\u20ac","\\ud83d\\ude00","\\u0000","\xc3\xa9","\xe2\x82\xac","\xf0\x9f\x98\x80","\x7f","\x80","\xc3","\xff","\xc0\x80","\\x","\\u12","\\","'","//","/*","\x1f","\t"," "}; std::string s; int n=mc::choose(mc::tier()?4:3); for(int i=0;i<n;i++) s+=P[mc::choose(30)]; judgeInto(vdefault(tScalar(pvString)),"\""+s+"\""); judgeNew("{\"k\":\""+s+"\"}"); }
SCENARIO(numbers, mc::Opts().S(2)) { static const char C[]="0129.-+eE"; std::string s; int n=1+mc::choose(mc::tier()?6:5); for(int i=0;i<n;i++) s+=C[mc::choose(9)]; judgeInto(vdefault(tScalar(pvDouble)),s); judgeInto(vdefault(tScalar(pvLong)),s); judgeNew("{\"k\":["+s+"]}"); }
SCENARIO(number_edges) { static const char *N[]={"9223372036854775807","-9223372036854775808","9007199254740993","0.1","1e22","123456789012345680000.0","1.7976931348623157e308","5e-324","2.2250738585072014e-308","-0.0","-0","1E5","1e+5","1e-5","0.30000000000000004"}; const char *s=N[mc::choose(15)]; int st=mc::choose(12); VP v=vdefault(tScalar((ScalarType)st)); judgeInto(v,s); judgeInto(vdefault(tArray((ScalarType)st)),std::string("[")+s+",1]"); judgeNew(std::string("{\"k\":")+s+"}"); }
SCENARIO(depth) { int n=1<<mc::choose(7); int k=mc::choose(4); std::string s; switch(k) { case 0: for(int i=0;i<n;i++) s+="{\"a\":"; s+="1"+std::string(n,'}'); break; case 1: s="{\"a\":"+std::string(n,'[')+std::string(n,']')+"}"; break; case 2: s=std::string(n,'{'); break; case 3: for(int i=0;i<n;i++) s+="{\"a\":["; s+="1"; for(int i=0;i<n;i++) s+="]}"; break; } TP t=tScalar(pvInt); for(int i=0;i<n;i++) t=tStruct({"a"},{t}); judgeInto(vdefault(t),s); judgeNew(s); }
// the stream fails while it is read
SCENARIO(stream_errors) { struct B : std::streambuf { std::string s; size_t i; bool bad; B(const std::string& s) :s(s), i(0) {} int_type underflow() { if(i>=s.size()) throw std::runtime_error("device"); setg(&s[i],&s[i],&s[i]+1); i++; return (unsigned char)s[i-1]; } }; std::string t=DOCS[0]; B b(t.substr(0,mc::choose(t.size()))); std::istream in(&b); VP v=vdefault(target(0)); PVFieldPtr f=make(v); std::string e=thrown([&]{ parseJSON(in,*f); }); CHECK(e!="","stream","a failing stream is not reported"); B b2(t.substr(0,b.s.size())); std::istream in2(&b2); e=thrown([&]{ parseJSON(in2); }); CHECK(e!="","stream","a failing stream is not reported"); mc::outcome("refused"); }
// ---- printing
static JP show(const VP& v, const std::vector<bool> *m, size_t at) {
    if(!v) return JP(new JV(JV::Null)); JP o;
    auto sc=[&](ScalarType st, const MS& s) { JP r; switch(st) { case pvString: r=JP(new JV(JV::Str)); r->s=s.s; break; case pvBoolean: r=JP(new JV(JV::Bool)); r->b=s.u; break; case pvFloat: { float f; uint32_t x=s.u; memcpy(&f,&x,4); r=JP(new JV(JV::Dbl)); r->d=f; break; } case pvDouble: r=JP(new JV(JV::Dbl)); memcpy(&r->d,&s.u,8); break; default: r=JP(new JV(JV::Int)); r->i=s.u; if(st==pvULong&&(s.u>>63)) r->num=mc::str(s.u); } return r; };
    switch(v->t->k) { case KScalar: case KBString: return sc(v->t->s,v->s); case KArray: case KBArray: case KFArray: o=JP(new JV(JV::Arr)); for(const MS& s: v->a) o->a.push_back(sc(v->t->s,s)); return o;
    case KStruct: { o=JP(new JV(JV::Obj)); size_t c=at+1; for(size_t i=0;i<v->kids.size();i++) { if(!m||(*m)[c]) { o->keys.push_back(v->t->names[i]); o->a.push_back(show(v->kids[i],m,c)); } c+=tcount(v->t->kids[i]); } return o; }
    case KUnion: case KAny: return show(v->v,0,0); default: o=JP(new JV(JV::Arr)); for(const VP& k: v->kids) o->a.push_back(show(k,0,0)); return o; }
}
static std::string ulongBad;
static bool jsame(const JP& want, const JP& got, std::string& why) { if(want->k!=got->k) { why=jstr(got)+" for "+jstr(want); return false; } switch(want->k) { case JV::Bool: if(want->b==got->b) return true; break; case JV::Int: if(want->i==got->i) { if(want->num!=""&&want->num!=got->num) ulongBad=got->num+" for "+want->num; return true; } break; case JV::Dbl: if(want->d==got->d) return true; break; case JV::Str: if(want->s==got->s) return true; break; case JV::Null: return true; default: if(want->keys==got->keys&&want->a.size()==got->a.size()) { for(size_t i=0;i<want->a.size();i++) if(!jsame(want->a[i],got->a[i],why)) return false; return true; } } why=jstr(got)+" for "+jstr(want); return false; }
static bool finite(const VP& v, const std::vector<bool> *m, size_t at) { if(!v) return true; auto ok=[&](const MS& s) { if(v->t->s==pvFloat) { float f; uint32_t x=s.u; memcpy(&f,&x,4); return isfinite(f)!=0; } if(v->t->s==pvDouble) { double d; memcpy(&d,&s.u,8); return isfinite(d)!=0; } return true; }; switch(v->t->k) { case KScalar: return ok(v->s); case KBString: return true; case KArray: case KBArray: case KFArray: for(const MS& s: v->a) if(!ok(s)) return false; return true; case KStruct: { size_t c=at+1; for(size_t i=0;i<v->kids.size();i++) { if((!m||(*m)[c])&&!finite(v->kids[i],m,c)) return false; c+=tcount(v->t->kids[i]); } return true; } case KUnion: case KAny: return finite(v->v,0,0); default: for(const VP& k: v->kids) if(!finite(k,0,0)) return false; return true; } }
static void closeMask(const TP& t, std::vector<bool>& m) { // ancestors and descendants of what is selected
    struct N { int par; size_t end; }; std::vector<N> n; std::function<void(const TP&,int)> num=[&](const TP& x, int par) { size_t a=n.size(); n.push_back(N()); n[a].par=par; if(x->k==KStruct) for(const TP& k: x->kids) num(k,a); n[a].end=n.size(); }; num(t,-1); std::vector<bool> r(n.size()); for(size_t i=0;i<n.size();i++) if(m[i]) { for(size_t j=i;j<n[i].end;j++) r[j]=true; for(int p=n[i].par;p>=0;p=n[p].par) r[p]=true; } m=r; }
static void judgePrint(const VP& v, const std::vector<bool> *mask, int opt) {
    JSONPrintOptions o; o.multiLine=opt&1; o.indent=opt&2?3:0; o.ignoreUnprintable=!(opt&4); PVFieldPtr f=make(v); std::ostringstream s; std::string e; std::vector<bool> m; bool any=true; mc::op("print %s mask %s options %d",vstr(v).c_str(),mask?bstr(*mask).c_str():"-",opt);
    if(mask) { m=*mask; BitSet b; for(size_t i=0;i<m.size();i++) if(m[i]) b.set(i); const BitSet b0(b); closeMask(v->t,m); any=m[0]; e=thrown([&]{ printJSON(s,dynamic_cast<PVStructure&>(*f),b,o); }); CHECK(b==b0,"inmask","printJSON changed the mask"); } else e=thrown([&]{ printJSON(s,*f,o); });
    mc::step(); bool fin=finite(v,mask?&m:0,0); CHECK((e=="")==(fin||!any),"print-throws","printing %s: %s",vstr(v).c_str(),e.c_str()); std::string c=vcheck(f.get(),v); CHECK(c=="","changed","printing changed the value: %s",c.c_str()); if(e!="") { mc::outcome("not representable"); return; }
    std::string t=s.str(); if(!any) { CHECK(t=="","empty","nothing selected, prints '%s'",t.c_str()); mc::outcome("nothing selected"); return; }
    JP got, want=show(v,mask?&m:0,0); JState st=jread(t,got); CHECK(st==JValid,"text","printing %s gives '%s', which is not JSON",vstr(v).c_str(),t.c_str()); std::string why; ulongBad=""; CHECK(jsame(want,got,why),"print","printing %s gives '%s': %s",vstr(v).c_str(),t.c_str(),why.c_str()); if(!(opt&1)) CHECK(t.find('\n')==t.npos,"lines","single line text '%s' has several lines",t.c_str());
    // and back, if the value can be told from its text
    VP back=mask?vdefault(v->t):filled(v->t,2), wb=vcopy(back); std::vector<bool> as(tcount(v->t)); bool fits=true; try { into(wb,0,want,&as); } catch(Misfit&) { fits=false; } catch(Unjudged&) { return; }
    PVFieldPtr g=make(back); std::istringstream in(t); BitSet ab; e=thrown([&]{ parseJSON(in,*g,&ab); }); CHECK((e=="")==fits,e!=""&&t.find("-9223372036854775808")!=t.npos?"int64-min":"back","'%s' is %s%s",t.c_str(),e==""?"accepted":"refused: ",e.c_str()); if(fits) { c=vcheck(g.get(),wb); CHECK(c=="","back","'%s' read again: %s",t.c_str(),c.c_str()); CHECK(bitsOf(ab,as.size())==as,"backmask","'%s' read again assigns %s want %s",t.c_str(),bstr(bitsOf(ab,as.size())).c_str(),bstr(as).c_str()); }
    mc::outcome(fits?"there and back":"printed"); CHECK(ulongBad=="","ulong-negative","printing %s gives %s",vstr(v).c_str(),ulongBad.c_str()); mc::state(mc::hmix(vhash(v),mask?mc::hstr(bstr(*mask)):0));
}
// the model's reading of the text must give the value itself back when it has no unions and nulls
static bool plain(const TP& t) { switch(t->k) { case KUnion: case KAny: case KUnionArr: case KAnyArr: return false; case KStruct: for(const TP& k: t->kids) if(!plain(k)) return false; return true; case KStructArr: return plain(t->elem); default: return true; } }
static bool nulls(const VP& v) { if(!v) return true; for(const VP& k: v->kids) if(nulls(k)) return true; return false; }
static bool subnormal(const VP& v) { if(!v) return false; auto sub=[&](const MS& s) { return v->t->s==pvFloat&&(s.u&0x7f800000)==0&&(s.u&0x7fffff); }; if(v->t->k==KScalar&&sub(v->s)) return true; if(v->t->k<=KFArray) for(const MS& s: v->a) if(sub(s)) return true; for(const VP& k: v->kids) if(subnormal(k)) return true; return subnormal(v->v); }
static void judgeBoth(const VP& v, const std::vector<bool> *m, int opt) { judgePrint(v,m,opt); if(!m&&plain(v->t)&&!nulls(v)&&finite(v,0,0)) { VP w=vdefault(v->t); std::vector<bool> as(tcount(v->t)); try { into(w,0,show(v,0,0),&as); CHECK(vsame(w,v),subnormal(v)?"float-subnormal":"inverse","%s read from its text is %s",vstr(v).c_str(),vstr(w).c_str()); } catch(Misfit&) { mc::fail("inverse","%s cannot be read from its text",vstr(v).c_str()); } catch(Unjudged&) {} } }
SCENARIO(print_leaves, mc::Opts().S(2)) { std::vector<TP> L=allLeaves(); TP t=L[mc::choose(L.size())]; GenV g(mc::choose(7),3,true); VP v=genV(g,t); int o=mc::choose(8); judgeBoth(v,0,o); }
SCENARIO(print_trees, mc::Opts().S(4)) { GenT g; g.leaves={tScalar(pvString),tScalar(pvULong),tArray(pvShort),tAny(),tBString(9)}; int b=mc::tier()?4:3; TP t=genT(g,b,true); GenV gv(1+mc::choose(2),mc::tier()?2:1,true); VP v=genV(gv,t); judgeBoth(v,0,mc::choose(2)); }
SCENARIO(print_masks, mc::Opts().S(3)) { GenT g; g.unions=false; g.arrays=false; g.leaves={tScalar(pvInt)}; int b=mc::tier()?6:5; TP t=genT(g,b,true); GenV gv(1,2,false); VP v=genV(gv,t); size_t n=tcount(t); for(size_t m=0;m<(1u<<n);m++) { std::vector<bool> mk(n); for(size_t i=0;i<n;i++) mk[i]=m>>i&1; judgePrint(v,&mk,m%4); } }
SCENARIO(print_masks_kinds, mc::Opts().S(3)) { TP t=target(mc::choose(4)); GenV gv(1+mc::choose(3),2,false); VP v=genV(gv,t); size_t n=tcount(t); for(size_t m=0;m<(1u<<n);m++) { std::vector<bool> mk(n); for(size_t i=0;i<n;i++) mk[i]=m>>i&1; judgePrint(v,&mk,m%8); } }
// every byte in a string
SCENARIO(print_strings, mc::Opts().S(2)) { std::string s; int n=1+mc::choose(2); for(int i=0;i<n;i++) { int c=mc::choose(i==0?256:8); static const char D[]="\"\\/\x7f\n\0u1"; s+=(char)(i==0?c:D[c]); } VP v=vdefault(tStruct({"k"},{tScalar(pvString)})); v->kids[0]->s=MS(s); bool ascii=(unsigned char)s[0]<0x80; if(ascii) { judgeBoth(v,0,0); } else { PVFieldPtr f=make(v); std::ostringstream o; printJSON(o,*f); JP j; CHECK(jread(o.str(),j)!=JValid,"text","bytes which are not UTF-8 became '%s'",o.str().c_str()); std::istringstream in(o.str()); std::string e=thrown([&]{ parseJSON(in,*f); }); CHECK(e!="","accepted","text which is not UTF-8 is accepted"); mc::outcome("not UTF-8"); } }
SCENARIO(print_doubles) { int k=mc::choose(64*4); static const uint64_t M[]={0,1,0x8000000000000ull,0xfffffffffffffull}; uint64_t u=((uint64_t)(k/4)*32+(k/4))%2047<<52|M[k%4]; VP v=vdefault(tStruct({"d","f"},{tScalar(pvDouble),tArray(pvFloat)})); v->kids[0]->s=MS(u|(uint64_t)mc::choose(2)<<63); uint32_t f=(uint32_t)(k%255)<<23|(k*2654435761u&0x7fffff); v->kids[1]->a={MS(f),MS(f|0x80000000u)}; judgeBoth(v,0,0); }
// JSON5: numbers which are not finite
SCENARIO(json5) { static const double V[]={NAN,INFINITY,-INFINITY,1.5}; double d=V[mc::choose(4)]; bool arr=mc::choose(2), fl=mc::choose(2); TP t=arr?tArray(fl?pvFloat:pvDouble):tScalar(fl?pvFloat:pvDouble); VP v=vdefault(tStruct({"k"},{t})); MS s=fl?fbits(d):dbits(d); if(arr) v->kids[0]->a={s}; else v->kids[0]->s=s; PVFieldPtr f=make(v); std::ostringstream o; JSONPrintOptions op; op.json5=true; op.multiLine=false; printJSON(o,*f,op); mc::op("%s",o.str().c_str()); VP z=vdefault(v->t); PVFieldPtr g=make(z); std::istringstream in(o.str()); std::string e=thrown([&]{ parseJSON(in,*g); }); CHECK(e=="","json5","'%s': %s",o.str().c_str(),e.c_str()); VP w=vcopy(v); if(d!=d) { MS got=arr?getArray(dynamic_cast<PVStructure&>(*g).getPVFields()[0].get(),t->s)[0]:getScalar(dynamic_cast<PVStructure&>(*g).getPVFields()[0].get(),t->s); double x; if(fl) { float y; uint32_t q=got.u; memcpy(&y,&q,4); x=y; } else memcpy(&x,&got.u,8); CHECK(x!=x,"json5","NaN became %g",x); } else { std::string c=vcheck(g.get(),w); CHECK(c=="","json5","'%s': %s",o.str().c_str(),c.c_str()); } mc::outcome("json5"); }
// long documents
SCENARIO(large, mc::Opts().S(3)) {
    static const size_t N[]={64,255,256,257,1000,4095,4096,4097,20000}; size_t n=N[mc::choose(9)]; int kind=mc::choose(7); TP t=tStruct({"a","b","s","t"},{tScalar(pvInt),tArray(pvInt),tScalar(pvString),tArray(pvString)}); std::string d;
    switch(kind) {
    case 0: d="{\"s\":\""; { size_t p=mc::choose(4); size_t at=p==0?0:p==1?n/2:p==2?n-1:n; for(size_t i=0;i<n;i++) if(i==at) d+="\\u00e9\\n"; else d+=(char)('a'+i%26); } d+="\",\"a\":5}"; break;
    case 1: if(n>5000) mc::skip(); d="{\"b\":["; for(size_t i=0;i<n;i++) d+=(i?",":"")+mc::str(i*7); d+=mc::choose(2)?"],\"a\":5}":",{}]}"; break;
    case 2: if(n>5000) mc::skip(); d="{\"t\":["; for(size_t i=0;i<n;i++) d+=(i?",\"":"\"")+mc::str(i)+"\""; d+=mc::choose(2)?"],\"a\":5}":",null]}"; break;
    case 3: d="{"+std::string(n,' ')+"\"a\""+std::string(n,'\n')+":7"+std::string(n,'\t')+"}"+std::string(n,' ')+(mc::choose(2)?"":"x"); break;
    case 4: d="{\"a\":/*"+std::string(n,'c')+"*/7}"; if(mc::choose(2)) d="{\"a\":7}//"+std::string(n,'c'); break;
    case 5: if(n>300) mc::skip(); { t=tWide(n,0); d="{"; bool rev=mc::choose(2); size_t k=t->names.size(); for(size_t i=0;i<k;i++) d+=(i?",\"":"\"")+t->names[rev?k-1-i:i]+"\":"+mc::str(i); if(mc::choose(2)) d+=",\"f0\":1"; d+="}"; } break;
    default: if(n>300) mc::skip(); { t=tStruct({"a"},{tStructArr(tStruct({"x","y"},{tScalar(pvInt),tScalar(pvString)}))}); d="{\"a\":["; for(size_t i=0;i<n;i++) d+=(i?",{\"x\":":"{\"x\":")+mc::str(i)+",\"y\":\"q\"}"; d+="]}"; } }
    judgeInto(vdefault(t),d); if(kind!=3) judgeNew(d);
}
SCENARIO(print_large, mc::Opts().S(3)) {
    static const size_t N[]={64,65,255,256,1000,5000}; size_t n=N[mc::choose(6)]; int kind=mc::choose(5), opt=mc::choose(8); VP v; if(kind<3) { v=vdefault(tStruct({"a","z"},{kind==0?tArray(pvInt):kind==1?tArray(pvString):tScalar(pvString),tScalar(pvInt)})); if(kind==2) v->kids[0]->s=MS(std::string(n,'x')+"\n"+std::string(n,'y')); else for(size_t i=0;i<n;i++) v->kids[0]->a.push_back(kind==1?MS("e"+mc::str(i)):MS((int64_t)i-30)); judgeBoth(v,0,opt); }
    else if(n>300) mc::skip(); else if(kind==3) { GenV g(3,2,false); v=genV(g,tWide(n,0)); size_t c=tcount(v->t); static const int S[]={1,2,63,64}; int st=S[mc::choose(4)]; std::vector<bool> m(c); for(size_t i=st;i<c;i+=st) m[i]=true; if(mc::choose(2)) judgePrint(v,&m,opt); else judgeBoth(v,0,opt); }
    else { v=vdefault(tStruct({"a"},{tStructArr(tStruct({"x"},{tScalar(pvInt)}))})); for(size_t i=0;i<n;i++) v->kids[0]->kids.push_back(vdefault(v->kids[0]->t->elem)); judgeBoth(v,0,opt); }
}
