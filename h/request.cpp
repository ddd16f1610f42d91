// C19: request strings
#include "valuesh.h"
#include <pv/createRequest.h>
using namespace epics::pvData;
// ---- the grammar (after removal of blanks)
//  request := "" | section ( ","? section )* | list        section := "record[" options? "]" | ("field"|"getField"|"putField") "(" list? ")"
//  list := spec ("," spec)*    spec := name options? ( "." spec | "{" list "}" )?     options := "[" name "=" value ("," name "=" value)* "]"
struct RN; typedef std::shared_ptr<RN> RNP; struct RN { std::string name; bool hasOpts; std::vector<std::pair<std::string,std::string> > opts; std::vector<RNP> kids; RN() :hasOpts(false) {} };
struct Bad {}; struct Unclear {};
struct Parser {
    std::string s; size_t i; Parser(const std::string& t) :i(0) { for(char c: t) if(c!=' ') s+=c; }
    bool at(char c) { return i<s.size()&&s[i]==c; } void need(char c) { if(!at(c)) throw Bad(); i++; }
    bool word(const char *w) { size_t n=strlen(w); if(s.compare(i,n,w)) return false; i+=n; return true; }
    static bool nc(char c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='_'; }
    std::string name() { size_t b=i; while(i<s.size()&&nc(s[i])) i++; if(b==i||(s[b]>='0'&&s[b]<='9')) throw Bad(); std::string n=s.substr(b,i-b); if(n=="_options") throw Unclear(); return n; }
    void options(RN& n) { n.hasOpts=true; do { std::string k=name(); need('='); std::string v; while(i<s.size()&&!strchr(",]",s[i])) { if(strchr("[(){}",s[i])) throw Unclear(); v+=s[i++]; } n.opts.push_back(std::make_pair(k,v)); } while(at(',')&&++i); need(']'); }
    RNP spec() { RNP n(new RN); n->name=name(); if(at('[')) { i++; options(*n); } if(at('.')) { i++; n->kids.push_back(spec()); } else if(at('{')) { i++; list(n->kids); need('}'); } return n; }
    void list(std::vector<RNP>& l) { do l.push_back(spec()); while(at(',')&&++i); }
    // top: sections in the order in which they are represented
    RNP top() { RNP t(new RN); if(s.empty()) return t; std::map<std::string,RNP> m; 
        if(s.compare(0,7,"record[")==0||s.compare(0,6,"field(")==0||s.compare(0,9,"getField(")==0||s.compare(0,9,"putField(")==0) {
            while(i<s.size()) { RNP n(new RN); if(word("record[")) { n->name="record"; if(at(']')) { i++; if(m.count("record")) throw Unclear(); m["record"]=RNP(); } else { options(*n); if(m.count("record")) throw Unclear(); m["record"]=n; } }
                else { n->name=word("field(")?"field":word("getField(")?"getField":word("putField(")?"putField":""; if(n->name.empty()) throw Bad(); if(!at(')')) list(n->kids); need(')'); if(m.count(n->name)) throw Unclear(); m[n->name]=n; }
                if(at(',')) { i++; if(i==s.size()) throw Bad(); } }
            static const char *O[]={"record","field","getField","putField"}; for(int k=0;k<4;k++) if(m.count(O[k])&&m[O[k]]) t->kids.push_back(m[O[k]]); }
        else { RNP n(new RN); n->name="field"; list(n->kids); if(i<s.size()) throw Bad(); for(RNP& k: n->kids) if(k->name=="record"&&k->hasOpts) throw Unclear(); t->kids.push_back(n); }
        return t; }
};
// null when two siblings have the same name
static VP value(const RNP& n) {
    std::vector<std::string> nm; std::vector<TP> ty; std::vector<VP> vs;
    if(n->hasOpts) { std::vector<std::string> on; std::vector<TP> ot; std::vector<VP> ov; for(auto& o: n->opts) { if(std::count(on.begin(),on.end(),o.first)) return VP(); on.push_back(o.first); ot.push_back(tScalar(pvString)); ov.push_back(vdefault(ot.back())); ov.back()->s=MS(o.second); } nm.push_back("_options"); ty.push_back(tStruct(on,ot)); vs.push_back(VP(new MV(ty[0]))); vs[0]->kids=ov; }
    for(auto& k: n->kids) { VP v=value(k); if(!v||std::count(nm.begin(),nm.end(),k->name)) return VP(); nm.push_back(k->name); ty.push_back(v->t); vs.push_back(v); }
    VP v(new MV(tStruct(nm,ty))); v->kids=vs; return v;
}
static void judge(const std::string& text) {
    mc::op("'%s'",text.c_str()); RNP n; bool known=true; try { Parser p(text); n=p.top(); } catch(Bad&) { known=false; } catch(Unclear&) { known=false; }
    static CreateRequest::shared_pointer C=CreateRequest::create(); PVStructurePtr a, b; std::string e=thrown([&]{ a=createRequest(text); }); std::string f=thrown([&]{ b=C->createRequest(text); });
    CHECK(f=="","wrapper","CreateRequest throws %s for '%s'",f.c_str(),text.c_str()); CHECK((e=="")==!!a,"null","createRequest('%s') returns null",text.c_str()); CHECK(!!a==!!b,"wrapper","'%s': createRequest() %s, CreateRequest %s",text.c_str(),a?"accepts":"refuses",b?"accepts":"refuses"); CHECK((C->getMessage()=="")==!!b,"message","'%s': message '%s'",text.c_str(),C->getMessage().c_str());
    if(a) { CHECK(*a==*b,"wrapper","'%s' gives two results",text.c_str()); mc::str(*a); }
    if(!known) { mc::outcome(a?"not in the grammar, accepted":"not in the grammar, refused"); return; }
    VP v=value(n); mc::outcome(v?"request":"repeated name"); CHECK((e=="")==!!v,v?"refused":"accepted","'%s' is %s%s",text.c_str(),e==""?"accepted":"refused: ",e.c_str()); if(v) { std::string c=vcheck(a.get(),v); CHECK(c=="","result","'%s': %s; want %s",text.c_str(),c.c_str(),tstr(v->t).c_str()); mc::state(vhash(v)); }
}
// ---- texts generated from the grammar
struct Gen {
    int budget; bool sp; Gen(int b, bool sp) :budget(b), sp(sp) {}
    std::string name() { static const char *N[]={"a","b","record"}; int k=mc::choose(sp?3:2); return N[k]; }
    std::string opts() { static const char *O[]={"[x=y]","[a=b,x=1.5]","[x=]","[a=b=c]"}; return O[mc::choose(sp?4:2)]; }
    std::string spec() { budget--; std::string r=name(); if(mc::choose(2)) r+=opts(); if(budget>0) switch(mc::choose(3)) { case 1: r+="."+spec(); break; case 2: r+="{"+list()+"}"; break; } return r; }
    std::string list() { std::string r=spec(); while(budget>0&&mc::choose(2)) r+=","+spec(); return r; }
};
SCENARIO(field_lists, mc::Opts().S(5)) { Gen g(mc::tier()?5:4,false); std::string l=g.list(); judge(mc::choose(2)?"field("+l+")":l); }
SCENARIO(special_names, mc::Opts().S(5)) { Gen g(mc::tier()?3:2,true); std::string l=g.list(); judge(mc::choose(2)?"getField("+l+")":l); }
SCENARIO(sections, mc::Opts().S(5)) {
    static const char *R[]={"record[]","record[a=b]","record[p=true,q=1.5]","record[a=]","record[a=b,a=c]"}; static const char *L[]={"","a","a.b[x=y]","a{b,c.d},e","field","record[x=y]","myrecord[x=y],b","a,a"}; static const char *K[]={"field(","getField(","putField("};
    int n=mc::choose(5); std::string t; static const char *SEP[]={"",","," "}; for(int i=0;i<n;i++) { int k=mc::choose(4); std::string s; if(k==3) s=R[mc::choose(i<2?5:2)]; else s=std::string(K[k])+L[mc::choose(i<2?8:2)]+")"; if(i) t+=SEP[mc::choose(i<2?3:1)]; t+=s; } judge(t);
}
// blanks may stand anywhere
SCENARIO(blanks) { static const char *T[]={"field(a.b[x=y]{c,d})","record[a=b]field(c)","a{b.c,d[x=y,z=w]}"}; std::string t=T[mc::choose(3)]; size_t p=mc::choose(t.size()+1), q=mc::choose(t.size()+2); t.insert(p," "); t.insert(q,"  "); judge(t); }
// ---- any text over the significant characters
static void chars(const char *al, int maxLen, const char *pre="", const char *post="") { std::string s; int n=strlen(al); while((int)s.size()<maxLen) { int k=mc::choose(n+1); if(k==n) break; s+=al[k]; } judge(pre+s+post); }
SCENARIO(texts, mc::Opts().S(3)) { chars("a.,{}[]=()",mc::tier()?7:5); }
SCENARIO(in_field, mc::Opts().S(3)) { chars("a.,{}[]=",mc::tier()?8:6,"field(",")"); }
SCENARIO(in_braces, mc::Opts().S(3)) { chars("a.,{}[=]",mc::tier()?8:6,"a{","}"); }
SCENARIO(in_record, mc::Opts().S(3)) { chars("a=,[]{}(",mc::tier()?7:5,"record[","]"); }
SCENARIO(words, mc::Opts().S(3)) { static const char *W[]={"field(","record[","getField(","putField(","a",",","{","}",")","]","[a=b","."}; int n=mc::tier()?6:5; std::string s; for(int i=0;i<n;i++) { int k=mc::choose(13); if(k==12) break; s+=W[k]; } judge(s); }
// one character of a request replaced, removed or doubled
SCENARIO(mutants) { static const char *T[]={"record[process=true]field(alarm,timeStamp[a=b,c=d],power{value,alarm})","putField(power.value)getField(a.b[x=y]{c.d[x=y]},e{f{g}})","a{b{c{d}}}"}; std::string t=T[mc::choose(3)]; size_t p=mc::choose(t.size()); static const std::string C(".,{}[]()= a\0\n\xff",14); int k=mc::choose(C.size()+2); if(k<(int)C.size()) t[p]=C[k]; else if(k==(int)C.size()) t.erase(p,1); else t.insert(p,1,t[p]); if(mc::tier()&&mc::choose(2)) { size_t q=mc::choose(t.size()); t[q]=".,{}[]()"[mc::choose(8)]; } judge(t); }
SCENARIO(any_bytes) { std::string s; int n=mc::choose(3); for(int i=0;i<n;i++) s+=(char)mc::choose(256); judge(mc::choose(2)?"field(a"+s+")":s); }
// long and deep ones
SCENARIO(large) { int k=mc::choose(6), n=1<<mc::choose(mc::tier()?11:9); std::string s; switch(k) { case 0: for(int i=0;i<n;i++) s+=(i?".a":"a"); break; case 1: for(int i=0;i<n;i++) s+="a{"; s+="a"; s+=std::string(n,'}'); break; case 2: for(int i=0;i<n;i++) s+=(i?",a":"a")+mc::str(i); break; case 3: s="a["; for(int i=0;i<n;i++) s+=(i?",o":"o")+mc::str(i)+"="+mc::str(i); s+="]"; break; case 4: s=std::string(n,'{')+std::string(n,'}'); break; case 5: s="a{"+std::string(n,'a')+"}"; break; } if(n>256&&k<2) mc::skip(); judge(s); }
