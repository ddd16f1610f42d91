// independent reader of JSON text
#ifndef JSONREF_H
#define JSONREF_H
#include "model.h"
#include <memory>
struct JV; typedef std::shared_ptr<JV> JP;
struct JV { enum K { Null, Bool, Int, Dbl, Str, Arr, Obj } k; bool b; int64_t i; double d; std::string s, num; std::vector<JP> a; std::vector<std::string> keys; JV(K k) :k(k), b(false), i(0), d(0) {} };
inline std::string jstr(const JP& j) { std::ostringstream o; o.precision(17); switch(j->k) { case JV::Null: o<<"null"; break; case JV::Bool: o<<(j->b?"true":"false"); break; case JV::Int: o<<j->i; break; case JV::Dbl: o<<j->d<<"d"; break; case JV::Str: o<<msstr(pvd::pvString,MS(j->s)); break; case JV::Arr: o<<"["; for(size_t i=0;i<j->a.size();i++) o<<(i?",":"")<<jstr(j->a[i]); o<<"]"; break; case JV::Obj: o<<"{"; for(size_t i=0;i<j->a.size();i++) o<<(i?",":"")<<j->keys[i]<<":"<<jstr(j->a[i]); o<<"}"; } return o.str(); }
// strict: JSON with comments.  lenient: also what JSON5 and common readers allow.
struct JReader {
    const std::string& t; size_t i; bool lenient, unclear; struct Bad {};
    JReader(const std::string& t, bool lenient) :t(t), i(0), lenient(lenient), unclear(false) {}
    bool at(char c) { return i<t.size()&&t[i]==c; }
    void ws() { for(;;) { if(i<t.size()&&strchr(" \t\r\n",t[i])&&t[i]) i++; else if(lenient&&i<t.size()&&(t[i]=='\v'||t[i]=='\f'||(t[i]&0x80))) i++; else if(t.compare(i,2,"//")==0) { while(i<t.size()&&t[i]!='\n') { if(t[i]=='\r') unclear=true; i++; } if(i==t.size()) unclear=true; } else if(t.compare(i,2,"/*")==0) { size_t e=t.find("*/",i+2); if(e==t.npos) { if(!lenient) throw Bad(); i=t.size(); } else i=e+2; } else break; } }
    static int hexv(char c) { return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
    void utf8(std::string& o, unsigned c) { if(c<0x80) o+=(char)c; else if(c<0x800) { o+=(char)(0xc0|c>>6); o+=(char)(0x80|(c&63)); } else if(c<0x10000) { o+=(char)(0xe0|c>>12); o+=(char)(0x80|(c>>6&63)); o+=(char)(0x80|(c&63)); } else { o+=(char)(0xf0|c>>18); o+=(char)(0x80|(c>>12&63)); o+=(char)(0x80|(c>>6&63)); o+=(char)(0x80|(c&63)); } }
    unsigned hex4() { unsigned v=0; for(int k=0;k<4;k++) { int h=i<t.size()?hexv(t[i]):-1; if(h<0) throw Bad(); v=v*16+h; i++; } return v; }
    std::string str(char q) { i++; std::string o; for(;;) { if(i>=t.size()) throw Bad(); unsigned char c=t[i];
        if(c==(unsigned char)q) { i++; return o; }
        if(c=='\\') { i++; if(i>=t.size()) throw Bad(); char e=t[i++]; switch(e) { case '"': case '\\': case '/': o+=e; break; case 'b': o+='\b'; break; case 'f': o+='\f'; break; case 'n': o+='\n'; break; case 'r': o+='\r'; break; case 't': o+='\t'; break;
            case 'u': { unsigned v=hex4(); if(v>=0xd800&&v<0xe000) { if(v<0xdc00&&t.compare(i,2,"\\u")==0) { i+=2; unsigned w=hex4(); if(w<0xdc00||w>=0xe000) { unclear=true; } else v=0x10000+((v-0xd800)<<10)+(w-0xdc00); } else unclear=true; } utf8(o,v); break; }
            default: if(!lenient) throw Bad(); if(e=='\r'&&at('\n')) i++; o+=e; } }
        else if(c<0x20) { if(!lenient||c=='\n'||c=='\r') throw Bad(); o+=c; i++; }
        else if(c<0x80) { o+=c; i++; }
        else { int n=c>=0xf0&&c<0xf5?3:c>=0xe0&&c<0xf0?2:c>=0xc0&&c<0xe0?1:-1; if(n<0) throw Bad(); unsigned v=c&(0x3f>>n); o+=c; i++; for(int k=0;k<n;k++) { if(i>=t.size()||((unsigned char)t[i]&0xc0)!=0x80) throw Bad(); v=v<<6|((unsigned char)t[i]&63); o+=t[i++]; } if((n==1&&v<0x80)||(n==2&&v<0x800)||(n==3&&(v<0x10000||v>0x10ffff))||(v>=0xd800&&v<0xe000)) unclear=true; } } }
    JP number() { size_t b=i; if(at('-')||(lenient&&at('+'))) i++; bool dbl=false; 
        if(lenient&&(t.compare(i,2,"0x")==0||t.compare(i,2,"0X")==0)) { i+=2; while(i<t.size()&&hexv(t[i])>=0) i++; unclear=true; return JP(new JV(JV::Int)); }
        if(lenient&&(t.compare(i,8,"Infinity")==0||t.compare(i,3,"NaN")==0)) { i+=t[i]=='I'?8:3; unclear=true; return JP(new JV(JV::Dbl)); }
        size_t d=i; while(i<t.size()&&isdigit((unsigned char)t[i])) i++; size_t nd=i-d; if(nd==0&&!lenient) throw Bad(); if(nd>1&&t[d]=='0') throw Bad();
        if(at('.')) { dbl=true; size_t f=++i; while(i<t.size()&&isdigit((unsigned char)t[i])) i++; if(i==f&&(!lenient||nd==0)) throw Bad(); } else if(nd==0) throw Bad();
        if(at('e')||at('E')) { dbl=true; i++; if(at('+')||at('-')) i++; size_t f=i; while(i<t.size()&&isdigit((unsigned char)t[i])) i++; if(i==f) throw Bad(); }
        JP v(new JV(dbl?JV::Dbl:JV::Int)); v->num=t.substr(b,i-b); errno=0; if(dbl) { v->d=strtod(v->num.c_str(),0); if(errno&&(v->d==0||v->d>1e300||v->d<-1e300)) unclear=true; } else { v->i=strtoll(v->num.c_str(),0,10); if(errno) unclear=true; } return v; }
    bool word(const char *w) { size_t n=strlen(w); if(t.compare(i,n,w)) return false; if(i+n<t.size()&&(isalnum((unsigned char)t[i+n])||t[i+n]=='_')) return false; i+=n; return true; }
    JP value() { ws(); if(i>=t.size()) throw Bad(); char c=t[i];
        if(c=='{') { i++; JP o(new JV(JV::Obj)); ws(); if(at('}')) { i++; return o; } for(;;) { ws(); std::string k; if(at('"')) k=str('"'); else if(lenient&&at('\'')) k=str('\''); else if(lenient&&i<t.size()&&(isalpha((unsigned char)t[i])||strchr("_$",t[i])||(t[i]&0x80))) { while(i<t.size()&&(isalnum((unsigned char)t[i])||strchr("_$",t[i])||(t[i]&0x80))) k+=t[i++]; } else throw Bad(); ws(); if(!at(':')) throw Bad(); i++; o->keys.push_back(k); o->a.push_back(value()); ws(); if(at('}')) { i++; return o; } if(!at(',')) throw Bad(); i++; if(lenient) { ws(); if(at('}')) { i++; return o; } } } }
        if(c=='[') { i++; JP o(new JV(JV::Arr)); ws(); if(at(']')) { i++; return o; } for(;;) { o->a.push_back(value()); ws(); if(at(']')) { i++; return o; } if(!at(',')) throw Bad(); i++; if(lenient) { ws(); if(at(']')) { i++; return o; } } } }
        if(c=='"'||(lenient&&c=='\'')) { JP o(new JV(JV::Str)); o->s=str(c); return o; }
        if(word("null")) return JP(new JV(JV::Null)); if(word("true")) { JP o(new JV(JV::Bool)); o->b=true; return o; } if(word("false")) return JP(new JV(JV::Bool));
        return number(); }
    JP all() { JP v=value(); ws(); if(i!=t.size()) { if(lenient&&strchr("\"'",t[i])) { try { str(t[i]); } catch(Bad&) { return v; } } throw Bad(); } return v; }
};
enum JState { JValid, JUnclear, JInvalid };
inline JState jread(const std::string& t, JP& out) { JReader r(t,false); try { out=r.all(); return r.unclear?JUnclear:JValid; } catch(JReader::Bad&) {} JReader l(t,true); try { out=l.all(); return JUnclear; } catch(JReader::Bad&) { out.reset(); return JInvalid; } }
#endif
