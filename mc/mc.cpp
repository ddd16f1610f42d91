#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <map>
#include <set>
#include <atomic>
#include <algorithm>
#include <exception>
#include <typeinfo>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace {

struct Scen { std::string name; std::function<void()> fn; mc::Opts o; int onlyTier; };
std::vector<Scen>& scens() { static std::vector<Scen> s; return s; }

enum { MAXCH=8192, MAXW=64, VTAB_BITS=24, TXT=16384, MAXOUT=512 };

struct Slot {                       // one per worker, in shared memory
    volatile int scen;
    volatile int len;               // choices made so far in the current execution
    volatile int prefix;            // how many of them are prescribed
    volatile int inexec;
    int ch[MAXCH]; int n[MAXCH];
    volatile uint64_t beat;
    volatile int status;            // result of the forked child: 1 ok 2 skip 3 violation 4 unexpected/divergence
    volatile uint64_t steps;
    volatile int devs;
    char key[256]; char msg[TXT];
    char outc[256]; volatile int nout;
};
struct Res {                        // one per worker and scenario
    uint64_t execs, steps, skips, maxdepth; int complete, viol; int devhist[8];
    int flen, llen; int first[MAXCH], last[MAXCH];
};
struct Shared {
    std::atomic<uint64_t> vcount;
    std::atomic<uint64_t> vtab[1u<<VTAB_BITS];
    std::atomic<int> novf;
    std::atomic<int> outlock;
    int nouts; struct { char s[120]; uint64_t n; int scen; } outs[MAXOUT]; std::atomic<uint64_t> outovf;
    std::atomic<int> stop;
    int nviol; struct V { int scen; int len; int ch[MAXCH]; char key[256]; char msg[TXT]; } viol[64];
    std::atomic<int> violock;
    Slot slot[MAXW];
};
Shared *sh; Slot *me; Res *results; int nw=8, myw=0, g_tier=0, hang_s=60;
bool g_trace=false; std::vector<std::string> g_tr;
std::vector<int> g_prefix;
const Scen *cur; int curIdx;
bool g_replay=false; double deadline=0;
std::map<std::string,int> localOut;
std::set<std::string> skipKeys;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

std::string vfmt(const char *fmt, va_list ap) {
    char buf[TXT]; vsnprintf(buf,sizeof(buf),fmt,ap); return buf;
}
struct Divergence { std::string m; };
struct NotMine {};
bool sharding=false;
} namespace mc { bool noThrow=false; void finish(int st, const std::string& key, const std::string& msg); } namespace {

void spin(std::atomic<int>& l) { int e=0; while(!l.compare_exchange_weak(e,1)) { e=0; usleep(50);} }

void mergeOut(int scen) {
    if(localOut.empty()) return;
    spin(sh->outlock);
    for(std::map<std::string,int>::iterator it=localOut.begin(); it!=localOut.end(); ++it) {
        int i;
        for(i=0;i<sh->nouts;i++) if(sh->outs[i].scen==scen && it->first==sh->outs[i].s) break;
        if(i==sh->nouts) {
            if(i==MAXOUT) { sh->outovf++; continue; }
            snprintf(sh->outs[i].s,sizeof(sh->outs[i].s),"%s",it->first.c_str());
            sh->outs[i].n=0; sh->outs[i].scen=scen; sh->nouts++;
        }
        sh->outs[i].n+=it->second;
    }
    sh->outlock=0;
    localOut.clear();
}
void addViol(const std::string& key, const std::string& msg) {
    spin(sh->violock);
    bool dup=false;
    for(int i=0;i<sh->nviol;i++) if(key==sh->viol[i].key && sh->viol[i].scen==curIdx) dup=true;
    if(!dup && sh->nviol<64) {
        Shared::V& v=sh->viol[sh->nviol++];
        v.scen=curIdx; v.len=me->len; memcpy(v.ch,me->ch,sizeof(int)*me->len);
        snprintf(v.key,sizeof(v.key),"%s",key.c_str()); snprintf(v.msg,sizeof(v.msg),"%s",msg.c_str());
    }
    sh->violock=0;
}

// returns status
int runOnce() {
    me->len=0; me->prefix=(int)g_prefix.size(); me->scen=curIdx; me->inexec=1; me->steps=0; me->nout=0;
    me->devs=cur->o.devs[g_tier];
    me->key[0]=me->msg[0]=0;
    int st=1; std::string key,msg;
    try {
        cur->fn();
        if(me->len<me->prefix) throw Divergence{"execution ended before the end of its prefix"};
    } catch(mc::Skip&) { st=2;
    } catch(NotMine&) { st=5;
    } catch(mc::Violation& v) { st=3; key=v.key; msg=v.msg;
    } catch(Divergence& d) { st=4; msg=d.m;
    } catch(std::exception& e) { st=3; key="unexpected-exception:"+cur->name; msg=std::string("unexpected exception ")+typeid(e).name()+": "+e.what();
    } catch(...) { st=3; key="unexpected-exception:"+cur->name; msg="unexpected exception of unknown type"; }
    if(st>=3) { snprintf(me->key,sizeof(me->key),"%s",key.c_str()); snprintf(me->msg,sizeof(me->msg),"%s",msg.c_str()); }
    me->status=st; me->inexec=0;
    return st;
}
int runForked() {
    me->status=0; me->inexec=1;
    fflush(stdout); fflush(stderr);
    pid_t p=fork();
    if(p<0) { perror("fork"); _exit(9); }
    if(p==0) {
        int st=runOnce();
        if(st==1||st==3) mergeOut(curIdx);
        (void)st; _exit(0);
    }
    double t0=now(); int ws;
    for(;;) {
        pid_t r=waitpid(p,&ws,WNOHANG);
        if(r==p) break;
        if(r<0 && errno!=EINTR) break;
        double dt=now()-t0;
        if(dt>hang_s) { kill(p,SIGKILL); waitpid(p,&ws,0); me->status=3; me->inexec=0;
            snprintf(me->key,sizeof(me->key),"hang:%s",cur->name.c_str()); snprintf(me->msg,sizeof(me->msg),"execution did not end within %d s",hang_s); me->beat++; return 3; }
        if(dt>0.002) usleep(300); else sched_yield();
        me->beat++;
    }
    if(me->inexec || me->status==0) {
        me->status=3; me->inexec=0;
        snprintf(me->key,sizeof(me->key),"crash:%s",cur->name.c_str());
        snprintf(me->msg,sizeof(me->msg),"process died: %s %d",WIFSIGNALED(ws)?"signal":"exit code",WIFSIGNALED(ws)?WTERMSIG(ws):WEXITSTATUS(ws));
    }
    return me->status;
}
int exec1() { return cur->o.fork ? runForked() : runOnce(); }

bool leakCheck() {   // true when the execution keeps memory each time it runs
    if(!__sanitizer_get_current_allocated_bytes || !cur->o.leak) return false;
    size_t prev=__sanitizer_get_current_allocated_bytes(); int grow=0; size_t inc0=0;
    for(int i=0;i<4;i++) {
        runOnce();
        size_t c=__sanitizer_get_current_allocated_bytes();
        if(c>prev) { grow++; if(i==1) inc0=c-prev; }
        prev=c;
    }
    (void)inc0;
    return grow>=4;
}

void exploreScenario(int w) {
    Res& r=results[w*scens().size()+curIdx];
    std::vector<int> pre; int sd=cur->o.splitDepth;
    bool have_first=false; size_t lastbytes = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes():0;
    uint64_t cnt=0; std::set<std::string> seenKeys;
    for(;;) {
        if(sh->stop.load(std::memory_order_relaxed)) return;
        if((cnt&63)==0 && deadline && now()>deadline) return;   // incomplete
        g_prefix=pre; sharding=nw>1;
        int st;
        if(cur->o.fork && sharding) {
            // the child cannot tell us cheaply: decided inside the child as well (status 5)
            st=runForked();
        } else st=exec1();
        cnt++; me->beat++;
        if(st==4) { fprintf(stderr,"DIVERGENCE in %s: %s\n",cur->name.c_str(),me->msg); addViol("divergence:"+cur->name, me->msg); sh->stop=1; return; }
        bool counted = (st==1||st==3);
        int len=me->len;
        if(counted && len<sd && nw>1) {     // a short execution belongs to exactly one worker
            uint64_t h=17; for(int i=0;i<len;i++) h=mc::hmix(h,me->ch[i]);
            if(h%nw!=(uint64_t)w) counted=false;
        }
        if(st==2) r.skips++;
        if(counted) {
            r.execs++; r.steps+=me->steps; r.maxdepth=std::max<uint64_t>(r.maxdepth,len);
            int dv=cur->o.devs[g_tier]-me->devs; r.devhist[dv>7?7:dv]++;
            if(!have_first) { have_first=true; r.flen=len; memcpy(r.first,me->ch,sizeof(int)*len); }
            r.llen=len; memcpy(r.last,me->ch,sizeof(int)*len);
            if(!cur->o.fork) { if(localOut.size()>256) mergeOut(curIdx); } 
            if(st==3) {
                r.viol++;
                std::string k=me->key, m=me->msg;
                if(!skipKeys.count(k)) { addViol(k,m); sh->stop=1; }
                else if(!seenKeys.count(k)) { seenKeys.insert(k); addViol(k,m); }
            } else if(!cur->o.fork && __sanitizer_get_current_allocated_bytes && cur->o.leak) {
                size_t b=__sanitizer_get_current_allocated_bytes();
                if(b>lastbytes) {
                    std::vector<int> sc(me->ch,me->ch+len);
                    std::vector<int> scn(me->n,me->n+len);
                    std::vector<int> savep=g_prefix; g_prefix=sc; sharding=false;
                    std::map<std::string,int> saveOut(localOut);
                    if(leakCheck()) { std::string k="leak:"+cur->name; if(!skipKeys.count(k)) {addViol(k,"memory allocated during this execution is never released"); sh->stop=1;} else if(!seenKeys.count(k)) { seenKeys.insert(k); addViol(k,"leak"); } }
                    g_prefix=savep; localOut.swap(saveOut);
                    memcpy(me->ch,&sc[0],sizeof(int)*len); memcpy(me->n,&scn[0],sizeof(int)*len); me->len=len;
                }
                lastbytes=__sanitizer_get_current_allocated_bytes();
            }
        }
        // backtrack
        int i=me->len-1;
        while(i>=0 && me->ch[i]+1>=me->n[i]) i--;
        if(i<0) { r.complete=1; mergeOut(curIdx); return; }
        pre.assign(me->ch,me->ch+i+1); pre[i]++;
    }
}

void worker(int w) {
    myw=w; me=&sh->slot[w];
    for(size_t s=0;s<scens().size();s++) {
        curIdx=s; cur=&scens()[s];
        if(cur->onlyTier>g_tier) continue;
        exploreScenario(w);
        mergeOut(curIdx);
        if(sh->stop) break;
    }
}

std::string jstr(const std::string& s) {
    std::string o="\""; char b[8];
    for(size_t i=0;i<s.size();i++) { unsigned char c=s[i];
        if(c=='"'||c=='\\') { o+='\\'; o+=c; } else if(c<32||c>=127) { snprintf(b,sizeof b,"\\u%04x",c); o+=b; } else o+=c; }
    return o+"\"";
}

void dumpTrace() { for(size_t i=0;i<g_tr.size();i++) printf("  %s\n",g_tr[i].c_str()); }

} // namespace

namespace mc {
// end this execution from wherever it is (only in a process of its own)
void finish(int st, const std::string& key, const std::string& msg) {
    snprintf(me->key,sizeof(me->key),"%s",key.c_str()); snprintf(me->msg,sizeof(me->msg),"%s",msg.c_str());
    me->status=st; me->inexec=0; if(st==3) mergeOut(curIdx); fflush(stdout); _exit(0);
}
int tier() { return g_tier; }
bool tracing() { return g_trace; }
void step() { me->steps++; }
void heartbeat() { me->beat++; }
static int choose_i(int n, bool dev) {
    if(n<=0) { fprintf(stderr,"choose(%d)\n",n); abort(); }
    if(n==1) return 0;
    if(dev && me->devs<=0) return 0;
    int i=me->len;
    if(i>=MAXCH-1) { fprintf(stderr,"execution has too many choices\n"); abort(); }
    int c;
    if(i<me->prefix) {
        c=g_prefix[i];
        if(c>=n) { if(noThrow) finish(4,"","recorded choice is not available"); throw Divergence{"recorded choice is not available"}; }
    } else c=0;
    me->ch[i]=c; me->n[i]=n; me->len=i+1;
    if(dev && c) me->devs--;
    if(sharding && me->len==cur->o.splitDepth) {
        uint64_t h=17; for(int k=0;k<me->len;k++) h=hmix(h,me->ch[k]);
        if(h%nw!=(uint64_t)myw) { if(noThrow) finish(5,"",""); throw NotMine(); }
    }
    return c;
}
int choose(int n) { return choose_i(n,false); }
int deviate(int n) { return choose_i(n,true); }
int deviationsLeft() { return me->devs; }
void skip() { if(noThrow) finish(2,"",""); throw Skip(); }
static void rec(const char *fmt, va_list ap) {
    std::string s=vfmt(fmt,ap);
    if(g_replay) { printf("  %s\n",s.c_str()); fflush(stdout); }
    g_tr.push_back(s);
}
void op(const char *fmt, ...) {
    me->steps++;
    if(!g_trace) return;
    va_list ap; va_start(ap,fmt); rec(fmt,ap); va_end(ap);
}
void note(const char *fmt, ...) {
    if(!g_trace) return;
    va_list ap; va_start(ap,fmt); rec(fmt,ap); va_end(ap);
}
void state(uint64_t h) {
    if(!h) h=1;
    if(!sh) return;
    const uint64_t M=(1u<<VTAB_BITS)-1;
    uint64_t i=(h*0x9e3779b97f4a7c15ull)>>(64-VTAB_BITS);
    for(int k=0;k<64;k++) {
        uint64_t v=sh->vtab[(i+k)&M].load(std::memory_order_relaxed);
        if(v==h) return;
        if(v==0) {
            if(sh->vtab[(i+k)&M].compare_exchange_strong(v,h)) { sh->vcount++; return; }
            if(v==h) return;
        }
    }
    sh->novf=1;
}
void outcome(const std::string& s) { localOut[s.size()>110?s.substr(0,110):s]++; }
void fail(const std::string& key, const char *fmt, ...) {
    va_list ap; va_start(ap,fmt); Violation v; v.key=key; v.msg=vfmt(fmt,ap); va_end(ap);
    if(noThrow) finish(3,v.key,v.msg);
    throw v;
}
uint64_t hbytes(const void *p, size_t n, uint64_t h) {
    const unsigned char*c=(const unsigned char*)p;
    for(size_t i=0;i<n;i++) { h^=c[i]; h*=1099511628211ull; }
    return hmix(h,n);
}
std::string hex(const void *p, size_t n) {
    std::string o; char b[4]; const unsigned char*c=(const unsigned char*)p;
    for(size_t i=0;i<n;i++) { snprintf(b,sizeof b,"%02x",c[i]); o+=b; }
    return o;
}
Reg::Reg(const char *name, void (*fn)(), const Opts& o, int t) { Scen s; s.name=name; s.fn=fn; s.o=o; s.onlyTier=t; scens().push_back(s); }
Reg::Reg(const std::string& name, const std::function<void()>& fn, const Opts& o, int t) { Scen s; s.name=name; s.fn=fn; s.o=o; s.onlyTier=t; scens().push_back(s); }
}

static int replay(const char *file) {
    FILE *f=fopen(file,"r"); if(!f) { perror(file); return 2; }
    char line[65536]; std::string sc; std::vector<int> ch; bool got=false;
    while(fgets(line,sizeof line,f)) {
        if(!strncmp(line,"scenario ",9)) { sc=line+9; while(!sc.empty()&&isspace(sc[sc.size()-1])) sc.resize(sc.size()-1); }
        else if(!strncmp(line,"tier ",5)) g_tier=atoi(line+5);
        else if(!strncmp(line,"choices",7)) { got=true; char *p=line+7; char *e; for(;;) { long v=strtol(p,&e,10); if(e==p) break; ch.push_back(v); p=e; } }
    }
    fclose(f);
    if(!got) return 2;
    for(size_t s=0;s<scens().size();s++) if(scens()[s].name==sc) {
        cur=&scens()[s]; curIdx=s; me=&sh->slot[0]; g_prefix=ch; sharding=false; g_trace=true; g_replay=true; setvbuf(stdout,0,_IOLBF,0);
        printf("REPLAY scenario=%s choices=%zu\n",sc.c_str(),ch.size());
        int st;
        if(cur->o.fork) { me->status=0; pid_t c=fork(); if(c==0) { runOnce(); fflush(stdout); _exit(0); } int ws; waitpid(c,&ws,0); st=me->status; if(!st) { printf("REPRODUCED key=crash:%s\n",sc.c_str()); return 1; } }
        else st=runOnce();
        if(st==1 && cur->o.leak && __sanitizer_get_current_allocated_bytes) { g_replay=g_trace=false; if(leakCheck()) { printf("REPRODUCED key=leak:%s\n",sc.c_str()); return 1; } }
        if(st==3) { printf("REPRODUCED key=%s\n%s\n",me->key,me->msg); return 1; }
        if(st==4) { printf("DIVERGED %s\n",me->msg); return 3; }
        printf("NOT REPRODUCED (status %d)\n",st); return 0;
    }
    printf("no such scenario %s\n",sc.c_str()); return 2;
}

int main(int argc, char **argv) {
    const char *out=0,*rep=0,*only=0; double secs=0;
    for(int i=1;i<argc;i++) { std::string a=argv[i];
        if(a=="--tier"&&i+1<argc) g_tier=!strcmp(argv[++i],"thorough");
        else if(a=="--jobs"&&i+1<argc) nw=atoi(argv[++i]);
        else if(a=="--out"&&i+1<argc) out=argv[++i];
        else if(a=="--replay"&&i+1<argc) rep=argv[++i];
        else if(a=="--seconds"&&i+1<argc) secs=atof(argv[++i]);
        else if(a=="--hang"&&i+1<argc) hang_s=atoi(argv[++i]);
        else if(a=="--known"&&i+1<argc) skipKeys.insert(argv[++i]);
        else if(a=="--scenario"&&i+1<argc) only=argv[++i];
        else { fprintf(stderr,"bad argument %s\n",argv[i]); return 2; }
    }
    if(nw>MAXW) nw=MAXW;
    if(nw<1) nw=1;
    sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(sh==MAP_FAILED) { perror("mmap"); return 2; }
    if(rep) { return replay(rep); }
    if(only) { std::vector<Scen> k; for(size_t i=0;i<scens().size();i++) if(scens()[i].name.find(only)==0) k.push_back(scens()[i]); scens().swap(k); }
    size_t rs=sizeof(Res)*nw*scens().size();
    results=(Res*)mmap(0,rs,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(results==MAP_FAILED) { perror("mmap"); return 2; }
    double t0=now(); if(secs>0) deadline=t0+secs;
    std::vector<pid_t> pid(nw); std::vector<uint64_t> lb(nw,0); std::vector<double> lt(nw,t0);
    fflush(stdout);
    for(int w=0;w<nw;w++) {
        pid[w]=fork();
        if(pid[w]==0) { worker(w); fflush(stdout); _exit(0); }
    }
    int alive=nw;
    while(alive>0) {
        for(int w=0;w<nw;w++) if(pid[w]>0) {
            int ws; pid_t r=waitpid(pid[w],&ws,WNOHANG);
            bool dead=false; std::string why,key;
            if(r==pid[w]) { pid[w]=0; alive--; 
                if(!WIFEXITED(ws)||WEXITSTATUS(ws)!=0) { dead=true; key="crash:"; why=WIFSIGNALED(ws)?"signal "+mc::str(WTERMSIG(ws)):"exit "+mc::str(WEXITSTATUS(ws)); } }
            else {
                if(sh->slot[w].beat!=lb[w]) { lb[w]=sh->slot[w].beat; lt[w]=now(); }
                else if(now()-lt[w]>hang_s+15) { kill(pid[w],SIGKILL); waitpid(pid[w],&ws,0); pid[w]=0; alive--; dead=true; key="hang:"; why="no progress"; }
            }
            if(dead) {
                me=&sh->slot[w]; curIdx=me->scen; cur=&scens()[curIdx];
                addViol(key+cur->name, "execution ended abnormally: "+why);
                sh->stop=1;
            }
        }
        usleep(2000);
    }
    // replay every violation in a fresh process before believing it
    double wall=now()-t0;
    std::string vj;
    int confirmed=0;
    for(int i=0;i<sh->nviol;i++) {
        Shared::V& v=sh->viol[i]; cur=&scens()[v.scen]; curIdx=v.scen;
        std::string key=v.key; int st=0; std::string msg=v.msg, tr;
        if(key.find("divergence:")==0) { st=4; }
        else {
            me=&sh->slot[0]; g_prefix.assign(v.ch,v.ch+v.len); sharding=false; 
            me->status=0; me->inexec=1; int p[2]; if(pipe(p)) return 2; 
            fflush(stdout);
            pid_t c=fork();
            if(c==0) { close(p[0]); dup2(p[1],1); g_trace=true; g_replay=true; setvbuf(stdout,0,_IOLBF,0); setvbuf(stderr,0,_IONBF,0);
                int s=runOnce();
                if(s==1 && key.find("leak:")==0) { g_trace=g_replay=false; if(leakCheck()) { me->status=3; } }
                fflush(stdout); _exit(0); }
            close(p[1]); fcntl(p[0],F_SETFL,O_NONBLOCK); double q=now(); char b[4096]; int ws; bool ended=false;
            for(;;) { ssize_t n; while((n=read(p[0],b,sizeof b))>0) tr.append(b,n);
                if(ended) break;
                if(waitpid(c,&ws,WNOHANG)==c) { ended=true; continue; }
                if(now()-q>hang_s+10) { kill(c,SIGKILL); waitpid(c,&ws,0); me->status=6; me->inexec=0; ended=true; continue; }
                usleep(1000); }
            close(p[0]);
            if(me->status==6) st=6; else if(me->inexec||me->status==0) st=7; else st=me->status;
            if(st==3 && me->msg[0] && key.find("leak:")!=0) { msg=me->msg; key=me->key; }
        }
        bool ok = (st==3||st==6||st==7);
        if(ok) confirmed++;
        if(tr.size()>20000) tr=tr.substr(0,20000)+"...";
        vj+=std::string(vj.empty()?"":",")+"{\"scenario\":"+jstr(cur->name)+",\"key\":"+jstr(key)+",\"msg\":"+jstr(msg)+",\"confirmed\":"+(ok?"true":"false")+",\"status\":"+mc::str(st)+",\"choices\":[";
        for(int k=0;k<v.len;k++) vj+=(k?",":"")+mc::str(v.ch[k]);
        vj+="],\"trace\":"+jstr(tr)+"}";
    }
    std::string j="{\"scenarios\":[";
    uint64_t te=0,ts=0; bool allc=true; bool firstS=true;
    for(size_t s=0;s<scens().size();s++) {
        if(scens()[s].onlyTier>g_tier) continue;
        Res a; memset(&a,0,sizeof a); a.complete=1; const Res *f=0;
        for(int w=0;w<nw;w++) { Res& r=results[w*scens().size()+s]; a.execs+=r.execs; a.steps+=r.steps; a.skips+=r.skips; a.viol+=r.viol; a.maxdepth=std::max(a.maxdepth,r.maxdepth); if(!r.complete) a.complete=0; for(int k=0;k<8;k++) a.devhist[k]+=r.devhist[k]; if(r.execs && (!f||r.llen>f->llen)) f=&r; }
        te+=a.execs; ts+=a.steps; if(!a.complete) allc=false;
        j+=std::string(firstS?"":",")+"{\"name\":"+jstr(scens()[s].name)+",\"executions\":"+mc::str(a.execs)+",\"transitions\":"+mc::str(a.steps)+",\"pruned\":"+mc::str(a.skips)+",\"max_choices\":"+mc::str(a.maxdepth)+",\"complete\":"+(a.complete?"true":"false");
        firstS=false;
        if(scens()[s].o.devs[g_tier]<1000) { j+=",\"deviation_bound\":"+mc::str(scens()[s].o.devs[g_tier])+",\"by_deviations\":["; for(int k=0;k<8;k++) j+=(k?",":"")+mc::str(a.devhist[k]); j+="]"; }
        j+=",\"outcomes\":{"; bool fo=true; int no=0;
        for(int i=0;i<sh->nouts;i++) if(sh->outs[i].scen==(int)s) { no++; if(no<=12) { j+=std::string(fo?"":",")+jstr(sh->outs[i].s)+":"+mc::str(sh->outs[i].n); fo=false; } }
        j+="},\"distinct_outcomes\":"+mc::str(no);
        // sample trace
        if(f && !sh->nviol) {
            std::string tr; int p[2]; if(pipe(p)) return 2;
            fflush(stdout); pid_t c=fork();
            if(c==0) { close(p[0]); me=&sh->slot[0]; cur=&scens()[s]; curIdx=s; g_prefix.assign(f->last,f->last+f->llen); sharding=false; g_trace=true; runOnce(); std::string o; for(size_t i=0;i<g_tr.size();i++) { o+=g_tr[i]; o+="; "; } if(o.size()>600) o=o.substr(0,600)+"..."; if(write(p[1],o.data(),o.size())<0) {} _exit(0); }
            close(p[1]); char b[4096]; ssize_t n; while((n=read(p[0],b,sizeof b))>0) tr.append(b,n); close(p[0]); int ws; waitpid(c,&ws,0);
            j+=",\"sample\":"+jstr(tr);
        }
        j+="}";
    }
    j+="],\"states\":"+mc::str(sh->vcount.load())+",\"state_table_full\":"+(sh->novf?"true":"false")+",\"executions\":"+mc::str(te)+",\"transitions\":"+mc::str(ts)+",\"complete\":"+(allc?"true":"false")+",\"wall\":"+mc::str(wall)+",\"violations\":["+vj+"]}\n";
    if(out) { FILE*f=fopen(out,"w"); if(!f) { perror(out); return 2; } fputs(j.c_str(),f); fclose(f); } else fputs(j.c_str(),stdout);
    return sh->nviol?1:0;
}
