#include "csched.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <ucontext.h>
#include <malloc.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <elf.h>
#include <vector>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <math.h>
#include <typeinfo>

extern char __libc_single_threaded;
namespace mc { void finish(int st, const std::string& key, const std::string& msg); extern bool noThrow; }

namespace sched {
enum { MAXT=8, STACK=512*1024, CALLS=256 };
struct Thread {
    int id; std::string name; ucontext_t ctx; void *stack; std::function<void()> fn;
    enum { Run, Blocked, Done } st; std::function<bool()> pred; int64_t deadline; bool timedout; const char *what; const void *obj;
    VC vc; VC endvc; int quiet, rt; uint64_t points; char eh[16]; void *calls[CALLS]; int depth; 
    Thread() :id(0), stack(0), st(Run), deadline(-1), timedout(false), what(""), obj(0), quiet(0), rt(0), points(0), depth(0) { memset(eh,0,sizeof eh); }
};
static std::vector<Thread*> T; static Thread *cur=0; static ucontext_t mainctx; static bool on=false; static Opt opt; static int64_t vnow=0; static uint64_t npoints=0; static bool record=false; static int inrt=0; static bool closing=false;
struct RT { RT() { inrt++; } ~RT() { inrt--; } };

bool active() { return on; }
int self() { return cur?cur->id:-1; }
uint64_t now() { return vnow; }
const char *nameOf(int id) { return T[id]->name.c_str(); }
Quiet::Quiet() :was(0) { if(cur) { was=cur->quiet; cur->quiet=1; } } Quiet::~Quiet() { if(cur) cur->quiet=was; }
Loud::Loud() :was(0) { if(cur) { was=cur->quiet; cur->quiet=0; } } Loud::~Loud() { if(cur) cur->quiet=was; }

static char *base();
static const char *symbol(void *pc) { // from the symbol table of the program, which has local functions, too
    static std::map<uintptr_t,std::pair<uintptr_t,const char*> > *m=0;
    if(!m) { m=new std::map<uintptr_t,std::pair<uintptr_t,const char*> >; int fd=open("/proc/self/exe",O_RDONLY); struct stat st; if(fd>=0&&!fstat(fd,&st)) { char *f=(char*)mmap(0,st.st_size,PROT_READ,MAP_PRIVATE,fd,0); Elf64_Ehdr *eh=(Elf64_Ehdr*)f; Elf64_Shdr *sh=(Elf64_Shdr*)(f+eh->e_shoff);
        for(int i=0;i<eh->e_shnum;i++) if(sh[i].sh_type==SHT_SYMTAB) { Elf64_Sym *y=(Elf64_Sym*)(f+sh[i].sh_offset); const char *str=f+sh[sh[i].sh_link].sh_offset; for(size_t k=0;k<sh[i].sh_size/sizeof(*y);k++) if(ELF64_ST_TYPE(y[k].st_info)==STT_FUNC&&y[k].st_value) (*m)[y[k].st_value]=std::make_pair(y[k].st_value+y[k].st_size,str+y[k].st_name); } } }
    uintptr_t a=(uintptr_t)pc-(uintptr_t)base(); auto i=m->upper_bound(a); if(i==m->begin()) return 0; --i; return a<=i->second.first?i->second.second:0;
}
static std::string fname(void *pc) {
    const char *sy=pc?symbol(pc):0; if(!sy) return "?"; int st; char *d=abi::__cxa_demangle(sy,0,0,&st); std::string s=d?d:sy; free(d);
    for(;;) { size_t b=s.find('<'); if(b==std::string::npos||s.compare(0,8,"operator")==0) break; int n=0; size_t e=b; for(;e<s.size();e++) { if(s[e]=='<') n++; if(s[e]=='>'&&--n==0) break; } if(e>=s.size()) break; s.erase(b,e-b+1); }
    size_t p=s.find('('); if(p!=std::string::npos&&p>0) s=s.substr(0,p); return s;
}
static std::string where(Thread *t, void *pc) { // the first named function of the code, and what called it
    std::string s=fname(pc); int n=0; for(int i=std::min(t->depth,(int)CALLS)-1;i>=0&&n<5;i--) { std::string f=fname(t->calls[i]); s+=" < "+f; n++; } return s;
}
static std::string threads() { std::string s; for(Thread *t: T) { s+=(s.empty()?"":"; ")+t->name+(t->st==Thread::Done?": ended":t->st==Thread::Blocked?std::string(": blocked in ")+t->what:": running"); } return s; }
void violation(const std::string& key, const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); std::string m=b; if(cur) m+=" [thread "+cur->name+": "+where(cur,0)+"] ["+threads()+"]"; mc::finish(3,key,m); abort(); }

// ---- switching
static void switchTo(Thread *t) {
    Thread *f=cur; if(t==f) return;
    void *g=abi::__cxa_get_globals(); if(f) { memcpy(f->eh,g,16); f->rt=inrt; } cur=t; memcpy(g,t->eh,16);
    if(mc::tracing()) mc::note("-> %s",t->name.c_str());
    swapcontext(f?&f->ctx:&mainctx,&t->ctx);
    if(f) inrt=f->rt; // back again
}
static bool ready(Thread *t) { if(t->st==Thread::Run) return true; if(t->st==Thread::Done) return false; if(t->timedout) return true; return t->pred(); }
static void schedule() { // called by the running thread, which is Run, Blocked or Done
    RT rt;
    for(;;) {
        std::vector<Thread*> en; Thread *timed=0; int ntimed=0; bool curReady=false;
        for(Thread *t: T) { if(ready(t)) { if(t==cur) curReady=true; else en.push_back(t); } else if(t->st==Thread::Blocked&&t->deadline>=0) { if(!timed||t->deadline<timed->deadline) { timed=t; ntimed=1; } else if(t->deadline==timed->deadline) ntimed++; } }
        uint64_t h=(uint64_t)vnow*31+cur->id; for(Thread *t: T) h=mc::hmix(h,t->points*4+t->st); mc::state(h);
        int n=en.size(); Thread *next=0; bool adv=false;
        if(curReady) { // going on is the default, anything else is a preemption
            int c=mc::deviate(1+n+(timed&&!opt.punctual?1:0)); if(c==0) next=cur; else if(c<=n) next=en[c-1]; else adv=true;
        } else if(n) { if(timed&&!opt.punctual&&mc::deviate(2)) adv=true; else next=en[mc::choose(n)]; }
        else if(timed) adv=true;
        else { bool all=true; for(Thread *t: T) all&=t->st==Thread::Done; if(all) { cur=0; setcontext(&mainctx); }
            violation("deadlock","deadlock"); }
        if(adv) { // time passes until the next deadline
            std::vector<Thread*> due; for(Thread *t: T) if(t->st==Thread::Blocked&&t->deadline>=0&&t->deadline==timed->deadline&&!ready(t)) due.push_back(t);
            if(timed->deadline>vnow) vnow=timed->deadline; if(mc::tracing()) mc::note("time %.9f",vnow*1e-9); Thread *d=due[mc::choose(due.size())]; d->timedout=true; for(Thread *t: due) t->timedout=true; next=d; }
        if(next==cur) return; switchTo(next); return;
    }
}
void point(const char *what, const void *obj) {
    if(!on||!cur||cur->quiet||closing) return; RT rt; mc::step(); cur->points++; if(mc::tracing()) mc::note("%s: %s",cur->name.c_str(),what); if(++npoints>(uint64_t)opt.maxPoints) violation("livelock","no end after %llu operations",(unsigned long long)npoints);
    cur->what=what; cur->obj=obj; schedule();
}
bool block(const std::function<bool()>& pred, const char *what, const void *obj, double timeout) {
    if(!on||!cur) return pred(); RT rt; point(what,obj); if(pred()) return true; if(timeout==0) return false;
    cur->st=Thread::Blocked; cur->pred=pred; cur->what=what; cur->obj=obj; cur->timedout=false; cur->deadline=timeout<0||timeout>1e6?-1:vnow+(int64_t)ceil(timeout*1e9); 
    for(;;) { schedule(); if(pred()) break; if(cur->timedout) break; }
    bool ok=pred(); cur->st=Thread::Run; cur->pred=nullptr; cur->deadline=-1; cur->timedout=false; return ok;
}
static void entry(int id) {
    Thread *t=T[id]; inrt=0;
    try { t->fn(); } catch(mc::Skip&) { mc::finish(2,"","");
    } catch(mc::Violation& v) { mc::finish(3,v.key,v.msg);
    } catch(std::exception& e) { violation("exception:"+t->name,"exception %s: %s ends the thread",typeid(e).name(),e.what());
    } catch(...) { violation("exception:"+t->name,"an exception ends the thread"); }
    inrt=1; t->fn=nullptr; t->endvc=t->vc; t->st=Thread::Done; if(mc::tracing()) mc::note("%s ends",t->name.c_str()); schedule(); abort();
}
int start(const std::function<void()>& fn, const char *name) {
    RT rt; if(T.size()>=MAXT) { fprintf(stderr,"too many threads\n"); mc::finish(4,"","more threads than the scheduler has room for"); }
    Thread *t=new Thread; t->id=T.size(); t->name=name; for(Thread *o: T) if(o->name==t->name) { t->name+="#"+std::to_string(t->id); break; } t->fn=fn; t->stack=mmap(0,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    getcontext(&t->ctx); t->ctx.uc_stack.ss_sp=t->stack; t->ctx.uc_stack.ss_size=STACK; t->ctx.uc_link=0; makecontext(&t->ctx,(void(*)())entry,1,t->id);
    if(cur) { t->vc=cur->vc; cur->vc.c[cur->id]++; } t->vc.c[t->id]=1; T.push_back(t); record=T.size()>1; return t->id;
}
bool ended(int id) { return T[id]->st==Thread::Done; }
void acquire(const VC& v) { if(cur) for(int i=0;i<MAXT;i++) if(v.c[i]>cur->vc.c[i]) cur->vc.c[i]=v.c[i]; }
void release(VC& v) { if(!cur) return; for(int i=0;i<MAXT;i++) if(cur->vc.c[i]>v.c[i]) v.c[i]=cur->vc.c[i]; cur->vc.c[cur->id]++; }
void joinVC(int id) { acquire(T[id]->endvc); }
int spawn(const std::function<void()>& fn, const char *name) { int id=start(fn,name); point("spawn",0); return id; }
void join(int id) { block([id]{ return ended(id); },"join",0); joinVC(id); }
void sleep(double s) { block([]{ return false; },"sleep",0,s); }
bool waitFor(const std::function<bool()>& pred, double timeout, const char *what) { return block(pred,what,0,timeout); }
void yieldPoint(const char *w) { point(w,0); }
void run(const std::function<void()>& body, const Opt& o) {
    opt=o; on=true; vnow=0; npoints=0; __libc_single_threaded=0; mc::noThrow=true; start(body,"main"); Thread *t=T[0]; record=false;
    cur=t; swapcontext(&mainctx,&t->ctx);
    // every thread has ended
    on=false; record=false; mc::noThrow=false; inrt=0;
}

// ---- happens-before race detection, use of freed memory
struct Cell { uint32_t w; uint32_t r[MAXT-1]; uint32_t wpc, rpc; }; // w: thread<<24|epoch; FREED
enum : uint32_t { FREED=0xffffffffu };
struct Page { Cell c[4096]; };
static std::unordered_map<uintptr_t,Page*> *pages=0; static uintptr_t lastp=~0ul; static Page *lastpg=0;
static char *base() { static char *b=0; if(!b) { Dl_info i; dladdr((void*)&base,&i); b=(char*)i.dli_fbase; } return b; }
static Page *page(uintptr_t p) { if(p==lastp) return lastpg; if(!pages) { pages=new std::unordered_map<uintptr_t,Page*>; } Page *&g=(*pages)[p]; if(!g) { g=(Page*)mmap(0,sizeof(Page),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); } lastp=p; lastpg=g; return g; }
static void report(const char *kind, uint32_t other, uint32_t opc, uintptr_t a, void *pc, bool w) {
    RT rt; std::string f=fname(pc), g=fname(opc?base()+opc:0); std::string k1=f,k2=g; if(k2<k1) std::swap(k1,k2);
    closing=true; violation(std::string(kind)+":"+k1+"/"+k2,"%s: %s by %s in %s, and in %s%s%s",kind,w?"write":"read",cur->name.c_str(),where(cur,pc).c_str(),g.c_str(),other<MAXT?" by ":"",other<MAXT?T[other]->name.c_str():"");
}
static inline void access(uintptr_t a, size_t n, bool w, void *pc) {
    if(!record||inrt||!cur||cur->quiet) return; RT rt; uint32_t p32=(uint32_t)((char*)pc-base()); int me=cur->id; const uint32_t *vc=cur->vc.c;
    for(size_t i=0;i<n;i++,a++) {
        Cell& c=page(a>>12)->c[a&4095];
        if(c.w==FREED) { report("use-after-free",99,c.wpc,a,pc,w); }
        if(c.w) { int t=c.w>>24; if(t!=me&&(c.w&0xffffff)>vc[t]) report("race",t,c.wpc,a,pc,w); }
        if(w) { for(int t=0;t<MAXT-1;t++) if(c.r[t]&&t!=me&&c.r[t]>vc[t]) report("race",t,c.rpc,a,pc,w); c.w=(uint32_t)me<<24|vc[me]; c.wpc=p32; for(int t=0;t<MAXT-1;t++) c.r[t]=0; }
        else { if(me<MAXT-1) c.r[me]=vc[me]; c.rpc=p32; }
    }
}
static void onFree(void *p, void *pc) { if(!record||inrt||!cur) return; size_t n=malloc_usable_size(p); bool q=cur->quiet; if(!q) access((uintptr_t)p,n,true,pc); RT rt; uint32_t p32=(uint32_t)((char*)pc-base()); for(size_t i=0;i<n;i++) { Cell& c=page(((uintptr_t)p+i)>>12)->c[((uintptr_t)p+i)&4095]; c.w=FREED; c.wpc=p32; } }
// memory which was released behind our back (by the C library) and is given out again has no history
static void *fresh(void *p, size_t n) { if(!record||inrt||!cur||!pages||!p) return p; RT rt; uintptr_t a=(uintptr_t)p, e=a+n; while(a<e) { uintptr_t m=std::min(e,(a|4095)+1); auto i=pages->find(a>>12); if(i!=pages->end()) memset(&i->second->c[a&4095],0,(m-a)*sizeof(Cell)); a=m; } return p; }
static std::map<const void*,VC> *avc=0;
static VC& atomVC(const void *p) { if(!avc) avc=new std::map<const void*,VC>; return (*avc)[p]; }
static void atomPoint(const void *p, void *pc) { if(!record||inrt||!cur||cur->quiet) return; if(opt.atomics) point("atomic",p); RT rt; Cell& c=page((uintptr_t)p>>12)->c[(uintptr_t)p&4095]; if(c.w==FREED) report("use-after-free",99,c.wpc,(uintptr_t)p,pc,true); int me=cur->id; if(c.w) { int t=c.w>>24; if(t!=me&&(c.w&0xffffff)>cur->vc.c[t]) report("race",t,c.wpc,(uintptr_t)p,pc,true); } }
static void atomAcq(const void *p, int mo) { if(!on||inrt||!cur) return; RT rt; if((mo==__ATOMIC_RELAXED&&!opt.relaxed)||mo==__ATOMIC_RELEASE) return; acquire(atomVC(p)); }
static void atomRel(const void *p, int mo) { if(!on||inrt||!cur) return; RT rt; if(mo==__ATOMIC_RELAXED||mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME) return; release(atomVC(p)); }
}
using namespace sched;

extern "C" void *__real___cxa_allocate_exception(size_t n) noexcept; extern "C" void *__wrap___cxa_allocate_exception(size_t n) noexcept { return fresh(__real___cxa_allocate_exception(n),n); }
// ---- memory: nothing which is freed during a run is used again
void *operator new(size_t n) { void *p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return fresh(p,p?malloc_usable_size(p):0); }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { void *p=malloc(n?n:1); return fresh(p,p?malloc_usable_size(p):0); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { void *p=malloc(n?n:1); return fresh(p,p?malloc_usable_size(p):0); }
static void del(void *p, void *pc) { if(!p) return; if(record&&!inrt&&cur) { onFree(p,pc); return; } if(on&&T.size()>1) return; free(p); }
void operator delete(void *p) noexcept { del(p,__builtin_return_address(0)); }
void operator delete[](void *p) noexcept { del(p,__builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { del(p,__builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { del(p,__builtin_return_address(0)); }
void operator delete(void *p, const std::nothrow_t&) noexcept { del(p,__builtin_return_address(0)); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { del(p,__builtin_return_address(0)); }

// ---- instrumentation interface
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if(cur&&on&&!inrt) { if(cur->depth<CALLS) cur->calls[cur->depth]=pc; cur->depth++; } }
void __tsan_func_exit() { if(cur&&on&&!inrt&&cur->depth>0) cur->depth--; }
#define RW(N) void __tsan_read##N(void *a) { access((uintptr_t)a,N,false,PC); } void __tsan_write##N(void *a) { access((uintptr_t)a,N,true,PC); } void __tsan_unaligned_read##N(void *a) { access((uintptr_t)a,N,false,PC); } void __tsan_unaligned_write##N(void *a) { access((uintptr_t)a,N,true,PC); } void __tsan_volatile_read##N(void *a) { access((uintptr_t)a,N,false,PC); } void __tsan_volatile_write##N(void *a) { access((uintptr_t)a,N,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access((uintptr_t)a,n,false,PC); }
void __tsan_write_range(void *a, size_t n) { access((uintptr_t)a,n,true,PC); }
// block operations of the instrumented code (linked with --wrap)
void *__real_memcpy(void*, const void*, size_t); void *__real_memmove(void*, const void*, size_t); void *__real_memset(void*, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if(n) { access((uintptr_t)s,n,false,PC); access((uintptr_t)d,n,true,PC); } return __real_memcpy(d,s,n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if(n) { access((uintptr_t)s,n,false,PC); access((uintptr_t)d,n,true,PC); } return __real_memmove(d,s,n); }
void *__wrap_memset(void *d, int c, size_t n) { if(n) access((uintptr_t)d,n,true,PC); return __real_memset(d,c,n); }
void __tsan_vptr_update(void **p, void *v) { if(*p!=v) access((uintptr_t)p,sizeof(void*),true,PC); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p,sizeof(void*),false,PC); }
typedef __int128 a128;
#define AT(N,TY) \
TY __tsan_atomic##N##_load(const volatile TY *p, int mo) { atomPoint((void*)p,PC); TY v=*p; atomAcq((void*)p,mo); return v; } \
void __tsan_atomic##N##_store(volatile TY *p, TY v, int mo) { atomPoint((void*)p,PC); *p=v; atomRel((void*)p,mo); } \
TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int mo) { atomPoint((void*)p,PC); TY o=*p; *p=v; atomAcq((void*)p,mo); atomRel((void*)p,mo); return o; } \
TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int mo) { atomPoint((void*)p,PC); TY o=*p; *p=o+v; atomAcq((void*)p,mo); atomRel((void*)p,mo); return o; } \
TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int mo) { atomPoint((void*)p,PC); TY o=*p; *p=o-v; atomAcq((void*)p,mo); atomRel((void*)p,mo); return o; } \
TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int mo) { atomPoint((void*)p,PC); TY o=*p; *p=o&v; atomAcq((void*)p,mo); atomRel((void*)p,mo); return o; } \
TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int mo) { atomPoint((void*)p,PC); TY o=*p; *p=o|v; atomAcq((void*)p,mo); atomRel((void*)p,mo); return o; } \
TY __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int mo) { atomPoint((void*)p,PC); TY o=*p; *p=o^v; atomAcq((void*)p,mo); atomRel((void*)p,mo); return o; } \
TY __tsan_atomic##N##_fetch_nand(volatile TY *p, TY v, int mo) { atomPoint((void*)p,PC); TY o=*p; *p=~(o&v); atomAcq((void*)p,mo); atomRel((void*)p,mo); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int fmo) { atomPoint((void*)p,PC); if(*p==*e) { *p=v; atomAcq((void*)p,mo); atomRel((void*)p,mo); return 1; } *e=*p; atomAcq((void*)p,fmo); return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p,e,v,mo,fmo); } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(p,&e,v,mo,fmo); return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t) AT(128,a128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// local statics
struct Guard { bool busy; VC vc; Guard() :busy(false) {} };
static std::map<void*,Guard> *guards=0; static Guard& guardOf(void *g) { RT rt; if(!guards) guards=new std::map<void*,Guard>; return (*guards)[g]; }
int __cxa_guard_acquire(uint64_t *g) { volatile char *b=(volatile char*)g; if(*b) { if(on&&cur) { acquire(guardOf(g).vc); } return 0; } Guard& x=guardOf(g); if(on&&cur) { block([&x,b]{ return !x.busy; },"static initialisation",g); } if(*b) { if(on&&cur) acquire(x.vc); return 0; } x.busy=true; return 1; }
void __cxa_guard_release(uint64_t *g) { Guard& x=guardOf(g); *(char*)g=1; x.busy=false; if(on&&cur) { release(x.vc); atomRel((void*)g,4); } }
void __cxa_guard_abort(uint64_t *g) { Guard& x=guardOf(g); x.busy=false; if(on&&cur) release(x.vc); }
}
