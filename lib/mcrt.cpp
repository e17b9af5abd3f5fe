#include "mcrt.hpp"
#include "vt.hpp"
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <malloc.h>
#include <errno.h>
#include <time.h>
#include <cxxabi.h>
#include <unordered_map>
#include <unordered_set>

extern "C" void* __libc_malloc(size_t);
extern "C" void  __libc_free(void*);
extern "C" void* __libc_calloc(size_t,size_t);
extern "C" void* __libc_realloc(void*,size_t);
extern "C" void* __libc_memalign(size_t,size_t);
extern "C" void* __real_memcpy(void*,const void*,size_t);
extern "C" void* __real_memmove(void*,const void*,size_t);
extern "C" void* __real_memset(void*,int,size_t);

namespace
{
const int MAXT = 7;
enum Kind { K_NONE, K_START, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CREATE, K_JOIN, K_SLEEP, K_YIELD,
            K_CONDWAIT, K_WAKE, K_TWAKE, K_SIGNAL, K_ATOMIC, K_EXIT };
const char* KN[] = {"none","start","lock","trylock","unlock","create","join","sleep","yield",
                    "cond-wait","wake","timed-wake","signal","atomic","exit"};

__thread int my_tid = -1;
__thread int in_rt = 0;      // inside the runtime or ignoring

struct Thr
{
    bool used=false, finished=false, joined=false;
    sem_t sem;
    Kind pend=K_NONE; void* obj=NULL; long nops=0;
    uint32_t C[MAXT];
    pthread_t real; void* ret=NULL;
    void* (*fn)(void*)=NULL; void* arg=NULL;
    bool signaled=false;
    char* stk_lo=NULL; char* stk_hi=NULL;
};
struct Mtx { int owner=-1; int depth=0; uint32_t C[MAXT]; Mtx(){ for(int i=0;i<MAXT;i++) C[i]=0; } };

struct Choice { int n; int chosen; int cost[MAXT]; int tids[MAXT]; uint64_t sig; };

struct Global
{
    bool active=false;
    int nthr=0, cur=0, live=0;
    Thr thr[MAXT];
    std::unordered_map<void*,Mtx> mtx;
    std::unordered_map<void*,Mtx> atom;
    std::unordered_map<void*,int> ord;
    std::vector<Choice> trace;
    std::vector<std::pair<int,int>> readable;
    std::vector<int> prefix;
    int cost=0, wakes=0, forced=0, streak=0;
    bool diverged=false, stuck=false;
    mc::Outcome out;
    mc::Config cfg;
    std::unordered_set<uint64_t> states;
    std::unordered_set<std::string> raceset;
    mc::Stats stats;
    bool multi=false;
};
Global G;

// ------------------------------------------------------------ shadow memory
// one cell per 4 bytes: last write (FastTrack style epoch) and last read of each thread
struct Cell
{
    uintptr_t key; uint32_t stamp;
    uint32_t wclk; int8_t wtid; uint8_t wm; uint8_t rm[MAXT]; uint32_t wpc;
    uint32_t r[MAXT]; uint32_t rpc[MAXT];
    void clear() { wclk=0; wtid=-1; wm=0; for(int t=0;t<MAXT;t++) { r[t]=0; rm[t]=0; } }
};
const size_t SBITS = 18;
Cell* tab = NULL; uint32_t stamp = 0; size_t used = 0;
const size_t SN = (size_t)1<<SBITS;
uint32_t* used_idx = NULL;
char* code_base = NULL;

Cell* find(uintptr_t key, bool create)
{
    size_t i = (key*0x9E3779B97F4A7C15ULL)>>(64-SBITS);
    for(size_t n=0;n<SN;n++,i=(i+1)&(SN-1))
    {
        Cell& c = tab[i];
        if(c.stamp!=stamp)
        {
            if(!create) return NULL;
            if(used>SN*3/4) { fprintf(stderr,"shadow full\n"); _exit(3); }
            used_idx[used++] = (uint32_t)i;
            c.stamp = stamp; c.key = key;
            c.clear();
            return &c;
        }
        if(c.key==key) return &c;
    }
    return NULL;
}
std::string fname(void* pc)
{
    Dl_info di;
    if(dladdr(pc,&di) && di.dli_sname)
    {
        int st=0; char* d = abi::__cxa_demangle(di.dli_sname,NULL,NULL,&st);
        std::string s = d?d:di.dli_sname; if(d) __libc_free(d);
        size_t p = s.find('('); if(p!=std::string::npos) s = s.substr(0,p);
        return s;
    }
    return "?";
}
void race(const char* what, void* a, void* b)
{
    std::string x = fname(a), y = fname(b);
    if(y<x) std::swap(x,y);
    std::string s = std::string(what)+" "+x+" | "+y;
    if(G.raceset.insert(s).second) G.out.races.push_back(s);
}
inline void access1(uintptr_t gran, uint8_t mask, bool write, uint32_t pc)
{
    Cell* c = find(gran,true);
    Thr& T = G.thr[my_tid];
    uint32_t now = T.C[my_tid];
    if(c->wtid>=0 && c->wtid!=my_tid && (c->wm&mask) && c->wclk>T.C[c->wtid])
        race(write?"write/write":"read/write",code_base+pc,code_base+c->wpc);
    if(write)
    {
        for(int u=0;u<G.nthr;u++)
            if(u!=my_tid && (c->rm[u]&mask) && c->r[u]>T.C[u])
                race("read/write",code_base+pc,code_base+c->rpc[u]);
        c->wm = (c->wtid==my_tid && c->wclk==now)?(uint8_t)(c->wm|mask):mask;
        c->wtid=(int8_t)my_tid; c->wclk=now; c->wpc=pc;
    }
    else
    {
        c->rm[my_tid] = c->r[my_tid]==now?(uint8_t)(c->rm[my_tid]|mask):mask;
        c->r[my_tid] = now; c->rpc[my_tid] = pc;
    }
}
inline void access(void* p, size_t n, bool write, void* pcv)
{
    if(my_tid<0 || in_rt || !G.active || !G.multi || !G.cfg.races) return;
    // a worker's own stack is private to it
    if(my_tid>0 && (char*)p>=G.thr[my_tid].stk_lo && (char*)p<G.thr[my_tid].stk_hi) return;
    in_rt++;
    uintptr_t a = (uintptr_t)p, e = a+n;
    const uint32_t pc = (uint32_t)((char*)pcv-code_base);
    while(a<e)
    {
        uintptr_t g = a>>2; uintptr_t ge = (g+1)<<2; if(ge>e) ge = e;
        uint8_t m = 0;
        for(uintptr_t x=a;x<ge;x++) m |= (uint8_t)(1u<<(x&3));
        access1(g,m,write,pc);
        a = ge;
    }
    in_rt--;
}
// linear probing cannot delete: reset the contents instead
void forget(void* p, size_t n)
{
    if(!G.active || !G.multi || !p || !tab) return;
    if(n/4>used) // large blocks: scan the cells in use
    {
        uintptr_t lo=(uintptr_t)p>>2, hi=((uintptr_t)p+n)>>2;
        for(size_t i=0;i<used;i++)
        {
            Cell& c = tab[used_idx[i]];
            if(c.key>=lo && c.key<=hi) c.clear();
        }
        return;
    }
    for(uintptr_t g=(uintptr_t)p>>2; g<=((uintptr_t)p+n-1)>>2; g++)
    {
        Cell* c = find(g,false);
        if(c) c->clear();
    }
}
void join_clock(uint32_t* a, const uint32_t* b) { for(int i=0;i<MAXT;i++) if(b[i]>a[i]) a[i]=b[i]; }

// --------------------------------------------------------------- scheduler
int ordinal(void* o)
{
    if(!o) return 0;
    auto it = G.ord.find(o);
    if(it!=G.ord.end()) return it->second;
    int n = (int)G.ord.size()+1; G.ord[o]=n; return n;
}
bool sleeper(Kind k) { return k==K_SLEEP || k==K_TWAKE; }
bool enabled(int t)
{
    Thr& T = G.thr[t];
    if(!T.used || T.finished) return false;
    switch(T.pend)
    {
        case K_LOCK: { auto it=G.mtx.find(T.obj); return it==G.mtx.end() || it->second.owner<0; }
        case K_JOIN: return G.thr[(intptr_t)T.obj].finished;
        case K_WAKE: return T.signaled;
        case K_TWAKE: return true;
        default: return true;
    }
}
[[noreturn]] void give_up(const char* why, bool dead)
{
    // the other threads are stuck for good: report and leave the process
    std::string m = why; m += ":";
    for(int i=0;i<G.nthr;i++)
        if(!G.thr[i].finished) m += " t"+std::to_string(i)+"@"+KN[G.thr[i].pend];
    std::string tr;
    for(auto& r:G.readable) tr += "t"+std::to_string(r.first)+":"+KN[r.second]+" ";
    vt::fail(dead?"deadlock":"livelock","%s; schedule: %.1500s",m.c_str(),tr.c_str());
    vt::finish();
    _exit(0);
}
// choose who runs next; the caller has set its pending operation
int choose()
{
    int me = G.cur;
    Thr& M = G.thr[me];
    int en[MAXT], n=0; bool issl[MAXT]; int costs[MAXT];
    bool awake=false;
    for(int t=0;t<G.nthr;t++) if(enabled(t) && !(sleeper(G.thr[t].pend) && !G.thr[t].signaled)) awake=true;
    bool me_en = enabled(me) && !M.finished && !(sleeper(M.pend)&&!M.signaled) && M.pend!=K_YIELD;
    if(me_en && G.streak>400 ) me_en=false; // spinning: treat as a yield
    auto add=[&](int t){ issl[n] = sleeper(G.thr[t].pend) && !G.thr[t].signaled; en[n++]=t; };
    if(me_en) add(me);
    for(int t=0;t<G.nthr;t++)
        if(t!=me && enabled(t) && !(sleeper(G.thr[t].pend)&&!G.thr[t].signaled)) add(t);
    if(!me_en && enabled(me) && !M.finished && !(sleeper(M.pend)&&!M.signaled)) add(me);
    for(int t=0;t<G.nthr;t++)
        if(enabled(t) && sleeper(G.thr[t].pend) && !G.thr[t].signaled)
            if(!awake || G.wakes<G.cfg.max_wakes) add(t);
    if(n==0) give_up("no thread can run",true);
    for(int i=0;i<n;i++)
        costs[i] = i==0?0:((me_en || (issl[i]&&awake))?1:0);
    Choice c; c.n=n; uint64_t sig=(uint64_t)n;
    for(int i=0;i<n;i++) { c.cost[i]=costs[i]; c.tids[i]=en[i]; sig=vt::mix(sig,en[i]*32+G.thr[en[i]].pend); }
    c.sig=sig;
    size_t k=G.trace.size();
    int pick=0;
    if(k<G.prefix.size()) { pick=G.prefix[k]; if(pick>=n) { G.diverged=true; pick=0; } }
    c.chosen=pick;
    G.cost += costs[pick];
    G.trace.push_back(c);
    int t=en[pick];
    if(issl[pick]) { if(awake) G.wakes++; else if(++G.forced>300) give_up("only timers keep firing",false); }
    else G.forced=0;
    G.streak = t==me?G.streak+1:0;
    G.readable.push_back(std::make_pair(t,(int)G.thr[t].pend));
    uint64_t h=1;
    for(int i=0;i<G.nthr;i++) h=vt::mix(h,vt::mix(G.thr[i].nops,G.thr[i].pend*64+(G.thr[i].finished?1:0)+ordinal(G.thr[i].pend==K_JOIN?NULL:G.thr[i].obj)*1000));
    h=vt::mix(h,t);
    for(auto& r:G.mtx) if(r.second.owner>=0) h+=vt::mix(ordinal(r.first),r.second.owner);
    G.states.insert(h);
    if(G.trace.size()>200000) give_up("execution does not end",false);
    return t;
}
void point(Kind k, void* obj)
{
    Thr& T = G.thr[my_tid];
    T.pend=k; T.obj=obj;
    int t = choose();
    if(t!=my_tid)
    {
        G.cur=t;
        int me=my_tid;
        sem_post(&G.thr[t].sem);
        while(sem_wait(&G.thr[me].sem)!=0) {}
        G.cur=me;
    }
    T.nops++;
    T.pend=K_NONE;
}
bool managed() { return my_tid>=0 && G.active; }
struct RT { RT(){in_rt++;} ~RT(){in_rt--;} };
void tick() { G.thr[my_tid].C[my_tid]++; }

void update_multi()
{
    bool m=false;
    for(int i=1;i<G.nthr;i++) if(G.thr[i].used && !G.thr[i].joined) m=true;
    G.multi=m;
}

template<class F> F real(const char* n) { static std::unordered_map<std::string,void*>* m=NULL; (void)m; return (F)dlsym(RTLD_NEXT,n); }

void* trampoline(void* a)
{
    int id=(int)(intptr_t)a;
    in_rt++;
    my_tid=id;
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(),&at);
    void* lo; size_t sz; pthread_attr_getstack(&at,&lo,&sz); pthread_attr_destroy(&at);
    Thr& T=G.thr[id];
    T.stk_lo=(char*)lo; T.stk_hi=(char*)lo+sz;
    while(sem_wait(&T.sem)!=0) {}
    G.cur=id; T.nops++; T.pend=K_NONE;
    in_rt--;
    T.ret=T.fn(T.arg);
    in_rt++;
    // no scheduling point of its own: leave and let somebody else run
    T.finished=true;
    tick();
    int t=choose();
    G.cur=t;
    sem_post(&G.thr[t].sem);
    my_tid=-1;
    return T.ret;
}
}

// ------------------------------------------------------------ interposition
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void*(*fn)(void*), void* arg)
{
    typedef int (*F)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_create");
    if(!managed()) return f(th,at,fn,arg);
    RT rt;
    point(K_CREATE,NULL);
    if(G.nthr>=MAXT) { fprintf(stderr,"too many threads\n"); _exit(3); }
    int id=G.nthr;
    Thr& T=G.thr[id];
    T.used=true; T.finished=false; T.joined=false; T.pend=K_START; T.obj=NULL; T.nops=0;
    T.fn=fn; T.arg=arg; T.signaled=false; T.ret=NULL;
    sem_init(&T.sem,0,0);
    for(int i=0;i<MAXT;i++) T.C[i]=0;
    join_clock(T.C,G.thr[my_tid].C);
    T.C[id]=1;
    tick();
    G.nthr++;
    int r=f(th,at,trampoline,(void*)(intptr_t)id);
    if(r!=0) { fprintf(stderr,"pthread_create failed\n"); _exit(3); }
    T.real=*th;
    update_multi();
    return 0;
}
int pthread_join(pthread_t th, void** ret)
{
    typedef int (*F)(pthread_t,void**);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_join");
    if(!managed()) return f(th,ret);
    RT rt;
    int id=-1;
    for(int i=0;i<G.nthr;i++) if(G.thr[i].used && !G.thr[i].joined && i>0 && pthread_equal(G.thr[i].real,th)) id=i;
    if(id<0) return f(th,ret);
    point(K_JOIN,(void*)(intptr_t)id);
    int r=f(th,ret);
    join_clock(G.thr[my_tid].C,G.thr[id].C);
    G.thr[id].joined=true;
    forget(G.thr[id].stk_lo,(size_t)(G.thr[id].stk_hi-G.thr[id].stk_lo));
    update_multi();
    return r;
}
int pthread_detach(pthread_t th)
{
    typedef int (*F)(pthread_t);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_detach");
    return f(th);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_mutex_lock");
    if(!managed() || in_rt) return f(m);
    RT rt;
    {
        auto it=G.mtx.find(m);
        if(it!=G.mtx.end() && it->second.owner==my_tid && m->__data.__kind==PTHREAD_MUTEX_RECURSIVE_NP)
        { it->second.depth++; return 0; }
    }
    point(K_LOCK,m);
    Mtx& x=G.mtx[m]; x.owner=my_tid; x.depth=1;
    join_clock(G.thr[my_tid].C,x.C);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_mutex_trylock");
    if(!managed() || in_rt) return f(m);
    RT rt;
    point(K_TRYLOCK,m);
    Mtx& x=G.mtx[m];
    if(x.owner>=0) return EBUSY;
    x.owner=my_tid; x.depth=1;
    join_clock(G.thr[my_tid].C,x.C);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_mutex_unlock");
    if(!managed() || in_rt) return f(m);
    RT rt;
    auto it=G.mtx.find(m);
    if(it!=G.mtx.end() && it->second.depth>1) { it->second.depth--; return 0; }
    point(K_UNLOCK,m);
    Mtx& x=G.mtx[m];
    if(x.owner!=my_tid) { race("unlock of a mutex that is not held",__builtin_return_address(0),__builtin_return_address(0)); }
    x.owner=-1; x.depth=0;
    join_clock(x.C,G.thr[my_tid].C);
    tick();
    return 0;
}
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    RT rt;
    point(K_CONDWAIT,c);
    Mtx& x=G.mtx[m]; x.owner=-1; join_clock(x.C,G.thr[my_tid].C); tick();
    G.thr[my_tid].signaled=false;
    point(timed?K_TWAKE:K_WAKE,c);
    bool sig=G.thr[my_tid].signaled; G.thr[my_tid].signaled=false;
    point(K_LOCK,m);
    Mtx& y=G.mtx[m]; y.owner=my_tid; y.depth=1; join_clock(G.thr[my_tid].C,y.C);
    return sig?0:(timed?ETIMEDOUT:0);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    typedef int (*F)(pthread_cond_t*,pthread_mutex_t*);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_cond_wait");
    if(!managed()) return f(c,m);
    return cond_wait_impl(c,m,false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    typedef int (*F)(pthread_cond_t*,pthread_mutex_t*,const struct timespec*);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_cond_timedwait");
    if(!managed()) return f(c,m,t);
    return cond_wait_impl(c,m,true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    typedef int (*F)(pthread_cond_t*,pthread_mutex_t*,clockid_t,const struct timespec*);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_cond_clockwait");
    if(!managed()) return f(c,m,k,t);
    return cond_wait_impl(c,m,true);
}
static int cond_sig(pthread_cond_t* c, bool all)
{
    RT rt;
    point(K_SIGNAL,c);
    for(int i=0;i<G.nthr;i++)
        if((G.thr[i].pend==K_WAKE||G.thr[i].pend==K_TWAKE) && G.thr[i].obj==c && !G.thr[i].signaled)
        { G.thr[i].signaled=true; if(!all) break; }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    typedef int (*F)(pthread_cond_t*);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_cond_signal");
    return managed()?cond_sig(c,false):f(c);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    typedef int (*F)(pthread_cond_t*);
    static F f=(F)dlsym(RTLD_NEXT,"pthread_cond_broadcast");
    return managed()?cond_sig(c,true):f(c);
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    typedef int (*F)(const struct timespec*,struct timespec*);
    static F f=(F)dlsym(RTLD_NEXT,"nanosleep");
    if(!managed()) return f(a,b);
    RT rt; point(K_SLEEP,NULL); return 0;
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b)
{
    typedef int (*F)(clockid_t,int,const struct timespec*,struct timespec*);
    static F f=(F)dlsym(RTLD_NEXT,"clock_nanosleep");
    if(!managed()) return f(k,fl,a,b);
    RT rt; point(K_SLEEP,NULL); return 0;
}
int usleep(useconds_t u)
{
    if(!managed()) { struct timespec t={u/1000000,(long)(u%1000000)*1000}; return nanosleep(&t,NULL); }
    RT rt; point(K_SLEEP,NULL); return 0;
}
unsigned sleep(unsigned s)
{
    if(!managed()) { struct timespec t={(time_t)s,0}; nanosleep(&t,NULL); return 0; }
    RT rt; point(K_SLEEP,NULL); return 0;
}
int sched_yield(void)
{
    if(!managed()) return 0;
    RT rt; point(K_YIELD,NULL); return 0;
}
// time and the libc generator are inputs of the code under test: make them fixed
time_t time(time_t* t) { time_t v=1500000000; if(t) *t=v; return v; }
static unsigned rnd_state=1;
void srand(unsigned) { rnd_state=1; }
int rand(void)
{
    // a function of the calling thread, so that schedules replay
    static __thread unsigned n=0; static __thread int lastexec=-1;
    extern int mc_exec_no;
    if(lastexec!=mc_exec_no) { lastexec=mc_exec_no; n=0; }
    unsigned x=(unsigned)(my_tid+2)*2654435761u+(++n)*40503u*65537u;
    x^=x>>15; x*=2246822519u; x^=x>>13;
    return (int)(x&0x7fffffff);
}
int mc_exec_no=0;

// allocator: a recycled block carries no history
void* malloc(size_t n) { void* p=__libc_malloc(n); if(managed()&&G.multi&&p){RT rt; forget(p,malloc_usable_size(p));} return p; }
void* calloc(size_t a,size_t b) { void* p=__libc_calloc(a,b); if(managed()&&G.multi&&p){RT rt; forget(p,malloc_usable_size(p));} return p; }
void* realloc(void* q,size_t n) { void* p=__libc_realloc(q,n); if(managed()&&G.multi&&p){RT rt; forget(p,malloc_usable_size(p));} return p; }
void free(void* p) { if(p&&managed()&&G.multi){RT rt; forget(p,malloc_usable_size(p));} __libc_free(p); }

void* __wrap_memcpy(void* d,const void* s,size_t n)
{ void* pc=__builtin_return_address(0); access((void*)s,n,false,pc); access(d,n,true,pc); return __real_memcpy(d,s,n); }
void* __wrap_memmove(void* d,const void* s,size_t n)
{ void* pc=__builtin_return_address(0); access((void*)s,n,false,pc); access(d,n,true,pc); return __real_memmove(d,s,n); }
void* __wrap_memset(void* d,int c,size_t n)
{ access(d,n,true,__builtin_return_address(0)); return __real_memset(d,c,n); }

#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void* p) { access(p,n,false,PC); } \
void __tsan_write##n(void* p) { access(p,n,true,PC); } \
void __tsan_unaligned_read##n(void* p) { access(p,n,false,PC); } \
void __tsan_unaligned_write##n(void* p) { access(p,n,true,PC); } \
void __tsan_volatile_read##n(void* p) { access(p,n,false,PC); } \
void __tsan_volatile_write##n(void* p) { access(p,n,true,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p,size_t n) { access(p,n,false,PC); }
void __tsan_write_range(void* p,size_t n) { access(p,n,true,PC); }
void __tsan_vptr_update(void** p,void* v) { if(*p!=v) access(p,8,true,PC); }
void __tsan_vptr_read(void** p) { access(p,8,false,PC); }

static void at_acq(void* a,int mo) { if(mo!=0 && mo!=3) join_clock(G.thr[my_tid].C,G.atom[a].C); }
static void at_rel(void* a,int mo,bool rmw)
{
    Mtx& x=G.atom[a];
    if(mo==3||mo==4||mo==5) { if(rmw) join_clock(x.C,G.thr[my_tid].C); else for(int i=0;i<MAXT;i++) x.C[i]=G.thr[my_tid].C[i]; tick(); }
    else if(!rmw) for(int i=0;i<MAXT;i++) x.C[i]=0;
}
#define ATOMIC_BODY(mo_acq,rmw) if(managed()&&!in_rt&&G.multi) { RT rt; point(K_ATOMIC,(void*)a); }
#define AT(bits,T) \
T __tsan_atomic##bits##_load(const volatile T* a,int mo) { ATOMIC_BODY(0,0) T v=*a; if(managed()&&!in_rt){RT rt; at_acq((void*)a,mo);} return v; } \
void __tsan_atomic##bits##_store(volatile T* a,T v,int mo) { ATOMIC_BODY(0,0) *a=v; if(managed()&&!in_rt){RT rt; at_rel((void*)a,mo,false);} } \
T __tsan_atomic##bits##_exchange(volatile T* a,T v,int mo) { ATOMIC_BODY(0,0) T o=*a; *a=v; if(managed()&&!in_rt){RT rt; at_acq((void*)a,mo); at_rel((void*)a,mo,true);} return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a,T v,int mo) { ATOMIC_BODY(0,0) T o=*a; *a=o+v; if(managed()&&!in_rt){RT rt; at_acq((void*)a,mo); at_rel((void*)a,mo,true);} return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a,T v,int mo) { ATOMIC_BODY(0,0) T o=*a; *a=o-v; if(managed()&&!in_rt){RT rt; at_acq((void*)a,mo); at_rel((void*)a,mo,true);} return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a,T v,int mo) { ATOMIC_BODY(0,0) T o=*a; *a=o&v; if(managed()&&!in_rt){RT rt; at_acq((void*)a,mo); at_rel((void*)a,mo,true);} return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a,T v,int mo) { ATOMIC_BODY(0,0) T o=*a; *a=o|v; if(managed()&&!in_rt){RT rt; at_acq((void*)a,mo); at_rel((void*)a,mo,true);} return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a,T v,int mo) { ATOMIC_BODY(0,0) T o=*a; *a=o^v; if(managed()&&!in_rt){RT rt; at_acq((void*)a,mo); at_rel((void*)a,mo,true);} return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a,T* e,T v,int mo,int) { ATOMIC_BODY(0,0) T o=*a; int ok=o==*e; if(ok) *a=v; else *e=o; if(managed()&&!in_rt){RT rt; at_acq((void*)a,mo); if(ok) at_rel((void*)a,mo,true);} return ok; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a,T* e,T v,int mo,int f) { return __tsan_atomic##bits##_compare_exchange_strong(a,e,v,mo,f); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a,T e,T v,int mo,int f) { __tsan_atomic##bits##_compare_exchange_strong(a,&e,v,mo,f); return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

namespace mc
{
Ignore::Ignore() { in_rt++; }
Ignore::~Ignore() { in_rt--; }
int self() { return my_tid; }

static Outcome run(const std::vector<int>& prefix, const std::function<void()>& body)
{
    mc_exec_no++;
    stamp++; used=0;
    if(!tab)
    {
        tab=(Cell*)__libc_calloc(SN,sizeof(Cell));
        used_idx=(uint32_t*)__libc_calloc(SN,sizeof(uint32_t));
        Dl_info di; dladdr((void*)&vt::finish,&di); code_base=(char*)di.dli_fbase;
    }
    G.mtx.clear(); G.atom.clear(); G.ord.clear(); G.trace.clear(); G.readable.clear(); G.raceset.clear();
    G.prefix=prefix; G.cost=G.wakes=G.forced=G.streak=0; G.diverged=false;
    G.out=Outcome();
    G.nthr=1; G.cur=0; G.multi=false;
    Thr& T=G.thr[0];
    T.used=true; T.finished=false; T.joined=false; T.pend=K_NONE; T.nops=0; T.obj=NULL;
    for(int i=0;i<MAXT;i++) T.C[i]=0;
    T.C[0]=1;
    sem_init(&T.sem,0,0);
    my_tid=0;
    G.active=true;
    body();
    G.active=false;
    my_tid=-1;
    for(int i=1;i<G.nthr;i++)
        if(!G.thr[i].joined) G.out.races.push_back("thread never joined");
    Outcome o=G.out;
    for(auto& c:G.trace) o.choices.push_back(c.chosen);
    o.preemptions=G.cost;
    int prev=0;
    for(auto& r:G.readable) { if(r.first!=prev) o.trace+=" | t"+std::to_string(r.first); prev=r.first; o.trace+=std::string(" ")+KN[r.second]; }
    G.stats.executions++;
    G.stats.points+=(long)G.trace.size();
    if((long)G.trace.size()>G.stats.max_points) G.stats.max_points=(long)G.trace.size();
    vt::beat();
    return o;
}

Stats explore(const Config& c, const std::function<void()>& body,
              const std::function<bool(const Outcome&)>& check)
{
    G.cfg=c; G.stats=Stats(); G.states.clear();
    // only one thread runs at a time: hand-overs are cheapest on one core
    static bool pinned=false;
    if(!pinned)
    {
        pinned=true;
        cpu_set_t all,one; CPU_ZERO(&one);
        if(sched_getaffinity(0,sizeof all,&all)==0)
        {
            int n=CPU_COUNT(&all), want=n>0?vt::st().shard%n:0;
            for(int i=0;i<CPU_SETSIZE;i++)
                if(CPU_ISSET(i,&all) && want--==0) { CPU_SET(i,&one); sched_setaffinity(0,sizeof one,&one); break; }
        }
    }
    // an exploration split in parts: the free choices near the root are followed by every part
    // (and checked by one of them), what lies below them is divided
    struct Item { std::vector<int> prefix; uint64_t sig; size_t at; int shared; bool mine; };
    std::vector<Item> stack;
    stack.push_back(Item{std::vector<int>(),0,0,c.nsub>1?3:1,c.sub==0});
    long child=0;
    while(!stack.empty())
    {
        Item it=stack.back(); stack.pop_back();
        if(G.stats.executions>=c.max_exec) { G.stats.capped=true; break; }
        Outcome o=run(it.prefix,body);
        std::vector<Choice> tr=G.trace;
        if(G.diverged || (it.sig && (tr.size()<=it.at || tr[it.at].sig!=it.sig))) { G.stats.diverged++; continue; }
        if(it.mine) { if(!check(o)) break; }
        else G.stats.executions--;
        int cost=0;
        std::vector<Item> kids;
        for(size_t i=0;i<tr.size();i++)
        {
            if(i>=it.prefix.size())
                for(int alt=1;alt<tr[i].n;alt++)
                {
                    if(cost+tr[i].cost[alt]>c.bound) continue;
                    int sub=c.sub, shared=0;
                    if(it.shared)
                    {
                        sub=(int)(child++%c.nsub);
                        if(c.nsub>1 && tr[i].cost[alt]==0) shared=it.shared-1;
                    }
                    if(sub!=c.sub && !shared) continue;
                    Item k; k.shared=shared; k.mine=sub==c.sub; k.prefix.assign(o.choices.begin(),o.choices.begin()+i); k.prefix.push_back(alt);
                    k.sig=tr[i].sig; k.at=i;
                    kids.push_back(k);
                }
            cost+=tr[i].cost[tr[i].chosen];
        }
        for(size_t i=kids.size();i-->0;) stack.push_back(kids[i]);
    }
    G.stats.states=(long)G.states.size();
    return G.stats;
}
}
