// Small support library of the harnesses: case numbering, sharding, reporting.
//
// A harness enumerates its cases in a fixed order.  vt::begin(...) numbers a
// case and tells whether this process has to run it; the description is kept in
// a memory mapped file, so the runner knows which case was running when the
// process crashed, exited or hung.
#ifndef VT_HPP
#define VT_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vt
{
struct Shared
{
    volatile int64_t index;   // current case
    volatile int64_t beat;    // progress counter
    volatile int64_t done;
    char desc[2000];
    char detail[2000];
};
inline Shared*& sh() { static Shared* s = NULL; return s; }
inline FILE*& out() { static FILE* f = NULL; return f; }
static const int64_t MAX_CLAIMS = 1<<16;
struct State
{
    int shard = 0, nshards = 1;
    int64_t only = -1, from = 0, index = -1;
    bool thorough = false;
    bool replay = false;
    std::map<std::string,int64_t> counters;
    std::map<std::string,int> perkey;
    int nviol = 0, nsamples = 0;
    std::unordered_set<uint64_t> distinct;
    int64_t max_viol = 200;
    volatile unsigned char* claim = NULL; // cases already taken by one of the processes
    std::string prop;
};
inline State& st() { static State s; return s; }

inline std::string esc(const char* s)
{
    std::string r;
    for(;*s;s++)
    {
        unsigned char c = (unsigned char)*s;
        if(c=='"'||c=='\\') { r += '\\'; r += (char)c; }
        else if(c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r += b; }
        else r += (char)c;
    }
    return r;
}
inline void init(int argc, char** argv)
{
    State& s = st();
    const char* resf = NULL; const char* shf = NULL; const char* clf = NULL;
    for(int i=1;i<argc;i++)
    {
        std::string a = argv[i];
        if(a=="--shard" && i+1<argc) s.shard = atoi(argv[++i]);
        else if(a=="--nshards" && i+1<argc) s.nshards = atoi(argv[++i]);
        else if(a=="--only" && i+1<argc) { s.only = atoll(argv[++i]); s.replay = true; }
        else if(a=="--from" && i+1<argc) s.from = atoll(argv[++i]);
        else if(a=="--thorough") s.thorough = true;
        else if(a=="--result" && i+1<argc) resf = argv[++i];
        else if(a=="--claim" && i+1<argc) clf = argv[++i];
        else if(a=="--shared" && i+1<argc) shf = argv[++i];
        else if(a=="--prop" && i+1<argc) s.prop = argv[++i];
    }
    if(resf) out() = fopen(resf,"a");
    if(!out()) { int fd = dup(1); out() = fdopen(fd,"w"); }
    if(shf)
    {
        int fd = open(shf,O_RDWR|O_CREAT,0600);
        if(ftruncate(fd,sizeof(Shared))!=0) abort();
        sh() = (Shared*)mmap(NULL,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
        close(fd);
    }
    else sh() = (Shared*)calloc(1,sizeof(Shared));
    if(clf)
    {
        int fd = open(clf,O_RDWR|O_CREAT,0600);
        if(ftruncate(fd,MAX_CLAIMS)!=0) abort();
        s.claim = (unsigned char*)mmap(NULL,MAX_CLAIMS,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
        close(fd);
    }
    sh()->done = 0;
    sh()->detail[0] = 0;
}
inline bool prop(const char* p) { return st().prop.empty() || st().prop==p; }
inline bool thorough() { return st().thorough; }
// number the next case; true if this process runs it
inline bool begin(const char* fmt, ...) __attribute__((format(printf,1,2)));
inline bool begin(const char* fmt, ...)
{
    State& s = st();
    s.index++;
    if(s.only>=0) { if(s.index!=s.only) return false; }
    else if(s.index<s.from) return false;
    else if(s.claim && s.index<MAX_CLAIMS) { if(__sync_lock_test_and_set(&s.claim[s.index],1)) return false; } // whoever comes first
    else if(s.index%s.nshards!=s.shard) return false;
    va_list ap; va_start(ap,fmt);
    vsnprintf(sh()->desc,sizeof(sh()->desc),fmt,ap);
    va_end(ap);
    sh()->detail[0] = 0;
    sh()->index = s.index;
    sh()->beat = sh()->beat+1;
    s.counters["cases"]++;
    return true;
}
// files this process holds open: what is opened has to be closed again
inline int open_files() { int n=0; for(int i=0;i<1024;i++) if(fcntl(i,F_GETFD)!=-1) n++; return n; }
inline void beat() { sh()->beat = sh()->beat+1; }
inline void detail(const char* fmt, ...) __attribute__((format(printf,1,2)));
inline void detail(const char* fmt, ...)
{
    va_list ap; va_start(ap,fmt);
    vsnprintf(sh()->detail,sizeof(sh()->detail),fmt,ap);
    va_end(ap);
}
inline void count(const char* k, int64_t n = 1) { st().counters[k] += n; }
inline void seen(uint64_t h) { if(st().distinct.size()<2000000) st().distinct.insert(h); }
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); h *= 0xff51afd7ed558ccdULL; h ^= h>>33;
    return h;
}
inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char* c = (const unsigned char*)p;
    for(size_t i=0;i<n;i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline void sample(const char* fmt, ...) __attribute__((format(printf,1,2)));
inline void sample(const char* fmt, ...)
{
    if(st().nsamples>=3) return;
    st().nsamples++;
    char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    fprintf(out(),"{\"t\":\"sample\",\"v\":\"%s\"}\n",esc(b).c_str());
    fflush(out());
}
// report a violation.  key: short stable name of what fails
inline void fail(const char* key, const char* fmt, ...) __attribute__((format(printf,2,3)));
inline void fail(const char* key, const char* fmt, ...)
{
    State& s = st();
    s.nviol++;
    if(s.perkey[key]++>=4 || (int64_t)s.perkey.size()>s.max_viol) return;
    char b[3000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    fprintf(out(),"{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\",\"index\":%lld,\"case\":\"%s\"}\n",
            esc(key).c_str(),esc(b).c_str(),(long long)s.index,esc(sh()->desc).c_str());
    fflush(out());
}
inline int finish()
{
    State& s = st();
    for(auto& c:s.counters)
        fprintf(out(),"{\"t\":\"count\",\"k\":\"%s\",\"v\":%lld}\n",esc(c.first.c_str()).c_str(),(long long)c.second);
    fprintf(out(),"{\"t\":\"count\",\"k\":\"distinct\",\"v\":%lld}\n",(long long)s.distinct.size());
    fprintf(out(),"{\"t\":\"done\",\"viol\":%d}\n",s.nviol);
    fflush(out());
    sh()->done = 1;
    fflush(stdout);
    _exit(0);
}
}
#endif
