// what a configuration file asks for, observed at the interfaces the parser feeds
#ifndef CFG_UTIL_HPP
#define CFG_UTIL_HPP
#include "vt.hpp"
#include "parsers/config_driver.hpp"
#include <functional>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include <cmath>
#ifdef CFG_WRAP
// --- the renderer as the parser sees it: calls are recorded and passed on
struct Seen { int w=-1,h=-1,spp=-1,threads=-99,sampler=-1; std::string out; const Camera* cam=NULL; const Filter* fil=NULL; const LightIntegrator* in=NULL; int made=0; };
static Seen seen_;
extern "C" {
void __real__ZN8RendererC1EiiiPKci(Renderer*,int,int,int,const char*,int);
void __wrap__ZN8RendererC1EiiiPKci(Renderer* r,int w,int h,int spp,const char* out,int thr)
{ seen_.w=w; seen_.h=h; seen_.spp=spp; seen_.out=out; seen_.threads=thr; seen_.made++; __real__ZN8RendererC1EiiiPKci(r,w,h,spp,out,thr); }
void __real__ZN8Renderer11set_samplerEi(Renderer*,int);
void __wrap__ZN8Renderer11set_samplerEi(Renderer* r,int s) { seen_.sampler=s; __real__ZN8Renderer11set_samplerEi(r,s); }
void __real__ZN8Renderer14inherit_cameraEP6Camera(Renderer*,Camera*);
void __wrap__ZN8Renderer14inherit_cameraEP6Camera(Renderer* r,Camera* c) { seen_.cam=c; __real__ZN8Renderer14inherit_cameraEP6Camera(r,c); }
void __real__ZN8Renderer14inherit_filterEP6Filter(Renderer*,Filter*);
void __wrap__ZN8Renderer14inherit_filterEP6Filter(Renderer* r,Filter* f) { seen_.fil=f; __real__ZN8Renderer14inherit_filterEP6Filter(r,f); }
void __real__ZN8Renderer18inherit_integratorEP15LightIntegrator(Renderer*,LightIntegrator*);
void __wrap__ZN8Renderer18inherit_integratorEP15LightIntegrator(Renderer* r,LightIntegrator* i) { seen_.in=i; __real__ZN8Renderer18inherit_integratorEP15LightIntegrator(r,i); }
}
#endif
typedef std::vector<std::pair<std::string,std::string>> Problems; // key, message
// run in a child: whatever the parser does to global state or to the process ends there
struct ChildEnd { int status; std::string console; Problems p; };
inline void put(const std::string& name,const std::string& text) { FILE* f=fopen(name.c_str(),"wb"); if(!f) abort(); fwrite(text.data(),1,text.size(),f); fclose(f); }
inline std::string get(const std::string& name) { std::string s; FILE* f=fopen(name.c_str(),"rb"); if(!f) return s; int c; while((c=fgetc(f))!=EOF) s+=(char)c; fclose(f); return s; }
inline ChildEnd in_child(const std::function<void(Problems&)>& f)
{
    fflush(vt::out()); fflush(stdout); int pp[2]; if(pipe(pp)) abort();
    unlink("console.log");
    int pid=fork();
    if(pid==0)
    {
        close(pp[0]); alarm(20);
        if(!freopen("console.log","w",stdout)) _exit(99); dup2(1,2);
        Problems p; f(p); fflush(stdout); std::string s;
        for(auto& q:p) { s+=q.first; s+='\1'; s+=q.second; s+='\2'; }
        size_t o=0; while(o<s.size()) { ssize_t k=write(pp[1],s.data()+o,s.size()-o); if(k<=0) break; o+=k; }
        _exit(42);
    }
    close(pp[1]); std::string s; char b[4096]; ssize_t k; while((k=read(pp[0],b,sizeof b))>0) s.append(b,k); close(pp[0]);
    int st=0; waitpid(pid,&st,0); ChildEnd e; e.status=WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st); e.console=get("console.log");
    size_t at=0; while(at<s.size()) { size_t m=s.find('\1',at),n=s.find('\2',at); if(m==std::string::npos||n==std::string::npos) break; e.p.push_back({s.substr(at,m-at),s.substr(m+1,n-m-1)}); at=n+1; }
    vt::count("evaluations"); vt::beat();
    return e;
}
// statuses: 42 finished, 1 the program ended with an error message, 77 memory error
inline bool judge_end(const ChildEnd& e,const std::string& what,bool may_fail)
{
    for(auto& q:e.p) vt::fail(q.first.c_str(),"%s: %s",what.c_str(),q.second.c_str());
    if(e.status==42) return true;
    if(e.status==1) { if(!may_fail) vt::fail("valid file rejected","%s: %s",what.c_str(),e.console.substr(e.console.size()>300?e.console.size()-300:0).c_str()); return false; }
    if(e.status==-14) { vt::fail("parsing does not end","%s",what.c_str()); return false; }
    std::string key=e.status==77?"memory error while parsing":"crash while parsing"; vt::fail(key.c_str(),"%s: status %d",what.c_str(),e.status);
    return false;
}
inline bool same_ray(const Ray& a,const Ray& b) { auto f=[](float x,float y) { return std::fabs(x-y)<=1e-4f*(1+std::fabs(x)); };
    return f(a.origin.x,b.origin.x)&&f(a.origin.y,b.origin.y)&&f(a.origin.z,b.origin.z)&&f(a.direction.x,b.direction.x)&&f(a.direction.y,b.direction.y)&&f(a.direction.z,b.direction.z); }
#endif
