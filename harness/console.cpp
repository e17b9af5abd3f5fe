// What the user is told: messages on their streams, the progress of a rendering
// for every way the display can fall between the tiles, and how long it took.
#include "vt.hpp"
#include "renderer.hpp"
#include "samplers/filter_box.hpp"
#include "primitives/sphere.hpp"
#include "utility/console.hpp"
#include "utility/utility.hpp"
#include <atomic>
#include <cmath>
#include <fcntl.h>
#include <iostream>
#include <sched.h>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

// --- the clock and the pauses of the display are driven by the rendering
static std::atomic<bool> driven(false),over(false); static std::atomic<int> shown(0),granted(0); static std::atomic<long> now_(0),mono_(0);
static int pause_() { if(driven) { shown++; while(granted<shown&&!over) sched_yield(); return 0; } struct timespec t={0,200000}; return (int)syscall(SYS_nanosleep,&t,NULL); }
extern "C" int nanosleep(const struct timespec*,struct timespec*) { return pause_(); }
extern "C" int clock_nanosleep(clockid_t,int,const struct timespec*,struct timespec*) { return pause_(); }
extern "C" time_t time(time_t* t) { time_t r=1000000+now_; if(t) *t=r; return r; }
extern "C" int clock_gettime(clockid_t c,struct timespec* t) { int r=(int)syscall(SYS_clock_gettime,c,t); if(driven) { if(c==CLOCK_MONOTONIC) { t->tv_sec=5000+mono_; t->tv_nsec=0; } else if(c==CLOCK_REALTIME) { t->tv_sec=1000000+now_; t->tv_nsec=0; } } return r; }

static std::string slurp(const char* n) { std::string s; FILE* f=fopen(n,"rb"); if(!f) return s; char b[4096]; size_t k; while((k=fread(b,1,sizeof b,f))>0) s.append(b,k); fclose(f); return s; }
struct Said { std::string out,err; int status; };
template<typename F> static Said say(F f)
{
    fflush(vt::out()); int pid=fork(); if(pid<0) abort();
    if(pid==0)
    {
        Console.instance(); fflush(NULL); std::cout.flush();
        int a=open("said.out",O_CREAT|O_TRUNC|O_WRONLY,0600),b=open("said.err",O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(a,1); dup2(b,2); close(a); close(b);
        f(); std::cout.flush(); fflush(NULL); _exit(7);
    }
    Said s; s.status=-1; int st=0; for(int i=0;;i++) { int r=waitpid(pid,&st,WNOHANG); if(r==pid) break; struct timespec t={0,50000}; syscall(SYS_nanosleep,&t,NULL); if(i%200==0) vt::beat(); if(i>600000) { kill(pid,SIGKILL); waitpid(pid,&st,0); s.status=-99; break; } }
    if(s.status!=-99) s.status=WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st); s.out=slurp("said.out"); s.err=slurp("said.err"); return s;
}
static int times(const std::string& s,const std::string& w) { int n=0; for(size_t p=s.find(w);p!=std::string::npos;p=s.find(w,p+w.size())) n++; return n; }
// the displays in a text: blocks, percents, seconds left
struct Show { int full,all,percent; double eta; bool timed; };
static std::vector<Show> shows(const std::string& s)
{
    std::vector<Show> r; for(size_t p=0;(p=s.find('(',p))!=std::string::npos;p++)
    {
        size_t e=s.find(')',p); if(e==std::string::npos) break; Show w; w.full=w.all=0; bool ok=true; bool tail=false; for(size_t i=p+1;i<e;i++) { if(s[i]=='#') { if(tail) ok=false; w.full++; } else if(s[i]=='-') tail=true; else ok=false; w.all++; } if(!ok||!w.all) continue;
        size_t q=s.find('%',e); if(q==std::string::npos) continue; size_t b=q; while(b>e&&isdigit(s[b-1])) b--; w.percent=b<q?atoi(s.c_str()+b):-1; size_t n=s.find('(',e),t=s.find("ETA:",q); w.timed=t!=std::string::npos&&(n==std::string::npos||t<n); w.eta=w.timed?atof(s.c_str()+t+4):0; r.push_back(w);
    }
    return r;
}
static bool part_ok(const Show& w,double done,double hi) // done..hi: the tile at work may count or not
{
    int lo=(int)floor(done*w.all-1e-4),h=(int)floor(hi*w.all+1e-4),pl=(int)floor(done*100-1e-3),ph=(int)floor(hi*100+1e-3); return w.full>=lo&&w.full<=h&&w.percent>=pl&&w.percent<=ph;
}
struct Cam : public Camera
{
    Cam(const Point3* a,const Point3* b,const Vec3* u):Camera(a,b,u,1,1) {}
    void one(const Sample* s,Point3* o,Vec3* d) const { *o=Point3(s->posx,s->posy,-10.f); *d=Vec3(0,0,1); }
    void create_ray(const Sample* s,Ray* r) const { one(s,&r->origin,&r->direction); }
    void create_ray(const Sample* s,Ray* r,Ray* rx,Ray* ry) const { one(s,&r->origin,&r->direction); *rx=*r; *ry=*r; }
protected:
    void create_single_ray(const Sample* s,Point3* o,Vec3* d) const { one(s,o,d); }
};
// waits for the display; false when it does not pause where this file can see it
static bool until(int n)
{
    struct timespec a,b; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&a);
    while(shown<n) { sched_yield(); syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&b); if(b.tv_sec-a.tv_sec>5) return false; }
    return true;
}
// at the first sample of a tile lets the display wake when its turn has come
struct Drive : public LightIntegrator
{
    int tiles,seconds; unsigned mask; mutable int calls;
    Drive(int n,int s,unsigned m):tiles(n),seconds(s),mask(m),calls(0) {}
    Spectrum radiance(const Scene*,const HitPoint*,const Ray*,Sampler*,OcclusionTester*) const
    {
        if(seconds<0) { if(calls%1024==0) { now_=100*(calls/1024+1); struct timespec t={1,500000000}; syscall(SYS_nanosleep,&t,NULL); } calls++; return Spectrum(0.5f); }
        if(calls%1024==0)
        {
            int k=calls/1024; if(!over&&!until(1)) { over=true; std::cout<<"<blind>"<<std::flush; } now_=(long)seconds*(k+1); mono_=(long)seconds*(k+1);
            if(!over&&(mask>>k&1)) { int s=shown; granted++; if(!until(s+1)) { over=true; std::cout<<"<blind>"<<std::flush; } std::cout<<"<"<<k<<">"<<std::flush; }
        }
        if(++calls==tiles*1024) over=true;
        return Spectrum(0.5f);
    }
};
static Said draw(int nx,int ny,int seconds,unsigned mask)
{
    return say([&] {
        driven=seconds>=0; Renderer r(32*nx,32*ny,1,"shown.ppm",1); Point3 p(0,0,-10),q(0,0,0); Vec3 u(0,1,0); Drive* d=new Drive(nx*ny,seconds,mask); r.inherit_camera(new Cam(&p,&q,&u)); r.set_sampler(SPECTRE_SAMPLER_RANDOM); r.inherit_filter(new FilterBox()); r.inherit_integrator(d);
        Scene sc; Sphere* s=new Sphere(); sc.inherit_shape(s); Matrix4 m; m.set_scale(Vec3(5000,5000,5000)); sc.inherit_asset(new Asset(s,m,1)); std::cout<<"<start>"<<std::flush; int st=r.render(&sc); std::cout<<"<end "<<st<<">"<<std::flush; });
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough(); char dir[]="/tmp/vt_console_XXXXXX"; if(!mkdtemp(dir)||chdir(dir)) return 1;
    // 1. messages: once, complete, on the stream of their severity; only the last kind ends the program
    for(int kind=0;kind<6;kind++) for(size_t len:{(size_t)0,(size_t)1,(size_t)7,(size_t)255,(size_t)256,(size_t)1023,(size_t)1024,(size_t)4096,(size_t)70000}) for(int form=0;form<4;form++) if(vt::begin("message of kind %d, %zu bytes, form %d",kind,len,form))
    {
        std::string text; for(size_t i=0;i<len;i++) text+=(char)(form==3&&i%5==4?"%s%d\\"[i%5]:'a'+(i*7+i/26)%26); std::string mark="["+text+"]"; vt::count("evaluations"); std::string want;
        Said s=say([&] {
            if(kind==0) Console.log(mark.c_str(),NULL); else if(kind==1) Console.log("unseen",mark.c_str());
            else { const char* f=form==1?"%s:%d":form==2?"%.3f %s":"%s"; auto go=[&](int k,const char* m) { if(k==2) form==1?Console.notice(f,m,-42):form==2?Console.notice(f,1.5,m):Console.notice(f,m); if(k==3) form==1?Console.warning(f,m,-42):form==2?Console.warning(f,1.5,m):Console.warning(f,m); if(k==4) form==1?Console.severe(f,m,-42):form==2?Console.severe(f,1.5,m):Console.severe(f,m); if(k==5) form==1?Console.critical(f,m,-42):form==2?Console.critical(f,1.5,m):Console.critical(f,m); }; go(kind,mark.c_str()); }
            Console.log("after",NULL); });
        want=kind<2||form==0||form==3?mark:form==1?mark+":-42":"1.500 "+mark; bool err=kind>=3; const std::string& here=err?s.err:s.out; const std::string& there=err?s.out:s.err;
        if(times(here,want)!=1) vt::fail("message lost, repeated or damaged","kind %d, %zu bytes",kind,len); if(len&&there.find(mark)!=std::string::npos) vt::fail("message on the wrong stream","kind %d",kind);
        if(kind==1&&s.out.find("unseen")!=std::string::npos) vt::fail("both texts of a message are shown","%zu bytes",len);
        size_t at=here.find(want); if(at!=std::string::npos) { std::string rest=here.substr(at+want.size()); if(rest.empty()||rest[0]!='\n') vt::fail("message does not end its line","kind %d",kind); if(kind>=2) { size_t b=here.rfind('\n',at); std::string head=here.substr(b==std::string::npos?0:b+1,at-(b==std::string::npos?0:b+1)); static const char* W[]={"NOTICE","WARNING","ERROR","CRITICAL"}; for(int w=0;w<4;w++) if((head.find(W[w])!=std::string::npos)!=(w==kind-2)) vt::fail("message without its severity","kind %d: %s",kind,head.c_str()); } }
        bool went=times(s.out,"after")==1; if(kind==5?went||s.status==0||s.status==7||s.status<0:!went||s.status!=7) vt::fail(kind==5?"the program goes on after a critical message":"a message ends the program","kind %d: status %d",kind,s.status); vt::seen(vt::mix(kind*10+form,len));
    }
    // 2. orders of messages: each stream keeps them in order
    for(int code=0;code<256;code++) if(vt::begin("four messages %d",code)) { vt::count("evaluations"); Said s=say([&] { for(int i=0;i<4;i++) { int k=code>>(2*i)&3; if(k==0) Console.log("m",("<"+std::to_string(i)+">").c_str()); if(k==1) Console.notice("<%d>",i); if(k==2) Console.warning("<%d>",i); if(k==3) Console.severe("<%d>",i); } }); size_t o=0,e=0; for(int i=0;i<4;i++) { bool er=(code>>(2*i)&3)>=2; size_t& p=er?e:o; p=(er?s.err:s.out).find("<"+std::to_string(i)+">",p); if(p==std::string::npos) { vt::fail("messages lost or out of order","%d",code); break; } } vt::seen(vt::mix(77,code)); }
    // 3. the bar itself
    for(int n=1;n<=(T?400:120);n++) if(vt::begin("bar of %d steps",n))
    {
        Said s=say([&] { for(int k=0;k<=n;k++) Console.progress_bar((float)k/n,(float)(k*37%1000)); Console.progress_bar_done(); std::cout.flush(); }); vt::count("evaluations",n+2); auto v=shows(s.out); if((int)v.size()!=n+2) { vt::fail("progress display lost or repeated","%d steps: %zu displays",n,v.size()); continue; }
        for(int k=0;k<=n;k++) { if(!part_ok(v[k],(double)k/n,(double)k/n)||v[k].all<10) vt::fail("wrong progress displayed","%d of %d: %d of %d blocks, %d%%",k,n,v[k].full,v[k].all,v[k].percent); if(!v[k].timed||fabs(v[k].eta-k*37%1000)>0.01) vt::fail("wrong time left displayed","%g instead of %d",v[k].eta,k*37%1000); vt::seen(vt::mix(v[k].full,v[k].percent)); }
        if(v[n+1].full!=v[n+1].all||v[n+1].percent!=100) vt::fail("the end is not displayed as 100 percent","%d%%",v[n+1].percent);
    }
    // 4. a rendering: the display wakes within every subset of the tiles
    bool blind=false; int dims[][2]={{1,1},{2,1},{1,2},{3,1},{2,2},{5,1},{3,2},{7,1},{4,2}}; int ND=T?9:7;
    for(int d=0;d<ND;d++) for(int sec:{0,1,10,3600}) { int nx=dims[d][0],ny=dims[d][1],n=nx*ny; for(unsigned mask=0;mask<(1u<<n);mask++) if(vt::begin("display within the tiles %x of %dx%d, %d seconds each",mask,nx,ny,sec))
    {
        if(blind&&mask) continue; Said s=draw(nx,ny,sec,mask); vt::count("evaluations"); if(s.out.find("<blind>")!=std::string::npos) { blind=true; if(s.status==7) continue; } if(s.status!=7||s.out.find("<end 0>")==std::string::npos) { vt::fail("the rendering does not end with its display","%dx%d, display within %x: status %d",nx,ny,mask,s.status); continue; }
        size_t from=s.out.find("<start>"); double last=-1; for(int k=0;k<n;k++) if(mask>>k&1)
        {
            std::string m="<"+std::to_string(k)+">"; size_t to=s.out.find(m); if(to==std::string::npos||to<from) { vt::fail("progress display lost or repeated","tile %d",k); break; } auto v=shows(s.out.substr(from,to-from)); from=to; double el=(double)sec*(k+1),lo=floor(el/(k+1)*(n-1-k)),hi=el/std::max(k,1)*(n-k);
            if(v.empty()&&lo>=1) vt::fail("progress is not displayed","tile %d of %d, %g seconds left",k,n,lo);
            for(auto& w:v) { if(!part_ok(w,(double)k/n,(double)(k+1)/n)) vt::fail("wrong progress displayed","in tile %d of %d: %d of %d blocks, %d%%",k,n,w.full,w.all,w.percent); if(w.timed&&(w.eta<lo-1||w.eta>hi+1)) vt::fail("wrong time left displayed","in tile %d of %d after %g seconds: %g",k,n,el,w.eta); if(w.percent<last) vt::fail("progress goes backwards","%d%% after %g%%",w.percent,last); last=w.percent; }
        }
        size_t e=s.out.find("<end"); auto v=shows(s.out.substr(from,e-from)); if(v.empty()||v.back().percent!=100||v.back().full!=v.back().all) vt::fail("the end is not displayed as 100 percent","%dx%d",nx,ny); vt::seen(vt::mix(vt::mix(n,mask),sec));
    } }
    // 4b. a display that pauses in another way: real time, the numbers are not compared
    if(blind&&vt::begin("display in real time")) { Said s=draw(4,1,-1,0); vt::count("evaluations"); size_t a=s.out.find("<start>"),e=s.out.find("<end 0>"); if(s.status!=7||e==std::string::npos) vt::fail("the rendering does not end with its display","status %d",s.status); else if(shows(s.out.substr(a,e-a)).size()<2) vt::fail("progress is not displayed","%zu displays in six seconds",shows(s.out.substr(a,e-a)).size()); }
    // 5. how long it took
    for(long t:{0L,1L,2L,59L,60L,61L,119L,3599L,3600L,3601L,7325L,86399L,86400L,90061L,8639999L,8640000L,20000000L}) if(vt::begin("rendering of %ld seconds",t))
    {
        Said s=draw(1,1,(int)t,1); vt::count("evaluations"); char w[64]; format_seconds((unsigned)t,w); std::string x=w; while(!x.empty()&&x.back()==' ') x.pop_back(); if(s.status!=7||s.out.find("<end 0>")==std::string::npos) vt::fail("the rendering does not end with its display","%ld seconds: status %d",t,s.status); else if(s.out.find(x)==std::string::npos) vt::fail("wrong duration displayed","%ld seconds: %s not found",t,x.c_str()); vt::seen(vt::mix(99,t));
    }
    unlink("said.out"); unlink("said.err"); unlink("shown.ppm"); if(chdir("/")) return 1; rmdir(dir);
    return vt::finish();
}
