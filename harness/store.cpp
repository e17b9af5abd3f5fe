// The exit status of a whole rendering against what reached the disk: every
// amount of space, missing and blocked output paths.
#include "vt.hpp"
#include "img_util.hpp"
#include "renderer.hpp"
#include "cameras/camera.hpp"
#include "primitives/sphere.hpp"
#include "samplers/filter_box.hpp"
#include <memory>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <signal.h>
#include <time.h>

// the progress display waits for a second before it ends: shorten that
extern "C" int nanosleep(const struct timespec*,struct timespec*) { struct timespec t={0,200000}; return (int)syscall(SYS_nanosleep,&t,NULL); }
extern "C" int clock_nanosleep(clockid_t,int,const struct timespec*,struct timespec*) { struct timespec t={0,200000}; return (int)syscall(SYS_nanosleep,&t,NULL); }

// every rendering draws the same random numbers
extern "C" time_t time(time_t* t) { if(t) *t=1000000; return 1000000; }

struct Cam : public Camera
{
    Cam(const Point3* a,const Point3* b,const Vec3* u):Camera(a,b,u,1,1) {}
    void one(const Sample* s,Point3* o,Vec3* d) const { *o=Point3(s->posx,s->posy,-10.f); *d=Vec3(0,0,1); }
    void create_ray(const Sample* s,Ray* r) const { one(s,&r->origin,&r->direction); }
    void create_ray(const Sample* s,Ray* r,Ray* rx,Ray* ry) const { one(s,&r->origin,&r->direction); *rx=*r; *ry=*r; }
protected:
    void create_single_ray(const Sample* s,Point3* o,Vec3* d) const { one(s,o,d); }
};
struct Flat : public LightIntegrator
{
    Spectrum radiance(const Scene*,const HitPoint*,const Ray* r,Sampler*,OcclusionTester*) const { return Spectrum((((int)r->origin.x*7+(int)r->origin.y*13)%8)/8.f); }
};
// one rendering in a child process; the status a caller of the program sees
static int render(const char* path,int w,int h,long limit,void (*before_save)(const char*))
{
    fflush(vt::out());
    int pid=fork();
    if(pid==0)
    {
        signal(SIGXFSZ,SIG_IGN);
        if(limit>=0) { struct rlimit r; getrlimit(RLIMIT_FSIZE,&r); r.rlim_cur=limit; setrlimit(RLIMIT_FSIZE,&r); }
        int ret;
        {
            Point3 a(0,0,-1),b(0,0,0); Vec3 u(0,1,0);
            Renderer rn(w,h,1,path,1);
            rn.inherit_camera(new Cam(&a,&b,&u)); rn.inherit_filter(new FilterBox()); rn.inherit_integrator(new Flat()); rn.set_sampler(SPECTRE_SAMPLER_STRATIFIED);
            Scene s; Sphere* sp=new Sphere(); s.inherit_shape(sp); Matrix4 m; m.set_scale(Vec3(500,500,1)); s.inherit_asset(new Asset(sp,m,1));
            if(before_save) before_save(path);
            ret=rn.render(&s);
        }
        _exit(ret);
    }
    int st=0; waitpid(pid,&st,0);
    return WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st);
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough();
    static const char* EX[]={"ppm","bmp","tga","jpg","jpeg","png","tif","tiff","xyz",""};
    for(int e=0;e<10;e++) for(int sz=0;sz<(T?3:2);sz++)
    {
        int w=sz==2?96:32,h=sz==0?1:sz==1?24:70; std::string f=EX[e][0]?std::string("o.")+EX[e]:"o", real=e<8?f:f+".ppm";
        // with room, over nothing and over an older longer file
        Bytes full; int st0=-99;
        auto ref=[&]() { if(st0!=-99) return; unlink(real.c_str()); st0=render(f.c_str(),w,h,-1,NULL); full=slurp(real.c_str()); unlink(real.c_str()); };
        if(vt::begin("output %s, %dx%d, room enough",f.c_str(),w,h)) for(int old=0;old<2;old++)
        {
            ref();
            if(old) { Bytes junk(full.size()+1000,7); spit(real.c_str(),junk); }
            int r=render(f.c_str(),w,h,-1,NULL); Bytes got=slurp(real.c_str()); vt::count("evaluations"); vt::count("crash_points"); vt::seen(vt::hash(got.data(),got.size(),e*8+sz));
            if(r!=0) vt::fail("failure status although the picture was stored","status %d",r);
            Img d; std::string why;
            if(!dec(e<8?EX[e]:"ppm",real.c_str(),d,why)||d.w!=w||d.h!=h) vt::fail("success status without a picture","%s does not hold a %dx%d picture",real.c_str(),w,h);
            else if(got!=full) vt::fail("different picture over an older file","%s",real.c_str());
            vt::sample("%s %dx%d stored: status %d, %d bytes",f.c_str(),w,h,r,(int)got.size());
            unlink(real.c_str());
        }
        // every (n-th) amount of space
        long guess=sz==0?700:sz==1?4000:30000, step=sz==0?(T?1:5):sz==1?(T?7:97):499;
        for(long lo=0;lo<=guess;lo+=step*20)
        {
            if(!vt::begin("output %s, %dx%d, disk full after %ld.. bytes",f.c_str(),w,h,lo)) continue;
            ref(); long n=full.size();
            for(long l=lo;l<lo+step*20&&l<=n+step;l+=step) for(int k=0;k<2;k++)
            {
                // the exact size as well as the last byte missing when the step passes over the end
                long lim=l; if(k) { if(l<=n-step||l>n) continue; lim=T?n:n-1; }
                unlink(real.c_str()); vt::detail("disk full after %ld of %ld bytes",lim,n);
                int r=render(f.c_str(),w,h,lim,NULL); bool same=slurp(real.c_str())==full;
                vt::count("evaluations"); vt::count("crash_points"); vt::seen(vt::mix(lim,e*4+sz)); vt::beat();
                if(r<0) vt::fail("rendering crashes when the disk is full","signal %d after %ld of %ld bytes",-r,lim,n);
                if(r==0&&!same) vt::fail("success status for an incomplete picture","%s: disk full after %ld of %ld bytes",f.c_str(),lim,n);
                if(r!=0&&same&&lim>=n) vt::fail("failure status although the picture was stored","%s: %ld bytes",f.c_str(),lim);
            }
        }
        unlink(real.c_str());
        // nothing can be stored
        for(int k=0;k<4;k++)
        {
            static const char* W[]={"the directory does not exist","the output is a directory","the directory vanishes while rendering","the output becomes a directory while rendering"};
            if(!vt::begin("output %s, %dx%d, %s",f.c_str(),w,h,W[k])) continue;
            std::string p=k==0||k==2?"sub/"+f:f, rp=k==0||k==2?"sub/"+real:real; int r;
            unlink(real.c_str());
            if(k==1) mkdir(real.c_str(),0700);
            if(k==2) mkdir("sub",0700);
            static std::string target; target=rp;
            r=render(p.c_str(),w,h,-1,k==2?(void(*)(const char*))[](const char*){ rmdir("sub"); }:k==3?(void(*)(const char*))[](const char*){ mkdir(target.c_str(),0700); }:NULL);
            if(k==1||k==3) rmdir(real.c_str());
            vt::count("evaluations"); vt::count("crash_points"); vt::seen(vt::mix(k,e*8+sz));
            if(r==0) vt::fail("success status although nothing could be stored","%s: %s",f.c_str(),W[k]);
            if(r<0) vt::fail("rendering crashes when nothing can be stored","%s: %s: signal %d",f.c_str(),W[k],-r);
        }
    }
    return vt::finish();
}
