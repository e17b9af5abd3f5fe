// Renderer::render under every schedule (up to a preemption bound): work
// distribution, termination, and the stored picture.
#include "vt.hpp"
#include "mcrt.hpp"
#include "film_util.hpp"
#include "renderer.hpp"
#include "cameras/camera.hpp"
#include "primitives/box.hpp"
#include <memory>
#include <algorithm>

struct CFilter : public Filter
{
    CFilter(float rx,float ry):Filter(rx,ry) {}
    float weight(float x,float y) const { return 1.5f-(std::fabs(x)+std::fabs(y))/(2*(range_x+range_y)); }
};
struct Rec { float x,y; int thread; };
struct Log { std::vector<Rec> rec; };
// one ray per sample, straight down on a big box; records every sample
struct CCam : public Camera
{
    Log* log;
    static Point3 P(float x,float y,float z) { return Point3(x,y,z); }
    CCam(Log* l,const Point3* a,const Point3* b,const Vec3* u):Camera(a,b,u,1,1),log(l) {}
    void one(const Sample* s,Point3* o,Vec3* d) const { *o=Point3(s->posx,s->posy,-10.f); *d=Vec3(0,0,1); }
    void create_ray(const Sample* s,Ray* r) const { one(s,&r->origin,&r->direction); }
    void create_ray(const Sample* s,Ray* r,Ray* rx,Ray* ry) const
    {
        mc::Ignore ig;
        one(s,&r->origin,&r->direction);
        Sample x=*s; x.posx+=1; one(&x,&rx->origin,&rx->direction);
        Sample y=*s; y.posy+=1; one(&y,&ry->origin,&ry->direction);
        Rec q={s->posx,s->posy,mc::self()}; log->rec.push_back(q);
    }
protected:
    void create_single_ray(const Sample* s,Point3* o,Vec3* d) const { one(s,o,d); }
};
static float pattern(float x,float y) { int c=(int)std::floor(x*2)*3+(int)std::floor(y*2)*5; return (float)((c&3)/3.0); }
static Spectrum grey_spectrum(float v) { return Spectrum(v); }
struct CInt : public LightIntegrator
{
    Spectrum radiance(const Scene*,const HitPoint* h,const Ray* r,Sampler* sam,OcclusionTester*) const
    {
        float n[2]; sam->get_random_numbers(n,2); // integrators draw numbers from the sampler
        return grey_spectrum(pattern(r->origin.x,r->origin.y));
    }
};
struct Scen { int w,h,spp,thr,sampler; float rx,ry; int bound,parts; int wakes; };

int main(int argc,char** argv)
{
    vt::init(argc,argv);
    std::vector<Scen> sc;
    const int R=SPECTRE_SAMPLER_RANDOM, S=SPECTRE_SAMPLER_STRATIFIED;
    bool T=vt::thorough();
    sc.push_back(Scen{32,2,1,1,R,1,1,T?4:3,1,2});
    sc.push_back(Scen{32,2,1,2,S,1,1,T?4:3,4,1});
    sc.push_back(Scen{64,1,1,2,R,1,1,T?4:2,4,1});
    sc.push_back(Scen{64,T?2:1,4,2,S,2,2,T?3:2,4,1});
    sc.push_back(Scen{64,1,1,3,S,2,1,T?3:2,T?16:8,T?1:0});
    sc.push_back(Scen{96,2,1,2,S,1,1,T?3:2,4,1});
    sc.push_back(Scen{96,1,1,3,R,2,2,T?3:1,T?16:2,1});
    sc.push_back(Scen{128,1,1,2,S,1,1,T?3:2,4,1});
    sc.push_back(Scen{32,33,1,2,S,2,2,T?2:1,2,1});
    sc.push_back(Scen{64,34,1,3,R,1,2,1,8,0});
    sc.push_back(Scen{32,65,1,2,S,1,1,1,4,0});
    sc.push_back(Scen{32,2,1,4,S,1,1,T?2:1,8,1});
    sc.push_back(Scen{32,64,1,1,S,1,1,1,1,1});
    sc.push_back(Scen{0,0,1,2,S,1,1,2,1,1});      // nothing to render
    if(T) { sc.push_back(Scen{160,1,1,3,S,4,4,2,4,1}); sc.push_back(Scen{64,64,4,3,S,2,2,1,8,1}); sc.push_back(Scen{64,2,1,4,R,1,1,2,8,1}); }
    for(auto& s:sc) for(int sub=0;sub<s.parts;sub++)
    {
        if(!vt::begin("image %dx%d, %d spp, %s sampler, %d threads, filter %gx%g, %d preemptions, part %d/%d",s.w,s.h,s.spp,
                      s.sampler==R?"random":"stratified",s.thr,s.rx,s.ry,s.bound,sub,s.parts)) continue;
        Log log;
        Point3 a(0,0,-1),b(0,0,0); Vec3 u(0,1,0);
        int ret=-1;
        auto body=[&]()
        {
            { mc::Ignore ig; log.rec.clear(); }
            unlink("out.ppm");
            Renderer rn(s.w,s.h,s.spp,"out.ppm",s.thr);
            rn.inherit_camera(new CCam(&log,&a,&b,&u));
            rn.inherit_filter(new CFilter(s.rx,s.ry));
            rn.inherit_integrator(new CInt());
            rn.set_sampler(s.sampler);
            Scene scene;
            Box* bx=new Box();
            scene.inherit_shape(bx);
            Matrix4 m; m.set_translation(Vec3(-5,-5,0));
            Matrix4 k; k.set_scale(Vec3(s.w+10.f,s.h+10.f,1.f));
            m*=k;
            scene.inherit_asset(new Asset(bx,m,1));
            ret=rn.render(&scene);
        };
        int n=0; const CFilter filter(s.rx,s.ry);
        mc::Config c; c.bound=s.bound; c.sub=sub; c.nsub=s.parts; c.max_wakes=s.wakes;
        int maxthr=0;
        mc::Stats st=mc::explore(c,body,[&](const mc::Outcome& o)
        {
            for(auto& r:o.races)
                vt::fail(("race on "+r).c_str(),"unordered accesses (%s); schedule: %s",r.c_str(),o.trace.c_str());
            std::vector<int> cnt(std::max(1,s.w*s.h));
            RefFilm ref(s.w,s.h,&filter);
            uint64_t who=0;
            for(auto& q:log.rec)
            {
                int x=(int)std::floor(q.x), y=(int)std::floor(q.y);
                ref.add(q.x,q.y,grey_spectrum(pattern(q.x,q.y)).to_xyz());
                who=vt::mix(who,q.thread);
                if(x<0||y<0||x>=s.w||y>=s.h)
                {   // positions are computed in single precision: x+0.999999 may round up
                    x=std::min(x,s.w-1); y=std::min(y,s.h-1);
                    if(x<0||y<0||q.x>s.w||q.y>s.h) { vt::fail("sample outside the image","sample at %g,%g",q.x,q.y); continue; }
                }
                cnt[y*s.w+x]++;
            }
            vt::seen(who);
            if((long)log.rec.size()!=(long)s.w*s.h*s.spp)
                vt::fail("wrong number of samples","%d samples instead of %d; schedule: %s",(int)log.rec.size(),s.w*s.h*s.spp,o.trace.c_str());
            else for(int i=0;i<s.w*s.h;i++)
                if(cnt[i]!=s.spp) { vt::fail("pixel not sampled spp times","pixel (%d,%d) sampled %d times instead of %d; schedule: %s",i%s.w,i/s.w,cnt[i],s.spp,o.trace.c_str()); break; }
            if(s.w>0)
            {
                if(ret!=0) vt::fail("render reports failure","returned %d",ret);
                Img im; std::string msg;
                if(!read_ppm("out.ppm",im)) { vt::fail("image unreadable","no complete image was stored; schedule: %s",o.trace.c_str()); return false; }
                int p=compare(im,ref,msg);
                if(p>=0) vt::fail("wrong pixel in the stored image","%s; schedule: %s",msg.c_str(),o.trace.c_str());
            }
            if(n++==1) vt::sample("%dx%d %d threads -> schedule%s",s.w,s.h,s.thr,o.trace.c_str());
            return true;
        });
        vt::count("executions",st.executions); vt::count("transitions",st.points); vt::count("states",st.states);
        vt::count("diverged",st.diverged);
    }
    return vt::finish();
}
