SEEDS = []
SEEDS.append(dict(id='c03-negative-lobes', property='C03',
  needs='a filter with negative lobes (Mitchell, Lanczos) and samples away from the pixel centre',
  breaks='negative filter weights are clamped, so the stored pixel is no longer the weighted average the filter defines',
  edits=[('src/cameras/image_film.cpp', '            float weight = filter->weight(x-centre_x, y-centre_y);\n',
          '            float weight = max(0.f, filter->weight(x-centre_x, y-centre_y));\n')],
  demo=r'''
#include "cameras/image_film.hpp"
#include "samplers/filter_lanczos.hpp"
#include <cstdio>
#include <cmath>
int main()
{
    // two samples whose weight at the pixel 8,8 has opposite signs
    FilterLanczos f(4.f);
    ImageFilm film(16,16,"out.ppm"); film.set_filter(&f);
    ExecutorData ex; ex.startx=0; ex.starty=0; ex.endx=16; ex.endy=16;
    Sample a; a.posx=8.5f; a.posy=8.5f; Sample b; b.posx=10.0f; b.posy=8.5f;
    double wa=f.weight(0,0), wb=f.weight(-1.5f,0);
    if(!(wb<0)) return 5;
    film.add_pixel(&a,ColorXYZ(0.2f,0.2f,0.2f),&ex);
    film.add_pixel(&b,ColorXYZ(0.4f,0.4f,0.4f),&ex);
    film.add_pixel_forced(&ex);
    if(!film.save_image()) return 6;
    FILE* i=fopen("out.ppm","rb"); int w,h,m; if(fscanf(i,"P6 %d %d %d",&w,&h,&m)!=3) return 7; fgetc(i);
    static unsigned char buf[16*16*3]; if(fread(buf,1,sizeof buf,i)!=sizeof buf) return 8;
    float v=(float)((0.2*wa+0.4*wb)/(wa+wb));
    ColorRGB c=ColorXYZ(v,v,v).to_sRGB();
    int want=(int)(c.g*255), got=buf[(8*16+8)*3+1];
    return abs(want-got)<=1?0:1;
}
'''))
SEEDS.append(dict(id='c05-split-plane-origin', property='C05',
  needs='a ray whose origin lies exactly on a splitting plane of the tree and that points to the upper side',
  breaks='the traversal descends only into the lower child, assets above the plane are missed',
  edits=[('src/accelerators/kdtree.cpp', '''            bool leftBelow = (r->origin[axis]<n->getSplit()) ||
                             (r->origin[axis] == n->getSplit() &&
                              r->direction[axis]<=0);
''', '''            bool leftBelow = r->origin[axis]<=n->getSplit();
''')],
  demo=r'''
#include "accelerators/kdtree.hpp"
#include "primitives/sphere.hpp"
#include "primitives/asset.hpp"
#include <vector>
#include <cfloat>
int main()
{
    Sphere box; std::vector<Asset*> a; KdTree k;
    for(int i=0;i<12;i++)
    { Matrix4 m; m.set_translation(Vec3((float)(i*4),0,0)); a.push_back(new Asset(&box,m,1)); k.addAsset(a.back()); }
    k.buildTree();
    for(int i=-2;i<48;i++) for(int s=-1;s<=1;s+=2)
    {
        Ray r(Point3((float)i,0.37f,0.41f),Vec3((float)s,0,0));
        float best=FLT_MAX; bool any=false;
        for(auto x:a) { float d=FLT_MAX; HitPoint h; if(x->intersect(&r,&d,&h)) { any=true; if(d<best) best=d; } }
        HitPoint g; bool f=k.intersect(&r,&g);
        if(f!=any) return 1;
        float d=FLT_MAX; HitPoint h;
        if(f && (!g.asset_h->intersect(&r,&d,&h) || d>best+1e-3f)) return 2;
    }
    return 0;
}
'''))
SEEDS.append(dict(id='c04-area-origin', property='C04',
  needs='an area that does not start at column 0 and has more than one row',
  breaks='after the first row the stratified sampler restarts at column 0 instead of the start of its area',
  edits=[('src/samplers/sampler_stratified.cpp', '        nextx = startx;\n', '        nextx = 0;\n')],
  demo=r'''
#include "samplers/sampler_stratified.hpp"
int main()
{
    unsigned int seed[32]; for(int i=0;i<32;i++) seed[i]=i*7919+1;
    SamplerStratified s(32,36,5,8,4,seed,true); Sample r[4]; int n=0;
    while(s.get_samples(r))
    {
        int px=32+n%4, py=5+n/4;
        for(int i=0;i<4;i++) if(r[i].posx<px||r[i].posx>px+1||r[i].posy<py||r[i].posy>py+1) return 1;
        if(++n>12) return 2;
    }
    return n==12?0:3;
}
'''))
GATE = r'''
// the first lock taken by a chosen thread waits until told otherwise
#include <pthread.h>
#include <dlfcn.h>
#include <atomic>
#include <thread>
#include <chrono>
static std::atomic<int> arrived(0);
static thread_local int gate_id=0;      // 0: not gated
static std::atomic<bool> open_gate(false);
'''
SEEDS.append(dict(id='c01-read-before-lock', property='C01',
  needs='a thread preempted between reading a shared pixel and taking the mutex, while another thread merges its deferred pixels',
  breaks='the last merge of the deferred pixels reads the first pixel before the lock is held: contributions of other threads are lost',
  edits=[('src/cameras/image_film.cpp', '''    //last chance to add the pixel, now I need the lock at any cost
    mtx.lock();
    //add every leftover
    while(!secure_area->deferred.empty())
    {
        pixel_toadd = secure_area->deferred.top();
        secure_area->deferred.pop();
        value = buffer.get(pixel_toadd.x, pixel_toadd.y);
        value.cie_x += pixel_toadd.cie_x;
        value.cie_y += pixel_toadd.cie_y;
        value.cie_z += pixel_toadd.cie_z;
        value.samples += pixel_toadd.samples;
        buffer.set(pixel_toadd.x, pixel_toadd.y, value);
    }
    mtx.unlock();
''', '''    //last chance to add the pixel, now I need the lock at any cost
    //add every leftover, without starving the other threads
    while(!secure_area->deferred.empty())
    {
        pixel_toadd = secure_area->deferred.top();
        secure_area->deferred.pop();
        value = buffer.get(pixel_toadd.x, pixel_toadd.y);
        value.cie_x += pixel_toadd.cie_x;
        value.cie_y += pixel_toadd.cie_y;
        value.cie_z += pixel_toadd.cie_z;
        value.samples += pixel_toadd.samples;
        mtx.lock();
        buffer.set(pixel_toadd.x, pixel_toadd.y, value);
        mtx.unlock();
    }
''')],
  demo=GATE + r'''
#include "cameras/image_film.hpp"
#include "samplers/filter_box.hpp"
#include <cstdio>
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static int (*real)(pthread_mutex_t*)=NULL;
    if(!real) real=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_lock");
    if(gate_id==1)
    {
        gate_id=0; arrived++;
        for(int i=0;i<3000 && !open_gate;i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    return real(m);
}
int main()
{
    // both areas reach the pixel on their border; the first thread is stopped at the lock
    FilterBox f; ImageFilm film(4,4,"out.ppm"); film.set_filter(&f);
    ExecutorData a,b; a.startx=0;a.starty=0;a.endx=2;a.endy=4; b.startx=2;b.starty=0;b.endx=4;b.endy=4;
    Sample s; s.posx=1.9f; s.posy=2.5f; film.add_pixel(&s,ColorXYZ(0.8f,0.8f,0.8f),&a);
    Sample t; t.posx=2.1f; t.posy=2.5f; film.add_pixel(&t,ColorXYZ(0.1f,0.1f,0.1f),&b);
    std::thread t1([&]{ gate_id=1; film.add_pixel_forced(&a); });
    while(!arrived) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    film.add_pixel_forced(&b);
    open_gate=true; t1.join();
    if(!film.save_image()) return 6;
    FILE* i=fopen("out.ppm","rb"); int w,h,m; if(fscanf(i,"P6 %d %d %d",&w,&h,&m)!=3) return 7; fgetc(i);
    static unsigned char buf[4*4*3]; if(fread(buf,1,sizeof buf,i)!=sizeof buf) return 8;
    // pixels 1 and 2 of rows 1 to 3 are reached by both samples
    ColorRGB c=ColorXYZ(0.45f,0.45f,0.45f).to_sRGB(); int want=(int)(c.g*255);
    for(int y=1;y<=3;y++) for(int x=1;x<=2;x++) if(abs(buf[(y*4+x)*3+1]-want)>1) return 1;
    return 0;
}
'''))
SEEDS.append(dict(id='c02-empty-check-unlocked', property='C02',
  needs='a rendering thread preempted between its check of the job queue and the lock, while another one takes the last job',
  breaks='the emptiness of the job queue is checked before the lock is taken: the last job is popped twice',
  edits=[('src/renderer.cpp', '''        lock->lock();
        //check if the job queue is empty
        if(jobs->empty())
        {
            lock->unlock();
            done = true;
            continue;
        }
        else
        {
            todo = jobs->top();
''', '''        //check if the job queue is empty
        if(jobs->empty())
        {
            done = true;
            continue;
        }
        else
        {
            lock->lock();
            todo = jobs->top();
''')],
  demo=GATE + r'''
#include "renderer.hpp"
#include "samplers/filter_box.hpp"
#include "integrators/path_tracer.hpp"
#include "cameras/camera_orthographic.hpp"
static pthread_t mainthr;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static int (*real)(pthread_mutex_t*)=NULL;
    static thread_local bool first=true;
    if(!real) real=(int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT,"pthread_mutex_lock");
    if(open_gate && first && !pthread_equal(pthread_self(),mainthr))
    {
        // all the rendering threads (and the progress bar) arrive before the first goes on
        first=false; arrived++;
        for(int i=0;i<1500 && arrived<9;i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    return real(m);
}
int main()
{
    mainthr=pthread_self();
    Point3 p(0,0,0),t(0,0,1); Vec3 up(0,1,0);
    Renderer r(32,32,1,"out.ppm",8);
    r.inherit_camera(new CameraOrthographic(&p,&t,&up,32,32)); r.set_sampler(SPECTRE_SAMPLER_STRATIFIED);
    r.inherit_filter(new FilterBox()); r.inherit_integrator(new PathTracer());
    Scene s; open_gate=true;
    r.render(&s);
    return 0;
}
'''))
