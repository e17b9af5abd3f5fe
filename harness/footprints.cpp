// C25: the change of the texture coordinates from a pixel to its neighbours,
// and the independence of the samples of a picture from each other.
#include "d3.hpp"
#include "renderer.hpp"
#include "utility/scene.hpp"
#include "primitives/hit_point.hpp"
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera360.hpp"
#include "samplers/filter_box.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_image.hpp"
#include "textures/mask_boolean.hpp"
#include <sys/syscall.h>
#include <time.h>
// the progress display waits for a second before it ends: shorten that
extern "C" int nanosleep(const struct timespec*,struct timespec*) { struct timespec t={0,200000}; return (int)syscall(SYS_nanosleep,&t,NULL); }
extern "C" int clock_nanosleep(clockid_t,int,const struct timespec*,struct timespec*) { struct timespec t={0,200000}; return (int)syscall(SYS_nanosleep,&t,NULL); }
extern "C" time_t time(time_t* t) { if(t) *t=1000000; return 1000000; }

struct Kd { const char* n; int k; std::vector<Vertex> tri; const Shape* s; };
static void tri(std::vector<Vertex>& v,const float (*p)[5])
{
    for(int i=0;i<3;i++) v.push_back(vtx(p[i][0],p[i][1],p[i][2],0,0,1,p[i][3],p[i][4]));
    size_t b=v.size()-3; D3 n=nrm(crs(D(v[b+1].p)-D(v[b].p),D(v[b+2].p)-D(v[b].p)));
    for(size_t i=b;i<v.size();i++) v[i].n=Normal((float)n[0],(float)n[1],(float)n[2]);
}
// the derivatives of the (world) point with the texture coordinates at a hit
static bool jac(const Kd& k,const Aff& a,const HitPoint& h,D3& du,D3& dv,D3& n)
{
    D3 p=a.ipt(D(h.point_h)),on;
    if(k.k==0)
    {
        double xy=hypot(p[0],p[1]); if(xy<0.1) return false;
        du=d3(-p[1],p[0],0)*(2*M_PI); dv=d3(-p[2]*p[0]/xy,-p[2]*p[1]/xy,xy)*M_PI; on=p;
    }
    else if(k.k==1)
    {
        int ax=-1; double best=1e-2; int s=0; for(int i=0;i<3;i++) for(int j=0;j<2;j++) if(fabs(p[i]-j)<best) { best=fabs(p[i]-j); ax=i; s=j?1:-1; }
        if(ax<0) return false; for(int i=0;i<3;i++) if(i!=ax && (p[i]<0.02||p[i]>0.98)) return false;
        on=d3(0,0,0); on[ax]=s; du=ax==2?d3(s,0,0):d3(-on[1],on[0],0); dv=ax==2?d3(0,1,0):d3(0,0,1);
    }
    else
    {
        if(h.index*3+2>=k.tri.size()) return false;
        const Vertex* v=&k.tri[h.index*3]; D3 ba=D(v[1].p)-D(v[0].p),ca=D(v[2].p)-D(v[0].p);
        double t1u=v[1].t.x-v[0].t.x,t1v=v[1].t.y-v[0].t.y,t2u=v[2].t.x-v[0].t.x,t2v=v[2].t.y-v[0].t.y,td=t1u*t2v-t2u*t1v;
        du=(ba*t2v-ca*t1v)*(1/td); dv=(ca*t1u-ba*t2u)*(1/td); on=crs(ba,ca);
    }
    du=a.vec(du); dv=a.vec(dv); n=a.nor(on); return true;
}
static void solve(D3 d,D3 du,D3 dv,double& u,double& v)
{
    double a=dt(du,du),b=dt(du,dv),c=dt(dv,dv),x=dt(d,du),y=dt(d,dv),det=a*c-b*b; u=(c*x-b*y)/det; v=(a*y-b*x)/det;
}
static void judge(const Kd& k,const Aff& a,const HitPoint& h,const Ray& r,const Ray& rx,const Ray& ry,const char* key,double extra)
{
    D3 du,dv,n; if(!jac(k,a,h,du,dv,n)) { vt::count("too close to an edge or a pole"); return; }
    D3 p=D(h.point_h); double t=sqrt(dt(p-D(r.origin),p-D(r.origin)));
    double lu=sqrt(dt(du,du)),lv=sqrt(dt(dv,dv)),sn=sqrt(std::max(0.0,1-pow(dt(du,dv)/(lu*lv),2)));
    if(sn<0.02) return;
    const Ray* nb[2]={&rx,&ry}; float got[2][2]={{h.du.x,h.dv.x},{h.du.y,h.dv.y}};
    for(int i=0;i<2;i++)
    {
        D3 o=D(nb[i]->origin),d=D(nb[i]->direction); double dn=dt(n,d),tt=dt(n,p-o)/dn;
        if(!(fabs(dn)>0.02) || !(tt>0.3*t && tt<3*t))
        {
            vt::count("neighbours beyond the horizon");
            if(h.differentials && (!std::isfinite(got[i][0]) || !std::isfinite(got[i][1]))) vt::fail("footprint is not a number","%g,%g",got[i][0],got[i][1]);
            continue;
        }
        D3 dl=o+d*tt-p; double u,v; solve(dl,du,dv,u,v);
        double sz=sqrt(dt(dl,dl)),noise=3e-6*(sqrt(dt(p,p))+sqrt(dt(o,o))+tt/fabs(dn)+sz)/sn,eu=0.01*(fabs(u)+sz/lu/sn*0.2)+(noise+extra*sz)/lu/sn,ev=0.01*(fabs(v)+sz/lv/sn*0.2)+(noise+extra*sz)/lv/sn;
        vt::count("evaluations"); vt::seen(vt::hash(got[i],8));
        if(sz<20*noise) { vt::count("below single precision"); }
        if(!h.differentials) { vt::fail(key,"no footprint, although the neighbour %s is %g,%g away",i?"below":"to the right",u,v); return; }
        if(!(fabs(got[i][0]-u)<=eu && fabs(got[i][1]-v)<=ev))
        { vt::fail(key,"neighbour %s is %g,%g away on the texture, reported %g,%g (allowed %g,%g)",i?"below":"to the right",u,v,got[i][0],got[i][1],eu,ev); return; }
    }
}
struct Rec { Sample s; bool hit; const Asset* a; float uv[2],d[4]; bool df; };
static std::vector<Rec>* LOG;
struct CamRec : public Camera
{
    Camera* in;
    CamRec(Camera* c,const Point3* p,const Point3* t,const Vec3* u,int w,int h):Camera(p,t,u,w,h),in(c) {}
    ~CamRec() { delete in; }
    void create_ray(const Sample* s,Ray* r,Ray* rx,Ray* ry) const { in->create_ray(s,r,rx,ry); Rec q; q.s=*s; q.hit=false; q.a=NULL; LOG->push_back(q); }
    void create_single_ray(const Sample* s,Point3* o,Vec3* d) const { Ray r; in->Camera::create_ray(s,&r); *o=r.origin; *d=r.direction; }
};
struct IntRec : public LightIntegrator
{
    Spectrum radiance(const Scene*,const HitPoint* h,const Ray*,Sampler*,OcclusionTester*) const
    {
        Rec& q=LOG->back(); q.hit=true; q.a=h->asset_h; q.uv[0]=h->uv.x; q.uv[1]=h->uv.y; q.d[0]=h->du.x; q.d[1]=h->du.y; q.d[2]=h->dv.x; q.d[3]=h->dv.y; q.df=h->differentials;
        return SPECTRUM_ONE;
    }
};
int main(int argc,char** argv)
{
    vt::init(argc,argv); const bool T=vt::thorough();
    std::vector<Kd> ks;
    { Kd k; k.n="sphere"; k.k=0; k.s=new Sphere(); ks.push_back(k); } { Kd k; k.n="box"; k.k=1; k.s=new Box(); ks.push_back(k); }
    static const float T0[][5]={{0,0,0,0,0},{1,0,0,1,0},{1,1,0,1,1},{0,0,0,0,0},{1,1,0,1,1},{0,1,0,0,1}};
    static const float T1[][5]={{0,0,0.2f,0.1f,0.2f},{1,0.2f,0.9f,3.7f,0.1f},{0.1f,1,0.1f,0.9f,5.8f}};
    static const float T2[][5]={{0,0,0,1,0},{1,0,0.5f,0,0},{0.2f,0.9f,0,0.2f,0.9f}};
    static const float T3[][5]={{0,0,0.3f,0.01f,0.02f},{1,0.1f,0,0.013f,0.0201f},{0,1,0.2f,0.0102f,0.027f}};
    static const float T4[][5]={{0,0,0.3f,-10,0},{0.3f,1,0,70,90},{0.9f,0.1f,0.4f,-90,40}};
    struct { const char* n; const float (*p)[5]; int c; } tr[]={{"quad",T0,2},{"slanted triangle",T1,1},{"mirrored texture",T2,1},{"magnified texture",T3,1},{"repeated texture",T4,1}};
    for(auto& t:tr) { Kd k; k.n=t.n; k.k=2; for(int i=0;i<t.c;i++) tri(k.tri,t.p+3*i); Mesh* m=new Mesh(1); for(size_t j=0;j<k.tri.size();j+=3) m->add_triangle(&k.tri[j],&k.tri[j+1],&k.tri[j+2]); m->finalize(); k.s=m; ks.push_back(k); }
    {
        Kd k; k.n="smooth triangle"; k.k=3; tri(k.tri,T1); k.tri[0].n=Normal(-0.5f,-0.4f,0.9f); k.tri[1].n=Normal(0.6f,0,0.9f); k.tri[2].n=Normal(0,0.6f,0.8f);
        for(auto& v:k.tri) v.n.normalize();
        Mesh* m=new Mesh(1); m->add_triangle(&k.tri[0],&k.tri[1],&k.tri[2]); m->finalize(); k.s=m; ks.push_back(k);
    }
    std::vector<Matrix4> ms; std::vector<const char*> mn;
    auto A=[&](const char* n,const Matrix4& m){ ms.push_back(m); mn.push_back(n); };
    A("identity",m_id()); A("moved",m_tr(3,-2,5)); A("large",m_sc(50,50,50)); A("small",m_sc(0.01f,0.01f,0.01f)); A("scaled differently",m_sc(1,3,0.5f)); A("mirrored",m_sc(-1,1,1)); A("turned",m_rot(0.4f,1.1f,-2.3f));
    A("all",m_mul(m_mul(m_tr(-4,1.5f,2),m_rot(0.3f,-0.8f,1.9f)),m_sc(1.5f,0.6f,2.2f))); A("sheared",m_mul(m_mul(m_rot(0.3f,0.2f,0.9f),m_sc(1,2.5f,0.7f)),m_rot(0.8f,-0.4f,0.3f)));
    static const char* cn[]={"perspective","orthographic","panorama"}; static const int rs[][2]={{64,48},{640,480},{100,300}};
    for(size_t k=0;k<ks.size();k++) for(size_t m=0;m<ms.size();m++) for(int c=0;c<3;c++)
    {
        if(!vt::begin("%s, %s, %s camera",ks[k].n,mn[m],cn[c])) continue;
        vt::sample("%s",vt::sh()->desc);
        Aff a=aff(ms[m]); Asset as(ks[k].s,ms[m],1); double size=pow(fabs(dt(a.c[0],crs(a.c[1],a.c[2]))),1/3.); int hits=0;
        const char* key=ks[k].k==3?"footprint on a smooth mesh":"wrong footprint";
        static const double vp[][3]={{0.3,0.4,-3},{2.5,1.2,1.1},{-1.5,2,2.7},{0.5,-2.2,0.4},{0.51,0.47,-0.9}};
        for(size_t v=0;v<(T?5u:3u);v++) for(auto& rz:rs)
        {
            D3 tgt=a.pt(ks[k].k==0?d3(0.1,0.05,-0.07):ks[k].k==1?d3(0.5,0.45,0.55):d3(0.4,0.35,0.2)),eye=tgt+d3(vp[v][0],vp[v][1],vp[v][2])*size;
            Point3 pp((float)eye[0],(float)eye[1],(float)eye[2]),tt((float)tgt[0],(float)tgt[1],(float)tgt[2]); Vec3 up(0,1,0.1f); up.normalize();
            for(int f=0;f<(c==0?3:1);f++)
            {
                static const float fv[]={40,5,110};
                std::unique_ptr<Camera> cam; if(c==0) cam.reset(new CameraPerspective(&pp,&tt,&up,rz[0],rz[1],fv[f]*(float)M_PI/180)); else if(c==1) cam.reset(new CameraOrthographic(&pp,&tt,&up,rz[0],rz[1])); else cam.reset(new Camera360(&pp,&tt,&up,rz[0],rz[1]));
                int n=T?23:11; if(c==2) n*=3;
                for(int i=0;i<n;i++) for(int j=0;j<n;j++)
                {
                    Sample s; s.posx=(float)((i+0.5)*rz[0]/n); s.posy=(float)((j+0.5)*rz[1]/n); Ray r,rx,ry; cam->create_ray(&s,&r,&rx,&ry);
                    HitPoint h; h.differentials=false; h.du=h.dv=Vec2(0,0); float d=FLT_MAX; vt::detail("camera at %g,%g,%g, %dx%d, position %g,%g",pp.x,pp.y,pp.z,rz[0],rz[1],s.posx,s.posy);
                    if(!as.intersect(&r,&d,&h)) continue;
                    hits++; calculate_differentials(&h,&rx,&ry); judge(ks[k],a,h,r,rx,ry,key,0);
                }
            }
        }
        vt::beat(); vt::count("hits",hits);
        if(!hits && c!=1) vt::fail("camera sees nothing","%s",ks[k].n);
    }
    // normals with equal and missing components
    for(int nx=-2;nx<=2;nx++) for(int ny=-2;ny<=2;ny++) for(int nz=-2;nz<=2;nz++)
    {
        if((!nx&&!ny&&!nz) || !vt::begin("plane with the normal %d,%d,%d",nx,ny,nz)) continue;
        D3 n=d3(nx,ny,nz),t1=nx||ny?d3(-ny,nx,0):d3(1,0,0),t2=crs(n,t1); int hits=0;
        for(int tw=0;tw<3;tw++) for(int fl=0;fl<2;fl++)
        {
            D3 a=tw==0?t1:tw==1?t1+t2*0.5:t1-t2,b=tw==2?t1+t2*2:t2; if(fl) std::swap(a,b);
            float p[3][5]={{0,0,0,0.1f,0.2f},{(float)a[0],(float)a[1],(float)a[2],fl?0.1f:0.9f,fl?1.4f:0.3f},{(float)b[0],(float)b[1],(float)b[2],fl?2.1f:0.f,fl?0.3f:0.8f}};
            Kd k; k.n="plane"; k.k=2; tri(k.tri,p); Mesh m(1); m.add_triangle(&k.tri[0],&k.tri[1],&k.tri[2]); m.finalize(); k.s=&m; Asset as(&m,m_id(),1); Aff id=aff(m_id()); double l=sqrt(dt(n,n));
            for(int v=0;v<4;v++) for(int w=0;w<9;w++)
            {
                D3 q=(a+b)*0.3,o=q+n*(3*(fl?-1:1)/l)+t1*(v==1?0.9:0)+t2*(v==2?-0.5:v==3?0.4:0),e[2]={t1*(0.05*cos(w*0.7)/sqrt(dt(t1,t1)))+t2*(0.05*sin(w*0.7)/sqrt(dt(t2,t2))),t1*(0.03*cos(1+w*1.1)/sqrt(dt(t1,t1)))+t2*(0.07*sin(1+w*1.1)/sqrt(dt(t2,t2)))};
                auto ray=[&](D3 to,D3 fr) { D3 d=nrm(to-fr); return Ray(Point3((float)fr[0],(float)fr[1],(float)fr[2]),Vec3((float)d[0],(float)d[1],(float)d[2])); };
                Ray r=ray(q,o),rx=w%2?ray(q+e[0],o):ray(q+e[0],o+e[0]),ry=w%2?ray(q+e[1],o):ray(q+e[1],o+e[1]); HitPoint h; h.differentials=false; h.du=h.dv=Vec2(0,0); float d=FLT_MAX; vt::detail("triangle %d%d, view %d, neighbours %d",tw,fl,v,w);
                if(!as.intersect(&r,&d,&h)) continue;
                hits++; calculate_differentials(&h,&rx,&ry); judge(k,id,h,r,rx,ry,"wrong footprint",0);
            }
        }
        vt::count("hits",hits); if(hits<200) vt::fail("camera sees nothing","%d hits",hits);
    }
    // neighbours exactly along the surface
    if(vt::begin("neighbours exactly along the surface"))
    {
        Mesh* q=quad(); Asset as(q,m_id(),1); std::vector<TexelUnion> px(64); for(auto& t:px) t.bgra_value=0x40506070; ImageMapTrilinear tl((const pixBGRA*)px.data(),8); ImageMapEWA ew((const pixBGRA*)px.data(),8);
        static const float ds[][3]={{1,0,0},{-1,0,0},{0,1,0},{0.6f,0.8f,0},{1,0,1e-30f},{0,1,-1e-20f},{0,0,1},{0,0,-1}};
        for(auto& x:ds) for(auto& y:ds) for(int o=0;o<3;o++)
        {
            Ray r(Point3(0.5f,0.25f,-1),Vec3(0,0,1)),rx(Point3(o==1?0.5f:0,0.25f,o==2?0.f:-1.f),Vec3(x[0],x[1],x[2])),ry(Point3(0.5f,0.25f,-1),Vec3(y[0],y[1],y[2])); HitPoint h; h.differentials=false; float d=FLT_MAX;
            if(!as.intersect(&r,&d,&h)) { vt::fail("hit missed","quad"); continue; }
            calculate_differentials(&h,&rx,&ry); vt::count("evaluations");
            if(h.differentials) for(int e=0;e<2;e++)
            {
                const ImageMap* im=e?(const ImageMap*)&ew:(const ImageMap*)&tl; TexelUnion t=im->filter(0.3f,0.6f,h.du.x,h.dv.x,h.du.y,h.dv.y);
                if(t.bgra_value!=0x40506070) vt::fail("flat texture changes its colour","%08x with footprint %g,%g %g,%g",t.bgra_value,h.du.x,h.dv.x,h.du.y,h.dv.y);
            }
        }
        delete q;
    }
    // every sample of a picture on its own
    static Vec2 sh(0,0),sc(1,1);
    std::vector<TexelUnion> px(64*64); for(int y=0;y<64;y++) for(int x=0;x<64;x++) { uint8_t v=((x/2)+(y/3))%2?255:0; px[y*64+x].bgra_texel.a=px[y*64+x].bgra_texel.r=px[y*64+x].bgra_texel.g=px[y*64+x].bgra_texel.b=v; }
    for(int mp=0;mp<3;mp++) for(int c=0;c<3;c++) for(int sm=0;sm<2;sm++) for(int inv=0;inv<2;inv++)
    {
        if(!vt::begin("picture of masked shapes, %s mask, %s camera, %s sampler%s",mp==0?"unfiltered":mp==1?"trilinear":"elliptical",cn[c],sm?"random":"stratified",inv?", inverted":"")) continue;
        ImageMap* im=mp==0?(ImageMap*)new ImageMapUnfiltered((const pixBGRA*)px.data(),64):mp==1?(ImageMap*)new ImageMapTrilinear((const pixBGRA*)px.data(),64):(ImageMap*)new ImageMapEWA((const pixBGRA*)px.data(),64);
        MaskBoolean mk(new TextureImage(im,sh,sc,mp==0),(ImageChannel)1,inv);
        Scene s; Sphere* sp=new Sphere(); Box* bx=new Box(); Mesh* q=quad(); s.inherit_shape(sp); s.inherit_shape(bx); s.inherit_shape(q);
        auto add=[&](const Shape* x,const Matrix4& m,bool msk){ Asset* y=new Asset(x,m,1); if(msk) y->set_mask(mk); s.inherit_asset(y); };
        add(q,m_mul(m_tr(-1.2f,-1,0),m_sc(1.5f,2,1)),true); add(sp,m_mul(m_tr(0.5f,0.2f,2),m_sc(0.8f,0.8f,0.8f)),true); add(sp,m_tr(-0.3f,-0.4f,5),false); add(bx,m_mul(m_tr(-1.5f,0,1),m_rot(0.3f,0.4f,0)),true);
        s.k.buildTree();
        const int w=32,h=40,spp=4; Point3 p(0.1f,0.05f,-2.5f),t(0,0,1); Vec3 u(0,1,0);
        auto mkc=[&]()->Camera* { if(c==0) return new CameraPerspective(&p,&t,&u,w,h,1.1f); if(c==1) return new CameraOrthographic(&p,&t,&u,w,h); return new Camera360(&p,&t,&u,w,h); };
        std::vector<Rec> log; LOG=&log;
        {
            Renderer rn(w,h,spp,"o.ppm",1); rn.inherit_camera(new CamRec(mkc(),&p,&t,&u,w,h)); rn.inherit_filter(new FilterBox()); rn.inherit_integrator(new IntRec()); rn.set_sampler(sm?SPECTRE_SAMPLER_RANDOM:SPECTRE_SAMPLER_STRATIFIED);
            if(rn.render(&s)!=0) vt::fail("rendering failed","o.ppm");
        }
        unlink("o.ppm");
        if((int)log.size()!=w*h*spp) vt::fail("number of samples","%d instead of %d",(int)log.size(),w*h*spp);
        std::unique_ptr<Camera> cam(mkc()); int hits=0;
        for(size_t i=0;i<log.size();i++)
        {
            Rec& e=log[i]; Ray r,rx,ry; cam->create_ray(&e.s,&r,&rx,&ry); HitPoint f; f.differentials=false; bool hit=s.k.intersect(&r,&f); vt::count("evaluations");
            if(hit!=e.hit || (hit && f.asset_h!=e.a)) { vt::fail("a sample depends on the one before","position %g,%g: asset %d instead of %d",e.s.posx,e.s.posy,e.hit?(int)e.a->get_id():-1,hit?(int)f.asset_h->get_id():-1); continue; }
            if(!hit) continue;
            hits++; calculate_differentials(&f,&rx,&ry); vt::seen(vt::hash(e.d,16));
            bool same=f.uv.x==e.uv[0]&&f.uv.y==e.uv[1]&&f.differentials==e.df&&(!f.differentials||(f.du.x==e.d[0]&&f.du.y==e.d[1]&&f.dv.x==e.d[2]&&f.dv.y==e.d[3]));
            if(!same) vt::fail("the integrator gets another hit point","position %g,%g: uv %g,%g du %g,%g dv %g,%g instead of %g,%g %g,%g %g,%g",e.s.posx,e.s.posy,e.uv[0],e.uv[1],e.d[0],e.d[1],e.d[2],e.d[3],f.uv.x,f.uv.y,f.du.x,f.du.y,f.dv.x,f.dv.y);
        }
        vt::count("hits",hits); vt::sample("%s: %d of %d samples hit",vt::sh()->desc,hits,(int)log.size());
    }
    return vt::finish();
}
