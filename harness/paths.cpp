// C23: light transport.  The random numbers of the path tracer come from a
// lattice that is enumerated completely; the mean over the lattice is compared
// with the light that arrives according to double precision integration.
#include "d3.hpp"
#include "utility/scene.hpp"
#include "utility/occlusion_tester.hpp"
#include "integrators/path_tracer.hpp"
#include "lights/area_light.hpp"
#include "samplers/sampler_random.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/microfacet.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/metals.hpp"
#include "materials/single_brdf.hpp"
#include "materials/multi_bsdf.hpp"
#include "textures/texture_uniform.hpp"
#include <memory>
static const int NS=sizeof(Spectrum)/sizeof(float);
static const int DIM=96;
static double gen[DIM]; static uint64_t pt=0,NPT=1; static int drawn=0;
static float number(uint64_t i,int d) { double x=(i+0.5)/NPT; if(d>0) { x=i*gen[d%DIM]+0.5*gen[(d*7+3)%DIM]+0.123*(d/DIM); x-=floor(x); } float f=(float)x; return f>=1?0.99999994f:f; }
extern "C" float __wrap__ZN7WELLrng9getNumberEv(void*) { return number(pt,drawn++); }
static void lattice(uint64_t n)
{
    NPT=n; int k=0; for(int p=2;k<DIM;p++) { bool pr=true; for(int q=2;q*q<=p;q++) if(p%q==0) pr=false; if(pr) { gen[k]=sqrt((double)p)-floor(sqrt((double)p)); k++; } }
}
struct Room
{
    Scene sc; std::vector<std::shared_ptr<Bsdf>> mats; std::vector<std::shared_ptr<Texture>> tx;
    struct L { AreaLight* l; Matrix4 m; int kind; Spectrum e; }; std::vector<L> lights;
    struct B { D3 c; double r; }; std::vector<B> blocks;
    Shape* q; Shape* s; bool built=false;
    Room() { q=quad(); s=new Sphere(); sc.inherit_shape(q); sc.inherit_shape(s); }
    const Bsdf* matte(const Spectrum& c) { auto t=std::make_shared<TextureUniform>(c); tx.push_back(t); auto m=std::make_shared<SingleBRDF>(new Lambertian(),t.get()); mats.push_back(m); return m.get(); }
    void dress(Asset* a,const Bsdf* m) { const Bsdf* x[1]={m}; std::vector<unsigned char> z(64,0); a->set_materials(x,1,z.data()); }
    Asset* thing(int kind,const Matrix4& t,const Bsdf* m) { Asset* a=new Asset(kind?s:q,t,1); dress(a,m); sc.inherit_asset(a); return a; }
    AreaLight* light(int kind,const Matrix4& t,const Spectrum& e,const Bsdf* m=NULL) { AreaLight* l=new AreaLight(kind?s:q,t,e); dress(l,m?m:matte(Spectrum(0.f))); sc.inherit_light(l); lights.push_back(L{l,t,kind,e}); return l; }
};
static Spectrum rgb(float a,float b,float c) { Spectrum s(0.f); for(int i=0;i<NS;i++) s.w[i]=i%3==0?a:i%3==1?b:c; return s; }
// unit quad -1..1 placed with its centre at c, sides u and v (normal u x v)
static Matrix4 place(D3 c,D3 u,D3 v)
{
    D3 n=nrm(crs(u,v)),o=c-u*0.5-v*0.5; float a[16]={(float)u[0],(float)v[0],(float)n[0],(float)o[0],(float)u[1],(float)v[1],(float)n[1],(float)o[1],(float)u[2],(float)v[2],(float)n[2],(float)o[2],0,0,0,1}; return Matrix4(a);
}
static bool blocked(const Room& r,D3 p,D3 q,const Room::L* self=NULL)
{
    for(auto& l:r.lights) if(&l!=self) { Aff a=aff(l.m); D3 o=a.ipt(p),d=a.ivec(q-p); if(l.kind==0) { if(d[2]==0) continue; double t=-o[2]/d[2]; D3 x=o+d*t; if(t>1e-6&&t<1-1e-6&&x[0]>0&&x[0]<1&&x[1]>0&&x[1]<1) return true; } else { double A=dt(d,d),B=dt(o,d),C=dt(o,o)-1,D=B*B-A*C; if(D<=0) continue; for(int s=-1;s<=1;s+=2) { double t=(-B+s*sqrt(D))/A; if(t>1e-6&&t<1-1e-6) return true; } } }
    D3 d=q-p; for(auto& b:r.blocks) { D3 o=p-b.c; double A=dt(d,d),B=dt(o,d),C=dt(o,o)-b.r*b.r,D=B*B-A*C; if(D<=0) continue; double t=(-B-sqrt(D))/A,t2=(-B+sqrt(D))/A; if((t>1e-6&&t<1-1e-6)||(t2>1e-6&&t2<1-1e-6)) return true; }
    return false;
}
// light arriving directly at p from all lights: sum of f(wi) * Le * cos * cos / d^2 dA
template<class F> static void direct(const Room& r,D3 p,D3 n,int N,F f,double* out)
{
    for(int k=0;k<NS;k++) out[k]=0;
    for(auto& l:r.lights)
    {
        Aff a=aff(l.m); std::vector<double> acc(NS,0.0);
        for(int i=0;i<N;i++) for(int j=0;j<N;j++)
        {
            double u=(i+0.5)/N,v=(j+0.5)/N; D3 q,ln; double dA;
            if(l.kind==0) { q=a.pt(d3(u,v,0)); ln=a.nor(d3(0,0,1)); D3 c=crs(a.c[0],a.c[1]); dA=sqrt(dt(c,c))/((double)N*N); }
            else { double z=1-2*u,ph=2*M_PI*v,s=sqrt(1-z*z); D3 o=d3(s*cos(ph),s*sin(ph),z); q=a.pt(o); ln=a.nor(o); dA=4*M_PI*dt(a.c[0],a.c[0])/((double)N*N); }
            D3 w=q-p; double d2=dt(w,w); w=w*(1/sqrt(d2)); double c1=dt(n,w),c2=-dt(ln,w); if(c2<=0||c1==0) continue;
            if(blocked(r,p,q,&l)) continue;
            double fv[16]; f(w,fv); for(int k=0;k<NS;k++) acc[k]+=fv[k]*fabs(c1)*c2/d2*dA;
        }
        for(int k=0;k<NS;k++) out[k]+=acc[k]*l.e.w[k];
    }
}
struct Probe { D3 eye,to; };
// the mean over the lattice of what the path tracer gives for one camera ray
static bool mean(Room& r,const Probe& pr,double* out,double* first,const char* what)
{
    if(!r.built) { r.sc.k.buildTree(); r.built=true; }
    D3 dir=nrm(pr.to-pr.eye); Ray ray(Point3(pr.eye[0],pr.eye[1],pr.eye[2]),Vec3(dir[0],dir[1],dir[2])); HitPoint h; h.asset_h=NULL;
    for(int k=0;k<NS;k++) out[k]=0;
    if(!r.sc.k.intersect(&ray,&h)) { vt::fail("nothing hit","%s",what); return false; }
    h.differentials=false; unsigned int seed[32]; for(int i=0;i<32;i++) seed[i]=i+1; SamplerRandom sam(0,2,0,2,1,seed); PathTracer tr_; const LightIntegrator& tr=tr_; OcclusionTester ot(&r.sc);
    bool ok=true;
    for(pt=0;pt<NPT;pt++)
    {
        drawn=0; Spectrum s=tr.radiance(&r.sc,&h,&ray,&sam,&ot); vt::count("evaluations");
        if(drawn>400) { vt::fail("path does not end","%s: point %llu of the lattice drew %d numbers",what,(unsigned long long)pt,drawn); ok=false; break; }
        for(int k=0;k<NS;k++) { if(!(s.w[k]>=0)||std::isinf(s.w[k])) { vt::fail("value","%s: point %llu of the lattice gives %g",what,(unsigned long long)pt,s.w[k]); ok=false; k=NS; pt=NPT; break; } out[k]+=s.w[k]; if(first&&pt==0) first[k]=s.w[k]; }
        vt::seen(vt::hash(&s,sizeof(float)*NS));
        if(pt%4096==0) vt::beat();
    }
    for(int k=0;k<NS;k++) out[k]/=NPT;
    return ok;
}
static void expect(Room& r,const Probe& pr,const double* want,double rel,double ab,const char* what,const char* key="wrong light")
{
    double got[16]; if(!mean(r,pr,got,NULL,what)) return;
    vt::count("integrals"); double worst=0; for(int k=0;k<NS;k++) worst=std::max(worst,fabs(got[k]-want[k])/(fabs(want[k])+1e-9));
    if(getenv("VT_SHOW")) fprintf(stderr,"%s: got %.5f want %.5f worst rel %.4f\n",what,got[0],want[0],worst);
    for(int k=0;k<NS;k++) if(!(fabs(got[k]-want[k])<=ab+rel*fabs(want[k]))) { vt::fail(key,"%s: the mean over all paths is %.5g instead of %.5g (channel %d)",what,got[k],want[k],k); return; }
}
// every single path gives the same
static void exact(Room& r,const Probe& pr,const double* want,const char* what)
{
    double got[16],one[16]; if(!mean(r,pr,got,one,what)) return; vt::count("integrals");
    for(int k=0;k<NS;k++) if(!(fabs(got[k]-want[k])<=1e-4*(1+want[k]))||!(fabs(one[k]-want[k])<=1e-4*(1+want[k]))) { vt::fail("wrong light","%s: %.6g (first path %.6g) instead of %.6g (channel %d)",what,got[k],one[k],want[k],k); return; }
}
static Vec3 V(D3 a) { return Vec3((float)a[0],(float)a[1],(float)a[2]); }
static const int FLOORS=5;
static const char* FN[FLOORS]={"matte","rough matte","glossy","matte and glossy","matte and mirror"};
static const Bsdf* floor_mat(Room& r,int k)
{
    Spectrum a(1.f),b(1.5f); std::shared_ptr<Bsdf> m; auto t=std::make_shared<TextureUniform>(rgb(0.8f,0.5f,0.3f)); r.tx.push_back(t);
    switch(k)
    {
        case 0: return r.matte(rgb(0.8f,0.5f,0.3f));
        case 1: m=std::make_shared<SingleBRDF>(new OrenNayar(0.5f),t.get()); break;
        case 2: m=std::make_shared<SingleBRDF>(new MicrofacetR(new GGXiso(0.5f),new Conductor(METALS[4].n,METALS[4].k)),t.get()); break;
        default: { auto q=std::make_shared<MultiBSDF>(); q->inherit_bdf(new Lambertian(),t.get()); if(k==3) q->inherit_bdf(new MicrofacetR(new GGXiso(0.6f),new Dielectric(a,b)),NULL); else q->inherit_bdf(new DielectricReflection(a,b),NULL); m=q; }
    }
    r.mats.push_back(m); return m.get();
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); const bool T=vt::thorough();
#ifdef __SANITIZE_ADDRESS__
    uint64_t N=T?8192:2048; double slack=3;
#else
    uint64_t N=T?(1<<19):(1<<15); double slack=1;
#endif
    const D3 X=d3(1,0,0),Y=d3(0,1,0),Z=d3(0,0,1); (void)Z;
    // 1: lights seen directly
    lattice(64);
    for(int kind=0;kind<2;kind++) for(int n=1;n<=3;n++) for(int refl=0;refl<2;refl++)
    {
        if(!vt::begin("%d lights, the first %s%s seen directly",n,kind?"ball":"square",refl?" on a matte body":"")) continue;
        Room r; Spectrum e=rgb(3,2,1); Matrix4 m=kind?m_mul(m_tr(0,0,2),m_sc(0.5f,0.5f,0.5f)):place(d3(0,0,2),X*2,Y*-2); // faces -z
        r.light(kind,m,e,refl?r.matte(Spectrum(0.5f)):NULL); for(int i=1;i<n;i++) r.light(0,place(d3(20*i,0,30),X,Y),rgb(1,5,2)); // face away from everything
        double w[16]; for(int k=0;k<NS;k++) w[k]=e.w[k]; exact(r,Probe{d3(0.1,0.2,-1),d3(0.1,0.05,2)},w,"in front of the light");
        if(kind==0) { for(int k=0;k<NS;k++) w[k]=0; exact(r,Probe{d3(0.1,0.2,6),d3(0.1,0.05,2)},w,"behind the light"); }
    }
    // 2: chains of mirrors
    for(int nm=0;nm<=6;nm++) for(int metal=0;metal<2;metal++)
    {
        if(!vt::begin("%d %s mirrors before the light",nm,metal?"silver":"glass")) continue;
        Room r; auto mm=std::make_shared<SingleBRDF>(metal?(Bdf*)new ConductorReflection(METALS[0].n,METALS[0].k):(Bdf*)new DielectricReflection(Spectrum(1.f),Spectrum(1.5f))); r.mats.push_back(mm);
        r.thing(0,place(d3(0,0,0),Y*60,Z*60),mm.get()); r.thing(0,place(d3(1,0,0),Y*60,Z*-60),mm.get()); // x=0 looks to +x, x=1 to -x
        Spectrum e=rgb(3,2,1);
        // zigzag: starts at x=0.5,y=0 and moves 1 in y for each 1 in x: hits walls at y=0.5,1.5,2.5...
        double y=nm; r.light(0,place(d3(0.5,y,0),X*0.9,Z*0.9),e); // normal X x Z = -Y: towards the ray
        // reflectance at 45 degrees from the material itself
        double F[16]; { HitPoint h; memset((void*)&h,0,sizeof h); h.normal_h=Normal(1,0,0); h.dpdu=Vec3(0,1,0); h.dpdv=Vec3(0,0,1); ShadingSpace ms; Normal sn; mm->gen_shading_matrix(&h,&ms,&sn); Vec3 wo((float)sqrt(0.5),(float)-sqrt(0.5),0),wi; float pdf; bool sp; Spectrum f=mm->sample_value(0.3f,0.4f,0.6f,&wo,&h,&ms,&wi,&pdf,true,&sp); for(int k=0;k<NS;k++) F[k]=f.w[k]*fabs(wi.x)/pdf; }
        double w[16]; for(int k=0;k<NS;k++) w[k]=nm<=5?e.w[k]*pow(F[k],nm):0;
        lattice(4096); char b[100]; snprintf(b,100,"%d mirrors",nm);
        if(nm<4||nm==6) exact(r,nm?Probe{d3(0.5,0,0),d3(0.7,0.2,0)}:Probe{d3(0.5,-0.5,0),d3(0.55,0,0)},w,b); // before the paths are cut at random
        else expect(r,Probe{d3(0.5,0,0),d3(0.7,0.2,0)},w,0.02,1e-4,b);
    }
    // 3: light falling directly on a floor
    for(int fl=0;fl<FLOORS;fl++) for(int ls=0;ls<9;ls++) for(int oc=0;oc<2;oc++)
    {
        if(!T && oc && (fl+ls)%3) continue;
        static const char* LN[]={"a square light","a tilted square light","two square lights","a square and a small tilted square light","three lights of different size","four lights, two of them hidden behind the floor","a small light far away","a large light behind a small one","a shining ball before a large light"};
        if(!vt::begin("%s floor under %s%s",FN[fl],LN[ls],oc?" with a ball in between":"")) continue;
        Room r; const Bsdf* fm=floor_mat(r,fl); r.thing(0,place(d3(0,0,0),Z*40,X*40),fm); // normal +y
        Spectrum e1=rgb(4,2,1),e2=rgb(1,3,6),e3=rgb(10,10,2);
        auto sq=[&](D3 c,double s,const Spectrum& e){ r.light(0,place(c,X*s,Z*s),e); }; // faces down
        auto tilted=[&](D3 c,double s,const Spectrum& e){ r.light(0,place(c,d3(0.8,0.6,0)*s,d3(-0.3,0.4,0.86603)*(s*0.8)),e); };
        if(ls==0) sq(d3(0.5,2,0),1.5,e1); if(ls==1) tilted(d3(-0.4,2,0.5),1.5,e1);
        if(ls==2) { sq(d3(-1,2,0),1,e1); sq(d3(1.5,1.5,0.5),1,e2); } if(ls==3) { sq(d3(-1,2,0),1,e1); tilted(d3(1,1.5,0),0.7,e2); }
        if(ls==4) { sq(d3(-1,2,0),1,e1); sq(d3(1.5,2.5,0.5),0.5,e2); sq(d3(0,3,-2),2,e3); } if(ls==5) { sq(d3(-1,2,0),1,e1); sq(d3(0,-1,0),1,e2); sq(d3(1,-2,0),1,e3); sq(d3(1,2,1),1,e3); }
        if(ls==6) sq(d3(3,9,2),0.5,e3);
        if(ls==7) { sq(d3(0.2,2,0.2),2.5,e1); sq(d3(0.1,1.2,0),0.8,e2); }
        if(ls==8) { sq(d3(0.2,2.4,0.2),2.5,e1); r.light(1,m_mul(m_tr(0.4f,1.5f,0.1f),m_sc(0.3f,0.3f,0.3f)),Spectrum(0.f)); }
        if(oc) { r.thing(1,m_mul(m_tr(0.3f,1,0.1f),m_sc(0.35f,0.35f,0.35f)),r.matte(Spectrum(0.f))); r.blocks.push_back({d3(0.3,1,0.1),0.35}); }
        lattice(N);
        for(D3 p:{d3(0.2,0,0.1),d3(-0.7,0,0.4),d3(1.4,0,-0.8)})
        {
            D3 eye=d3(-2,2.2,-1.5); D3 wo=nrm(eye-p);
            HitPoint h; memset((void*)&h,0,sizeof h); h.normal_h=Normal(0,1,0); h.dpdu=Vec3(0,0,1); h.dpdv=Vec3(1,0,0); h.point_h=Point3(p[0],p[1],p[2]); ShadingSpace ms; Normal sn; fm->gen_shading_matrix(&h,&ms,&sn); Vec3 vo=V(wo);
            double w[16]; Room ref; (void)ref;
            // lights below the floor give nothing: the floor hides them
            std::vector<Room::L> keep=r.lights; r.lights.clear(); for(auto& l:keep) if(l.m.m13>0) r.lights.push_back(l);
            direct(r,p,d3(0,1,0),fl>=2?200:100,[&](D3 wi,double* fv){ Vec3 vi=V(wi); Spectrum s=fm->value(&vo,&h,&vi,&ms,false); for(int k=0;k<NS;k++) fv[k]=s.w[k]; },w);
            r.lights=keep;
            if(fl==4) // the mirror shows a light, if one is there
            {
                D3 rd=d3(-wo[0],wo[1],-wo[2]); double best=1e30; const Room::L* hit=NULL; bool front=true;
                for(auto& l:r.lights) { Aff a=aff(l.m); D3 o=a.ipt(p),d=a.ivec(rd); double t=-1; if(l.kind==0) { if(d[2]!=0) { t=-o[2]/d[2]; D3 q=o+d*t; if(q[0]<0||q[0]>1||q[1]<0||q[1]>1) t=-1; } } else { double A=dt(d,d),B=dt(o,d),C=dt(o,o)-1,D=B*B-A*C; if(D>0) t=(-B-sqrt(D))/A; } if(t>1e-6&&t<best) { best=t; hit=&l; front=l.kind==1||dt(a.nor(d3(0,0,1)),rd)<0; } }
                if(hit&&front&&!blocked(r,p,p+rd*best,hit)) { double c=rd[1],s2=(1-c*c)/2.25,ct=sqrt(1-s2),rs=(c-1.5*ct)/(c+1.5*ct),rp=(1.5*c-ct)/(1.5*c+ct),Fr=(rs*rs+rp*rp)/2; for(int k=0;k<NS;k++) w[k]+=Fr*hit->e.w[k]; }
            }
            char b[100]; snprintf(b,100,"at %g,%g,%g",p[0],p[1],p[2]); expect(r,Probe{eye,p},w,(ls==6?0.03:0.02)*slack*(fl==4?2:1)*(oc?2:1),2e-3*slack,b);
        }
    }
    // closed lights: see also C18
    if(vt::begin("matte floor under a shining ball"))
    {
        Room r; r.thing(0,place(d3(0,0,0),Z*40,X*40),floor_mat(r,0)); r.light(1,m_mul(m_tr(0,2,0.5f),m_sc(0.5f,0.5f,0.5f)),rgb(4,2,1)); lattice(N);
        D3 p=d3(0.2,0,0.1); double w[16]; direct(r,p,Y,100,[&](D3,double* f){ for(int k=0;k<NS;k++) f[k]=(k%3==0?0.8:k%3==1?0.5:0.3)/M_PI; },w); expect(r,Probe{d3(-2,2.2,-1.5),p},w,0.03*slack,0,"under the ball","a ball gives more light than its visible side");
    }
    // 4: closed box whose walls shine and reflect: the geometric series
    for(int ri=0;ri<4;ri++)
    {
        static const float rho[]={0,0.2f,0.5f,0.8f}; if(!vt::begin("closed box of shining walls that reflect %g",rho[ri])) continue;
        Room r; Spectrum e=rgb(1,2,3); for(int ax=0;ax<3;ax++) for(int s=-1;s<=1;s+=2) { D3 c=d3(0,0,0); c[ax]=s; D3 u=d3(0,0,0),v=u; u[(ax+1)%3]=2; v[(ax+2)%3]=2; r.light(0,place(c,s<0?u:v,s<0?v:u),e,r.matte(Spectrum(rho[ri]))); }
        double w[16]; for(int k=0;k<NS;k++) { w[k]=0; for(int i=0;i<=6;i++) w[k]+=e.w[k]*pow(rho[ri],i); }
        lattice(N); expect(r,Probe{d3(0.1,0.2,-0.3),d3(0.3,-1,0.4)},w,0.02*slack,0,"floor"); expect(r,Probe{d3(0.1,0.2,-0.3),d3(1,0.1,0.2)},w,0.02*slack,0,"wall");
    }
    // 5: floor and wall that light each other
    for(int g=0;g<(T?3:2);g++)
    {
        static const float rf[]={0.9f,0.3f,0.6f},rw[]={0.9f,0.8f,0.2f}; if(!vt::begin("floor reflecting %g and wall reflecting %g",rf[g],rw[g])) continue;
        Room r; const int P=T?64:40; r.thing(0,place(d3(2,0,0),Z*4,X*4),r.matte(Spectrum(rf[g]))); r.thing(0,place(d3(0,2,0),Y*4,Z*4),r.matte(Spectrum(rw[g]))); // floor normal +y, wall normal +x
        Spectrum e=rgb(6,3,9); r.light(0,place(d3(2.2,3.2,0.3),X*1.5,Z*1.5),e);
        std::vector<D3> c(2*P*P); std::vector<std::vector<double>> E(2*P*P,std::vector<double>(NS)),cur,tot; double h=4.0/P;
        for(int i=0;i<P;i++) for(int j=0;j<P;j++) { c[i*P+j]=d3((i+0.5)*h,0,-2+(j+0.5)*h); c[P*P+i*P+j]=d3(0,(i+0.5)*h,-2+(j+0.5)*h); }
        for(int i=0;i<2*P*P;i++) { double w[16]; direct(r,c[i],i<P*P?Y:X,12,[&](D3,double* f){ for(int k=0;k<NS;k++) f[k]=1; },w); for(int k=0;k<NS;k++) E[i][k]=w[k]; }
        vt::beat();
        auto gather=[&](D3 p,D3 n,bool wall,const std::vector<std::vector<double>>& B,double* out){ for(int k=0;k<NS;k++) out[k]=0; for(int i=0;i<P*P;i++) { int q=wall?i:P*P+i; D3 w=c[q]-p; double d2=dt(w,w); double c1=dt(w,n),c2=-dt(w,wall?Y:X); if(c1<=0||c2<=0) continue; double f=c1*c2/(d2*d2)/M_PI*h*h; for(int k=0;k<NS;k++) out[k]+=f*B[q][k]; } };
        // irradiance by number of bounces; radiosity = rho*E
        tot=E; cur=E; for(int b=0;b<5;b++) { std::vector<std::vector<double>> B(2*P*P,std::vector<double>(NS)),n=B; for(int i=0;i<2*P*P;i++) for(int k=0;k<NS;k++) B[i][k]=cur[i][k]*(i<P*P?rf[g]:rw[g]); for(int i=0;i<2*P*P;i++) { gather(c[i],i<P*P?Y:X,i>=P*P,B,n[i].data()); } cur=n; if(b<4) for(int i=0;i<2*P*P;i++) for(int k=0;k<NS;k++) tot[i][k]+=n[i][k]; vt::beat(); }
        std::vector<std::vector<double>> B=tot; for(int i=0;i<2*P*P;i++) for(int k=0;k<NS;k++) B[i][k]*=(i<P*P?rf[g]:rw[g]);
        lattice(N);
        for(D3 p:{d3(0.6,0,0.2),d3(1.5,0,-0.5),d3(0,0.8,0.3),d3(0,1.9,-1)})
        {
            bool wall=p[0]==0; double w[16],in[16]; direct(r,p,wall?X:Y,80,[&](D3,double* f){ for(int k=0;k<NS;k++) f[k]=1; },w); gather(p,wall?X:Y,wall,B,in);
            for(int k=0;k<NS;k++) w[k]=(w[k]+in[k])*(wall?rw[g]:rf[g])/M_PI;
            char b[100]; snprintf(b,100,"at %g,%g,%g",p[0],p[1],p[2]); expect(r,Probe{d3(3,1.5,-1.5),p},w,0.02*slack,0,b);
        }
    }
    // 6: nothing shines
    if(vt::begin("no lights")) { Room r; r.thing(0,place(d3(0,0,0),Z*40,X*40),r.matte(Spectrum(0.9f))); r.thing(1,m_tr(1,1,1),r.matte(Spectrum(0.9f))); double w[16]={0}; lattice(512); exact(r,Probe{d3(0,2,-2),d3(0,0,0)},w,"floor"); }
    return vt::finish();
}
