// Materials made of several lobes: every combination of up to three lobes with
// textures of their own, in turned frames, for all pairs of a set of directions
// and all random numbers around the borders between the lobes, against the sum
// over the lobes; dual materials and their masks; frames.
#include "d3.hpp"
#include "img_util.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/microfacet.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/metals.hpp"
#include "materials/single_brdf.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/dual.hpp"
#include "materials/bump.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_image.hpp"
#include <memory>
static const int NS=sizeof(Spectrum)/sizeof(float);
static const int NK=8;
static const char* KN[NK]={"matte","rough matte","glossy","frosted","mirror of glass","clear glass","metal","rough metal"};
static Bdf* lobe(int k)
{
    Spectrum a(1.f),b(1.5f),n(METALS[4].n),q(METALS[4].k);
    switch(k) { case 0: return new Lambertian(); case 1: return new OrenNayar(0.6f); case 2: return new MicrofacetR(new GGXiso(0.4f),new Dielectric(a,b)); case 3: return new MicrofacetT(new GGXiso(0.4f),a,b); case 4: return new DielectricReflection(a,b); case 5: return new Refraction(a,b); case 6: return new ConductorReflection(n,q); default: return new MicrofacetR(new Beckmann(0.5f),new Conductor(n,q)); }
}
static bool spec(int k) { return k>=4&&k<=6; }
static bool btdf(int k) { return k==3||k==5; }
// a texture that differs for each lobe and place
struct Paint: public Texture
{
    int id; Paint(int id):id(id) { }
    Spectrum at(const HitPoint* h) const { Spectrum s(0.f); for(int j=0;j<NS;j++) s.w[j]=0.1f+0.17f*id+0.05f*(j%3)+0.3f*h->uv.x+0.1f*h->uv.y; return s; }
    Spectrum map(const HitPoint* h) const { return at(h); }
};
struct Frame { D3 s,t,n; const char* name; };
static HitPoint hit(const Frame& f,double u,double v)
{ HitPoint h; memset((void*)&h,0,sizeof h); h.point_h=Point3(1,2,3); h.normal_h=Normal(f.n[0],f.n[1],f.n[2]); h.dpdu=Vec3(f.s[0],f.s[1],f.s[2]); h.dpdv=Vec3(f.t[0],f.t[1],f.t[2]); h.uv=Point2(u,v); h.differentials=false; h.asset_h=NULL; return h; }
static D3 toW(const Frame& f,D3 a) { return f.s*a[0]+f.t*a[1]+f.n*a[2]; }
static D3 toS(const Frame& f,D3 a) { return d3(dt(a,f.s),dt(a,f.t),dt(a,f.n)); }
static Vec3 V(D3 a) { return Vec3((float)a[0],(float)a[1],(float)a[2]); }
static bool near(double a,double b,double rel,double ab) { return fabs(a-b)<=ab+rel*std::max(fabs(a),fabs(b)); }
static bool bad(double x) { return !(x==x)||std::isinf(x); }
struct Mat
{
    std::vector<int> k; std::vector<std::shared_ptr<Bdf>> l; std::vector<std::shared_ptr<Paint>> tx; std::shared_ptr<Bsdf> m; std::string name; bool textured;
    // sum over the lobes that take part
    Spectrum value(const HitPoint* h,D3 o,D3 i,bool refl) const { Spectrum r(0.f); Vec3 ov=V(o),iv=V(i); for(size_t a=0;a<k.size();a++) if(!spec(k[a])&&refl==!btdf(k[a])) { Spectrum z=l[a]->value(&ov,&iv); if(textured) z*=tx[a]->at(h); r+=z; } return r; }
    double pdf(D3 o,D3 i,bool ms,bool refl) const { double p=0; int n=0; Vec3 ov=V(o),iv=V(i); for(size_t a=0;a<k.size();a++) if(ms||!spec(k[a])) { n++; if(!spec(k[a])&&refl==!btdf(k[a])) p+=l[a]->pdf(&ov,&iv); } return n?p/n:0; }
};
static Mat make(const std::vector<int>& k,bool single,bool textured)
{
    Mat r; r.k=k; r.textured=textured; r.name=single?"single":"several"; for(size_t a=0;a<k.size();a++) { r.name+=std::string(a?", ":": ")+KN[k[a]]; r.l.push_back(std::shared_ptr<Bdf>(lobe(k[a]))); r.tx.push_back(std::make_shared<Paint>((int)a)); } if(!textured) r.name+=", no texture";
    if(single) r.m=textured?std::make_shared<SingleBRDF>(lobe(k[0]),r.tx[0].get()):std::make_shared<SingleBRDF>(lobe(k[0])); else { auto m=std::make_shared<MultiBSDF>(); for(size_t a=0;a<k.size();a++) if(textured) m->inherit_bdf(lobe(k[a]),r.tx[a].get()); else m->inherit_bdf(lobe(k[a])); r.m=m; } return r;
}
static std::vector<D3> dirs() { std::vector<D3> r; for(int s=1;s>=-1;s-=2) for(double c:{0.98,0.6,0.2}) for(int p=0;p<4;p++) { double ph=0.4+p*1.57,q=sqrt(1-c*c); r.push_back(d3(q*cos(ph),q*sin(ph),s*c)); } return r; }
// a bump that gives a frame of its own
struct Tilted: public Bump { double a; Tilted(double x):a(x) {} void bump(const HitPoint* hp,ShadingSpace* ms,Normal* n) const override { Bump::bump(hp,ms,n); D3 x=D(ms->s),z=D(ms->n); D3 z2=z*cos(a)+x*sin(a),x2=x*cos(a)-z*sin(a); D3 y2=crs(z2,x2); ms->s=V(x2); ms->t=V(y2); ms->n=Normal((float)z2[0],(float)z2[1],(float)z2[2]); n->x=(float)z2[0]; n->y=(float)z2[1]; n->z=(float)z2[2]; } };
// tilt: the frame a normal map gives in place of the one of the surface; sides are told by the surface
static void judge(const Mat& m,const Frame& sf,const std::vector<D3>& dv,bool T,const Frame* tilt=NULL)
{
    const Frame& f=tilt?*tilt:sf; HitPoint h=hit(sf,0.3,0.6); ShadingSpace ms; Normal sn; m.m->gen_shading_matrix(&h,&ms,&sn); if(fabs(dt(D(sn),sf.n)-1)>1e-5) vt::fail("wrong shading normal","%s, %s",m.name.c_str(),f.name); char w[200]; snprintf(w,200,"%s, frame %s%s",m.name.c_str(),sf.name,tilt?", mapped normal":"");
    if(tilt) { ms.s=V(tilt->s); ms.t=V(tilt->t); ms.n=Normal((float)tilt->n[0],(float)tilt->n[1],(float)tilt->n[2]); }
    for(auto& o:dv) for(auto& i:dv) for(int q=0;q<2;q++)
    {
        Vec3 ow=V(toW(f,o)),iw=V(toW(f,i)); D3 os=toS(f,D(ow)),is=toS(f,D(iw)); double sd=dt(D(ow),sf.n)*dt(D(iw),sf.n); if(fabs(sd)<1e-4) continue; bool refl=sd>0,agree=refl==(os[2]*is[2]>0); vt::count("evaluations"); Spectrum s=m.m->value(&ow,&h,&iw,&ms,q!=0),r=m.value(&h,os,is,refl); double p=m.m->pdf(&ow,&h,&ms,&iw,q!=0),rp=m.pdf(os,is,q!=0,refl);
        for(int j=0;j<NS;j++) if(bad(s.w[j])||!near(s.w[j],r.w[j],5e-3,1e-4)) { vt::fail("value of a material is not the sum of its lobes","%s: %g instead of %g",w,s.w[j],r.w[j]); break; } if(agree&&(bad(p)||!near(p,rp,5e-3,1e-4))) vt::fail("density of a material is not the mean of its lobes","%s: %g instead of %g",w,p,rp); vt::seen(vt::mix(1,(uint64_t)(s.w[0]*1000)));
    }
    std::vector<float> rs={0.1f,0.33f,0.62f,0.9f}; for(auto& o:dv) for(int q=0;q<2;q++)
    {
        std::vector<int> e; for(size_t a=0;a<m.k.size();a++) if(q||!spec(m.k[a])) e.push_back(a); int n=e.size(); std::vector<float> r0s={0.f,1e-7f,0.5f,0.99999994f,1.f}; for(int a=1;a<n;a++) { float b=(float)a/n; r0s.push_back(b-1e-5f); r0s.push_back(b+1e-5f); } for(int a=0;a<n;a++) r0s.push_back((a+0.5f)/n);
        for(float r0:r0s) for(float r1:rs) for(float r2:rs)
        {
            if(!T&&(r1==rs[0])!=(r2==rs[1])&&r0!=0.5f) continue; Vec3 ow=V(toW(f,o)),iw; D3 os=toS(f,D(ow)); float p=-1; bool sp=false; vt::count("evaluations"); Spectrum s=m.m->sample_value(r0,r1,r2,&ow,&h,&ms,&iw,&p,q!=0,&sp); char c[300]; snprintf(c,300,"%s, from %.4g %.4g %.4g with %.8g %g %g%s",w,o[0],o[1],o[2],r0,r1,r2,q?", mirrors too":"");
            if(n==0) { if(p!=0||!s.is_black()) vt::fail("light from a material without lobes","%s",c); continue; } int ch=std::min(n-1,(int)((double)r0*n)); int k=m.k[e[ch]]; const Bdf* b=m.l[e[ch]].get(); Vec3 os2=V(os),ri(0.f,0.f,0.f); float rp=-1; Spectrum rs_=b->sample_value(&os2,&ri,r1,r2,&rp);
            if(bad(p)||p<0||bad(s.w[0])) { vt::fail("sampled material is not a number","%s",c); continue; } if(rp==0) { if(p!=0&&!s.is_black()) { vt::fail("light where the lobe has none","%s",c); } continue; }
            D3 i=D(iw),x=toW(f,D(ri)),g=i-x; if(dt(g,g)>1e-4) { vt::fail("sampled direction is not the one of the chosen lobe","%s: %g %g %g instead of %g %g %g",c,i[0],i[1],i[2],x[0],x[1],x[2]); continue; } if(p!=0&&sp!=spec(k)) vt::fail("mirrors not reported","%s",c);
            D3 is=D(ri); if(fabs(is[2])<0.02) continue; Spectrum r(0.f); double wp; if(spec(k)) { r=rs_; if(m.textured) r*=m.tx[e[ch]]->at(&h); wp=1./n; } else { double sd=dt(D(ow),sf.n)*dt(toW(f,is),sf.n); if(fabs(sd)<1e-3) continue; r=m.value(&h,os,is,sd>0); wp=m.pdf(os,is,q!=0,sd>0); }
            if(k==3&&wp*n<1e-3) continue; // facets close to facing away
            for(int j=0;j<NS;j++) if(!near(s.w[j],r.w[j],3e-2,2e-4)) { vt::fail("sampled value of a material is not the sum of its lobes","%s: %g instead of %g",c,s.w[j],r.w[j]); break; } if(!near(p,wp,3e-2,2e-4)) vt::fail("sampled density of a material is not the mean of its lobes","%s: %g instead of %g",c,p,wp); vt::seen(vt::mix(2,(uint64_t)(p*1000)));
        }
    }
    vt::beat();
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough(); if(!freopen("/dev/null","w",stdout)||!freopen("/dev/null","w",stderr)) return 1;
    std::vector<Frame> fr; { static const char* NM[]={"upright","turned","upside down","sideways","oblique","steep"}; double A[6][3]={{0,0,0},{0,0,1},{M_PI,0,0.3},{0,M_PI/2,0},{0.7,-1.1,2.2},{2.4,0.5,-0.9}}; for(int i=0;i<6;i++) { Matrix4 m=m_rot(A[i][0],A[i][1],A[i][2]); Frame f; f.s=nrm(D(m*Vec3(1,0,0))); f.n=D(m*Vec3(0,0,1)); f.n=nrm(f.n-f.s*dt(f.n,f.s)); f.t=crs(f.n,f.s); f.name=NM[i]; fr.push_back(f); } }
    std::vector<D3> dv=dirs();
    // frames of normal maps over them
    std::vector<Frame> tl; for(size_t i=0;i<fr.size();i++) { double A[6][2]={{0.4,0.2},{-0.5,0.6},{0.9,-0.3},{-0.3,-0.8},{0.2,1.0},{0.7,0.7}}; Matrix4 q=m_rot((float)A[i][0],(float)A[i][1],0.5f); Frame g; auto tw=[&](float x,float y,float z) { return toW(fr[i],D(q*Vec3(x,y,z))); }; g.n=nrm(tw(0,0,1)); g.s=tw(1,0,0); g.s=nrm(g.s-g.n*dt(g.s,g.n)); g.t=crs(g.n,g.s); g.name=fr[i].name; tl.push_back(g); }
    // 0. hit points whose tangents are neither orthogonal nor of unit length
    for(auto& f:fr) for(int e=0;e<5;e++) if(vt::begin("frame of a hit, %s, tangents of length 1e%d",f.name,3*e-6))
    {
        double len=pow(10,3*e-6);
        for(int a=0;a<=24;a++) for(int b=0;b<24;b++)
        {
            double th=M_PI*a/24,ph=2*M_PI*b/24; D3 u=toW(f,d3(sin(th)*cos(ph),sin(th)*sin(ph),cos(th))),v=toW(f,d3(cos(ph),-sin(ph),0.3)); Frame g=f; g.s=u*len; g.t=v*len; HitPoint h=hit(g,0.2,0.7); vt::count("evaluations");
            Bump bp; ShadingSpace ms; Normal n; bp.bump(&h,&ms,&n); D3 x=D(ms.s),y=D(ms.t),z=D(ms.n);
            if(!(fabs(dt(x,x)-1)<1e-4&&fabs(dt(y,y)-1)<1e-4&&fabs(dt(z,z)-1)<1e-4&&fabs(dt(x,y))<1e-3&&fabs(dt(x,z))<1e-3&&fabs(dt(y,z))<1e-3)) { vt::fail("frame not orthonormal","%s: s %g %g %g t %g %g %g n %g %g %g for a tangent at %g degrees from the normal",f.name,x[0],x[1],x[2],y[0],y[1],y[2],z[0],z[1],z[2],th*180/M_PI); continue; }
            if(!(dt(z,f.n)>0.9999)) vt::fail("wrong shading normal","%s",f.name);
            if(a>0&&a<24&&(!(dt(x,u)>0)||fabs(dt(x,crs(u,f.n)))>2e-3)) vt::fail("frame turned away from the tangent","%s: %g",f.name,dt(x,u));
            if(dt(crs(x,y),z)<0) vt::fail("frame is mirrored","%s",f.name);
            // a turn there and back
            Vec3 t=ms.to_world(ms.to_shading(V(u))); D3 d=D(t)-u; if(!(dt(d,d)<1e-6)) vt::fail("wrong direction in the frame","%s",f.name);
        }
    }
    // tangents along the normal, or none at all
    for(int k=0;k<27;k++) if(k!=13&&vt::begin("frame of a normal %d %d %d with no usable tangent",k%3-1,k/3%3-1,k/9-1)) for(double len:{0.,1e-6,-1e-3,1.,-2.,1e5}) for(int w=0;w<3;w++)
    {
        Frame g=fr[0]; g.n=nrm(d3(k%3-1,k/3%3-1,k/9-1)); g.s=g.n*len; g.t=w==0?g.n*len:w==1?d3(0,0,0):d3(0.3,-0.2,0.9); HitPoint h=hit(g,0.2,0.7); vt::count("evaluations");
        Bump bp; ShadingSpace ms; Normal n; bp.bump(&h,&ms,&n); D3 x=D(ms.s),y=D(ms.t),z=D(ms.n);
        if(!(fabs(dt(x,x)-1)<1e-4&&fabs(dt(y,y)-1)<1e-4&&fabs(dt(z,z)-1)<1e-4&&fabs(dt(x,y))<1e-3&&fabs(dt(x,z))<1e-3&&fabs(dt(y,z))<1e-3&&dt(z,g.n)>0.9999)) vt::fail("frame not orthonormal","normal %d %d %d, tangent %g times the normal: s %g %g %g t %g %g %g",k%3-1,k/3%3-1,k/9-1,len,x[0],x[1],x[2],y[0],y[1],y[2]);
        else if(dt(crs(x,y),z)<0) vt::fail("frame is mirrored","normal %d %d %d, no usable tangent",k%3-1,k/3%3-1,k/9-1);
    }
    // 1. frames
    for(auto& f:fr) if(vt::begin("frame %s",f.name))
    {
        HitPoint h=hit(f,0.2,0.7); Bump b; ShadingSpace ms; Normal n; b.bump(&h,&ms,&n); D3 g=D(n)-f.n; if(dt(g,g)>1e-9) vt::fail("wrong shading normal","%s",f.name);
        int N=T?60:24; for(int i=0;i<=N;i++) for(int j=0;j<=2*N;j++) for(double len:{1.,0.2,30.}) { double th=M_PI*i/N,ph=M_PI*j/N; D3 v=d3(sin(th)*cos(ph),sin(th)*sin(ph),cos(th)); vt::count("evaluations"); D3 a=D(ms.to_world(V(v*len))),x=toW(f,v),e=a-x,c=D(ms.to_shading(V(x*len))),k=c-v; if(!(dt(e,e)<1e-9)) vt::fail("wrong direction in the world","%s: %g %g %g instead of %g %g %g",f.name,a[0],a[1],a[2],x[0],x[1],x[2]); if(!(dt(k,k)<1e-9)) vt::fail("wrong direction in the frame","%s",f.name); }
    }
    // 2. materials
    std::vector<std::vector<int>> sets; sets.push_back({}); for(int a=0;a<NK;a++) { sets.push_back({a}); for(int b=0;b<NK;b++) { sets.push_back({a,b}); for(int c=0;c<NK;c++) if(T||(a*5+b*3+c)%7==0||(a==b&&b!=c)) { sets.push_back({a,b,c}); if(T&&(a+b+c)%4==0) for(int d=0;d<NK;d+=3) { sets.push_back({a,b,c,d}); sets.push_back({a,b,c,d,(d+1)%NK}); } } } } sets.push_back({4,0,5,2}); sets.push_back({5,6,4,0,2}); sets.push_back({0,1,2,3,7});
    for(size_t i=0;i<sets.size();i++) for(int tx=1;tx>=0;tx--) if(tx||sets[i].size()<3) { std::string nm; for(int k:sets[i]) nm+=std::string(" ")+std::to_string(k); if(vt::begin("material of lobes%s, %stextured",nm.c_str(),tx?"":"not ")) { Mat m=make(sets[i],false,tx!=0); for(size_t f=0;f<fr.size();f++) { if(sets[i].size()<2||T||(i+f)%3==0) judge(m,fr[f],dv,T); if(sets[i].size()<2||T||(i+f)%6==1) judge(m,fr[f],dv,T,&tl[f]); } vt::sample("%s",m.name.c_str()); } }
    for(int k=0;k<NK;k++) for(int tx=0;tx<2;tx++) if(vt::begin("material of the single lobe %d%s",k,tx?"":", no texture"))
    {
        if(btdf(k)) { SingleBRDF m(lobe(k)); HitPoint h=hit(fr[0],0,0); ShadingSpace ms; Normal n; m.gen_shading_matrix(&h,&ms,&n); Vec3 o(0.6f,0,0.8f),i(0,0.6f,0.8f); vt::count("evaluations"); if(!near(m.value(&o,&h,&i,&ms,true).w[0],1/M_PI,1e-4,0)) vt::fail("single lobe that refracts is not replaced by a matte one","%s",KN[k]); continue; }
        Mat m=make({k},true,tx!=0); for(size_t f=0;f<fr.size();f++) { judge(m,fr[f],dv,T); judge(m,fr[f],dv,T,&tl[f]); }
    }
    for(int n=1;n<=8;n++) if(vt::begin("material given %d lobes",n)) { MultiBSDF m; int keep=std::min(n,_MAX_BDF_); for(int i=0;i<n;i++) m.inherit_bdf(new Lambertian(),NULL); HitPoint h=hit(fr[0],0,0); ShadingSpace ms; Normal nn; m.gen_shading_matrix(&h,&ms,&nn); Vec3 o(0.6f,0,0.8f),i(0,0.6f,0.8f); vt::count("evaluations"); double v=m.value(&o,&h,&i,&ms,true).w[0],p=m.pdf(&o,&h,&ms,&i,true); if(!near(v,keep/M_PI,1e-4,0)||!near(p,0.8/M_PI,1e-4,0)) vt::fail("value of a material is not the sum of its lobes","%d matte lobes: %g, density %g",n,v,p); }
    // 3. dual materials: the mask decides
    for(int inv=0;inv<2;inv++) for(int a=0;a<4;a++) for(int b=0;b<4;b++) if(vt::begin("dual material %d %d%s",a,b,inv?", inverted":""))
    {
        static const std::vector<int> S[4]={{0},{2,0},{5,4},{7}}; Mat m[2]={make(S[a],S[a].size()==1,true),make(S[b],false,true)}; for(auto& t:m[1].tx) t->id+=2; m[0].m->inherit_bump(new Tilted(0.2)); m[1].m->inherit_bump(new Tilted(-0.3));
        std::vector<uint32_t> px={pix(255,255,255),pix(0,0,0),pix(127,127,127),pix(128,128,128)}; ImageMapUnfiltered map((const pixBGRA*)px.data(),2); Vec2 z(0.f),one(1.f); TextureImage ti(&map,z,one,true); MaskBoolean mask(&ti,RED,inv!=0); DualBsdf dual(m[0].m.get(),m[1].m.get(),mask); MaskBoolean none; DualBsdf plain(m[0].m.get(),m[1].m.get(),none);
        for(auto& f:fr) for(int q=0;q<5;q++)
        {
            HitPoint h=hit(f,q%2*0.5+0.25,q/2%2*0.5+0.25); bool first=q==4||mask.is_visible(&h); if(q<4) { int v=px[q]>>8&255; (void)v; } const Bsdf& d=q==4?(const Bsdf&)plain:dual; const Bsdf* r=m[first?0:1].m.get(); ShadingSpace ms,ms2; Normal n,n2; d.gen_shading_matrix(&h,&ms,&n); r->gen_shading_matrix(&h,&ms2,&n2); if(memcmp(&ms,&ms2,sizeof ms)||memcmp(&n,&n2,sizeof n)) vt::fail("dual material does not use the frame of the material shown","%d %d",a,b);
            int seen=0; for(auto& o:dv) for(auto& i:dv) { Vec3 ow=V(toW(f,o)),iw=V(toW(f,i)); vt::count("evaluations"); Spectrum s=d.value(&ow,&h,&iw,&ms,true),e=r->value(&ow,&h,&iw,&ms,true); if(memcmp(s.w,e.w,sizeof s.w)||d.pdf(&ow,&h,&ms,&iw,false)!=r->pdf(&ow,&h,&ms,&iw,false)||d.pdf(&ow,&h,&ms,&iw,true)!=r->pdf(&ow,&h,&ms,&iw,true)) vt::fail("dual material shows the wrong material","%d %d texel %d",a,b,q); seen++;
                for(float r0:{0.2f,0.8f}) for(int sp=0;sp<2;sp++) { Vec3 x,y; float p=-1,p2=-1; bool t1=false,t2=false; Spectrum u=d.sample_value(r0,0.3f,0.6f,&ow,&h,&ms,&x,&p,sp!=0,&t1),v=r->sample_value(r0,0.3f,0.6f,&ow,&h,&ms,&y,&p2,sp!=0,&t2); if(memcmp(u.w,v.w,sizeof u.w)||p!=p2||(p>0&&(t1!=t2||x.x!=y.x||x.y!=y.y||x.z!=y.z))) vt::fail("dual material shows the wrong material","%d %d texel %d, sampled",a,b,q); } }
        }
        bool vis[4]; int nv=0; for(int q=0;q<4;q++) { HitPoint h=hit(fr[0],q%2*0.5+0.25,q/2*0.5+0.25); vis[q]=mask.is_visible(&h); nv+=vis[q]; } if(nv!=2) vt::fail("wrong mask value","%d of 4 texels visible",nv);
    }
    return vt::finish();
}
