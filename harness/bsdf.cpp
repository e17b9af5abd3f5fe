// Scattering lobes over complete grids of directions and random numbers: values
// and densities against double precision formulas, the density of the sampled
// directions against the derivative of the sampling itself, energy, mirrors,
// refraction and the Fresnel terms.
#include "d3.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/microfacet.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/metals.hpp"
#include <memory>
static const int NS=sizeof(Spectrum)/sizeof(float);
static bool bad(double x) { return !(x==x)||std::isinf(x); }
static Vec3 V(D3 a) { return Vec3((float)a[0],(float)a[1],(float)a[2]); }
static bool near(double a,double b,double rel,double abs_) { return fabs(a-b)<=abs_+rel*std::max(fabs(a),fabs(b)); }
// 0 Blinn, 1 Beckmann, 2 GGX, 3 anisotropic GGX
struct Dist
{
    int k; double ax,ay,e;
    Dist(int k,double x,double y=0):k(k),ax(x),ay(y>0?y:x),e(2/(x*x)-2) { }
    MicrofacetDist* make() const { if(k==0) return new Blinn(2.f/((float)ax*(float)ax)-2); if(k==1) return new Beckmann((float)ax); if(k==2) return new GGXiso((float)ax); return new GGXaniso((float)ax,(float)ay); }
    std::string name() const { char b[60]; if(k==3) snprintf(b,60,"anisotropic GGX %g %g",ax,ay); else snprintf(b,60,"%s %g",k==0?"Blinn":k==1?"Beckmann":"GGX",ax); return b; }
    double D(D3 h,bool defect=false) const
    {
        double c2=h[2]*h[2],s2=h[0]*h[0]+h[1]*h[1]; if(k==0) return (e+2)/(2*M_PI)*pow(fabs(h[2]),e); if(c2==0) return 0; double t2=s2/c2;
        if(k==1) return exp(-t2/(ax*ax)*(defect?2:1))/(M_PI*ax*ax*c2*c2);
        double q=1+(h[0]*h[0]/(ax*ax)+h[1]*h[1]/(ay*ay))/c2; return 1/(M_PI*ax*ay*c2*c2*q*q);
    }
    double lam(D3 v) const { if(v[2]==0) return 1e30; double t2a=(v[0]*v[0]*ax*ax+v[1]*v[1]*ay*ay)/(v[2]*v[2]); return (sqrt(1+t2a)-1)/2; }
    double G1(D3 v,bool defect=false) const
    {
        double c2=v[2]*v[2],s2=v[0]*v[0]+v[1]*v[1]; if(c2==0) return 0; if(k==2) { if(defect) s2=1-c2*c2; return 2/(1+sqrt(1+ax*ax*s2/c2)); }
        if(s2<1e-14) return 1; double a=k==0?sqrt(e/2+1):1/ax,c=a*sqrt(c2/s2); return c>=1.6?1:(3.535*c+2.181*c*c)/(1+2.276*c+2.577*c*c);
    }
    double G(D3 o,D3 i,bool defect=false) const { return k==3?1/(1+lam(o)+lam(i)):G1(o,defect)*G1(i,defect); }
};
static double fres(double c,double ei,double et) { c=fabs(c); double s=ei/et*sqrt(std::max(0.,1-c*c)); if(s>=1) return 1; double t=sqrt(1-s*s),p=(ei*c-et*t)/(ei*c+et*t),q=(et*c-ei*t)/(et*c+ei*t); return (p*p+q*q)/2; }
static double cond(double c,double n,double k) { c=fabs(c); double f=n*n+k*k,m=2*n*c,p=(f-m+c*c)/(f+m+c*c),q=(f*c*c-m+1)/(f*c*c+m+1); return (p+q)/2; }
struct Lobe
{
    int kind; std::string name; std::shared_ptr<Bdf> b; Dist d; std::shared_ptr<MicrofacetDist> md; bool metal; double ei,et; Spectrum n,k; double sigma; // kind 0 Lambert, 1 Oren Nayar, 2 reflecting facets, 3 refracting facets
    Lobe():kind(0),d(2,0.5),metal(false),ei(1),et(1),sigma(0) { }
    double F(D3 o,double c,int j,bool defect) const { return metal?cond(c,n.w[j],k.w[j]):fres(c,o[2]>0||defect?ei:et,o[2]>0||defect?et:ei); }
    bool half(D3 o,D3 i,D3& h) const // unit half vector on the side of o
    {
        if(kind==2) h=o+i; else { double a=o[2]>0?ei:et,c=o[2]>0?et:ei; h=o*a+i*c; } double l=sqrt(dt(h,h)); if(l<1e-9) return false; h=h*(1/l); if(h[2]*o[2]<0) h=h*-1; return true;
    }
    double value(D3 o,D3 i,int j,bool defect=false) const
    {
        if(kind==0) return 1/M_PI; double co=fabs(o[2]),ci=fabs(i[2]);
        if(kind==1)
        {
            double s2=sigma*sigma,A=1-s2/(2*(s2+0.33)),B=0.45*s2/(s2+0.09),so=sqrt(std::max(0.,1-co*co)),si=sqrt(std::max(0.,1-ci*ci)); double cp=so>0&&si>0?(o[0]*i[0]+o[1]*i[1])/(so*si):0; double sa=std::max(so,si),tb=std::min(so/co,si/ci); return (A+B*std::max(0.,cp)*sa*tb)/M_PI;
        }
        if((kind==2)!=(o[2]*i[2]>0)) return 0; D3 h; if(!half(o,i,h)) return 0; Vec3 hv=V(h),ov=V(o),iv=V(i); double d=md->D(&hv),g=md->G(&ov,&iv),oh=dt(o,h),ih=dt(i,h);
        if(kind==2) return F(o,oh,j,defect)*d*g/(4*co*ci); if(!defect&&(oh<=0||ih>=0)) return 0;
        double a=o[2]>0?ei:et,c=o[2]>0?et:ei,q=a*oh+c*ih; return (1-(defect?(ih*o[2]<0?fres(ih,et,ei):fres(ih,ei,et)):fres(oh,a,c)))*a*a*d*g*fabs(oh*ih)/(q*q*co*ci);
    }
    double pdf(D3 o,D3 i,bool defect=false,bool away=false) const
    {
        if(kind<2) return o[2]*i[2]>0?fabs(i[2])/M_PI:0; if((kind==2)!=(o[2]*i[2]>0)) return 0; D3 h; if(!half(o,i,h)) return 0; Vec3 hv=V(h),ov=V(o); double p=md->pdf(&ov,&hv),oh=dt(o,h),ih=dt(i,h); if(oh<=0&&!away) return 0;
        if(kind==2) return p/(4*oh); if(ih>=0&&!away) return 0; double a=o[2]>0?ei:et,c=o[2]>0?et:ei,q=a*oh+c*ih; return p*(defect?a*a*fabs(oh):c*c*fabs(ih))/(q*q);
    }
};
static Lobe facets(int kind,Dist d,int fr) // fresnel: 0.. metals, or the dielectrics below
{
    static const double IOR[][2]={{1,1.5},{1,2.4},{1.33,1.05},{1.5,1}}; Lobe l; l.kind=kind; l.d=d; l.md.reset(d.make()); char b[160];
    if(fr>=10) { l.metal=true; l.n=Spectrum(METALS[fr-10].n); l.k=Spectrum(METALS[fr-10].k); l.b.reset(new MicrofacetR(d.make(),new Conductor(l.n,l.k))); snprintf(b,160,"reflection on %s facets of metal %d",d.name().c_str(),fr-10); }
    else { l.ei=IOR[fr][0]; l.et=IOR[fr][1]; Spectrum si((float)l.ei),st((float)l.et); if(kind==2) l.b.reset(new MicrofacetR(d.make(),new Dielectric(si,st))); else l.b.reset(new MicrofacetT(d.make(),si,st)); snprintf(b,160,"%s %s facets between %g and %g",kind==2?"reflection on":"refraction by",d.name().c_str(),l.ei,l.et); }
    l.name=b; return l;
}
static std::vector<D3> dirs(bool T)
{
    std::vector<D3> r; std::vector<double> cs={1,0.9995,0.93,0.71,0.4,0.16,0.03}; if(T) { cs.push_back(0.99); cs.push_back(0.55); cs.push_back(0.27); cs.push_back(0.004); } int P=T?12:6;
    for(int s=1;s>=-1;s-=2) for(double c:cs) for(int p=0;p<P;p++) { double ph=p==0?0:p==1?M_PI/2:0.37+p*2*M_PI/P*1.07; double sn=sqrt(1-c*c); r.push_back(d3(sn*cos(ph),sn*sin(ph),s*c)); if(c==1) break; } return r;
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough(); if(!freopen("/dev/null","w",stdout)||!freopen("/dev/null","w",stderr)) return 1;
    std::vector<D3> dv=dirs(T),sv=dirs(false);
    std::vector<Dist> ds; for(double a:T?std::vector<double>{0.05,0.08,0.15,0.3,0.5,0.75,1}:std::vector<double>{0.08,0.3,0.6,1}) for(int k=0;k<3;k++) ds.push_back(Dist(k,a));
    { std::vector<double> as=T?std::vector<double>{0.05,0.1,0.3,0.5,0.8,1}:std::vector<double>{0.08,0.4,1}; for(double x:as) for(double y:as) ds.push_back(Dist(3,x,y)); }
    // 1. distributions of the facets
    for(auto& d:ds) if(vt::begin("facets of %s",d.name().c_str()))
    {
        std::unique_ptr<MicrofacetDist> m(d.make()); std::string nm=d.name(); const char* w=nm.c_str(); double tot=0; int N=T?600:300,M=T?64:32; 
        // the grid follows the distribution: tan(theta) proportional to the roughness
        auto seeD=[&](D3 h,double& out) { Vec3 hv=V(h); vt::count("evaluations"); double q=m->D(&hv); out=q; vt::seen(vt::mix(1,(uint64_t)(q*1000))); if(bad(q)||q<0) { vt::fail("distribution of facets is not a number","%s at %g %g %g: %g",w,h[0],h[1],h[2],q); return; } double r=d.D(h); if(near(q,r,4e-3,1e-6)) return; if(d.k==1&&near(q,d.D(h,true),4e-3,1e-6)) vt::fail("Beckmann facets are half of the distribution","%s at %g %g %g: %g instead of %g",w,h[0],h[1],h[2],q,r); else if(d.k==3&&h[0]*h[0]+h[1]*h[1]<1e-12&&near(q,1,1e-5,1e-6)) vt::fail("anisotropic GGX facets along the normal","%s: %g instead of %g",w,q,r); else vt::fail("wrong distribution of facets","%s at %g %g %g: %g instead of %g",w,h[0],h[1],h[2],q,r); };
        for(int i=0;i<N;i++) for(int j=0;j<M;j++) { double u=(i+0.5)/N,ph=2*M_PI*(j+0.3)/M,a=std::max(d.ax,d.ay),t=a*sqrt(u/(1-u)),c=1/sqrt(1+t*t),s=t*c; D3 h=d3(s*cos(ph),s*sin(ph),c); double q; seeD(h,q); double p=a*a/(M_PI*pow(c,4)*pow(a*a+t*t,2)); tot+=q*c/(p*c)/(N*M); if(i%10==0&&j%4==0) { double r; D3 g=h*-1; seeD(g,r); } }
        if(fabs(tot-1)>0.02&&!(d.k==3&&(std::max(d.ax,d.ay)/std::min(d.ax,d.ay)>8))) vt::fail(d.k==1&&fabs(tot-0.5)<0.02?"Beckmann facets are half of the distribution":"facets do not add up to the surface","%s: %g",w,tot);
        for(auto& h:dv) { double q; seeD(h,q); } { double q; seeD(d3(1,0,0),q); seeD(d3(0,1,0),q); }
        for(auto& o:dv) for(auto& i:dv)
        {
            Vec3 a=V(o),b=V(i); vt::count("evaluations"); double g=m->G(&a,&b),g2=m->G(&b,&a); if(bad(g)||g<0||g>1.0001) { vt::fail("shadowing of facets outside 0 to 1","%s, %g %g %g to %g %g %g: %g",w,o[0],o[1],o[2],i[0],i[1],i[2],g); continue; } if(!near(g,g2,1e-5,1e-6)) vt::fail("shadowing of facets is not symmetric","%s: %g and %g",w,g,g2);
            double r=d.G(o,i); if(near(g,r,3e-3,1e-4)) continue; if(d.k==2&&near(g,d.G(o,i,true),3e-3,1e-4)) vt::fail("GGX facets shadow too much","%s, %g %g %g to %g %g %g: %g instead of %g",w,o[0],o[1],o[2],i[0],i[1],i[2],g,r); else if(d.k==3&&near(g,1/(1+(o[2]*o[2]>0.9999999?1:d.lam(o))+(i[2]*i[2]>0.9999999?1:d.lam(i))),3e-3,1e-4)) vt::fail("anisotropic GGX facets along the normal","%s: shadowing %g instead of %g",w,g,r); else vt::fail("wrong shadowing of facets","%s, %g %g %g to %g %g %g: %g instead of %g",w,o[0],o[1],o[2],i[0],i[1],i[2],g,r);
        }
        for(auto& o:sv) for(int i=0;i<=16;i++) for(int j=0;j<=16;j++)
        {
            float r0=i/16.f,r1=j/16.f; Vec3 ov=V(o),h; vt::count("evaluations"); m->sample_wh(&ov,r0,r1,&h); D3 q=D(h); bool end=i==0||i==16; if(bad(q[0])||bad(q[1])||bad(q[2])||fabs(dt(q,q)-1)>2e-3) { vt::fail("sampled facet is not a unit vector","%s at %g %g: %g %g %g",w,r0,r1,q[0],q[1],q[2]); continue; } if(q[2]*o[2]<0) vt::fail("sampled facet on the other side","%s at %g %g",w,r0,r1);
            float p=m->pdf(&ov,&h); if(bad(p)||p<0) vt::fail("density of a facet is not a number","%s at %g %g: %g",w,r0,r1,p); (void)end;
        }
        vt::sample("%s: adds up to %g",w,tot);
    }
    // 2. lobes
    std::vector<Lobe> ls; { Lobe l; l.name="Lambert"; l.b.reset(new Lambertian()); ls.push_back(l); for(double s:{0.,0.1,0.3,0.6,1.,2.,20.,100.}) { l.kind=1; l.sigma=s; l.name="Oren Nayar "+std::to_string(s); l.b.reset(new OrenNayar((float)s)); ls.push_back(l); } }
    for(auto& d:ds) { for(int f=0;f<4;f++) if(T||f==0||f==3||d.ax==0.3||d.ax==0.4) { ls.push_back(facets(2,d,f)); ls.push_back(facets(3,d,f)); } ls.push_back(facets(2,d,10)); if(T) ls.push_back(facets(2,d,15)); }
    for(auto& l:ls) if(vt::begin("pairs of directions, %s",l.name.c_str()))
    {
        const char* w=l.name.c_str(); for(auto& o:dv) for(auto& i:dv)
        {
            if(l.kind<2&&o[2]*i[2]<0) { Vec3 ov=V(o),iv=V(i); vt::count("evaluations"); if(l.b->pdf(&ov,&iv)!=0) vt::fail("density through the surface","%s",w); continue; }
            Vec3 ov=V(o),iv=V(i); o=D(ov); D3 ii=D(iv); vt::count("evaluations"); Spectrum s=l.b->value(&ov,&iv); double p=l.b->pdf(&ov,&iv); char at[160]; snprintf(at,160,"%s, %.5g %.5g %.5g to %.5g %.5g %.5g",w,o[0],o[1],o[2],i[0],i[1],i[2]);
            for(int j=0;j<NS;j++) { double v=s.w[j]; if(bad(v)||v<0) { vt::fail("scattered light is negative or not a number","%s: %g",at,v); break; } double r=l.value(o,ii,j),a=2e-5; if(l.kind==3) { a=2e-5; double e0=o[2]>0?l.ei:l.et,e1=o[2]>0?l.et:l.ei; D3 h; if(l.half(o,ii,h)) { double q=e0*dt(o,h)+e1*dt(ii,h); a+=1.3e-5/(q*q*fabs(o[2]*ii[2])); } } if(!near(v,r,1.2e-2,a)) { if(l.kind>1&&near(v,l.value(o,ii,j,true),1.2e-2,a)) { vt::fail(l.kind==2?"facets seen from inside reflect as from outside":"light through refracting facets that face away","%s: %g instead of %g",at,v,r); break; } vt::fail("wrong value of a lobe","%s: %g instead of %g",at,v,r); break; } vt::seen(vt::mix(2,(uint64_t)(v*10000))); }
            if(bad(p)||p<0) { vt::fail("density is negative or not a number","%s: %g",at,p); continue; } double r=l.pdf(o,ii); if(near(p,r,1.2e-2,1e-5)) {} else if(l.kind==3&&near(p,l.pdf(o,ii,true),1.2e-2,1e-5)) vt::fail("density of refracting facets uses the other index","%s: %g instead of %g",at,p,r); else if(l.kind==3&&l.pdf(o,ii)==0&&near(p,l.pdf(o,ii,true,true),1.2e-2,1e-5)) vt::fail("light through refracting facets that face away","%s: density %g instead of 0",at,p); else vt::fail("wrong density of a lobe","%s: %g instead of %g",at,p,r);
            if(l.kind<3) { Spectrum z=l.b->value(&iv,&ov); if(!near(z.w[0],s.w[0],2e-2,2e-5)) vt::fail("reflection is not reciprocal","%s: %g and %g",at,s.w[0],z.w[0]); }
        }
        for(auto& o:dv) for(D3 f:{d3(1,0,0),d3(0,1,0),d3(-o[0],-o[1],0)}) { if(dt(f,f)<1e-12) continue; f=nrm(f); Vec3 ov=V(o),iv=V(f); vt::count("evaluations"); for(int q=0;q<2;q++) { Spectrum s=l.b->value(&ov,&iv); double p=l.b->pdf(&ov,&iv); if(bad(s.w[0])||s.w[0]<0||bad(p)||p<0) vt::fail("grazing light is negative or not a number","%s: %g %g",w,s.w[0],p); std::swap(ov,iv); } }
    }
    for(auto& l:ls) if(vt::begin("sampled directions, %s",l.name.c_str()))
    {
        const char* w=l.name.c_str(); int N=T?24:12; const float dl=0.008f; 
        for(auto& o:sv)
        {
            Vec3 ov=V(o); o=D(ov); auto at=[&](float r0,float r1,Vec3& wi,float& pdf) { pdf=-1; return l.b->sample_value(&ov,&wi,r0,r1,&pdf); };
            auto one=[&](float r0,float r1,bool end)
            {
                Vec3 wi; float p; vt::count("evaluations"); Spectrum s=at(r0,r1,wi,p); char c[200]; snprintf(c,200,"%s, from %.5g %.5g %.5g with %g %g",w,o[0],o[1],o[2],r0,r1);
                if(bad(p)||p<0) { vt::fail("density of a sample is negative or not a number","%s: %g",c,p); return; } for(int j=0;j<NS;j++) if(bad(s.w[j])||s.w[j]<0) { vt::fail("light of a sample is negative or not a number","%s: %g",c,s.w[j]); return; }
                if(l.kind==3) { Vec3 fh; l.md->sample_wh(&ov,r0,r1,&fh); if(fabs(fh.z)<1e-4) return; if(dt(D(fh),o)<1e-4) { if(p>0||!s.is_black()) vt::fail("light through refracting facets that face away","%s",c); return; } }
                if(p==0) { if(!s.is_black()&&!end) vt::fail("light of zero density","%s",c); return; } D3 i=D(wi); if(!(fabs(dt(i,i)-1)<1e-3)) { vt::fail("sampled direction is not a unit vector","%s: length %g",c,sqrt(dt(i,i))); return; }
                if((l.kind==3)==(o[2]*i[2]>0)) { vt::fail("sampled direction on the wrong side of the surface","%s",c); return; } if(fabs(i[2])<0.01||fabs(o[2])<0.01) return;
                Spectrum z=l.b->value(&ov,&wi); double p2=l.b->pdf(&ov,&wi); D3 h; double sh=1; if(l.kind>1&&l.half(o,i,h)) { sh=fabs(dt(o,h)); if(sh<0.02) return; } double tol=2e-2+(l.kind==3?4e-2:0); if(l.kind>1&&l.d.k==3&&h[0]*h[0]+h[1]*h[1]<1e-6) return; // see the known finding
                if(l.kind==3&&l.half(o,i,h)) { double e0=o[2]>0?l.ei:l.et,e1=o[2]>0?l.et:l.ei,cs=sqrt(std::max(0.,1-e0*e0/(e1*e1)*(1-sh*sh))); if(cs<0.05) return; }
                for(int j=0;j<NS;j++) if(!near(z.w[j],s.w[j],tol,2e-5)) { vt::fail("sampled value differs from the value of the pair","%s: %g and %g",c,s.w[j],z.w[j]); break; } if(!near(p2,p,tol,1e-5)) vt::fail("sampled density differs from the density of the pair","%s: %g and %g",c,p,p2); vt::seen(vt::mix(3,(uint64_t)(p*1000)));
                if(end||r0<2*dl||r0>1-2*dl||r1<2*dl||r1>1-2*dl) return; if(l.kind>1&&l.d.k==3&&(fabs(r1-0.5)<2*dl)) return;
                // density against the derivative of the sampling
                Vec3 a0,a1,b0,b1; float q; at(r0-dl,r1,a0,q); if(q==0) return; at(r0+dl,r1,a1,q); if(q==0) return; at(r0,r1-dl,b0,q); if(q==0) return; at(r0,r1+dl,b1,q); if(q==0) return; D3 x=crs(D(a1)-D(a0),D(b1)-D(b0))*(1/(4.*dl*dl)); D3 u=D(a1)-D(a0),v=D(b1)-D(b0); double J=sqrt(dt(x,x)); if(std::max(dt(u,u),dt(v,v))>0.04||J<1e-4) return;
                // leave places where the mapping bends within the step
                D3 m0=D(a0)+D(a1)-i*2,m1=D(b0)+D(b1)-i*2; if(dt(m0,m0)>4e-3*dt(u,u)||dt(m1,m1)>4e-3*dt(v,v)) return; vt::count("densities compared with the derivative");
                double f1=1,f2=1; if(l.kind>1&&l.half(o,i,h)) { if(l.d.k==0) f1=(l.d.e+2)/(l.d.e+1); if(l.d.k==1) f1=exp(-(h[0]*h[0]+h[1]*h[1])/(h[2]*h[2]*l.d.ax*l.d.ax)); if(l.kind==3) { double e0=o[2]>0?l.ei:l.et,e1=o[2]>0?l.et:l.ei; f2=e0*e0*dt(o,h)/(e1*e1*-dt(i,h)); } }
                double g=p*J,tl=l.kind==3?0.1:0.06; auto is=[&](double f) { return fabs(g-f)<=tl*std::max(f,g); }; if(is(1)) return; if(is(f1*f2)||is(f1)||is(f2)) { if(f1!=1&&!is(f2)) vt::fail(l.d.k==0?"density of Blinn facets is not the one of their sampling":"Beckmann facets are half of the distribution","%s: %g",c,g); else vt::fail("density of refracting facets uses the other index","%s: %g",c,g); return; }
                vt::fail("density is not the one of the sampling","%s: ratio %g",c,g);
            };
            for(int i=0;i<N;i++) for(int j=0;j<N;j++) one((i+0.41f)/N,(j+0.57f)/N,false); for(float x:{0.f,1e-7f,0.25f,0.5f,0.75f,0.99999994f,1.f}) for(float y:{0.f,0.25f,0.5f,0.75f,1.f}) one(x,y,true);
        }
        for(D3 o:{d3(1,0,0),d3(0,1,0),d3(-0.6,0.8,0)}) for(int i=0;i<=8;i++) for(int j=0;j<=8;j++) { Vec3 ov=V(o),wi; float p=-1; vt::count("evaluations"); Spectrum s=l.b->sample_value(&ov,&wi,i/8.f,j/8.f,&p); if(bad(p)||p<0||(p>0&&(bad(s.w[0])||s.w[0]<0))) vt::fail("grazing light is negative or not a number","%s: %g %g",w,s.w[0],p); }
        vt::beat();
    }
    // 3. energy: what leaves is not more than what arrives
    auto energy=[&](const Lobe& l,D3 o)
    {
        double e=0; int N=T?400:200,M=T?96:48; for(int i=0;i<N;i++) for(int j=0;j<M;j++)
        {
            double u=(i+0.5)/N,ph=2*M_PI*(j+0.3)/M; vt::count("evaluations"); if(l.kind<2) { double c=sqrt(1-u),s=sqrt(u); Vec3 ov=V(o),iv=V(d3(s*cos(ph),s*sin(ph),o[2]>0?c:-c)); e+=l.b->value(&ov,&iv).w[0]*M_PI/(N*M); continue; }
            double a=std::max(l.d.ax,l.d.ay),t=a*sqrt(u/(1-u)),c=1/sqrt(1+t*t),s=t*c,p=a*a/(M_PI*pow(c,3)*pow(a*a+t*t,2)); D3 h=d3(s*cos(ph),s*sin(ph),c); if(o[2]<0) h=h*-1; double oh=dt(o,h); if(oh<=0) continue; D3 i2; double jac;
            if(l.kind==2) { i2=h*(2*oh)-o; if(i2[2]*o[2]<=0) continue; jac=4*oh; } else { double e0=o[2]>0?l.ei:l.et,e1=o[2]>0?l.et:l.ei,r=e0/e1,s2=r*r*(1-oh*oh); if(s2>=1) continue; i2=o*-r+h*(r*oh-sqrt(1-s2)); if(i2[2]*o[2]>=0) continue; double ih=dt(i2,h),q=e0*oh+e1*ih; jac=q*q/(e1*e1*fabs(ih))*(e1*e1/(e0*e0)); }
            Vec3 ov=V(o),iv=V(i2); e+=l.b->value(&ov,&iv).w[0]*fabs(i2[2])*jac/p/(N*M);
        } return e;
    };
    for(size_t k=0;k<ls.size();k++) if(vt::begin("energy, %s",ls[k].name.c_str())) for(auto& o:sv)
    {
        const Lobe& l=ls[k]; if(fabs(o[2])<0.05) continue; double e=energy(l,o),lim=l.kind>1&&l.d.k==0?1.1:1.02; /* the shadowing of Blinn facets is an approximation */ if(!(e<=lim)) vt::fail("more light leaves than arrives","%s, from %g %g %g: %g",l.name.c_str(),o[0],o[1],o[2],e); if(l.kind==0&&fabs(e-1)>1e-3) vt::fail("white surface is not white","%g",e);
        if(l.kind==2&&!l.metal&&o[2]>0) { double f=energy(facets(3,l.d,l.ei==1?(l.et==1.5?0:1):l.ei==1.33?2:3),o); if(!(e+f<=lim)) vt::fail("more light leaves than arrives","%s, from %g %g %g: %g reflected and %g refracted",l.name.c_str(),o[0],o[1],o[2],e,f); } vt::beat();
    }
    // 4. mirrors and clear glass
    double ior[]={1,1.05,1.33,1.5,2.4}; 
    for(int disp=0;disp<2;disp++) for(double ni:ior) for(double nt:ior) if(vt::begin("%ssmooth surface between %g and %g",disp?"dispersive ":"",ni,nt))
    {
        double ei=ni,et=nt;
        Spectrum si((float)ei),st((float)et); if(disp) { si=cauchy((float)ei,0.011f); st=cauchy((float)et,0.023f); double a=0,b=0; for(int j=0;j<NS;j++) { a+=si.w[j]/NS; b+=st.w[j]/NS; } ei=a; et=b; /* one index for all wavelengths: the mean */ }
        DielectricReflection r(si,st); Refraction t(si,st); Dielectric f(si,st); if(fabs(f.get_eta_incident()-ei)>1e-5||fabs(f.get_eta_transmitted()-et)>1e-5) vt::fail("wrong index of refraction","%g %g",ei,et);
        auto one=[&](D3 o)
        {
            Vec3 ov=V(o),wr(5,6,7),wt(5,6,7); o=D(ov); float pr=-1,pt=-1; vt::count("evaluations"); Spectrum a=r.sample_value(&ov,&wr,0.3f,0.6f,&pr),b=t.sample_value(&ov,&wt,0.3f,0.6f,&pt); char c[120]; snprintf(c,120,"%g to %g, from %.6g %.6g %.6g",ei,et,o[0],o[1],o[2]); double e0=o[2]>0?ei:et,e1=o[2]>0?et:ei,co=fabs(o[2]); if(bad(pr)||bad(pt)||pt<0||pr<0) { vt::fail("density is negative or not a number","%s",c); return; }
            if(co==0) return;
            for(int j=0;j<NS;j++) if(bad(a.w[j])||bad(b.w[j])||a.w[j]<0||b.w[j]<0) { vt::fail("light of a smooth surface is negative or not a number","%s",c); return; }
            D3 m=D(wr)-d3(-o[0],-o[1],o[2]); if(pr!=1||dt(m,m)>1e-10) vt::fail("wrong mirror direction","%s",c); if(co<1e-3) return; double sn=e0/e1*sqrt(1-co*co),R=fres(co,e0,e1); bool edge=fabs(sn-1)<1e-4;
            double refl=a.w[0]*co; if(edge) return; vt::seen(vt::mix(4,(uint64_t)(refl*10000))); if(fabs(refl-R)>2e-3) vt::fail("wrong light of a mirror","%s: %g instead of %g",c,refl,R); if(sn>1) { if(pt!=0||!b.is_black()) vt::fail("light refracted under total reflection","%s",c); return; }
            if(pt!=1) { vt::fail("light not refracted","%s",c); return; } D3 q=D(wt),x=d3(-o[0]*e0/e1,-o[1]*e0/e1,(o[2]>0?-1:1)*sqrt(1-sn*sn)),g=q-x; if(dt(g,g)>1e-6) vt::fail("wrong direction of refraction","%s",c); if(fabs(q[2])<1e-2) return; double tr=b.w[0]*fabs(q[2])*e1*e1/(e0*e0); if(fabs(tr+refl-1)>5e-3) vt::fail("refracted and reflected light do not add up","%s: %g and %g",c,tr,refl);
            Vec3 back=V(D(wt)),w2; float p2=-1; t.sample_value(&back,&w2,0.1f,0.2f,&p2); D3 y=D(w2)-o; if(p2!=1||dt(y,y)>1e-5) vt::fail("refraction can not be reversed","%s",c); if(t.pdf(&ov,&wt)!=0||r.pdf(&ov,&wr)!=0||!t.value(&ov,&wt).is_black()||!r.value(&ov,&wr).is_black()) vt::fail("pairs of a smooth surface scatter light","%s",c);
        };
        for(int s=1;s>=-1;s-=2) for(int i=0;i<=(T?2000:400);i++) { double c=i/(T?2000.:400.),sn=sqrt(1-c*c); for(double ph:{0.,1.3,4.}) one(d3(sn*cos(ph),sn*sin(ph),s*c)); }
        for(int i=-1000;i<=1000;i++) { float c=i/1000.f; vt::count("evaluations"); double v=f.eval(c).w[0],e0=c<0?et:ei,e1=c<0?ei:et,R=fres(c,e0,e1); if(bad(v)||fabs(v-R)>(fabs(e0/e1*sqrt(1-c*c)-1)<1e-4?2e-2:2e-3)) vt::fail("wrong Fresnel term","%g to %g, cosine %g: %g instead of %g",ei,et,c,v,R); }
    }
    for(int m=0;m<METAL_MAX;m++) if(vt::begin("metal %d",m))
    {
        Spectrum n(METALS[m].n),k(METALS[m].k); ConductorReflection r(n,k); Conductor f(n,k);
        for(int i=-200;i<=200;i++) { double c=i/200.,ac=fabs(c),ph=i*0.37+1; vt::count("evaluations"); double sn=sqrt(1-c*c); Spectrum v=f.eval((float)ac); for(int j=0;j<NS;j++) { double R=cond(c,n.w[j],k.w[j]); if(bad(v.w[j])||v.w[j]<0||v.w[j]>1.0001) { vt::fail("metal reflects less than nothing or more than everything","%d, cosine %g: %g",m,c,v.w[j]); break; } if(fabs(v.w[j]-R)>2e-3) { vt::fail("wrong Fresnel term","metal %d, cosine %g: %g instead of %g",m,c,v.w[j],R); break; } vt::seen(vt::mix(5,(uint64_t)(R*10000))); }
            Vec3 o=V(d3(sn*cos(ph),sn*sin(ph),c)),wi(5,6,7); float p=-1; Spectrum a=r.sample_value(&o,&wi,0.5f,0.5f,&p); D3 g=D(wi)-d3(-sn*cos(ph),-sn*sin(ph),c); if(p!=1||dt(g,g)>1e-10) vt::fail("wrong mirror direction","metal %d",m); if(i==0) continue; for(int j=0;j<NS;j++) { double R=cond(c,n.w[j],k.w[j]); if(!(fabs(a.w[j]*fabs(c)-R)<2e-3)) { double q2=n.w[j]*n.w[j]+k.w[j]*k.w[j],m2=2*n.w[j]*c,X=((q2-m2+c*c)/(q2+m2+c*c)+(q2*c*c-m2+1)/(q2*c*c+m2+1))/2; if(c<0&&fabs(a.w[j]*fabs(c)-X)<=2e-3*(1+X)) { vt::fail("smooth metals reflect more than everything from behind","%d, cosine %g: %g",m,c,X); break; } vt::fail("wrong light of a mirror","metal %d, cosine %g: %g instead of %g",m,c,a.w[j]*fabs(c),R); break; } } }
    }
    if(vt::begin("indices by formula"))
    {
        for(double B:{1.,1.4580,1.5046,1.7280}) for(double C:{0.,0.00354,0.00420,0.01342}) for(double E:{0.,1e-4}) { Spectrum s=cauchy((float)B,(float)C,(float)E); double mean=0; for(int i=0;i<SPECTRUM_SAMPLES;i++) { double l=(SPECTRUM_START+i*(double)SPECTRUM_INTERVAL)*1e-3; double v=B+C/(l*l)+E/(l*l*l*l); mean+=v/SPECTRUM_SAMPLES; if(NS==SPECTRUM_SAMPLES&&fabs(s.w[i]-v)>1e-4) vt::fail("wrong index of refraction","Cauchy %g %g %g",B,C,E); } vt::count("evaluations"); if(NS==3) for(int j=0;j<3;j++) if(fabs(s.w[j]-mean)>1e-4) vt::fail("wrong index of refraction","Cauchy %g %g %g: %g instead of %g",B,C,E,s.w[j],mean); }
        double S[][6]={{1.03961212,0.231792344,1.01046945,0.00600069867,0.0200179144,103.560653},{0.6961663,0.4079426,0.8974794,0.00467914826,0.0135120631,97.9340025},{1.43134930,0.65054713,5.3414021,0.00527993,0.0142382647,325.017834}};
        for(auto& c:S) { Spectrum s=sellmeier(c[0],c[1],c[2],c[3],c[4],c[5]); double mean=0; for(int i=0;i<SPECTRUM_SAMPLES;i++) { double l=(SPECTRUM_START+i*(double)SPECTRUM_INTERVAL)*1e-3,l2=l*l,v=sqrt(1+c[0]*l2/(l2-c[3])+c[1]*l2/(l2-c[4])+c[2]*l2/(l2-c[5])); mean+=v/SPECTRUM_SAMPLES; if(NS==SPECTRUM_SAMPLES&&fabs(s.w[i]-v)>1e-4) vt::fail("wrong index of refraction","Sellmeier %g",c[0]); } vt::count("evaluations"); if(NS==3) for(int j=0;j<3;j++) if(fabs(s.w[j]-mean)>1e-4) vt::fail("wrong index of refraction","Sellmeier %g: %g instead of %g",c[0],s.w[j],mean); }
    }
    return vt::finish();
}
