// Sampling of shapes and of the lights made of them over complete grids of
// random numbers: points on the surface, spread in proportion to its area, rays
// leaving the front, and directions, distances and densities as seen from points
// all around the light against double precision references.
#include "geo_util.hpp"
#include "d3.hpp"
#include "lights/area_light.hpp"
struct Tri { D3 a,b,c; };
static double area(const Tri& t) { D3 n=crs(t.b-t.a,t.c-t.a); return 0.5*sqrt(dt(n,n)); }
struct Body { int kind; std::string name; std::vector<Tri> t; bool closed; }; // 0 sphere, 1 box, 2 mesh
static Body cube(double s) { Body b; b.kind=2; b.name="cube"; b.closed=true; for(int a=0;a<3;a++) for(int e=0;e<2;e++) { auto p=[&](double u,double v) { D3 r=d3(0,0,0); r.v[a]=e*s; r.v[(a+1)%3]=u*s; r.v[(a+2)%3]=v*s; return r; }; Tri x={p(0,0),p(1,0),p(1,1)},y={p(0,0),p(1,1),p(0,1)}; if(!e) { std::swap(x.b,x.c); std::swap(y.b,y.c); } b.t.push_back(x); b.t.push_back(y); } return b; }
static Body fan(int n,double grow,int degen)
{ Body b; b.kind=2; b.closed=false; char s[60]; snprintf(s,60,"%d triangles, areas growing by %g%s",n,grow,degen<0?"":degen==0?", first empty":degen==1?", last empty":", middle empty"); b.name=s; double x=0,h=0.2; for(int i=0;i<n;i++) { bool d=(degen==0&&i==0)||(degen==1&&i==n-1)||(degen==2&&i==n/2); Tri t={d3(x,0,0),d3(x+(d?0:h),0,0),d3(x,1,0)}; b.t.push_back(t); x+=h+0.1; h*=grow; } return b; }
static std::shared_ptr<Shape> shape(const Body& b)
{
    if(b.kind==0) return std::make_shared<Sphere>(); if(b.kind==1) return std::make_shared<Box>();
    auto m=std::make_shared<Mesh>((unsigned)b.t.size()); for(auto& t:b.t) { D3 n=nrm(crs(t.b-t.a,t.c-t.a)); if(dt(n,n)<0.5) n=d3(0,0,1); Vertex v[3]; const D3* p[3]={&t.a,&t.b,&t.c}; for(int i=0;i<3;i++) v[i]=vtx((*p[i])[0],(*p[i])[1],(*p[i])[2],n[0],n[1],n[2],0,0); m->add_triangle(v,v+1,v+2); } m->finalize(); return m;
}
static std::vector<Tri> world(const Body& b,const Aff& a)
{ std::vector<Tri> r; std::vector<Tri> s=b.t; if(b.kind==1) s=cube(1).t; for(auto& t:s) { Tri x={a.pt(t.a),a.pt(t.b),a.pt(t.c)}; r.push_back(x); } return r; }
// index of the face the point lies on, -1 when on none, -2 when on a border
static int locate(const std::vector<Tri>& t,D3 p,double tol,double* uv=NULL)
{
    int best=-1; double bm=-1e9; for(size_t i=0;i<t.size();i++)
    {
        D3 e=t[i].b-t[i].a,f=t[i].c-t[i].a,n=crs(e,f); double l=dt(n,n); if(l<1e-20) continue; D3 q=p-t[i].a; if(fabs(dt(q,n))/sqrt(l)>tol) continue;
        double u=dt(crs(q,f),n)/l,v=dt(crs(e,q),n)/l,m=std::min(std::min(u,v),1-u-v); if(m>bm) { bm=m; best=(int)i; if(uv) { uv[0]=u; uv[1]=v; } }
    }
    if(best>=0&&bm<-3e-4) return -1; return best;
}
struct Hit { double t,cos; D3 n; };
// hits of the light along o+t*d, nearest first; false when too close to an edge to call
static bool hits(const Body& b,const Aff& a,const std::vector<Tri>& w,D3 o,D3 d,std::vector<Hit>& h)
{
    bool ok=true;
    if(b.kind==0)
    {
        D3 oo=a.ipt(o),od=a.ivec(d); double A=dt(od,od),B=dt(oo,od),C=dt(oo,oo)-1,q=B*B-A*C; double imp=sqrt(std::max(0.,dt(oo,oo)-B*B/A)); if(fabs(imp-1)<5e-3) ok=false; if(q>0) for(int s=-1;s<=1;s+=2) { Hit x; x.t=(-B+s*sqrt(q))/A; x.n=a.nor(oo+od*x.t); h.push_back(x); }
    }
    else for(size_t i=0;i<w.size();i++)
    {
        // the two halves of a side are one parallelogram, so that their common edge is nothing special
        const Tri& t=w[i]; bool quad=b.kind==1||b.name=="cube"||b.name=="square"; if(quad&&i%2) continue; D3 n=crs(t.b-t.a,t.c-t.a); double l=sqrt(dt(n,n)); if(l<1e-9) continue; n=n*(1/l); D3 P=t.b,Q=t.c; 
        if(quad) { const Tri& s=w[i+1]; auto in=[&](D3 p,const Tri& z) { D3 x=p-z.a,y=p-z.b,v=p-z.c; return std::min(dt(x,x),std::min(dt(y,y),dt(v,v)))<1e-9; }; P=in(t.b,s)?t.c:t.b; Q=in(s.b,t)?s.c:s.b; }
        D3 e=P-t.a,f=Q-t.a,g=crs(e,f); double gg=dt(g,g),q=dt(d,n); if(fabs(q)<1e-4) { if(fabs(dt(o-t.a,n))<2e-2) ok=false; continue; } Hit x; x.n=n; x.t=dt(t.a-o,n)/q; D3 p=o+d*x.t-t.a; double u=dt(crs(p,f),g)/gg,v=dt(crs(e,p),g)/gg,m=quad?std::min(std::min(u,1-u),std::min(v,1-v)):std::min(std::min(u,v),1-u-v); if(fabs(m)<(fabs(x.t)>100?0.08:3e-3+2e-4*fabs(x.t))+2e-5*fabs(x.t/q)) ok=false; if(m>0) h.push_back(x);
    }
    std::vector<Hit> r; for(auto& x:h) { x.cos=-dt(x.n,d)/sqrt(dt(d,d)); if(x.t>0) r.push_back(x); if(fabs(x.t)<0.2) ok=false; } // too close: the minimum distance of intersections decides
    std::sort(r.begin(),r.end(),[](const Hit& x,const Hit& y) { return x.t<y.t; }); h=r;
    return ok;
}
static double solid(const Tri& t,D3 o) // Van Oosterom and Strackee, positive in front
{ D3 a=t.a-o,b=t.b-o,c=t.c-o; double la=sqrt(dt(a,a)),lb=sqrt(dt(b,b)),lc=sqrt(dt(c,c)); return -2*atan2(dt(a,crs(b,c)),la*lb*lc+dt(a,b)*lc+dt(a,c)*lb+dt(b,c)*la); }
static bool bad(float x) { return !(x==x)||std::isinf(x); }
struct Shares // how many of the points fall in each cell, and how many should
{
    std::map<std::string,std::pair<double,double>> c; double n; void add(const std::string& k) { c[k].first++; } void want(const std::string& k,double w) { c[k].second=w; }
    void judge(const char* key,const char* what,double tol,double total) { for(auto& x:c) { double g=x.second.first/total; if(fabs(g-x.second.second)>tol) { vt::fail(key,"%s: share of %s is %g instead of %g",what,x.first.c_str(),g,x.second.second); return; } } }
};
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough(); if(!freopen("/dev/null","w",stdout)||!freopen("/dev/null","w",stderr)) return 1;
    std::vector<Body> bodies; { Body s; s.kind=0; s.name="sphere"; s.closed=true; bodies.push_back(s); s.kind=1; s.name="box"; bodies.push_back(s); } bodies.push_back(cube(1.5));
    for(int n=1;n<=(T?20:9);n++) { bodies.push_back(fan(n,1,-1)); if(n>1) { bodies.push_back(fan(n,1.7,-1)); if(n<=10) bodies.push_back(fan(n,0.6,-1)); if(n<=6) for(int d=0;d<3;d++) bodies.push_back(fan(n,1.3,d)); } }
    { Body q; q.kind=2; q.closed=false; q.name="square"; Tri a={d3(0,0,0),d3(1,0,0),d3(1,1,0)},b={d3(0,0,0),d3(1,1,0),d3(0,1,0)}; q.t={a,b}; bodies.push_back(q); }
    { Body q; q.kind=2; q.closed=false; q.name="slanted triangle"; Tri a={d3(1.1,0,0),d3(0,0.8,0),d3(0,0,1.3)}; q.t={a}; bodies.push_back(q); }
    { Body q; q.kind=2; q.closed=true; q.name="tetrahedron"; D3 o=d3(-0.1,0.05,0),x=d3(1.2,0.1,0.1),y=d3(0.1,1.1,-0.1),z=d3(0,0.2,1.4); Tri a={o,y,x},b={o,x,z},c={o,z,y},d={x,y,z}; q.t={a,b,c,d}; bodies.push_back(q); }
    struct Tf { const char* n; Matrix4 m; bool uni; }; std::vector<Tf> tf={{"identity",m_id(),true},{"moved",m_tr(3,-2,5),true},{"turned",m_rot(0.4f,1.1f,-0.7f),true},{"scaled 0.5",m_sc(0.5f,0.5f,0.5f),true},{"scaled 3",m_sc(3,3,3),true},{"scaled 1 2 3",m_sc(1,2,3),false},{"all",m_mul(m_mul(m_tr(-1,2,0.5f),m_rot(0.3f,-0.8f,2)),m_sc(2,0.5f,1.5f)),false},{"turned scaled 2",m_mul(m_rot(1,0.2f,0.5f),m_sc(2,2,2)),true}};
    // 1. points on the shapes
    for(auto& b:bodies) for(auto& f:tf) if(vt::begin("points of %s, %s",b.name.c_str(),f.n))
    {
        auto sp=shape(b); Aff a=aff(f.m); auto ot=world(b,aff(m_id())),wt=world(b,a); float den[64]={0}; sp->get_densities_array(&f.m,den); double W=0; for(auto& t:wt) W+=area(t);
        if(b.kind&&fabs(sp->surface(&f.m)-W)>2e-4*W) vt::fail("wrong surface in world units","%s, %s: %g instead of %g",b.name.c_str(),f.n,sp->surface(&f.m),W); if(b.kind==0&&f.uni) { double s=sqrt(dt(a.c[0],a.c[0])); if(fabs(sp->surface(&f.m)-4*M_PI*s*s)>1e-3*s*s) vt::fail("wrong surface in world units","sphere, %s",f.n); }
        double O=0; for(auto& t:ot) O+=area(t); if(fabs(sp->surface()-(b.kind?O:4*M_PI))>2e-4*(b.kind?O:13)) vt::fail("wrong surface in object units","%s",b.name.c_str());
        int N0=T?8192:2048,N1=T?32:16; Shares sh; char w[120]; snprintf(w,120,"%s, %s",b.name.c_str(),f.n);
        if(b.kind) for(size_t i=0;i<wt.size();i++) { double s=area(wt[i])/W; if(b.kind==1) { sh.c["side "+std::to_string(i/2)].second+=s; } else sh.want("face "+std::to_string(i),s); if(s*N0>60) for(int q=0;q<4;q++) sh.want("face "+std::to_string(i)+" part "+std::to_string(q),s/4); }
        else for(int i=0;i<8;i++) { sh.want("band "+std::to_string(i),0.125); sh.want("sector "+std::to_string(i),0.125); }
        auto one=[&](float r0,float r1,bool cnt)
        {
            vt::count("evaluations"); Point3 p; Normal n; sp->sample_point(r0,r1,den,&p,&n); D3 q=D(p),m=D(n); if(bad(p.x)||bad(p.y)||bad(p.z)||fabs(dt(m,m)-1)>1e-3||bad(n.x)) { vt::fail("sampled point or normal is not a number","%s at %.9g %.9g",w,r0,r1); return; }
            if(b.kind==0) { if(fabs(dt(q,q)-1)>1e-4||dt(m,q)<0.999) vt::fail("sampled point not on the surface","%s at %.9g %.9g",w,r0,r1); if(cnt) { sh.add("band "+std::to_string(std::max(0,std::min(7,(int)((q[2]+1)*4))))); double ph=atan2(q[1],q[0]); if(ph<0) ph+=2*M_PI; sh.add("sector "+std::to_string(std::min(7,(int)(ph/(2*M_PI)*8)))); } return; }
            double uv[2]; int k=locate(ot,q,1e-4,uv); if(k<0) { vt::fail("sampled point not on the surface","%s at %.9g %.9g: %g %g %g",w,r0,r1,q[0],q[1],q[2]); return; }
            D3 g=nrm(crs(ot[k].b-ot[k].a,ot[k].c-ot[k].a)); double mn=std::min(std::min(uv[0],uv[1]),1-uv[0]-uv[1]); if(mn>1e-3&&dt(g,m)<0.999) vt::fail("wrong normal of a sampled point","%s at %.9g %.9g",w,r0,r1);
            vt::seen(vt::mix(b.kind*100+k,(uint64_t)(uv[0]*8)*8+(uint64_t)(uv[1]*8))); if(!cnt) return; std::string fc="face "+std::to_string(k); if(b.kind==1) sh.add("side "+std::to_string(k/2)); else sh.add(fc); { std::string pt=fc+" part "+(uv[0]>0.5?"1":uv[1]>0.5?"2":uv[0]+uv[1]<0.5?"0":"3"); if(sh.c.count(pt)) sh.add(pt); }
        };
        for(int i=0;i<N0;i++) { for(int j=0;j<N1;j++) one((i+0.5f)/N0,(j+0.5f)/N1,true); if(i%64==0) vt::beat(); }
        sh.judge("points are not spread in proportion to the area",w,2.5/N0+0.15/N1*(b.kind==2?0.3:0.2),(double)N0*N1);
        std::vector<float> ex={0,1e-38f,1e-7f,0.25f,0.5f,0.75f,0.99999994f,1}; int nf=b.kind==1?6:b.kind==2?(int)b.t.size():0; for(int i=0;i<nf;i++) { float c=den[i]/den[nf-1]; ex.push_back(c); ex.push_back(nextafterf(c,0)); ex.push_back(std::min(1.f,nextafterf(c,2))); ex.push_back(std::max(0.f,c-1e-6f)); ex.push_back(std::min(1.f,c+1e-6f)); }
        for(float x:ex) for(float y:{0.f,1e-7f,0.5f,0.99999994f,1.f}) one(x,y,false);
        vt::sample("%s, %s: %d points",b.name.c_str(),f.n,N0*N1);
    }
    // 2. rays leaving lights
    for(auto& b:bodies) if(b.kind==0||b.name=="box"||b.name=="cube"||b.t.size()<=4) for(auto& f:tf) if(vt::begin("rays leaving %s, %s",b.name.c_str(),f.n))
    {
        if(b.kind==0&&!f.uni) { vt::count("evaluations"); continue; } // the area of an ellipsoid: see the known finding
        auto sp=shape(b); Aff a=aff(f.m); auto wt=world(b,a); double W=0; for(auto& t:wt) W+=area(t); if(b.kind==0) { W=4*M_PI*dt(a.c[0],a.c[0]); } AreaLight l(sp.get(),f.m,Spectrum(2.5f)); char w[120]; snprintf(w,120,"%s, %s",b.name.c_str(),f.n); Shares sh; for(int i=0;i<4;i++) { sh.want("height "+std::to_string(i),0.25); sh.want("sector "+std::to_string(i),0.25); }
        if(b.kind) for(size_t i=0;i<wt.size();i++) sh.c["face "+std::to_string(b.kind==1?i/2:i)].second+=area(wt[i])/W;
        int N=T?32:16,NN=4*N; double tot=0; auto one=[&](float r0,float r1,float r2,float r3,bool cnt)
        {
            vt::count("evaluations"); Ray r; float pdf=-1; Spectrum e=l.sample_surface(r0,r1,r2,r3,&r,&pdf); D3 o=D(r.origin),d=D(r.direction),n; if(cnt) tot++;
            if(e.w[0]!=l.emissive_spectrum().w[0]) vt::fail("wrong emission of a ray","%s",w); if(fabs(pdf*W*2*M_PI-1)>1e-3||fabs(l.pdf(&r)*W*2*M_PI-1)>1e-3) vt::fail("wrong density of a ray","%s: %g instead of %g",w,pdf,1/(W*2*M_PI));
            if(!(fabs(dt(d,d)-1)<1e-3)) { vt::fail("direction of a leaving ray is not a unit vector","%s at %.9g %.9g %.9g %.9g: length %g",w,r0,r1,r2,r3,sqrt(dt(d,d))); return; }
            if(b.kind==0) { D3 q=a.ipt(o); if(fabs(dt(q,q)-1)>1e-3) { vt::fail("ray does not leave from the light","%s at %.9g %.9g",w,r0,r1); return; } n=a.nor(q); } else { double uv[2]; int k=locate(wt,o,1e-3,uv); if(k<0) { vt::fail("ray does not leave from the light","%s at %.9g %.9g",w,r0,r1); return; } if(!cnt&&std::min(std::min(uv[0],uv[1]),1-uv[0]-uv[1])<1e-3&&b.closed) return; n=nrm(crs(wt[k].b-wt[k].a,wt[k].c-wt[k].a)); if(cnt) sh.add("face "+std::to_string(b.kind==1?k/2:k)); }
            double c=dt(n,d); if(c<-1e-3) vt::fail("ray leaves from the back of the light","%s at %.9g %.9g %.9g %.9g: cosine %g",w,r0,r1,r2,r3,c); if(!cnt) return; sh.add("height "+std::to_string(std::max(0,std::min(3,(int)(c*4)))));
            D3 ax=fabs(n[0])<0.9?d3(1,0,0):d3(0,1,0); ax=nrm(crs(n,ax)); D3 ay=crs(n,ax); double ph=atan2(dt(d,ay),dt(d,ax)); if(ph<0) ph+=2*M_PI; sh.add("sector "+std::to_string(std::min(3,(int)(ph/(2*M_PI)*4)))); vt::seen(vt::mix(7,(uint64_t)(c*16)*64+(uint64_t)(ph*8)));
        };
        for(int i=0;i<NN;i++) { for(int j=0;j<4;j++) for(int k=0;k<N;k++) for(int m=0;m<N;m++) one((i+0.5f)/NN,(j+0.37f)/4,(k+0.5f)/N,(m+0.47f)/N,true); vt::beat(); }
        sh.judge("rays leaving a light are not spread evenly",w,2.5/N*0.5+1./NN,tot); for(float x:{0.f,0.5f,1.f}) for(float y:{0.f,0.5f,1.f}) for(float z:{0.f,0.5f,1.f}) for(float q:{0.f,0.25f,1.f}) one(x,y,z,q,false);
    }
    // 3. lights seen from points
    std::vector<D3> eyes; for(int x=-2;x<=2;x++) for(int y=-2;y<=2;y++) for(int z=-2;z<=2;z++) if((x+y*3+z*7)%(T?1:3)==0) eyes.push_back(d3(x*1.37+0.21,y*1.11+0.33,z*0.93+0.17)); eyes.push_back(d3(30,40,-20)); eyes.push_back(d3(0.3,0.2,300)); eyes.push_back(d3(0.1,0.05,0.02)); eyes.push_back(d3(0.31,0.27,0.05)); 
    for(auto& b:bodies) if(b.kind==0||b.name=="box"||b.name=="cube"||b.name=="square"||b.t.size()<=3) for(auto& f:tf) for(size_t ei=0;ei<eyes.size();ei++) if(vt::begin("%s, %s, seen from %g %g %g",b.name.c_str(),f.n,eyes[ei][0],eyes[ei][1],eyes[ei][2]))
    {
        if(b.kind==0&&!f.uni) { vt::count("evaluations"); continue; }
        auto sp=shape(b); Aff a=aff(f.m); auto wt=world(b,a); double W=0; for(auto& t:wt) W+=area(t); if(b.kind==0) W=4*M_PI*dt(a.c[0],a.c[0]); AreaLight l(sp.get(),f.m,Spectrum(2.5f)); Point3 o(eyes[ei][0],eyes[ei][1],eyes[ei][2]); D3 od=D(o); char w[160]; snprintf(w,160,"%s, %s, from %g %g %g",b.name.c_str(),f.n,od[0],od[1],od[2]);
        int N=b.kind==0?(T?96:48):(T?128:64); double mean=0,defect=0; bool whole=true; 
        auto one=[&](float r0,float r1,bool cnt)
        {
            vt::count("evaluations"); Vec3 wi; float pdf=-1,dist=-1; Spectrum e=l.sample_visible_surface(r0,r1,&o,&wi,&pdf,&dist); if(bad(pdf)||pdf<0||dist!=dist||dist<0) { vt::fail("density or distance of a sampled light is not a number","%s at %.9g %.9g: %g, %g",w,r0,r1,pdf,dist); return; }
            if(pdf==0) { if(!e.is_black()) vt::fail("light of zero density","%s at %.9g %.9g",w,r0,r1); whole=false; return; }
            D3 d=D(wi); if(!(fabs(dt(d,d)-1)<1e-3)) { vt::fail("direction to the light is not a unit vector","%s at %.9g %.9g",w,r0,r1); return; } bool dark=e.is_black(); if(!dark&&e.w[0]!=l.emissive_spectrum().w[0]) vt::fail("wrong emission of the light","%s",w); if(cnt) mean+=dark?0:1./pdf;
            std::vector<Hit> h; if(!hits(b,a,wt,od,d,h)||(h.size()&&((b.kind==0&&h[0].t>60*sqrt(dt(a.c[0],a.c[0])))||fabs(h[0].cos)<0.03||h[0].t<0.1))) return; vt::count("compared directions"); if(h.empty()) { vt::fail("sampled direction misses the light","%s at %.9g %.9g",w,r0,r1); return; }
            if(fabs(dist-h[0].t)>2e-3*(1+h[0].t)) { vt::fail("wrong distance of the light","%s at %.9g %.9g: %g instead of %g",w,r0,r1,dist,h[0].t); return; }
            double p=h[0].t*h[0].t/(fabs(h[0].cos)*W),tol=1e-2+2e-5*h[0].t/fabs(h[0].cos)+4e-4*h[0].t; if(fabs(pdf-p)>tol*p) { vt::fail("wrong density of a sampled light","%s at %.9g %.9g: %g instead of %g",w,r0,r1,pdf,p); return; } if(dark!=(h[0].cos<0)) vt::fail("light on the wrong side","%s at %.9g %.9g",w,r0,r1);
            float p2=l.pdf(&o,&wi); if(fabs(p2-p)>tol*p) vt::fail("wrong density of a direction","%s: %g instead of %g",w,p2,p); Vec3 lw=wi; lw*=2.5f; float p3=l.pdf(&o,&lw); if(fabs(p3-p)>tol*p) vt::fail("wrong density of a direction","%s, long vector: %g instead of %g",w,p3,p); vt::seen(vt::mix(ei*7+(dark?3:0),(uint64_t)(pdf*100)));
        };
        for(int i=0;i<N;i++) for(int j=0;j<N;j++) one((i+0.5f)/N,(j+0.5f)/N,true); for(float x:{0.f,1e-7f,0.5f,1.f}) for(float y:{0.f,0.5f,1.f}) one(x,y,false);
        mean/=N*N; double close=1e9; if(b.kind==0) { D3 q=a.ipt(od); close=fabs(sqrt(dt(q,q))-1); } else for(auto& t:wt) for(int i=0;i<=8;i++) for(int j=0;j<=8-i;j++) { D3 q=t.a+(t.b-t.a)*(i/8.)+(t.c-t.a)*(j/8.)-od; close=std::min(close,sqrt(dt(q,q)/W)); }
        if(!b.closed&&close>0.5) { double s=0; bool on=true; for(auto& t:wt) { D3 n=crs(t.b-t.a,t.c-t.a),q=od-t.a; double c=dt(n,q)/sqrt(dt(n,n)*dt(q,q)); if(fabs(c)<0.12) on=false; if(c>0) s+=solid(t,od); } if(on&&fabs(mean-s)>0.03*s+1e-4) vt::fail("sampled directions do not cover the light evenly","%s: solid angle %g instead of %g",w,mean,s); }
        if(b.kind==0&&close>0.4) { D3 q=a.ipt(od); double dd=sqrt(dt(q,q)),s=dd<1?0:2*M_PI*(1-sqrt(1-1/(dd*dd))); 
            // a point on the far side is moved to the near one with the density of the latter only
            double s2=0; if(dd>1) { const int M=4000; double cm=sqrt(1-1/(dd*dd)); for(int i=0;i<M;i++) { double c=cm+(1-cm)*(i+0.5)/M,sn2=1-c*c,b2=dd*c,r=sqrt(std::max(0.,1-dd*dd*sn2)),t1=b2-r,t2=b2+r; s2+=(1+t2*t2/(t1*t1))*2*M_PI*(1-cm)/M; } }
            if(fabs(mean-s)<=0.04*s+1e-4) {} else if(fabs(mean-s2)<=0.06*s2+1e-4) vt::fail("a sphere gives more light than its visible side","%s: solid angle %g instead of %g",w,mean,s); else vt::fail("sampled directions do not cover the light evenly","%s: solid angle %g instead of %g",w,mean,s); }
        for(int i=0;i<26;i++) for(int j=0;j<26;j++) { double ct=1-(i+0.5)/13,st=sqrt(1-ct*ct),ph=2*M_PI*(j+0.4)/26; Vec3 v(st*cos(ph),st*sin(ph),ct); vt::count("evaluations"); float p=l.pdf(&o,&v); if(bad(p)||p<0) { vt::fail("density of a direction is not a number","%s",w); continue; } std::vector<Hit> h; if(!hits(b,a,wt,od,D(v),h)) continue; if(h.empty()) { if(p!=0) vt::fail("density of a direction missing the light","%s: %g",w,p); continue; } if(fabs(h[0].cos)<0.03||h[0].t<0.1) continue; double q=h[0].t*h[0].t/(fabs(h[0].cos)*W); if(fabs(p-q)>1e-2*q) vt::fail("wrong density of a direction","%s: %g instead of %g",w,p,q); }
        vt::beat();
    }
    // 4. points on the light itself
    for(auto& b:bodies) if(b.kind==0||b.name=="box"||b.name=="cube"||b.name=="square") for(auto& f:tf) if(vt::begin("%s, %s, seen from points of itself",b.name.c_str(),f.n))
    {
        auto sp=shape(b); AreaLight l(sp.get(),f.m,SPECTRUM_ONE); float den[64]={0}; sp->get_densities_array(&f.m,den); int N=T?12:7;
        for(int i=0;i<=N;i++) for(int j=0;j<=N;j++) { Point3 p; Normal n; sp->sample_point((float)i/N,(float)j/N,den,&p,&n); Point3 o=f.m*p; for(int k=0;k<=N;k++) for(int m=0;m<=N;m++) { vt::count("evaluations"); Vec3 wi; float pdf=-1,dist=-1; Spectrum e=l.sample_visible_surface((float)k/N,(float)m/N,&o,&wi,&pdf,&dist); if(bad(pdf)||pdf<0||dist!=dist||dist<0||(pdf==0&&!e.is_black())) vt::fail("density or distance of a sampled light is not a number","%s, %s, on itself: %g %g",b.name.c_str(),f.n,pdf,dist); if(pdf>0) { float q=l.pdf(&o,&wi); if(q!=q||std::isinf(q)) vt::fail("density of a direction is not a number","%s, %s, on itself: %g",b.name.c_str(),f.n,q); } } }
    }
    // known finding: a sphere scaled by different factors
    if(vt::begin("surface of a sphere light scaled by 1 2 3")) { Sphere s; Matrix4 m=m_sc(1,2,3); vt::count("evaluations"); double A=0; int M=400; for(int i=0;i<M;i++) for(int j=0;j<M;j++) { double th=M_PI*(i+0.5)/M,ph=2*M_PI*(j+0.5)/M; double a=1,b=2,c=3; double nx=sin(th)*cos(ph)/a,ny=sin(th)*sin(ph)/b,nz=cos(th)/c; A+=a*b*c*sqrt(nx*nx+ny*ny+nz*nz)*sin(th)*(M_PI/M)*(2*M_PI/M); } if(fabs(s.surface(&m)-A)>0.02*A) vt::fail("wrong surface of a sphere scaled by different factors","%g instead of %g",s.surface(&m),A); }
    return vt::finish();
}
