// Single assets (sphere, box, triangle, quad) under transforms and masks
// against a double precision reference: hit or not, nearest visible hit,
// point, outward normal, uv, tangents and bounding box.
#include "geo_util.hpp"
#include "d3.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_image.hpp"
#include "textures/mask_boolean.hpp"
#include <algorithm>
struct Cand { double t,u,v; D3 n,du,dv; bool uv,tan; }; // uv, tan: texture coordinates and exact tangents known
struct Kind { int k; std::vector<Vertex> tri; };
// all the points where the (object space) ray meets the surface; false if too close to call
static bool candidates(const Kind& k,D3 o,D3 d,std::vector<Cand>& c)
{
    if(k.k==0)
    {
        double a=dt(d,d),b=2*dt(o,d),q=dt(o,o)-1,disc=b*b-4*a*q;
        double imp=sqrt(std::max(0.0,dt(o,o)-b*b/(4*a))); // impact parameter
        if(fabs(imp-1)<2e-3*(1+dt(o,o)*1e-2)) return false;
        if(disc<0) return true;
        double s=sqrt(disc);
        for(int i=-1;i<=1;i+=2)
        {
            Cand h; h.t=(-b+i*s)/(2*a); D3 p=o+d*h.t; h.n=p; double ph=atan2(p[1],p[0]); if(ph<0) ph+=2*M_PI; double th=acos(std::max(-1.0,std::min(1.0,p[2])));
            h.u=ph/(2*M_PI); h.v=1-th/M_PI; double xy=hypot(p[0],p[1]); h.uv=h.tan=xy>0.05;
            h.du=d3(-p[1],p[0],0)*(2*M_PI); h.dv=xy>0?d3(-p[2]*p[0]/xy,-p[2]*p[1]/xy,xy)*M_PI:d3(1,0,0); c.push_back(h);
        }
        return true;
    }
    if(k.k==1)
    {
        for(int a=0;a<3;a++) for(int s=0;s<2;s++)
        {
            if(d[a]==0) { if(fabs(o[a]-s)<1e-3) return false; continue; }
            Cand h; h.t=(s-o[a])/d[a]; D3 p=o+d*h.t; double m=1; for(int b=0;b<3;b++) if(b!=a) m=std::min(m,std::min(p[b],1-p[b]));
            double e=1e-3*(1+0.01*fabs(h.t)*sqrt(dt(d,d)));
            if(m<-e) continue;
            if(m<e) return false;
            h.n=d3(0,0,0); h.n[a]=s?1:-1; h.uv=h.tan=true;
            h.du=a==2?d3(h.n[2],0,0):d3(-h.n[1],h.n[0],0); h.dv=a==2?d3(0,1,0):d3(0,0,1); h.u=dt(p,h.du)+(h.du[0]+h.du[1]<0?1:0); h.v=dt(p,h.dv); c.push_back(h); // each face shows the whole texture
        }
        return true;
    }
    for(size_t i=0;i+2<k.tri.size();i+=3)
    {
        const Vertex* v=&k.tri[i]; D3 a=D(v[0].p),ba=D(v[1].p)-a,ca=D(v[2].p)-a,q=o-a,pv=crs(d,ca); double det=dt(pv,ba),sc=sqrt(dt(ba,ba)*dt(ca,ca)*dt(d,d));
        if(fabs(det)<1e-3*sc) return false;
        Cand h; double u=dt(pv,q)/det; D3 qv=crs(q,ba); double w=dt(d,qv)/det; h.t=dt(ca,qv)/det; double m=std::min(std::min(u,w),1-u-w);
        double e=1e-3+4e-6*sqrt(dt(q,q))*sc/fabs(det)/sqrt(std::min(dt(ba,ba),dt(ca,ca)));
        if(m<-e) continue;
        if(m<e) return false;
        double w0=1-u-w; h.n=D(v[0].n)*w0+D(v[1].n)*u+D(v[2].n)*w; h.u=w0*v[0].t.x+u*v[1].t.x+w*v[2].t.x; h.v=w0*v[0].t.y+u*v[1].t.y+w*v[2].t.y; h.uv=true;
        double t1u=v[1].t.x-v[0].t.x,t1v=v[1].t.y-v[0].t.y,t2u=v[2].t.x-v[0].t.x,t2v=v[2].t.y-v[0].t.y,td=t1u*t2v-t2u*t1v; h.tan=fabs(td)>1e-6;
        if(h.tan) { h.du=(ba*t2v-ca*t1v)*(1/td); h.dv=(ca*t1u-ba*t2u)*(1/td); }
        c.push_back(h);
    }
    return true;
}
struct Mk { const char* name; MaskBoolean m; int pat,inv; };
// 64x64 patterns: visible parts of the texture space; -1: too close to a border
static int visible(int pat,double u,double v)
{
    if(pat==0) return 1;
    if(u<0||u>1||v<0||v>1) return -1;
    double x=u*64-0.5,y=v*64-0.5; double f=pat==1?fabs(x-32):pat==2?fabs(y-32):0;
    if(pat<3) { if(f<2) return -1; return (pat==1?x<32:y<32)?1:0; }
    int c=((int)(x/8)+(int)(y/8))%2; double fx=fmod(x,8),fy=fmod(y,8);
    if(fx<1.5||fx>6.5||fy<1.5||fy>6.5) return -1;
    return c==0;
}
static void check(const Kind& k,const Shape* s,const Matrix4& m,Mk& mk,const std::vector<Ray>& rays)
{
    Asset as(s,m,1); as.set_mask(mk.m);
    Aff a=aff(m); const AABB* bb=as.get_AABB(); uint64_t hh=1; int hits=0;
    size_t n=0;
    for(auto& r:rays)
    {
        if(n++%256==0) vt::beat();
        std::vector<Cand> c; if(!candidates(k,a.ipt(D(r.origin)),a.ivec(D(r.direction)),c)) { vt::count("rays touching an edge"); continue; }
        std::sort(c.begin(),c.end(),[](const Cand& x,const Cand& y) { return x.t<y.t; });
        bool skip=false; std::vector<Cand> vis;
        for(auto& h:c)
        {
            if(fabs(h.t-SELF_INTERSECT_ERROR)<2e-3) skip=true;
            if(h.t<SELF_INTERSECT_ERROR) continue;
            int w=mk.pat==0?(mk.inv?0:1):!h.uv?-1:visible(mk.pat,h.u,h.v); if(w<0) { skip=true; break; }
            if(mk.pat && mk.inv) w=!w;
            if(w) vis.push_back(h);
        }
        if(skip) { vt::count("rays touching an edge"); continue; }
        // limits: none, and between the hits
        std::vector<float> lim(1,FLT_MAX); for(size_t i=0;i<vis.size();i++) { double p=i?vis[i-1].t:0; float l=(float)((p+vis[i].t)/2); if(l>0.02f && vis[i].t-p>0.02) lim.push_back(l); }
        for(size_t i=0;i<c.size();i++) if(c[i].t>0.03) { lim.push_back((float)(c[i].t*0.9)); lim.push_back((float)(c[i].t*1.05)); }
        for(float l:lim)
        {
            bool close=false; for(auto& h:vis) if(fabs(h.t-l)<1e-3*(1+h.t)) close=true; if(close||l<=0.02f) continue;
            vt::count("evaluations");
            vt::detail("ray %g,%g,%g -> %g,%g,%g limit %g",r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z,(double)l);
            const Cand* w=vis.empty()||vis[0].t>l?NULL:&vis[0];
            HitPoint h; h.differentials=false; h.du=h.dv=Vec2(0,0); h.uv=Point2(0.5f,0.5f); h.dpdu=Vec3(NAN,NAN,NAN); h.dpdv=Vec3(NAN,NAN,NAN); h.index=77; float d=l;
            bool f=as.intersect(&r,&d,&h);
            if(f!=(w!=NULL)) { vt::fail(f?"hit where there is none":"hit missed","limit %g: expected t=%g, reported t=%g; ray %g,%g,%g -> %g,%g,%g",(double)l,w?w->t:-1,(double)d,r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z); continue; }
            if(!f) { if(d!=l) vt::fail("distance changed without a hit","%g -> %g",(double)l,(double)d); continue; }
            hits++;
            if(!(fabs(d-w->t)<=2e-3*(1+w->t))) { vt::fail("not the nearest visible hit","t=%g instead of %g",(double)d,w->t); continue; }
            D3 p=D(r.origin)+D(r.direction)*w->t; double len=sqrt(dt(D(r.direction),D(r.direction)));
            D3 e=D(h.point_h)-p; double tol=2e-3*(1+w->t*len+sqrt(dt(a.o,a.o))*0.1);
            D3 po=k.k==0?a.ipt(p):d3(1,1,1); // the poles of a sphere are reported slightly shifted
            if(!(sqrt(dt(e,e))<=tol+(hypot(po[0],po[1])<1e-3?SELF_INTERSECT_ERROR*1.1*sqrt(dt(a.c[0],a.c[0])):0))) vt::fail("wrong point","off by %g",sqrt(dt(e,e)));
            D3 nn=a.nor(w->n), hn=D(h.normal_h);
            if(!(fabs(dt(hn,hn)-1)<2e-3) || !(dt(hn,nn)>0.998)) vt::fail("wrong normal","%g,%g,%g instead of %g,%g,%g; ray %g,%g,%g -> %g,%g,%g",hn[0],hn[1],hn[2],nn[0],nn[1],nn[2],r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z);
            if(w->uv && !(fabs(h.uv.x-w->u)<=4e-3+(k.k==0?2e-2:0) && fabs(h.uv.y-w->v)<=4e-3)) { double du=fabs(h.uv.x-w->u); if(!(k.k==0&&fabs(du-1)<1e-2)) vt::fail("wrong uv","%g,%g instead of %g,%g",h.uv.x,h.uv.y,w->u,w->v); }
            D3 tu=D(h.dpdu),tv=D(h.dpdv);
            double lu=sqrt(dt(tu,tu)),lv=sqrt(dt(tv,tv));
            if(!(lu>0 && lu<1e30) || !(lv>0 && lv<1e30)) vt::fail("tangents vanish","%g,%g,%g and %g,%g,%g",tu[0],tu[1],tu[2],tv[0],tv[1],tv[2]);
            else
            {
                D3 cr=crs(nrm(tu),nrm(tv)); if(!(dt(cr,cr)>1e-6)) vt::fail("parallel tangents","%g,%g,%g and %g,%g,%g",tu[0],tu[1],tu[2],tv[0],tv[1],tv[2]);
                if(w->tan)
                {
                    // the change of the point with the texture coordinates
                    D3 wu=a.vec(w->du),wv=a.vec(w->dv),eu=tu-wu,ev=tv-wv;
                    if(!(dt(nrm(tu),nrm(wu))>0.995) || !(dt(nrm(tv),nrm(wv))>0.995)) vt::fail("wrong tangents","%g,%g,%g and %g,%g,%g",tu[0],tu[1],tu[2],tv[0],tv[1],tv[2]);
                    else if(!(sqrt(dt(eu,eu))<=0.1*sqrt(dt(wu,wu))) || !(sqrt(dt(ev,ev))<=0.1*sqrt(dt(wv,wv)))) vt::fail("wrong length of the tangents","%g and %g instead of %g and %g",lu,lv,sqrt(dt(wu,wu)),sqrt(dt(wv,wv)));
                }
                else if(k.k>=2 && !(fabs(dt(nrm(tu),hn))<0.9999)) vt::fail("tangent along the normal","%g",dt(tu,hn));
            }
            if(h.index!=0 && k.k<=1) vt::fail("face index","%u",h.index);
            // the bounding box contains the point and is met no later than the hit
            RayProperties rp(r); float t0,t1;
            for(int q=0;q<3;q++) if(!(p[q]>=bb->bounds[0][q]-tol) || !(p[q]<=bb->bounds[1][q]+tol)) { vt::fail("hit outside of the bounding box","axis %d",q); break; }
            if(mk.pat==0 && k.k<2)
            {
                if(!as.intersect_AABB(&r,&rp,&t0,&t1)) vt::fail("bounding box missed","t=%g",w->t);
                else if(!(t0<=w->t+1e-2*(1+w->t)) || !(t1>=w->t-1e-2*(1+w->t))) vt::fail("bounding box interval","%g..%g does not contain %g",t0,t1,w->t);
            }
            hh=vt::mix(hh,(uint64_t)(w->t*1000));
        }
    }
    vt::seen(hh); vt::count("hits",hits);
}
static std::vector<Ray> rays_for(const Matrix4& m,const Kind& k,bool T)
{
    std::vector<Ray> r; D3 ctr=k.k==0?d3(0,0,0):d3(0.5,0.5,0.5); Aff a=aff(m);
    const double os[]={-3.1731,-0.7319,0.1713,0.4177,2.2391};
    int n=0;
    for(double x:os) for(double y:os) for(double z:os)
    {
        if(!T && (n++%2)) continue;
        D3 o=a.pt(ctr+d3(x,y*1.07,z*0.93)); Point3 po((float)o[0],(float)o[1],(float)o[2]);
        for(int i=-1;i<=1;i++) for(int j=-1;j<=1;j++) for(int l=-1;l<=1;l++) if(i||j||l)
        { r.push_back(Ray(po,Vec3((float)i,(float)j,(float)l))); if(T) r.push_back(Ray(po,Vec3(i*3.f,j*3.f+0.1f,l*3.f))); }
        const double ts[][3]={{0.07,0.11,-0.05},{0.61,-0.33,0.29},{-0.41,0.52,0.37},{-0.2,-0.45,-0.71},{0.31,0.3,0.85}};
        for(auto& t:ts) { D3 q=a.pt(ctr+d3(t[0],t[1],t[2])*(k.k==0?1:0.55))-o; r.push_back(Ray(po,Vec3((float)q[0],(float)q[1],(float)q[2]))); double l=sqrt(dt(q,q)); r.push_back(Ray(po,Vec3((float)(q[0]/l),(float)(q[1]/l),(float)(q[2]/l)))); }
    }
    // from points on the surface: secondary rays
    for(int i=0;i<40;i++)
    {
        double z=1-2*(i+0.37)/40, ph=i*2.399963, s=sqrt(1-z*z); D3 q=d3(s*cos(ph),s*sin(ph),z);
        if(k.k==1) { double mx=std::max(fabs(q[0]),std::max(fabs(q[1]),fabs(q[2]))); q=q*(0.5/mx)+d3(.5,.5,.5); }
        if(k.k>=2) { q=d3(fabs(q[0])*0.4,fabs(q[1])*0.4,0.001*i); }
        D3 o=a.pt(q); Point3 po((float)o[0],(float)o[1],(float)o[2]);
        for(int j=0;j<14;j++) { double z2=1-2*(j+0.41)/14,p2=j*2.399963+i,s2=sqrt(1-z2*z2); r.push_back(Ray(po,Vec3((float)(s2*cos(p2)),(float)(s2*sin(p2)),(float)z2))); }
    }
    // through the poles of the sphere
    if(k.k==0) for(int j=0;j<6;j++) for(int s=-1;s<=1;s+=2) { D3 p=a.pt(d3(0,0,s)),d=a.vec(d3(0.1*j,0.05*j,-s*1.0)); D3 o=p-d*2; r.push_back(Ray(Point3((float)o[0],(float)o[1],(float)o[2]),Vec3((float)d[0],(float)d[1],(float)d[2]))); }
    return r;
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); const bool T=vt::thorough();
    std::vector<Matrix4> ms; std::vector<const char*> mn;
    auto A=[&](const char* n,const Matrix4& m){ ms.push_back(m); mn.push_back(n); };
    A("identity",m_id()); A("translation",m_tr(3,-2,5)); A("scale",m_sc(2,2,2)); A("small",m_sc(0.2f,0.2f,0.2f)); A("nonuniform",m_sc(1,3,0.5f)); A("flat",m_sc(4,4,0.1f));
    A("rotation x",m_rot(0.7f,0,0)); A("rotation",m_rot(0.4f,1.1f,-2.3f)); A("quarter turn",m_rot((float)(M_PI/2),0,0)); A("mirror",m_sc(-1,1,1)); A("point mirror",m_sc(-1,-2,-1));
    A("all",m_mul(m_mul(m_tr(-4,1.5f,2),m_rot(0.3f,-0.8f,1.9f)),m_sc(1.5f,0.6f,2.2f))); A("sheared",m_mul(m_mul(m_rot(0.3f,0.2f,0.9f),m_sc(1,2.5f,0.7f)),m_rot(0.8f,-0.4f,0.3f))); A("far",m_mul(m_tr(40,-30,20),m_sc(5,5,5)));
    std::vector<Kind> ks; std::vector<const Shape*> ss; std::vector<const char*> kn;
    Kind sp; sp.k=0; ks.push_back(sp); ss.push_back(new Sphere()); kn.push_back("sphere"); Kind bx; bx.k=1; ks.push_back(bx); ss.push_back(new Box()); kn.push_back("box");
    for(int i=0;i<6;i++)
    {
        Kind k; k.k=2; std::vector<Vertex>& v=k.tri; Vertex a=vtx(0,0,0,0,0,1,0,0),b=vtx(1,0,0,0,0,1,1,0),c=vtx(1,1,0,0,0,1,1,1),d=vtx(0,1,0,0,0,1,0,1);
        const char* n="quad";
        if(i==1) { n="slanted triangle"; a.p=Point3(0,0,0.2f); b.p=Point3(1,0.2f,0.9f); c.p=Point3(0.1f,1,0.1f); a.n=Normal(0.1f,0.2f,0.9f); b.n=Normal(-0.3f,0,0.9f); c.n=Normal(0,0.4f,0.8f); a.t=Point2(0.1f,0.2f); b.t=Point2(0.7f,0.1f); c.t=Point2(0.9f,0.8f); }
        if(i==2) { n="triangle without extent in texture space"; a.t=b.t=c.t=Point2(0,0); }
        if(i==3) { n="triangle on a line in texture space"; a.t=Point2(0,0); b.t=Point2(0.5f,0.5f); c.t=Point2(1,1); }
        if(i==4) { n="triangle with flipped texture"; a.t=Point2(1,0); b.t=Point2(0,0); c.t=Point2(0.2f,0.9f); }
        if(i==5) { n="thin triangle"; b.p=Point3(1,0,0); c.p=Point3(1,0.1f,0.05f); }
        v.push_back(a); v.push_back(b); v.push_back(c); if(i==0) { v.push_back(a); v.push_back(c); v.push_back(d); }
        Mesh* m=new Mesh(1); for(size_t j=0;j<v.size();j+=3) m->add_triangle(&v[j],&v[j+1],&v[j+2]); m->finalize();
        ks.push_back(k); ss.push_back(m); kn.push_back(n);
    }
    // masks
    std::vector<Mk> mk; Mk none; none.name="no mask"; none.pat=0; none.inv=0; mk.push_back(none);
    static Vec2 sh(0,0),sc(1,1);
    for(int pat=1;pat<=3;pat++) for(int ch=0;ch<4;ch++) for(int inv=0;inv<2;inv++)
    {
        static const char* nm[]={"","left half","lower half","checks"};
        std::vector<TexelUnion> px(64*64); for(int y=0;y<64;y++) for(int x=0;x<64;x++)
        {
            bool on=pat==1?x<32:pat==2?y<32:((x/8)+(y/8))%2==0; TexelUnion t; uint8_t other=on?20:240,v=on?128:127;
            t.bgra_texel.a=t.bgra_texel.r=t.bgra_texel.g=t.bgra_texel.b=other; // the other channels say the opposite
            if(ch==0) t.bgra_texel.a=v; else if(ch==1) t.bgra_texel.r=v; else if(ch==2) t.bgra_texel.g=v; else t.bgra_texel.b=v;
            px[y*64+x]=t;
        }
        ImageMapUnfiltered* im=new ImageMapUnfiltered((const pixBGRA*)px.data(),64);
        Mk k; k.name=nm[pat]; k.m=MaskBoolean(new TextureImage(im,sh,sc,true),(ImageChannel)ch,inv); k.pat=pat; k.inv=inv; mk.push_back(k);
    }
    for(size_t k=0;k<ks.size();k++) for(size_t m=0;m<ms.size();m++) for(size_t q=0;q<mk.size();q++)
    {
        if(q && k>=4 && k!=6) continue;
        if(q && !T && (q+m+k)%4) continue;
        if(!vt::begin("%s, %s, mask %s %d%s",kn[k],mn[m],mk[q].name,(int)((q-1)/2%4),mk[q].inv?" inverted":"")) continue;
        check(ks[k],ss[k],ms[m],mk[q],rays_for(ms[m],ks[k],T));
    }
    return vt::finish();
}
