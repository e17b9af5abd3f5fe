// Meshes against the exhaustive double precision test of every triangle added
// to them: nearest hit, point, interpolated normal and uv, face index and the
// material of that face, over enumerated meshes, insertion orders and rays.
#include "geo_util.hpp"
#include <algorithm>
struct D3 { double x,y,z; };
static D3 d3(double x,double y,double z) { D3 r={x,y,z}; return r; }
static D3 sub(D3 a,D3 b) { return d3(a.x-b.x,a.y-b.y,a.z-b.z); }
static D3 crs(D3 a,D3 b) { return d3(a.y*b.z-a.z*b.y,a.z*b.x-a.x*b.z,a.x*b.y-a.y*b.x); }
static double dt(D3 a,D3 b) { return a.x*b.x+a.y*b.y+a.z*b.z; }
static D3 pt(const Point3& p) { return d3(p.x,p.y,p.z); }
struct T3 { Vertex v[3]; };
typedef std::vector<T3> Tris;
struct Hit { bool hit,amb; double t,u,v,e,et; }; // e, et: how much single precision may be off
static Hit test(const T3& t,const Ray& r)
{
    Hit h; h.hit=h.amb=false; h.t=h.u=h.v=0;
    D3 a=pt(t.v[0].p), ba=sub(pt(t.v[1].p),a), ca=sub(pt(t.v[2].p),a), d=d3(r.direction.x,r.direction.y,r.direction.z), o=sub(pt(r.origin),a);
    D3 pv=crs(d,ca); double det=dt(pv,ba);
    double scale=sqrt(dt(ba,ba)*dt(ca,ca)*dt(d,d));
    if(!(fabs(det)>scale*2e-4)) // (nearly) parallel or degenerate: the single precision answer is open
    {
        if(scale==0) return h;
        D3 n=crs(ba,ca); double nl=sqrt(dt(n,n)), dist=nl>0?fabs(dt(n,o))/nl:0, ext=sqrt(std::max(dt(ba,ba),dt(ca,ca)));
        double reach=sqrt(dt(o,o));
        h.amb=dist<=1e-2*(ext+reach)||nl<=1e-4*sqrt(dt(ba,ba)*dt(ca,ca));
        return h;
    }
    double inv=1/det; h.u=dt(pv,o)*inv; D3 qv=crs(o,ba); h.v=dt(d,qv)*inv; h.t=dt(ca,qv)*inv;
    double m=std::min(std::min(h.u,h.v),1-h.u-h.v), lo=sqrt(dt(o,o)), ab=sqrt(dt(ba,ba)), ac=sqrt(dt(ca,ca)), ld=sqrt(dt(d,d));
    double abso=fabs(r.origin.x)+fabs(r.origin.y)+fabs(r.origin.z)+fabs(a.x)+fabs(a.y)+fabs(a.z);
    double e=1e-3+4e-6*(lo+abso*0.1)*ld*std::max(ab,ac)*1.0/fabs(det)*1.0; h.e=e; h.et=1e-3*(fabs(h.t)+0.05)+4e-6*(lo+abso*0.1)*ab*ac/fabs(det);
    double te=SELF_INTERSECT_ERROR;
    if(m<-e||h.t<te*0.9-h.et) return h;
    if(m<e||e>0.05||h.t<te*1.1+h.et) { h.amb=true; return h; }
    h.hit=true; return h;
}
static const Bsdf* mat(int i) { return (const Bsdf*)(uintptr_t)(0x1000+64*i); }
static std::vector<Ray> rays_for(const Tris& ts,int level)
{
    std::vector<Ray> r; float lo[3]={1e30f,1e30f,1e30f},hi[3]={-1e30f,-1e30f,-1e30f};
    for(auto& t:ts) for(auto& v:t.v) for(int a=0;a<3;a++) { lo[a]=std::min(lo[a],v.p[a]); hi[a]=std::max(hi[a],v.p[a]); }
    if(ts.empty()) for(int a=0;a<3;a++) { lo[a]=0; hi[a]=1; }
    float c[3],L=0; for(int a=0;a<3;a++) { c[a]=(lo[a]+hi[a])/2; L=std::max(L,hi[a]-lo[a]); } L=std::max(L,0.01f);
    std::vector<Point3> og;
    const float os[][3]={{-1.31f,-0.937f,1.711f},{0.173f,0.2117f,1.9f},{0.173f,-1.7f,-0.217f},{1.83f,0.11f,0.319f},{1.1f,1.37f,-1.73f},{-0.0713f,0.0931f,-1.9f},{0.03f,0.07f,0.11f},{-1.7f,0.3f,-0.13f}};
    for(auto& o:os) og.push_back(Point3(c[0]+o[0]*L,c[1]+o[1]*L,c[2]+o[2]*L));
    size_t cap=level?200:70, step=std::max<size_t>(1,ts.size()/cap);
    for(size_t i=0;i<ts.size();i+=step)
    {
        const float w[][3]={{0.31f,0.36f,0.33f},{0.8f,0.11f,0.09f},{0.12f,0.07f,0.81f}};
        int k=(int)(i/step)%3; Point3 q;
        for(int a=0;a<3;a++) q[a]=w[k][0]*ts[i].v[0].p[a]+w[k][1]*ts[i].v[1].p[a]+w[k][2]*ts[i].v[2].p[a];
        for(size_t o=0;o<og.size();o++)
        {
            if(!level && (o+i/step)%4) continue;
            Vec3 d(q.x-og[o].x,q.y-og[o].y,q.z-og[o].z);
            r.push_back(Ray(og[o],d)); Vec3 n=d; n.normalize(); r.push_back(Ray(og[o],n));
        }
        // along the axes through the triangle, from both sides and from just above it
        for(int a=0;a<3;a++) for(int s=-1;s<=1;s+=2)
        {
            if(!level && (i/step+a)%3) continue;
            Vec3 d(0,0,0); d[a]=(float)s; Point3 p=q; p[a]-=s*(L+1); r.push_back(Ray(p,d));
            p=q; p[a]-=s*0.05f*L; r.push_back(Ray(p,d));
        }
    }
    for(int k=0;k<8;k++)
    {
        Point3 o(c[0]+(k&1?1.6f:-1.6f)*L,c[1]+(k&2?1.7f:-1.7f)*L,c[2]+(k&4?1.5f:-1.5f)*L); size_t st=level?std::max<size_t>(1,ts.size()/24):std::max<size_t>(1,ts.size()/3);
        for(size_t i=0;i<ts.size();i+=st) { const T3& t=ts[ts.size()-1-i]; Vec3 d; for(int a=0;a<3;a++) d[a]=0.4f*t.v[0].p[a]+0.35f*t.v[1].p[a]+0.25f*t.v[2].p[a]-o[a]; d.normalize(); r.push_back(Ray(o,d)); }
    }
    for(auto& o:og) for(int x=-1;x<=1;x++) for(int y=-1;y<=1;y++) for(int z=-1;z<=1;z++) if(x||y||z) if(level||(x&&y&&z)) r.push_back(Ray(o,Vec3((float)x,(float)y,(float)z)));
    return r;
}
static void check(const Tris& ts,unsigned hint,int level)
{
    vt::beat();
    Mesh m(hint);
    for(auto& t:ts) m.add_triangle(&t.v[0],&t.v[1],&t.v[2]);
    m.finalize();
    if(m.get_faces_number()!=(int)ts.size()) { vt::fail("faces lost","%d instead of %d",m.get_faces_number(),(int)ts.size()); return; }
    Matrix4 tr=m_id(); Asset as(&m,tr,8);
    if(!ts.empty())
    {
        // a material per face
        const Bsdf* mats[7]; for(int i=0;i<7;i++) mats[i]=mat(i);
        std::vector<unsigned char> idx(ts.size()); for(size_t i=0;i<ts.size();i++) idx[i]=(unsigned char)((i*5+i/7)%7);
        as.set_materials(mats,7,idx.data());
        for(size_t i=0;i<ts.size();i++) if(as.get_material((unsigned)i)!=mat(idx[i])) { vt::fail("material of a face","face %d",(int)i); break; }
    }
    auto rays=rays_for(ts,level);
    if(ts.size()>1500 && !level) { std::vector<Ray> r2; for(size_t i=0;i<rays.size();i+=3) r2.push_back(rays[i]); rays=r2; }
    uint64_t hh=ts.size(); int hits=0,checked=0; size_t n=0;
    for(auto& r:rays)
    {
        if(n++%64==0) vt::beat();
        double best=1e300; int who=-1; std::vector<int> amb; std::vector<Hit> hs(ts.size());
        for(size_t i=0;i<ts.size();i++)
        {
            hs[i]=test(ts[i],r);
            if(hs[i].hit && hs[i].t<best) { best=hs[i].t; who=(int)i; }
            if(hs[i].amb) amb.push_back((int)i);
        }
        MaskBoolean none; HitPoint h; float d=FLT_MAX; h.index=0xABCDEF;
        bool f=m.intersect(&r,&d,&h,&none);
        vt::count("evaluations");
        vt::detail("ray %g,%g,%g -> %g,%g,%g",r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z);
        if(!amb.empty()) { vt::count("rays touching an edge"); continue; }
        checked++;
        if(f!=(who>=0)) { vt::fail(f?"hit where there is none":"hit missed","%d faces, ray %g,%g,%g -> %g,%g,%g: nearest face %d at t=%g, reported t=%g",(int)ts.size(),r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z,who,best,(double)d); continue; }
        // an already known nearer hit wins
        if(f)
        {
            HitPoint k; float c=(float)(best*0.98); if(c>0.02f && m.intersect(&r,&c,&k,&none)) vt::fail("farther than the known hit","t=%g",(double)c);
        }
        if(!f) continue;
        hits++;
        double tol=2*hs[who].et, len=sqrt(dt(d3(r.direction.x,r.direction.y,r.direction.z),d3(r.direction.x,r.direction.y,r.direction.z)));
        if(!(fabs(d-best)<=tol)) { vt::fail("not the nearest hit","%d faces: t=%g, nearest %g",(int)ts.size(),(double)d,best); continue; }
        if(h.index>=ts.size()) { vt::fail("index out of range","%u of %d",h.index,(int)ts.size()); continue; }
        const Hit& w=hs[h.index];
        if(!w.hit || fabs(w.t-best)>tol) { vt::fail("index of another face","%d faces: reported face %u, hit face %d",(int)ts.size(),h.index,who); continue; }
        if(h.index!=(unsigned)who) vt::count("ties");
        const T3& t=ts[h.index]; double w0=1-w.u-w.v;
        double ep=1e-3*(1+best*len)+w.et*len;
        double px=r.origin.x+best*r.direction.x,py=r.origin.y+best*r.direction.y,pz=r.origin.z+best*r.direction.z;
        if(!(fabs(h.point_h.x-px)+fabs(h.point_h.y-py)+fabs(h.point_h.z-pz)<=3*ep)) vt::fail("wrong point","%g,%g,%g instead of %g,%g,%g",h.point_h.x,h.point_h.y,h.point_h.z,px,py,pz);
        double uu=w0*t.v[0].t.x+w.u*t.v[1].t.x+w.v*t.v[2].t.x, vv=w0*t.v[0].t.y+w.u*t.v[1].t.y+w.v*t.v[2].t.y;
        // identical triangles may each win: allow every face at this distance
        bool uvok=false,nok=false; 
        for(size_t i=0;i<ts.size();i++) if(hs[i].hit && fabs(hs[i].t-best)<=tol && ((unsigned)i==h.index))
        {
            double nx=w0*t.v[0].n.x+w.u*t.v[1].n.x+w.v*t.v[2].n.x,ny=w0*t.v[0].n.y+w.u*t.v[1].n.y+w.v*t.v[2].n.y,nz=w0*t.v[0].n.z+w.u*t.v[1].n.z+w.v*t.v[2].n.z;
            uvok=fabs(h.uv.x-uu)+fabs(h.uv.y-vv)<=2e-2+8*w.e; nok=fabs(h.normal_h.x-nx)+fabs(h.normal_h.y-ny)+fabs(h.normal_h.z-nz)<=3e-2+16*w.e;
        }
        if(!uvok) vt::fail("wrong uv","%g,%g instead of %g,%g",h.uv.x,h.uv.y,uu,vv);
        if(!nok) vt::fail("wrong normal","%g,%g,%g",h.normal_h.x,h.normal_h.y,h.normal_h.z);
        hh=vt::mix(hh,h.index);
    }
    vt::seen(hh); vt::count("hits",hits); vt::count("rays checked",checked);
}
static unsigned rs=1; static float rnd() { rs=rs*1664525u+1013904223u; return (float)(rs>>8)/16777216.f; }
static T3 tri(Point3 a,Point3 b,Point3 c,int k)
{
    T3 t; Point3 p[3]={a,b,c};
    Vec3 n=cross(b-a,c-a); float l=n.length(); if(l>0) n=Vec3(n.x/l,n.y/l,n.z/l); else n=Vec3(0,0,1);
    for(int i=0;i<3;i++) { t.v[i].p=p[i]; t.v[i].n=Normal(n.x+0.1f*((k+i)%3),n.y-0.1f*((k+i)%2),n.z+0.05f*i); }
    float o=0.1f*(k%7); t.v[0].t=Point2(o,0); t.v[1].t=Point2(o+1,0.25f*(k%4)); t.v[2].t=Point2(o+0.5f,1);
    return t;
}
static Tris grid(int nx,int ny,int shape)
{
    Tris r; auto P=[&](int x,int y)->Point3{
        float h=shape==1?0.3f*sinf(x*0.9f)*cosf(y*0.7f):shape==2?0.37f*((x*7+y*3)%5):0;
        return shape==3?Point3(0.5f,(float)x,(float)y):shape==4?Point3((float)x,(float)(x+y)*0.5f,(float)y):Point3((float)x,(float)y,h); };
    int k=0; for(int y=0;y<ny;y++) for(int x=0;x<nx;x++) { r.push_back(tri(P(x,y),P(x+1,y),P(x+1,y+1),k++)); r.push_back(tri(P(x,y),P(x+1,y+1),P(x,y+1),k++)); }
    return r;
}
static Tris sphere(int a,int b)
{
    Tris r; int k=0; auto P=[&](int i,int j)->Point3{ float t=(float)M_PI*i/a,p=2*(float)M_PI*j/b; return Point3(sinf(t)*cosf(p),sinf(t)*sinf(p),cosf(t)); };
    for(int i=0;i<a;i++) for(int j=0;j<b;j++) { if(i+1<a) r.push_back(tri(P(i,j),P(i+1,j),P(i+1,j+1),k++)); if(i) r.push_back(tri(P(i,j),P(i+1,j+1),P(i,j+1),k++)); }
    return r;
}
static void order(Tris& t,int o)
{
    size_t n=t.size(); if(o==0||n<2) return;
    if(o==1) { std::reverse(t.begin(),t.end()); return; }
    Tris s; size_t st=o==2?7:n/2+1; while(std::__gcd(st,n)!=1) st++;
    for(size_t i=0;i<n;i++) s.push_back(t[(i*st)%n]); t=s;
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); const bool T=vt::thorough();
    for(unsigned hint:{0u,1u,2u,10u}) { if(vt::begin("empty mesh, hint %u",hint)) check(Tris(),hint,1); }
    // every size, shape, order and capacity hint of small grids
    for(int shape=0;shape<5;shape++) for(int n=1;n<=(T?96:48);n++) for(int o=0;o<4;o++)
    {
        if(!vt::begin("first %d faces of a grid, shape %d, order %d",n,shape,o)) continue;
        Tris t=grid(6,(n+11)/12,shape); t.resize(n); order(t,o);
        check(t,(unsigned)(o==0?1:o==1?n:o==2?n+5:0),T?1:0);
    }
    // every order of five faces
    for(int shape=0;shape<3;shape++) { int p[5]={0,1,2,3,4}; int k=0; do { if(vt::begin("permutation %d of five faces, shape %d",k++,shape)) { Tris g=grid(3,1,shape),t; for(int i:p) t.push_back(g[i]); check(t,1,0); } } while(std::next_permutation(p,p+5)); }
    for(int a=2;a<=(T?40:16);a+=a<8?1:4) for(int b=3;b<=(T?60:20);b+=b<8?1:5) { if(vt::begin("sphere of %d by %d",a,b)) { Tris t=sphere(a,b); order(t,(a+b)%4); check(t,1,0); } }
    // identical, stacked and nested faces
    for(int n=1;n<=(T?128:64);n++) for(int kind=0;kind<5;kind++)
    {
        if(!vt::begin("%d faces, arrangement %d",n,kind)) continue;
        Tris t;
        for(int i=0;i<n;i++)
        {
            float f=(float)i;
            if(kind==0) t.push_back(tri(Point3(0,0,0),Point3(1,0,0.1f),Point3(0,1,0.2f),i));
            if(kind==1) t.push_back(tri(Point3(0,0,f*0.3f),Point3(1,0,f*0.3f),Point3(0,1,f*0.3f+0.1f),i));
            if(kind==2) { float s=1+f*0.5f; t.push_back(tri(Point3(-s,-s,f),Point3(s,-s,f),Point3(0,s,f),i)); }
            if(kind==3) { if(i%2) t.push_back(tri(Point3(f,0,0),Point3(f,0,0),Point3(f,0,0),i)); else t.push_back(tri(Point3(f,0,0),Point3(f+1,0,0.2f),Point3(f,1,0),i)); }
            if(kind==4) t.push_back(i%3==0?tri(Point3(-50,f,0),Point3(50,f,0.3f),Point3(-50,f+0.2f,0.1f),i):tri(Point3(f,f,f),Point3(f+0.1f,f,f),Point3(f,f+0.1f,f+0.05f),i));
        }
        check(t,1,0);
    }
    // sizes and positions shrinking geometrically, along up to three axes: the deepest hierarchies
    for(int n:{4,8,16,24,32,40,48,64,80,96,128,192,256,384}) for(int base=0;base<4;base++) for(int kind=0;kind<6;kind++)
    {
        if(!vt::begin("%d faces shrinking geometrically by %d, arrangement %d",n,base,kind)) continue;
        Tris t; const float B[]={2.f,1.41421356f,1.26f,1.1f};
        for(int i=0;i<n;i++)
        {
            int ax=kind%3==0?0:kind%3==1?i%2:i%3, q=i/(kind%3+1);
            float p=1000*powf(B[base],-(float)q), e=p*(kind/3?0.9f:0.3f); if(p<1e-4f) break;
            Point3 o(0,0,0); o[ax]=p;
            t.push_back(tri(Point3(o.x,o.y,o.z),Point3(o.x+e,o.y+e*0.1f,o.z),Point3(o.x,o.y+e,o.z+e),i));
        }
        check(t,1,1);
    }
    // random soups
    for(int n:{3,4,5,6,7,8,9,10,15,16,17,31,32,33,50,100,200,400,800}) for(int seed=0;seed<(T?24:6);seed++)
    {
        if(!vt::begin("soup of %d faces, seed %d",n,seed)) continue;
        rs=seed*7919+n; for(int i=0;i<8;i++) rnd();
        Tris t; float sz=seed%3==0?0.1f:seed%3==1?0.5f:2.f;
        for(int i=0;i<n;i++) { Point3 a(rnd()*4,rnd()*4,rnd()*4); if(seed%2) { a.x=floorf(a.x); a.y=floorf(a.y*2)/2; }
            t.push_back(tri(a,Point3(a.x+(rnd()-.5f)*sz,a.y+(rnd()-.5f)*sz,a.z+(rnd()-.5f)*sz),Point3(a.x+(rnd()-.5f)*sz,a.y+(rnd()-.5f)*sz,a.z+(rnd()-.5f)*sz),i)); }
        check(t,seed%4,0);
    }
    for(int n:{1000,3000,6000,20000}) for(int shape=0;shape<3;shape++)
    {
        if(!T&&n>6000) continue;
        if(!vt::begin("large grid of %d faces, shape %d",n,shape)) continue;
        int s=(int)sqrtf(n/2.f); Tris t=grid(s,s,shape); order(t,shape+1); check(t,1,0);
    }
    return vt::finish();
}
