// The scene's accelerator against the exhaustive test of every asset, over
// enumerated scenes, histories of insertions and rebuilds, and rays.
#include "geo_util.hpp"
#include "accelerators/kdtree.hpp"
#include "utility/scene.hpp"
#include <set>
#include <algorithm>

static Sphere* SPH; static Box* BOX; static Mesh* QUAD; static Mesh* SLA;
typedef std::unique_ptr<Asset> AP;
static AP mk(int kind,const Matrix4& m)
{
    const Shape* s=kind==0?(const Shape*)SPH:kind==1?(const Shape*)BOX:kind==2?(const Shape*)QUAD:(const Shape*)SLA;
    return AP(new Asset(s,m,1));
}
// an asset of the given kind filling the cell at x,y,z with side s
static AP cell(int kind,int orient,float x,float y,float z,float s)
{
    Matrix4 m;
    if(kind==0) m=m_mul(m_tr(x+s/2,y+s/2,z+s/2),m_sc(s/2,s/2,s/2));
    else if(kind==2)
    {
        const float H=(float)(M_PI/2);
        Matrix4 r=orient==0?m_id():orient==1?m_rot(H,0,0):m_rot(0,H,0);
        m=m_mul(m_mul(m_tr(x,y,z),m_sc(s,s,s)),r);
    }
    else m=m_mul(m_tr(x,y,z),m_sc(s,s,s));
    return mk(kind,m);
}
static std::vector<Ray> rays_for(const std::vector<const Asset*>& as,int level)
{
    std::vector<Ray> r;
    AABB bb; for(auto a:as) bb.engulf(a->get_AABB());
    if(as.empty()) bb=AABB(Point3(0,0,0),Point3(1,1,1));
    Point3 c=bb.center(); Vec3 d=bb.bounds[1]-bb.bounds[0];
    float L=std::max(std::max(d.x,d.y),d.z)+1;
    // generic positions: no ray lies in the plane of a cell
    const float o[]={-1.37f,-0.2193f,0.11731f,0.6417f,1.4177f};
    std::vector<Point3> og;
    for(float x:o) for(float y:o) for(float z:o)
    {
        if(level==0 && (std::fabs(x)<1&&std::fabs(y)<1&&std::fabs(z)<1) && !(x==0.11731f&&y==-0.2193f)) continue;
        if(level==0 && ((int)(x*3+y*5+z*7)&1)) continue;
        og.push_back(Point3(c.x+x*L,c.y+y*L,c.z+z*L));
    }
    for(auto& p:og)
    {
        int k=0;
        size_t step=std::max<size_t>(1,as.size()/(level?16:6));
        for(size_t i=0;i<as.size();i+=step)
        {
            Point3 t=as[i]->get_AABB()->center();
            float e=0.0137f*(1+(k++%5));
            Vec3 v(t.x+e-p.x,t.y-e*0.7f-p.y,t.z+e*0.4f-p.z);
            r.push_back(Ray(p,v));                 // the length of a direction is free
            v.normalize(); r.push_back(Ray(p,v));
        }
        for(int x=-1;x<=1;x++) for(int y=-1;y<=1;y++) for(int z=-1;z<=1;z++)
        {
            if(!x&&!y&&!z) continue;
            int nz=(x!=0)+(y!=0)+(z!=0);
            if(level==0 && nz>1 && (&p-&og[0])%4) continue;
            r.push_back(Ray(p,Vec3((float)x,(float)y,(float)z)));
        }
    }
    // axis parallel rays through the interior of every cell
    size_t step=std::max<size_t>(1,as.size()/40);
    for(size_t i=0;i<as.size();i+=step)
    {
        Point3 t=as[i]->get_AABB()->center();
        const Vec3 ax[]={Vec3(1,0,0),Vec3(0,1,0),Vec3(0,0,1)};
        for(int a=0;a<3;a++) for(int s=-1;s<=1;s+=2)
        {
            Vec3 v=ax[a]; Point3 p(t.x+0.0191f,t.y+0.0113f,t.z-0.0171f);
            for(int b=0;b<3;b++) if(v[b]!=0) { v[b]*=s; p[b]-=s*(L*2); }
            r.push_back(Ray(p,v));
            // from a face of a cell outwards and inwards
            Point3 q(t.x+0.0191f,t.y+0.0113f,t.z-0.0171f); for(int b=0;b<3;b++) if(v[b]!=0) q[b]=as[i]->get_AABB()->bounds[s>0?1:0][b];
            r.push_back(Ray(q,v));
            r.push_back(Ray(q,Vec3(v.x+0.31f,v.y-0.23f,v.z+0.17f)));
            r.push_back(Ray(q,Vec3(-v.x+0.31f,-v.y-0.23f,-v.z+0.17f)));
        }
    }
    return r;
}
static void query(const KdTree& k,const std::vector<const Asset*>& as,const std::vector<Ray>& rays,const char* when,bool every=true)
{
    vt::beat();
    int hits=0; uint64_t hh=as.size();
    for(auto& r:rays)
    {
        // the nearest hit over all assets
        float best=FLT_MAX; const Asset* who=NULL; HitPoint bh;
        for(auto a:as)
        {
            float d=FLT_MAX; HitPoint h;
            if(a->intersect(&r,&d,&h) && d<best) { best=d; who=a; bh=h; }
        }
        HitPoint g; g.asset_h=NULL;
        bool f=k.intersect(&r,&g);
        vt::count("evaluations");
        vt::detail("%s: ray %g,%g,%g -> %g,%g,%g",when,r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z);
        if(f!=(who!=NULL))
        {
            vt::fail(f?"hit reported where there is none":"hit missed","%s, %d assets: ray %g,%g,%g -> %g,%g,%g, nearest asset at t=%g",when,(int)as.size(),
                     r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z,best);
            continue;
        }
        if(!f) continue;
        hits++;
        bool member=false; for(auto a:as) if(a==g.asset_h) member=true;
        if(!member) { vt::fail("unknown asset hit","%s, %d assets",when,(int)as.size()); continue; }
        float d=FLT_MAX; HitPoint h;
        bool own=g.asset_h->intersect(&r,&d,&h);
        if(!own || d>best*1.0001f+1e-4f)
            vt::fail("not the nearest hit","%s, %d assets: ray %g,%g,%g -> %g,%g,%g, reported asset at t=%g, nearest at t=%g",when,(int)as.size(),
                     r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z,own?d:-1.f,best);
        else
        {
            float e=g.point_h.distance(bh.point_h), n=std::fabs(g.normal_h.x-h.normal_h.x)+std::fabs(g.normal_h.y-h.normal_h.y)+std::fabs(g.normal_h.z-h.normal_h.z);
            float len=r.direction.length()*best;
            if(!(e<=1e-3f*(1+len))) vt::fail("wrong hit point","%s: off by %g at distance %g",when,e,len);
            if(g.asset_h==who && !(n<=1e-3f)) vt::fail("hit details of another asset","%s: normal %g,%g,%g instead of %g,%g,%g",when,g.normal_h.x,g.normal_h.y,g.normal_h.z,h.normal_h.x,h.normal_h.y,h.normal_h.z);
        }
        hh=vt::mix(hh,(uint64_t)(std::find(as.begin(),as.end(),who)-as.begin()));
    }
    vt::seen(hh);
    vt::count("hits",hits);
}
static std::vector<const Asset*> raw(const std::vector<AP>& v) { std::vector<const Asset*> r; for(auto& a:v) r.push_back(a.get()); return r; }
// build once, again, and incrementally
static void full(std::vector<AP>& v,int level)
{
    auto as=raw(v); auto rays=rays_for(as,level);
    { KdTree k; for(auto a:as) k.addAsset(a); k.buildTree(); query(k,as,rays,"one build");
      k.buildTree(); query(k,as,rays,"second build"); k.buildTree(); query(k,as,rays,"third build"); }
    if(as.size()>1 && as.size()<=30)
    {
        KdTree k; std::vector<const Asset*> part;
        for(size_t i=0;i<as.size();i++)
        {
            k.addAsset(as[i]); part.push_back(as[i]);
            if(i%3==0||i+1==as.size()) { k.buildTree(); query(k,part,rays_for(part,0),"incremental build"); }
        }
    }
}
int main(int argc,char** argv)
{
    vt::init(argc,argv);
    SPH=new Sphere(); BOX=new Box(); QUAD=quad(); SLA=slanted();
    const bool T=vt::thorough();
    // every subset of the 2x2x2 cells
    for(int kind=0;kind<5;kind++) for(int orient=0;orient<(kind==2?3:1);orient++) for(int gap=0;gap<2;gap++) for(int sub=0;sub<256;sub++)
    {
        if(!T && sub%(kind==4?1:2) && sub!=255 && gap) continue;
        if(!vt::begin("subset %02x of the 2x2x2 cells, shape %d, orientation %d, %s",sub,kind,orient,gap?"apart":"touching")) continue;
        std::vector<AP> v; float p=gap?1.5f:1.f; int n=0;
        for(int i=0;i<8;i++) if(sub&(1<<i))
        { v.push_back(cell(kind==4?n%4:kind,kind==4?n%3:orient,(i&1)*p,((i>>1)&1)*p,((i>>2)&1)*p,1.f)); n++; }
        full(v,T?1:0);
    }
    // tilings: rows, planes and blocks of adjacent cells
    for(int kind=0;kind<4;kind++) for(int orient=0;orient<3;orient++) for(int nx=1;nx<=6;nx++) for(int ny=1;ny<=6;ny++) for(int nz=1;nz<=3;nz++)
    {
        if(kind!=2&&orient) continue;
        if(!T && (nx*ny*nz>30 || (nz>1&&nx*ny>9))) continue;
        if(!vt::begin("tiling %dx%dx%d, shape %d, orientation %d",nx,ny,nz,kind,orient)) continue;
        std::vector<AP> v;
        for(int z=0;z<nz;z++) for(int y=0;y<ny;y++) for(int x=0;x<nx;x++) v.push_back(cell(kind,orient,(float)x,(float)y,(float)z,1.f));
        full(v,0);
    }
    // flat pieces stacked along one axis, with and without something between them
    for(int n=1;n<=(T?40:24);n++) for(int orient=0;orient<3;orient++) for(int mix=0;mix<4;mix++)
    {
        if(!vt::begin("%d flat pieces stacked, orientation %d, arrangement %d",n,orient,mix)) continue;
        std::vector<AP> v;
        for(int i=0;i<n;i++)
        {
            float p=(float)(mix==1?(i*7)%n:mix==2?i/2:i)*0.5f;
            float q=mix==3?i*0.9f:0;
            if(orient==0) v.push_back(cell(2,0,q,0,p,1.f)); else if(orient==1) v.push_back(cell(2,1,0,p,q,1.f)); else v.push_back(cell(2,2,p,q,0,1.f));
            if(mix==2 && i%3==0) v.push_back(cell(1,0,p,p,p,0.5f));
        }
        full(v,0);
    }
    // nested, overlapping and identical assets
    for(int n=1;n<=(T?40:20);n++) for(int kind=0;kind<4;kind++) for(int mode=0;mode<4;mode++)
    {
        if(!vt::begin("%d %s assets of shape %d",n,mode==0?"nested":mode==1?"overlapping":mode==2?"identical":"crossing",kind)) continue;
        std::vector<AP> v;
        for(int i=0;i<n;i++)
        {
            if(mode==0) v.push_back(cell(kind,0,-0.35f*i,-0.35f*i,-0.35f*i,1+0.7f*i));
            if(mode==1) v.push_back(cell(kind,i%3,0.37f*i,0.21f*(i%4),0.11f*(i%3),1.f));
            if(mode==2) v.push_back(cell(kind,0,0.25f,0.5f,0.75f,1.f));
            if(mode==3) // long slabs along the three axes
            {
                float t=0.3f*(i/3);
                Matrix4 s=i%3==0?m_sc(8,0.2f,0.2f):i%3==1?m_sc(0.2f,8,0.2f):m_sc(0.2f,0.2f,8);
                Matrix4 p=i%3==0?m_tr(-4,t,1-t):i%3==1?m_tr(t,-4,t*0.7f):m_tr(2-t,t,-4);
                v.push_back(mk(kind,m_mul(p,s)));
            }
        }
        full(v,0);
    }
    // rotated and scaled assets
    for(int n=1;n<=12;n++) for(int kind=0;kind<4;kind++) for(int a=0;a<4;a++)
    {
        if(!vt::begin("%d rotated assets of shape %d, angle set %d",n,kind,a)) continue;
        std::vector<AP> v;
        for(int i=0;i<n;i++)
            v.push_back(mk(kind,m_mul(m_mul(m_tr((i%3)*1.7f,(i/3)*1.9f,(i%2)*1.3f),m_rot(0.4f*a+i*0.3f,0.7f*a,0.2f*a*i)),m_sc(1.f+0.2f*(i%3),0.7f,1.1f))));
        full(v,T?1:0);
    }
    // histories: every sequence of insertions and builds
    for(int kind=0;kind<5;kind++)
    {
        const int D=T?9:7;
        for(int code=0;code<(1<<D);code++)
        {
            if(!vt::begin("history %d of insertions and builds, shape %d",code,kind)) continue;
            KdTree k; std::vector<AP> own; std::vector<const Asset*> inserted,built; int used=0;
            for(int i=0;i<D;i++)
            {
                if(code&(1<<i)) { k.buildTree(); built=inserted; query(k,built,rays_for(built,0),"after a build"); }
                else { own.push_back(cell(kind==4?used%4:kind,used%3,(used%2)*1.2f,(used/2%2)*1.2f,(used/4)*1.2f,1.f)); used++; k.addAsset(own.back().get()); inserted.push_back(own.back().get()); }
            }
            k.buildTree(); query(k,inserted,rays_for(inserted,0),"after the last build");
        }
    }
    // assets of exactly the same extent, which nothing can split, each with a plane of its own inside
    for(int n:{4,5,16,17,100,255,256,257,300,511,513,1025}) for(int ax=0;ax<3;ax++)
    {
        if(!vt::begin("%d assets of one extent, planes across axis %d",n,ax)) continue;
        std::vector<std::unique_ptr<Mesh>> ms; std::vector<AP> own; std::vector<const Asset*> as; KdTree k;
        for(int i=0;i<n;i++)
        {
            int j=(int)((i*7919LL)%n); float z=(j+1.f)/(n+1.f); ms.emplace_back(new Mesh(4)); Mesh& m=*ms.back();
            auto P=[&](float a,float b,float c) { return ax==0?Point3(c,a,b):ax==1?Point3(b,c,a):Point3(a,b,c); };
            m.add_triangle(P(0.1f,0.1f,z),P(0.9f,0.1f,z),P(0.1f,0.9f,z),Normal(0,0,1)); m.add_triangle(P(0.9f,0.9f,z),P(0.1f,0.9f,z),P(0.9f,0.1f,z),Normal(0,0,1));
            m.add_triangle(P(0,0,0),P(0.001f,0,0),P(0,0.001f,0),Normal(0,0,1)); m.add_triangle(P(1,1,1),P(0.999f,1,1),P(1,0.999f,1),Normal(0,0,1)); m.finalize();
            own.emplace_back(new Asset(&m,m_mul(m_tr(-1,0.5f,2),m_sc(40,40,40)),1)); as.push_back(own.back().get()); k.addAsset(as.back());
        }
        k.buildTree(); std::vector<Ray> r;
        for(int i=0;i<24;i++) { float u=-1+40*(0.2f+0.025f*i),v=0.5f+40*(0.7f-0.02f*i),w=2+40*(i+0.37f)/24; auto P=[&](float a,float b,float c) { return ax==0?Point3(c-3,a+1.5f,b+1.5f):ax==1?Point3(b-1.5f,c-1.5f,a+3):Point3(a,b,c); }; Point3 o=P(u,v,i%3?w:i%2?-20.f:60.f); Vec3 d=ax==0?Vec3(1,0.02f,-0.03f):ax==1?Vec3(-0.03f,1,0.02f):Vec3(0.02f,-0.03f,1); r.push_back(Ray(o,d)); r.push_back(Ray(o,-d)); }
        query(k,as,r,"one build");
    }
    // sizes around the capacity: nothing is lost below it, the excess is refused
    for(int n:{3,4,5,15,16,17,63,255,1000,2048,4095,4096,4097,4300,5000}) for(int shape=0;shape<4;shape++)
    {
        if(!T && n>1000 && shape>1 && n!=4096 && n!=5000) continue;
        if(!vt::begin("%d assets, layout %d",n,shape)) continue;
        KdTree k; std::vector<AP> own; std::vector<const Asset*> as;
        for(int i=0;i<n;i++)
        {
            float x=(float)(i%17),y=(float)(i/17%17),z=(float)(i/289);
            if(shape==0) own.push_back(cell(1,0,x*1.3f,y*1.3f,z*1.3f,1.f));
            else if(shape==1) own.push_back(cell(0,0,x*0.4f,y*0.4f,z*0.4f,1.f));  // heavily overlapping
            else if(shape==2) own.push_back(cell(2,i%3,x,y,z,1.f));
            else { Matrix4 s=i%2?m_sc(30,0.1f,0.1f):m_sc(0.1f,30,0.1f); own.push_back(mk(1,m_mul(m_tr(i%2?-1.f:x,i%2?y:-1.f,z*0.3f),s))); }
            k.addAsset(own.back().get()); if(i<4096) as.push_back(own.back().get());
            if(i%256==0) vt::beat();
        }
        auto rays=rays_for(as,0);
        if(n>600 && !T) { std::vector<Ray> r2; size_t st=rays.size()/40+1; for(size_t i=0;i<rays.size();i+=st) r2.push_back(rays[i]); rays=r2; }
        k.buildTree(); query(k,as,rays,"one build");
        k.buildTree(); query(k,as,rays,"second build");
    }
    return vt::finish();
}
