// Shadow queries: every sequence of queries up to a depth on one tester must be
// answered as the exhaustive test of all assets answers each of them alone.
#include "geo_util.hpp"
#include "utility/scene.hpp"
#include "utility/occlusion_tester.hpp"
#include "lights/area_light.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_image.hpp"
#include "textures/mask_boolean.hpp"
#include <algorithm>
struct Q { Ray r; float d; bool want; const char* what; };
static int64_t NQ=0,NL=0;
// whatever is left on the stack must not matter
static void __attribute__((noinline)) litter(unsigned char c) { volatile unsigned char b[6000]; for(size_t i=0;i<sizeof b;i++) b[i]=c; }
static uint64_t explore(const OcclusionTester& at,const std::vector<Q>& q,int depth,std::vector<int>& hist)
{
    uint64_t h=1;
    for(size_t i=0;i<q.size();i++)
    {
        OcclusionTester t(at); // the state reached by the history
        hist.push_back((int)i); NQ++;
        if((NQ&0xfff)==0) vt::beat();
        Ray r=q[i].r; litter((hist.size()+i)&1?0x3f:0); bool got=t.is_occluded(&r,q[i].d);
        h=vt::mix(h,got);
        if(got!=q[i].want)
        {
            std::string s; for(int x:hist) { char b[16]; snprintf(b,16," %d",x); s+=b; }
            vt::fail(got?"unoccluded path reported occluded":"occluded path reported free","query history%s: ray %g,%g,%g -> %g,%g,%g (bounce %d), light at %g",s.c_str(),
                     r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z,(int)r.ricochet,(double)q[i].d);
        }
        if(r.origin.x!=q[i].r.origin.x || r.direction.y!=q[i].r.direction.y || r.ricochet!=q[i].r.ricochet) vt::fail("query changed the ray","query %d",(int)i);
        if(depth<=1) NL++; else h=vt::mix(h,explore(t,q,depth-1,hist));
        hist.pop_back();
    }
    return h;
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); const bool T=vt::thorough();
    // masks: half of the quad is invisible
    static Vec2 sh(0,0),sc(1,1);
    std::vector<TexelUnion> px(64*64); for(int y=0;y<64;y++) for(int x=0;x<64;x++) { TexelUnion t; uint8_t v=x<32?255:0; t.bgra_texel.a=t.bgra_texel.r=t.bgra_texel.g=t.bgra_texel.b=v; px[y*64+x]=t; }
    MaskBoolean half(new TextureImage(new ImageMapUnfiltered((const pixBGRA*)px.data(),64),sh,sc,true),(ImageChannel)1,false);
    // the same seen through filtered maps
    MaskBoolean halft(new TextureImage(new ImageMapTrilinear((const pixBGRA*)px.data(),64),sh,sc,false),(ImageChannel)1,false);
    MaskBoolean halfe(new TextureImage(new ImageMapEWA((const pixBGRA*)px.data(),64),sh,sc,false),(ImageChannel)1,true);
    const int NS=14;
    for(int scn=0;scn<NS;scn++) for(int org=0;org<6;org++) for(int bounce=0;bounce<3;bounce++)
    {
        if(!T && bounce==1 && scn%3) continue;
        if(!vt::begin("scene %d, queries from point %d, bounces %s",scn,org,bounce==0?"0":bounce==1?"4":"0, 3 and 4")) continue;
        Scene sc2; std::vector<const Asset*> as;
        auto add=[&](const Shape* s,const Matrix4& m,int kind){ Asset* a; if(kind==1) { AreaLight* l=new AreaLight(s,m,SPECTRUM_ONE); sc2.inherit_light(l); a=l; } else { a=new Asset(s,m,1); if(kind>=2) a->set_mask(kind==2?half:kind==3?halft:halfe); sc2.inherit_asset(a); } as.push_back(a); };
        Sphere* S=new Sphere(); Box* B=new Box(); Mesh* M=quad(); sc2.inherit_shape(S); sc2.inherit_shape(B); sc2.inherit_shape(M);
        switch(scn)
        {
            case 0: break;
            case 1: add(S,m_tr(0,0,4),0); break;
            case 2: add(S,m_tr(0,0,4),0); add(S,m_tr(0,0,9),0); add(S,m_tr(4,0,0),1); break;
            case 3: for(int i=0;i<6;i++) add(S,m_tr(3.f*i,0,0),0); break;
            case 4: add(M,m_mul(m_tr(-2,-2,2),m_sc(4,4,1)),2); add(S,m_tr(0,0,6),0); break;
            case 5: add(B,m_mul(m_tr(-2,-2,2),m_sc(4,4,1)),0); add(B,m_mul(m_tr(-2,-2,5),m_sc(4,4,1)),0); add(S,m_tr(0,0,9),1); break;
            case 6: for(int i=0;i<9;i++) add(B,m_mul(m_tr(-4.f+3*(i%3),-4.f+3*(i/3),3),m_sc(1.5f,1.5f,1.5f)),0); break;
            case 7: add(S,m_sc(8,8,8),0); add(S,m_tr(2,0,0),0); add(S,m_tr(-2,0,0),1); break; // inside of a sphere
            case 8: add(S,m_mul(m_tr(0,0,5),m_sc(2,0.5f,1)),0); add(S,m_mul(m_tr(5,0,0),m_sc(0.3f,0.3f,0.3f)),0); break;
            case 9: add(M,m_mul(m_tr(-2,-2,2),m_sc(4,4,1)),2); add(M,m_mul(m_tr(-2,-2,3),m_sc(4,4,1)),2); add(M,m_mul(m_tr(-2,-2,4),m_sc(4,4,1)),0); break;
            case 10: for(int i=0;i<20;i++) add(S,m_mul(m_tr(2.2f*(i%5)-4,2.2f*((i/5)%2)-1,2.f*(i/10)+3),m_sc(0.8f,0.8f,0.8f)),i==7?1:0); break;
            case 12: add(M,m_mul(m_tr(-2,-2,2),m_sc(4,4,1)),3); add(S,m_tr(0,0,6),0); break;
            case 13: add(S,m_tr(0,0,4),4); add(M,m_mul(m_tr(-2,-2,2),m_sc(4,4,1)),3); add(S,m_sc(9,9,9),3); break;
            case 11: add(M,m_mul(m_mul(m_tr(-2,2,-2),m_rot(1.2f,0,0)),m_sc(4,4,1)),0); add(S,m_mul(m_tr(0,-3,0),m_sc(2,2,2)),0); break;
        }
        sc2.k.buildTree();
        const Point3 os[]={Point3(0.11f,0.13f,0),Point3(0.05f,-0.07f,-6),Point3(-7,0.21f,0.17f),Point3(1.7f,1.3f,0.4f),Point3(0.3f,0.2f,12),Point3(-0.9f,5.1f,3.3f)};
        const Point3 o=os[org];
        const float e=0.0371f;
        Vec3 dirs[]={Vec3(e,-e,1),Vec3(-e,e,-1),Vec3(1,e,0.5f*e),Vec3(-1,-e,e),Vec3(0.31f,0.17f,1),Vec3(-0.25f,-0.33f,0.8f),Vec3(e,1,-e),Vec3(0.1f,-1,0.07f)};
        std::vector<Q> q;
        for(auto& dv:dirs)
        {
            Ray r(o,dv); r.direction.normalize();
            float best=FLT_MAX; for(auto a:as) { HitPoint h; h.uv=Point2(0.5f,0.5f); h.differentials=false; float d=FLT_MAX; if(a->intersect(&r,&d,&h) && d<best) best=d; }
            std::vector<float> ds; if(best==FLT_MAX) ds={0.5f,100.f,FLT_MAX}; else ds={best*0.6f,best*1.02f+0.05f,(&dv-dirs)%2?FLT_MAX:best*(1.f+2e-7f)}; // the surface at the end does not count
            for(size_t j=0;j<ds.size();j++)
            {
                if(q.size()>=(T?24u:21u) && bounce!=2) break;
                r.ricochet=bounce==0?0:bounce==1?4:(j==0?0:j==1?3:4);
                Q x; x.r=r; x.d=ds[j]; x.want=best!=FLT_MAX && best+0.001f<ds[j]; x.what=""; q.push_back(x);
            }
        }
        OcclusionTester t0(&sc2); std::vector<int> hist; NQ=NL=0;
        uint64_t h=explore(t0,q,T?5:4,hist);
        vt::seen(vt::mix(h,scn*100+org*10+bounce)); vt::count("transitions",NQ); vt::count("executions",NL); vt::count("states",NQ+1);
        int oc=0; for(auto& x:q) oc+=x.want; vt::count("occluded queries",oc);
        vt::sample("scene %d point %d: %d queries, %d occluded, %lld histories",scn,org,(int)q.size(),oc,(long long)NQ);
    }
    return vt::finish();
}
