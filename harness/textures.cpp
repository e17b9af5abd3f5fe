// Texture lookups of every filter against double precision references, over
// enumerated maps, coordinates, differentials, scales and shifts; textures read
// from good and bad files; masks; normal and height maps.
#include "geo_util.hpp"
#include "img_util.hpp"
#include "textures/image_map.hpp"
#include "textures/texture_image.hpp"
#include "textures/texture_library.hpp"
#include "textures/texture_normal.hpp"
#include "textures/texture_height.hpp"
#include "textures/mask_boolean.hpp"
#include "textures/texture_uniform.hpp"
#include <algorithm>
struct C4 { double c[4]; };
static C4 of(uint32_t p) { C4 r={{(double)pR(p),(double)pG(p),(double)pB(p),(double)pA(p)}}; return r; }
static C4 of(const TexelUnion& t) { C4 r={{(double)t.bgra_texel.r,(double)t.bgra_texel.g,(double)t.bgra_texel.b,(double)t.bgra_texel.a}}; return r; }
struct Level { int side; std::vector<C4> t; const C4& at(int x,int y) const { x%=side; if(x<0) x+=side; y%=side; if(y<0) y+=side; return t[(size_t)y*side+x]; } };
struct TRef
{
    std::vector<Level> l; int n;
    TRef(const Pix& p,int side)
    {
        Level a; a.side=side; for(auto v:p) a.t.push_back(of(v)); l.push_back(a);
        while(l.back().side>1) { const Level& o=l.back(); Level b; b.side=o.side/2; for(int y=0;y<b.side;y++) for(int x=0;x<b.side;x++) { C4 c; for(int k=0;k<4;k++) c.c[k]=floor(0.25*(o.at(2*x,2*y).c[k]+o.at(2*x+1,2*y).c[k]+o.at(2*x,2*y+1).c[k]+o.at(2*x+1,2*y+1).c[k])); b.t.push_back(c); } l.push_back(b); }
        n=(int)l.size();
    }
    C4 bil(double u,double v,int k) const
    {
        const Level& o=l[k]; u=u*o.side-0.5; v=v*o.side-0.5; int x=(int)floor(u),y=(int)floor(v); double a=u-x,b=v-y; C4 r;
        for(int i=0;i<4;i++) r.c[i]=(o.at(x,y).c[i]*(1-a)+o.at(x+1,y).c[i]*a)*(1-b)+(o.at(x,y+1).c[i]*(1-a)+o.at(x+1,y+1).c[i]*a)*b; return r;
    }
    static C4 mix(const C4& a,const C4& b,double d) { C4 r; for(int i=0;i<4;i++) r.c[i]=a.c[i]*(1-d)+b.c[i]*d; return r; }
    C4 tri(double u,double v,double ux,double vx,double uy,double vy) const
    {
        double w=std::max(std::max(fabs(ux),fabs(vx)),std::max(fabs(uy),fabs(vy))); w=std::max(w,1e-5); double c=n-1+log2(w);
        if(c<=0) return bil(u,v,0); if(c>=n-1) return l[n-1].at(0,0); int k=(int)c; return mix(bil(u,v,k),bil(u,v,k+1),c-k);
    }
    C4 ell(double u,double v,double ux,double vx,double uy,double vy,int k) const
    {
        const Level& o=l[k]; double s=o.side; u=u*s-0.5; v=v*s-0.5; ux*=s; vx*=s; uy*=s; vy*=s;
        double a=vx*vx+vy*vy+1,b=-2*(ux*vx+uy*vy),c=ux*ux+uy*uy+1,f=1/(a*c-b*b/4); 
        double eu=sqrt(c),ev=sqrt(a); C4 r={{0,0,0,0}}; double tw=0;
        for(int y=(int)floor(v-ev)-1;y<=(int)ceil(v+ev)+1;y++) for(int x=(int)floor(u-eu)-1;x<=(int)ceil(u+eu)+1;x++)
        { double p=x-u,q=y-v,d=(a*p*p+b*p*q+c*q*q)*f; if(d>=1) continue; double w=exp(-2*std::min(floor(d*128),127.)/127)-exp(-2.); tw+=w; for(int i=0;i<4;i++) r.c[i]+=w*o.at(x,y).c[i]; }
        for(auto& z:r.c) z/=tw; return r;
    }
    C4 ewa(double u,double v,double ux,double vx,double uy,double vy) const
    {
        double L=sqrt(ux*ux+vx*vx),S=sqrt(uy*uy+vy*vy); if(L<S) { std::swap(L,S); std::swap(ux,uy); std::swap(vx,vy); }
        if(S==0) return bil(u,v,0);
        if(S*30<L) { double k=L/(S*30); uy*=k; vy*=k; S*=k; }
        double c=std::max(0.,n-1+log2(S)); if(c>=n-1) return l[n-1].at(0,0); int k=(int)c; C4 a=ell(u,v,ux,vx,uy,vy,k); return c==k?a:mix(a,ell(u,v,ux,vx,uy,vy,k+1),c-k);
    }
    C4 near(double u,double v) const { int s=l[0].side; return l[0].at((int)std::max(0.,u*s-0.5),(int)std::max(0.,v*s-0.5)); } // as the tests pin it, see the known finding below
};
static const char* fn[]={"nearest","trilinear","ewa"};
static ImageMap* make(int f,const Pix& p,int side)
{
    // the map must not keep using the caller's array
    std::vector<uint32_t> c(p); const pixBGRA* d=(const pixBGRA*)c.data(); ImageMap* m=f==0?(ImageMap*)new ImageMapUnfiltered(d,side):f==1?(ImageMap*)new ImageMapTrilinear(d,side):(ImageMap*)new ImageMapEWA(d,side); return m;
}
static C4 want(const TRef& r,int f,double u,double v,const float* d) { return f==0?r.near(u,v):f==1?r.tri(u,v,d[0],d[1],d[2],d[3]):r.ewa(u,v,d[0],d[1],d[2],d[3]); }
static bool open_(const TRef& r,int f,double u,double v) // on the border of two texels the nearest one is open
{ if(f) return false; double s=r.l[0].side,a=u*s-0.5,b=v*s-0.5; auto e=[&](double x) { return fabs(x-floor(x+0.5))<2e-3&&x>0.25; }; return e(a)||e(b); }
static void judge(const TRef& r,int f,double u,double v,const float* d,const TexelUnion& got,const char* what,double slack=0)
{
    vt::count("evaluations"); if(open_(r,f,u,v)) return; C4 w=want(r,f,u,v,d),g=of(got); double lo=f==0?0:f==1?1.7:3.2,hi=f==0?0:f==1?0.7:3.2; if(f==2&&sqrt(d[0]*d[0]+d[1]*d[1])*sqrt(d[2]*d[2]+d[3]*d[3])==0) { lo=1.2; hi=0.2; }
    double cl[2][4]; for(int i=0;i<4;i++) { cl[0][i]=255; cl[1][i]=0; for(auto& t:r.l[0].t) { cl[0][i]=std::min(cl[0][i],t.c[i]); cl[1][i]=std::max(cl[1][i],t.c[i]); } }
    uint64_t h=vt::mix(f,(uint64_t)(g.c[0]+256*g.c[1]+65536*g.c[2])); vt::seen(h);
    for(int i=0;i<4;i++)
    {
        // bytes are cut, not rounded, in each reduction of the map (pinned by the tests)
        if(g.c[i]<w.c[i]-lo-slack||g.c[i]>w.c[i]+hi+slack) { vt::fail((std::string("wrong value of the ")+fn[f]+" filter").c_str(),"%s: (%g,%g) with %g %g %g %g, channel %d: %g instead of %g",what,u,v,d[0],d[1],d[2],d[3],i,g.c[i],w.c[i]); return; }
        if(cl[0][i]==cl[1][i]&&fabs(g.c[i]-cl[0][i])>(f==2?0:1)) { vt::fail((std::string("a flat texture changes in the ")+fn[f]+" filter").c_str(),"%s: (%g,%g) with %g %g %g %g: %g instead of %g",what,u,v,d[0],d[1],d[2],d[3],g.c[i],cl[0][i]); return; }
    }
}
static Pix content(int side,int k)
{
    Pix p((size_t)side*side); for(int y=0;y<side;y++) for(int x=0;x<side;x++)
    {
        uint32_t v; uint64_t h=vt::mix(x*977+y,k); 
        if(k==0) v=pix((x*255)/std::max(1,side-1),(y*255)/std::max(1,side-1),(x*7+y*13)&255,255-(x+y)*127/side); else if(k==1) v=(uint32_t)h; else if(k==2) v=(x+y)&1?0xFFFFFFFFu:0; else if(k==3) v=x==side/2&&y==side/3?0xFFFFFFFFu:0; else if(k==4) v=0xFFFFFFFFu; else if(k==5) v=0x80808080u; else if(k==6) v=0xFE017F81u; else if(k==7) v=x<side/2?pix(255,0,10,0):pix(0,255,240,255); else v=y<side/2?pix(255,0,10,0):pix(0,255,240,255);
        p[(size_t)y*side+x]=v;
    }
    return p;
}
static HitPoint hit(float u,float v,const float* d,bool diff)
{ HitPoint h; h.uv=Point2(u,v); h.du=Vec2(d[0],d[2]); h.dv=Vec2(d[1],d[3]); h.differentials=diff; h.normal_h=Normal(0,0,1); h.dpdu=Vec3(1,0,0); h.dpdv=Vec3(0,1,0); return h; }
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough(); if(!freopen("/dev/null","w",stdout)||!freopen("/dev/null","w",stderr)) return 1;
    const float mg[]={0,1e-6f,0.011f,0.04f,0.125f,0.3f,0.5f,0.77f,1,3.1f,1e6f};
    std::vector<std::vector<float>> ds; // dudx dvdx dudy dvdy
    for(float a:mg) { ds.push_back({a,0,0,a}); ds.push_back({0,a,0,0}); ds.push_back({a,-a,a,a}); for(float b:mg) if(a!=b) { ds.push_back({a,0,0,b}); if(T) { ds.push_back({a,b,-b,a}); ds.push_back({0,a,b,0}); ds.push_back({a*0.8f,a*0.6f,-b*0.6f,b*0.8f}); ds.push_back({a,b,0.3f*b,0.1f*a}); } else if((int)(a*7+b*13)%2) ds.push_back({a*0.8f,a*0.6f,-b*0.6f,b*0.8f}); } }
    // 1. the filters themselves
    for(int side=1;side<=(T?64:32);side*=2) for(int k=0;k<9;k++) for(int f=0;f<3;f++) if(vt::begin("%s filter on a map of side %d with content %d",fn[f],side,k))
    {
        Pix p=content(side,k); TRef r(p,side); std::unique_ptr<ImageMap> m(make(f,p,side)); std::vector<float> c;
        if(side<=4) for(int i=0;i<=4*side;i++) c.push_back(i/(4.f*side)); else for(int i=0;i<=16;i++) c.push_back(((i*side/16)+(i%4)*0.25f)/side);
        for(auto& x:c) x=std::min(x,1.f); c.push_back(0.137f); c.push_back(1e-7f); c.push_back(0.9999f);
        char w[100]; snprintf(w,100,"side %d content %d",side,k);
        for(float u:c) for(float v:c)
        {
            if(side>=8&&!T&&((int)(u*97)+(int)(v*89))%3) continue;
            for(auto& d:ds) { if(f==0&&&d!=&ds[0]) continue; if(f==2&&side>=16&&!T&&((int)(u*97)+(int)(&d-&ds[0]))%3) continue; judge(r,f,u,v,d.data(),m->filter(u,v,d[0],d[1],d[2],d[3]),w); }
            vt::beat();
        }
        if(f==0||k==1) for(int y=0;y<side;y++) for(int x=0;x<side;x++) { float z[4]={0,0,0,0}; TexelUnion t=m->filter((x+0.5f)/side,(y+0.5f)/side,0,0,0,0); C4 a=of(t),b=of(p[(size_t)y*side+x]); for(int i=0;i<4;i++) if(a.c[i]!=b.c[i]) { vt::fail("the centre of a texel does not show the texel","%s, side %d, texel %d %d",fn[f],side,x,y); break; } (void)z; }
    }
    // 2. textures: repeated, scaled and shifted coordinates
    const float sc[][2]={{1,1},{2,3},{-1,1},{1,-2},{0.5f,4},{0,1}}, sh[][2]={{0,0},{0.25f,-0.75f},{-3.5f,7.25f},{1,1},{-0.125f,-1}}; const float uv[]={0,0.1875f,0.4375f,0.5625f,0.8125f,1,1.3125f,2.6875f,-0.1875f,-1,-1.5625f,-7.0625f,100.6875f,-1e-9f};
    const float dd[][4]={{0,0,0,0},{0.1f,0,0,0.02f},{0.02f,0,0,0.1f},{0,0.13f,0.05f,0},{0.05f,0.02f,-0.03f,0.07f},{0.3f,0,0,0.3f}};
    for(int side=1;side<=16;side*=2) for(int k=0;k<(T?9:2);k++) for(int f=0;f<3;f++) for(auto& s:sc) for(auto& h:sh) if(vt::begin("%s texture of side %d content %d, scale %g %g shift %g %g",fn[f],side,k,s[0],s[1],h[0],h[1]))
    {
        Pix p=content(side,k); TRef r(p,side); std::unique_ptr<ImageMap> m(make(f,p,side)); Vec2 vs(h[0],h[1]),vc(s[0],s[1]); TextureImage t(m.get(),vs,vc,f==0); TextureImage t2(m.get(),vs,vc);
        if(t.get_scale().x!=s[0]||t.get_scale().y!=s[1]||t.get_shift().x!=h[0]||t.get_shift().y!=h[1]) vt::fail("scale or shift lost","scale %g %g shift %g %g",s[0],s[1],h[0],h[1]);
        for(float u:uv) for(float v:uv) for(auto& d:dd) for(int df=0;df<2;df++)
        {
            HitPoint hp=hit(u,v,d,df!=0); float fu=u*s[0]+h[0],fv=v*s[1]+h[1]; double a=fu,b=fv; if(a<0||a>1) a-=floor(a); if(b<0||b>1) b-=floor(b);
            float dz[4]={df?d[0]*s[0]:0,df?d[1]*s[1]:0,df?d[2]*s[0]:0,df?d[3]*s[1]:0}; char w[120]; snprintf(w,120,"texture at %g %g",u,v);
            TexelUnion g=t.map_value(&hp); double slack=fabs(fu)+fabs(fv)>20?3:0; judge(r,f,a,b,dz,g,w,slack);
            if(of(t2.map_value(&hp)).c[0]!=of(g).c[0]) vt::fail("the unfiltered hint changes the texture","%s",w);
            Spectrum sp=t.map(&hp),ex(g.bgra_value,false); for(size_t i=0;i<sizeof(sp.w)/sizeof(float);i++) if(sp.w[i]!=ex.w[i]) { vt::fail("map and map_value disagree","%s",w); break; }
        }
        vt::beat();
    }
    // 3. textures from files
    {
        const char* ext[]={"bmp","tga","ppm","png","tif"};
        for(int w=1;w<=(T?34:18);w++) for(int h=1;h<=(T?34:18);h++) if(vt::begin("file of %d x %d",w,h)) for(int f=0;f<3;f++) for(int e=0;e<(w==h?5:1);e++)
        {
            vt::count("evaluations"); std::string n=std::string("t.")+ext[e]; Img im=picture(w,h,0); std::vector<uint8_t> rgb; for(auto p:im.p) { rgb.push_back(pR(p)); rgb.push_back(pG(p)); rgb.push_back(pB(p)); }
            if(e==0) spit("t.bmp",bmp_enc(im,24,false)); else img_write(n.c_str(),ext[e],w,h,(const pixBGRA*)im.p.data());
            TexLib.clear(); Vec2 z(0.f),o(1.f); TextureImage t(File(n.c_str()),z,o,f==0?UNFILTERED:f==1?TRILINEAR:EWA); bool good=w==h&&(w&(w-1))==0; float d[4]={0,0,0,0};
            for(int y=0;y<h;y++) for(int x=0;x<w;x++) { HitPoint hp=hit((x+0.5f)/w,(y+0.5f)/h,d,false); C4 a=of(t.map_value(&hp)),b=of(good?im.p[(size_t)y*w+x]:0xFFFFFFFFu); for(int i=0;i<4;i++) if(a.c[i]!=b.c[i]) { vt::fail(good?"texture differs from its file":"texture of an unusable size is not the default one","%s %d x %d, pixel %d %d: %g instead of %g",n.c_str(),w,h,x,y,a.c[i],b.c[i]); y=h; x=w; break; } }
            unlink(n.c_str());
        }
        for(int e=0;e<2;e++) for(int cut=0;cut<260;cut++) if(vt::begin("file %s cut to %d bytes",e?"tga":"bmp",cut)) for(int f=0;f<3;f++)
        {
            Img im=picture(8,8,0); std::string n=e?"c.tga":"c.bmp"; Bytes b; if(e) { img_write("c.tga","tga",8,8,(const pixBGRA*)im.p.data()); b=slurp("c.tga"); } else b=bmp_enc(im,24,true); bool cutp=(size_t)cut<b.size(); if(cutp) b.resize(cut); spit(n.c_str(),b);
            vt::count("evaluations"); TexLib.clear(); Vec2 z(0.f),o(1.f); TextureImage t(File(n.c_str()),z,o,f==0?UNFILTERED:f==1?TRILINEAR:EWA); float d[4]={0,0,0,0}; bool white=true,same=true; for(int y=0;y<8;y++) for(int x=0;x<8;x++) { HitPoint hp=hit((x+0.5f)/8,(y+0.5f)/8,d,false); C4 a=of(t.map_value(&hp)),q=of(im.p[y*8+x]); for(int i=0;i<4;i++) { if(a.c[i]!=255) white=false; if(a.c[i]!=q.c[i]) same=false; } }
            if(!white&&!same) vt::fail("texture of a damaged file is neither the picture nor the default one","%s cut to %d bytes",n.c_str(),cut); if(cutp&&same) vt::fail("cut file shown as complete","%s cut to %d",n.c_str(),cut);
        }
        if(vt::begin("missing files and folders")) for(int f=0;f<3;f++) for(auto n:{"none.bmp","none","","/",".","x.txt"}) { vt::count("evaluations"); if(std::string(n)=="x.txt") spit("x.txt",Bytes(50,'a')); TexLib.clear(); Vec2 z(0.f),o(1.f); TextureImage t(File(n),z,o,f==0?UNFILTERED:f==1?TRILINEAR:EWA); float d[4]={0.1f,0,0,0.1f}; HitPoint hp=hit(-0.3f,0.4f,d,true); if(t.map_value(&hp).bgra_value!=0xFFFFFFFFu) vt::fail("missing texture is not white","'%s'",n); }
        if(vt::begin("two textures of one file")) { Img im=picture(4,4,0); spit("s.bmp",bmp_enc(im,24,false)); TexLib.clear(); Vec2 z(0.f),o(1.f),q(0.25f,0.5f); TextureImage a(File("s.bmp"),z,o,UNFILTERED),b(File("./s.bmp"),q,o,UNFILTERED); float d[4]={0,0,0,0}; for(int y=0;y<4;y++) for(int x=0;x<4;x++) { vt::count("evaluations"); HitPoint hp=hit((x+0.5f)/4,(y+0.5f)/4,d,false); if(a.map_value(&hp).bgra_value!=im.p[y*4+x]||b.map_value(&hp).bgra_value!=im.p[(y+2)%4*4+(x+1)%4]) vt::fail("a texture changes another one of the same file","texel %d %d",x,y); } }
    }
    // known finding: between two centres the texel shown is not the nearest one
    if(vt::begin("unfiltered lookups away from the centres of the texels")) for(int side=2;side<=16;side*=2)
    {
        Pix p=content(side,1); std::unique_ptr<ImageMap> m(make(0,p,side)); int bad=0,all=0; double fu=0,fv=0;
        for(int i=0;i<8*side;i++) for(int j=0;j<8*side;j++) { if(i%8==0||j%8==0) continue; vt::count("evaluations"); all++; float u=(i+0.0f)/(8*side),v=(j+0.0f)/(8*side); if(m->filter(u,v,0,0,0,0).bgra_value!=p[(size_t)(j/8)*side+i/8]) { if(!bad) { fu=u; fv=v; } bad++; } }
        if(bad) vt::fail("unfiltered lookup does not show the nearest texel","side %d: %d of %d lookups, first (%g,%g)",side,bad,all,fu,fv);
    }
    // 4. masks
    for(int ch=0;ch<4;ch++) for(int inv=0;inv<2;inv++) if(vt::begin("mask of channel %d, inverted %d",ch,inv)) for(int v=0;v<256;v++) for(int other=0;other<256;other+=85)
    {
        vt::count("evaluations"); int c[4]={other,other,other,other}; c[ch]=v; uint32_t px=pix(c[1],c[2],c[3],c[0]); std::vector<uint32_t> t(1,px); ImageMapUnfiltered m((const pixBGRA*)t.data(),1); Vec2 z(0.f),o(1.f); TextureImage ti(&m,z,o,true);
        ImageChannel ic[4]={ALPHA,RED,GREEN,BLUE}; MaskBoolean k(&ti,ic[ch],inv!=0); float d[4]={0,0,0,0}; HitPoint hp=hit(0.3f,0.6f,d,false); bool w=(v>=128)!=(inv!=0); if(k.is_visible(&hp)!=w||k.is_masked(&hp)==w) vt::fail("wrong mask value","channel %d value %d others %d inverted %d",ch,v,other,inv); vt::seen(vt::mix(77,v*8+ch*2+inv));
    }
    // 5. normal and height maps
    std::vector<HitPoint> frames; { float d[4]={0.01f,0,0,0.01f}; for(int k=0;k<12;k++) { HitPoint h=hit(0.25f,0.25f,d,k&1); float a=0.5f*k,b=0.3f*k; Vec3 n(sinf(a)*cosf(b),sinf(a)*sinf(b),cosf(a)),u(cosf(a)*cosf(b),cosf(a)*sinf(b),-sinf(a)); n.normalize(); u.normalize(); Vec3 v=cross(n,u); v.normalize(); h.normal_h=Normal(n.x,n.y,n.z); h.dpdu=u; h.dpdv=v; if(k%3==2) { h.dpdv=Vec3(-v.x,-v.y,-v.z); } frames.push_back(h); } }
    auto frame_ok=[&](const ShadingSpace& m,const Normal& n,const HitPoint& hp,const char* w) { auto v=[&](Vec3 a,Vec3 b) { return a.x*b.x+a.y*b.y+a.z*b.z; }; Vec3 mn(m.n.x,m.n.y,m.n.z); bool ok=fabs(v(m.s,m.s)-1)<1e-3&&fabs(v(m.t,m.t)-1)<1e-3&&fabs(v(mn,mn)-1)<1e-3&&fabs(v(m.s,mn))<1e-3&&fabs(v(m.t,mn))<1e-3&&fabs(v(m.s,m.t))<1e-3; if(!ok) vt::fail("bumped frame is not orthonormal","%s",w); Vec3 nn(n.x,n.y,n.z),nh(hp.normal_h.x,hp.normal_h.y,hp.normal_h.z); if(fabs(v(nn,nn)-1)>1e-3||fabs(fabs(v(nn,mn))-1)>1e-3) vt::fail("bumped normal differs from its frame","%s",w); if(v(nn,nh)<-1e-3) vt::fail("bumped normal points away from the surface","%s",w); };
    for(size_t k=0;k<frames.size();k++) for(int r=0;r<256;r+=15) if(vt::begin("normal map on frame %zu, red %d",k,r)) for(int g=0;g<256;g+=15) for(int b=0;b<256;b+=15)
    {
        vt::count("evaluations"); std::vector<uint32_t> t(1,pix(r,g,b)); ImageMapUnfiltered m((const pixBGRA*)t.data(),1); Vec2 z(0.f),o(1.f); TextureImage ti(&m,z,o,true); TextureNormal tn(&ti); ShadingSpace ms; Normal n; const HitPoint& hp=frames[k];
        double x=r/127.5-1,y=g/127.5-1,zz=b/127.5-1; Vec3 on=cross(hp.dpdu,hp.dpdv); on.normalize(); Vec3 ot=cross(hp.dpdu,on); ot.normalize(); double e[3]={hp.dpdu.x*x+ot.x*y+on.x*zz,hp.dpdu.y*x+ot.y*y+on.y*zz,hp.dpdu.z*x+ot.z*y+on.z*zz}; double l=sqrt(e[0]*e[0]+e[1]*e[1]+e[2]*e[2]); double along=fabs(e[0]*hp.dpdu.x+e[1]*hp.dpdu.y+e[2]*hp.dpdu.z)/l; if(l<0.05||along>0.999) continue;
        tn.bump(&hp,&ms,&n); char w[100]; snprintf(w,100,"frame %zu, texel %d %d %d",k,r,g,b); frame_ok(ms,n,hp,w); double dt=(e[0]*ms.n.x+e[1]*ms.n.y+e[2]*ms.n.z)/l; if(dt<0.999) vt::fail("normal map gives another normal","%s: cosine %g",w,dt);
    }
    for(size_t k=0;k<frames.size();k++) for(int ch=0;ch<4;ch++) if(vt::begin("height map on frame %zu, channel %d",k,ch)) for(int step=-32;step<=32;step+=4) for(int dir=0;dir<2;dir++)
    {
        vt::count("evaluations"); const int S=16; std::vector<uint32_t> t; for(int y=0;y<S;y++) for(int x=0;x<S;x++) { int v=128+step*((dir?y:x)-4)/2; v=std::max(0,std::min(255,v)); int c[4]={7,7,7,7}; c[ch]=v; t.push_back(pix(c[1],c[2],c[3],c[0])); }
        ImageMapTrilinear m((const pixBGRA*)t.data(),S); Vec2 z(0.f),o(1.f); TextureImage ti(&m,z,o); ImageChannel ic[4]={ALPHA,RED,GREEN,BLUE}; TextureHeight th(&ti,ic[ch]); HitPoint hp=frames[k]; hp.uv=Point2(0.28125f,0.28125f); hp.du=Vec2(0.125f,0); hp.dv=Vec2(0,0.125f); hp.differentials=true; ShadingSpace ms; Normal n; th.bump(&hp,&ms,&n); char w[100]; snprintf(w,100,"frame %zu, channel %d, slope %d along %s",k,ch,step,dir?"v":"u"); frame_ok(ms,n,hp,w);
        auto v=[&](Vec3 a,Vec3 b) { return a.x*b.x+a.y*b.y+a.z*b.z; }; Vec3 nn(n.x,n.y,n.z); double du=v(nn,hp.dpdu),dv=v(nn,hp.dpdv); if(step==0&&fabs(du)+fabs(dv)>1e-3) vt::fail("flat height map bends the normal","%s",w);
        if(fabs(dir?du:dv)>1e-2) vt::fail("height map bends the normal sideways","%s: %g %g",w,du,dv); if(std::abs(step)>=8&&(dir?dv:du)*step>0) vt::fail("height map bends the normal uphill","%s: %g %g",w,du,dv); if(std::abs(step)>=8&&fabs(dir?dv:du)<0.05) vt::fail("height map does not bend the normal","%s: %g %g",w,du,dv);
    }
    // without a footprint the values left over from another point do not matter
    for(size_t k=0;k<frames.size();k++) for(int ch=0;ch<4;ch++) for(int kind=0;kind<3;kind++) if(vt::begin("height map without footprint on frame %zu, channel %d, kind %d",k,ch,kind)) for(int step=-32;step<=32;step+=16)
    {
        const int S=16; std::vector<uint32_t> t; for(int y=0;y<S;y++) for(int x=0;x<S;x++) { int v=128+step*(x+2*y-12)/8; v=std::max(0,std::min(255,v)); int c[4]={7,7,7,7}; c[ch]=v; t.push_back(pix(c[1],c[2],c[3],c[0])); }
        ImageMapUnfiltered m0((const pixBGRA*)t.data(),S); ImageMapTrilinear m1((const pixBGRA*)t.data(),S); ImageMapEWA m2((const pixBGRA*)t.data(),S); ImageMap* mm[3]={&m0,&m1,&m2}; Vec2 z(0.f),o(1.f); TextureImage ti(mm[kind],z,o,kind==0); ImageChannel ic[4]={ALPHA,RED,GREEN,BLUE}; TextureHeight th(&ti,ic[ch]);
        HitPoint hp=frames[k]; hp.uv=Point2(0.28125f,0.28125f); hp.differentials=false; hp.du=Vec2(0,0); hp.dv=Vec2(0,0); ShadingSpace ms; Normal n; th.bump(&hp,&ms,&n); const float inf=1e30f*1e30f; const float left[]={0.125f,-0.03125f,2.f,300.f,1e-6f,inf,-inf,inf-inf};
        for(float x:left) for(int who=0;who<4;who++) { vt::count("evaluations"); HitPoint h2=hp; (who==0?h2.du.x:who==1?h2.du.y:who==2?h2.dv.x:h2.dv.y)=x; ShadingSpace ms2; Normal n2; th.bump(&h2,&ms2,&n2); double d=fabs(n.x-n2.x)+fabs(n.y-n2.y)+fabs(n.z-n2.z); if(!(d<1e-5)) vt::fail("bump without footprint depends on an earlier point","frame %zu, channel %d, kind %d, slope %d: %g left over moves the normal by %g",k,ch,kind,step,x,d); }
    }
    return vt::finish();
}
