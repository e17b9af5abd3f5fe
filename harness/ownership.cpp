// Libraries, scenes and block arrays: all sequences of operations against a
// model of names and owners; every object is destroyed once, at its time.
#include "vt.hpp"
#include "geo_util.hpp"
#include "materials/material_library.hpp"
#include "materials/single_brdf.hpp"
#include "materials/lambertian.hpp"
#include "textures/texture_library.hpp"
#include "textures/texture_image.hpp"
#include "textures/texture_uniform.hpp"
#include "textures/image_map.hpp"
#include "utility/scene.hpp"
#include "utility/array2D.hpp"
#include <map>
#include <set>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static std::map<int,int> gone; static int nxt; // how often each object was destroyed
static int fresh() { gone[nxt]=0; return nxt++; }
struct Mat: public SingleBRDF { int id; Mat():SingleBRDF(new Lambertian()),id(fresh()) { } ~Mat() { gone[id]++; } };
static Vec2 one(1.f),zero_(0.f); static pixBGRA white=0xFFFFFFFF;
struct Tex: public TextureImage { int id; Tex():TextureImage(TexLib.get_dflt_map(),zero_,one,true),id(fresh()) { } ~Tex() { gone[id]++; } };
struct Uni: public TextureUniform { int id; Uni():TextureUniform(SPECTRUM_ONE),id(fresh()) { } ~Uni() { gone[id]++; } };
struct Map: public ImageMapUnfiltered { int id; Map():ImageMapUnfiltered(&white,1),id(fresh()) { } ~Map() { gone[id]++; } };
struct Shp: public Sphere { int id; Shp():id(fresh()) { } ~Shp() { gone[id]++; } };
struct Ast: public Asset { int id; Ast(const Shape* s,const Matrix4& m):Asset(s,m,1),id(fresh()) { } ~Ast() { gone[id]++; } };
struct Lgt: public AreaLight { int id; Lgt(const Shape* s,const Matrix4& m):AreaLight(s,m,SPECTRUM_ONE),id(fresh()) { } ~Lgt() { gone[id]++; } };
static std::string show(const std::vector<int>& q,const char* const* n) { std::string s; for(int i:q) { s+=n[i]; s+="; "; } return s; }
static void dead(const std::vector<int>& ids,const std::set<int>& live,const char* what,const std::string& h)
{ for(int i:ids) { int w=live.count(i)?0:1; if(gone[i]!=w) vt::fail(gone[i]>1?"destroyed twice":w?"not destroyed":"destroyed while in use","%s after %s",what,h.c_str()); } }
// all sequences of length n over k operations, as an odometer; f gets each
template<class F> static void sequences(int k,int n,F f) { std::vector<int> q(n,0); for(;;) { f(q); int i=n-1; while(i>=0&&++q[i]==k) q[i--]=0; if(i<0) break; } }
static void mtl(int first,int depth)
{
    static const char* N[]={"add a","add b","add Default","erase a","erase b","erase Default","clear","erase missing"}; static const char* nm[]={"a","b","Default"};
    const Bsdf* dflt=MtlLib.get_default();
    sequences(8,depth-1,[&](const std::vector<int>& r) {
        std::vector<int> q(1,first); q.insert(q.end(),r.begin(),r.end()); gone.clear(); nxt=0; MtlLib.clear(); std::map<std::string,const Mat*> m; std::vector<int> ids; std::set<int> live; std::vector<std::pair<Mat*,int>> mine; uint64_t st=1;
        for(size_t i=0;i<q.size();i++)
        {
            int o=q[i]; vt::count("transitions");
            if(o<3) { Mat* x=new Mat(); MtlLib.add_inherit(nm[o],x); if(o==2||m.count(nm[o])) mine.push_back({x,x->id}); else { m[nm[o]]=x; live.insert(x->id); ids.push_back(x->id); } }
            else if(o<6) { const char* z=nm[o-3]; if(m.count(z)) { live.erase(m[z]->id); m.erase(z); } MtlLib.erase(z); }
            else if(o==6) { MtlLib.clear(); m.clear(); live.clear(); } else MtlLib.erase("nothing");
            for(int k=0;k<2;k++) { const Bsdf* w=m.count(nm[k])?m[nm[k]]:NULL; if(MtlLib.get(nm[k])!=w||MtlLib.contains(nm[k])!=(w!=NULL)) vt::fail("wrong material under a name","'%s' after %s",nm[k],show(q,N).c_str()); }
            if(MtlLib.get("Default")!=dflt||MtlLib.get_default()!=dflt||!MtlLib.contains("Default")) vt::fail("default material lost","after %s",show(q,N).c_str()); if(MtlLib.get("c")||MtlLib.contains("c")||MtlLib.get("")) vt::fail("material made up","after %s",show(q,N).c_str());
            if(i+1==q.size()||o>=3) dead(ids,live,"material",show(q,N)); st=1; for(int k=0;k<2;k++) st=vt::mix(st,m.count(nm[k])?m[nm[k]]->id+1:0);
        }
        for(auto x:mine) { if(gone[x.second]) vt::fail("destroyed while in use","material that was not taken, after %s",show(q,N).c_str()); else delete x.first; } MtlLib.clear(); live.clear(); dead(ids,live,"material",show(q,N)); vt::seen(st); vt::count("executions"); }); vt::beat();
}
static void tex(int first,int depth)
{
    static const char* N[]={"add texture a","add texture b","add map a","add map b","add anonymous","erase texture a","erase texture b","erase map a","erase map b","clear"}; static const char* nm[]={"a","b"}; const Texture* d0=TexLib.get_dflt_texture(); const TextureImage* d1=TexLib.get_dflt_teximage(); const ImageMap* d2=TexLib.get_dflt_map();
    sequences(10,depth-1,[&](const std::vector<int>& r) {
        std::vector<int> q(1,first); q.insert(q.end(),r.begin(),r.end()); gone.clear(); nxt=0; TexLib.clear(); std::map<std::string,const Tex*> m; std::map<std::string,const Map*> im; std::vector<int> ids; std::set<int> live,anon; std::vector<std::pair<Tex*,int>> t0; std::vector<std::pair<Map*,int>> m0; uint64_t st=2;
        for(size_t i=0;i<q.size();i++)
        {
            int o=q[i]; vt::count("transitions"); const char* z=nm[o<4?o&1:(o+1)&1];
            if(o<2) { Tex* x=new Tex(); TexLib.inherit_texture(z,x); if(m.count(z)) t0.push_back({x,x->id}); else { m[z]=x; live.insert(x->id); ids.push_back(x->id); } }
            else if(o<4) { Map* x=new Map(); TexLib.inherit_map(z,x); if(im.count(z)) m0.push_back({x,x->id}); else { im[z]=x; live.insert(x->id); ids.push_back(x->id); } }
            else if(o==4) { Uni* x=new Uni(); TexLib.inherit_texture(x); live.insert(x->id); ids.push_back(x->id); }
            else if(o<7) { if(m.count(z)) { live.erase(m[z]->id); m.erase(z); } TexLib.erase_texture(z); } else if(o<9) { if(im.count(z)) { live.erase(im[z]->id); im.erase(z); } TexLib.erase_map(z); } else { TexLib.clear(); m.clear(); im.clear(); live.clear(); }
            for(int k=0;k<2;k++) { const TextureImage* w=m.count(nm[k])?m[nm[k]]:NULL; const ImageMap* v=im.count(nm[k])?im[nm[k]]:NULL; if(TexLib.get_texture(nm[k])!=w||TexLib.contains_texture(nm[k])!=(w!=NULL)) vt::fail("wrong texture under a name","'%s' after %s",nm[k],show(q,N).c_str()); if(TexLib.get_map(nm[k])!=v||TexLib.contains_map(nm[k])!=(v!=NULL)) vt::fail("wrong map under a name","'%s' after %s",nm[k],show(q,N).c_str()); }
            if(TexLib.get_dflt_texture()!=d0||TexLib.get_dflt_teximage()!=d1||TexLib.get_dflt_map()!=d2) vt::fail("default texture lost","after %s",show(q,N).c_str()); if(TexLib.get_texture("c")||TexLib.contains_map("c")) vt::fail("texture made up","after %s",show(q,N).c_str());
            if(i+1==q.size()||o>=5) dead(ids,live,"texture or map",show(q,N)); st=2; for(int k=0;k<2;k++) { st=vt::mix(st,m.count(nm[k])?m[nm[k]]->id+1:0); st=vt::mix(st,im.count(nm[k])?im[nm[k]]->id+1:0); } st=vt::mix(st,live.size());
        }
        for(auto x:t0) { if(gone[x.second]) vt::fail("destroyed while in use","texture that was not taken, after %s",show(q,N).c_str()); else delete x.first; } for(auto x:m0) { if(gone[x.second]) vt::fail("destroyed while in use","map that was not taken, after %s",show(q,N).c_str()); else delete x.first; }
        TexLib.clear(); live.clear(); dead(ids,live,"texture or map",show(q,N)); vt::seen(st); vt::count("executions"); }); vt::beat();
}
static void scene(int first,int depth)
{
    static const char* N[]={"add asset 0","add asset 1","add light 0","add light 1","add shape 1","build"};
    sequences(6,depth-1,[&](const std::vector<int>& r) {
        std::vector<int> q(1,first); q.insert(q.end(),r.begin(),r.end()); gone.clear(); nxt=0; Shp *s0=new Shp(),*s1=new Shp(); Ast* a[2]={new Ast(s0,m_tr(0,0,0)),new Ast(s1,m_tr(5,0,0))}; Lgt* l[2]={new Lgt(s0,m_tr(10,0,0)),new Lgt(s1,m_tr(15,0,0))}; std::vector<int> order; bool have[4]={},sh=false,built=false; uint64_t st=3;
        {
            Scene sc; sc.inherit_shape(s0); bool in[4]={};
            for(size_t i=0;i<q.size();i++)
            {
                int o=q[i]; vt::count("transitions");
                if(o<2) { if(!have[o]) { sc.inherit_asset(a[o]); have[o]=true; } } else if(o<4) { sc.inherit_light(l[o-2]); if(!have[o]) order.push_back(o-2); have[o]=true; } else if(o==4) { sc.inherit_shape(s1); sh=true; } else { if(have[0]||have[1]||have[2]||have[3]) { sc.k.buildTree(); built=true; for(int k=0;k<4;k++) in[k]=have[k]; } }
                unsigned n=have[0]+have[1]+have[2]+have[3]; if(sc.size_assets()!=n||sc.size_lights()!=order.size()||sc.size_shapes()!=1u+sh) vt::fail("wrong number of things in a scene","after %s",show(q,N).c_str()); for(size_t k=0;k<order.size();k++) if(sc.get_light((int)k)!=l[order[k]]) vt::fail("wrong light in a scene","after %s",show(q,N).c_str());
                bool same=built; for(int k=0;k<4;k++) same=same&&in[k]==have[k];
                if(same) for(int k=0;k<4;k++) { Ray y(Point3(5*k,0.1,-4),Vec3(0,0,1)); HitPoint h; h.asset_h=NULL; bool f=sc.k.intersect(&y,&h); vt::count("rays"); const Asset* w=k<2?(const Asset*)a[k]:(const Asset*)l[k-2]; if(f!=have[k]||(f&&h.asset_h!=w)) vt::fail("a scene hits something else than what was added","after %s",show(q,N).c_str()); }
                for(auto& g:gone) if(g.second) vt::fail("destroyed while in use","part of a scene after %s",show(q,N).c_str()); st=3; for(int k=0;k<4;k++) st=vt::mix(st,have[k]+2*in[k]); for(int k:order) st=vt::mix(st,k); st=vt::mix(st,sh);
            }
        }
        for(int k=0;k<4;k++) { int id=k<2?2+k:2+k; if(gone[id]!=(have[k]?1:0)) vt::fail(gone[id]>1?"destroyed twice":have[k]?"not destroyed":"destroyed while in use","asset %d of a scene after %s",k,show(q,N).c_str()); if(!have[k]&&!gone[id]) { if(k<2) delete a[k]; else delete l[k-2]; } }
        if(gone[0]!=1||gone[1]!=(sh?1:0)) vt::fail("shape of a scene destroyed at the wrong time","after %s",show(q,N).c_str()); if(!gone[1]) delete s1; vt::seen(st); vt::count("executions"); }); vt::beat();
}
// many things in one scene, around the limits
static void many(bool T)
{
    for(int n:{1,2,31,32,33,40,100}) { if(!vt::begin("%d lights in one scene",n)) continue; gone.clear(); nxt=0; std::vector<Lgt*> v; int in=0; { Scene s; Shp* sp=new Shp(); s.inherit_shape(sp); for(int i=0;i<n;i++) { Lgt* x=new Lgt(sp,m_tr(3*i,0,0)); v.push_back(x); unsigned b=s.size_lights(); s.inherit_light(x); if(s.size_lights()==b+1) { in++; if(i!=in-1||s.get_light(i)!=x) vt::fail("wrong light in a scene","light %d of %d",i,n); } else if(s.size_lights()!=b) vt::fail("wrong number of things in a scene","light %d of %d",i,n); if(s.size_assets()!=s.size_lights()) vt::fail("a light that was refused stays in the scene","light %d of %d",i,n); vt::count("transitions"); }
        if(in<std::min(n,32)) vt::fail("light refused","%d of %d",in,n); s.k.buildTree(); for(int i=0;i<n;i++) { Ray y(Point3(3*i,0.1,-4),Vec3(0,0,1)); HitPoint h; h.asset_h=NULL; bool f=s.k.intersect(&y,&h); if(f!=(i<in)||(f&&h.asset_h!=v[i])) vt::fail("a scene hits something else than what was added","light %d of %d",i,n); vt::count("rays"); } }
        for(int i=0;i<n;i++) { int g=gone[v[0]?i+1:0]; if(g!=(i<in)) vt::fail(g?"destroyed while in use":"not destroyed","light %d of %d",i,n); if(i>=in) delete v[i]; } vt::seen(n); }
    for(int n:{1,2,3,4,7,8,9,64,513,4095,4096,4097}) { if(n>600&&!T&&n!=4096) continue; if(!vt::begin("%d assets in one scene",n)) continue; gone.clear(); nxt=0; std::vector<Ast*> v; { Scene s; Shp* sp=new Shp(); s.inherit_shape(sp); for(int i=0;i<n;i++) { Ast* x=new Ast(sp,m_tr(3*(i%64),3*(i/64),0)); v.push_back(x); s.inherit_asset(x); vt::count("transitions"); } s.k.buildTree(); for(int i=0;i<n&&i<4096;i++) { Ray y(Point3(3*(i%64),3*(i/64)+0.1,-4),Vec3(0,0,1)); HitPoint h; h.asset_h=NULL; bool f=s.k.intersect(&y,&h); vt::count("rays"); if(!f||h.asset_h!=v[i]) vt::fail("a scene hits something else than what was added","asset %d of %d",i,n); } vt::beat(); }
        for(int i=0;i<n;i++) if(gone[i+1]!=1) { vt::fail("not destroyed","asset %d of %d: %d times",i,n,gone[i+1]); break; } vt::seen(1000+n); }
}
// assets and lights in one scene, in different orders
static void mixed(int na,int nl,int order)
{
    gone.clear(); nxt=0; std::vector<std::pair<Asset*,int>> v; std::vector<const AreaLight*> in; std::vector<bool> kept; int shapes=1+(na+nl)%4;
    {
        Scene s; std::vector<Shp*> sp; for(int i=0;i<shapes;i++) { sp.push_back(new Shp()); s.inherit_shape(sp[i]); }
        int a=0,l=0; unsigned assets=0;
        while(a<na||l<nl)
        {
            int i=(int)v.size(); bool lt=order==0?a>=na:order==1?l<nl:(a>=na||(l<nl&&i%2)); Matrix4 m=m_tr(3.f*i,0,0); const Shape* w=sp[i%shapes];
            if(!lt) { Ast* x=new Ast(w,m); v.push_back({x,x->id}); s.inherit_asset(x); kept.push_back(true); assets++; a++; }
            else { Lgt* x=new Lgt(w,m); v.push_back({x,x->id}); unsigned b=s.size_lights(); s.inherit_light(x); bool took=s.size_lights()==b+1; if(took!=(in.size()<_MAX_LIGHTS_)) vt::fail(took?"too many lights":"light refused","light %d after %d assets",l,a); if(took) { in.push_back(x); assets++; } kept.push_back(took); l++; }
            if(s.size_assets()!=assets||s.size_lights()!=in.size()) vt::fail("wrong number of things in a scene","%u assets and %u lights after adding %d and %d",s.size_assets(),s.size_lights(),a,l);
        }
        for(size_t k=0;k<in.size()&&k<s.size_lights();k++) if(s.get_light((int)k)!=in[k]) vt::fail("wrong light","number %d of %d",(int)k,(int)in.size());
        s.k.buildTree(); for(size_t i=0;i<v.size();i++) { Ray y(Point3(3.f*i,0.1f,-4),Vec3(0,0,1)); HitPoint h; h.asset_h=NULL; bool f=s.k.intersect(&y,&h); vt::count("rays"); if(f!=kept[i]||(f&&h.asset_h!=v[i].first)) vt::fail("wrong hit in a scene","thing %d of %d",(int)i,(int)v.size()); }
        for(auto& g:gone) if(g.second) { vt::fail("destroyed while in use","part of a scene"); break; }
    }
    for(size_t i=0;i<v.size();i++) { if(gone[v[i].second]!=(kept[i]?1:0)) { vt::fail(kept[i]?"not destroyed":"destroyed while in use","thing %d of %d",(int)i,(int)v.size()); break; } if(!kept[i]) delete v[i].first; }
    for(int i=0;i<shapes;i++) if(gone[i]!=1) vt::fail("shape of a scene destroyed at the wrong time","shape %d: %d times",i,gone[i]); vt::seen(vt::mix(na,nl*3+order)); vt::count("executions");
}
// names that are nearly the same
static void names()
{
    std::vector<std::string> n={"","a","A","a ","a\t"," a","aa","default","Default ","DEFAULT","a.tga","./a.tga","\xc3\xa4",std::string(300,'a'),std::string(301,'a'),std::string("a\0b",3),std::string("a\0c",3)}; for(int i=0;i<300;i++) n.push_back("m"+std::to_string(i*i));
    gone.clear(); nxt=0; MtlLib.clear(); TexLib.clear(); std::map<std::string,const Mat*> m; std::map<std::string,const Tex*> t; std::map<std::string,const Map*> p;
    auto check=[&](const char* w) { for(auto& x:n) { const Bsdf* a=m.count(x)?m[x]:NULL; const TextureImage* b=t.count(x)?t[x]:NULL; const ImageMap* c=p.count(x)?p[x]:NULL; if(MtlLib.get(x)!=a||MtlLib.contains(x)!=(a!=NULL)) vt::fail("wrong material under a name","'%s' %s",x.c_str(),w); if(TexLib.get_texture(x)!=b||TexLib.contains_texture(x)!=(b!=NULL)||TexLib.get_map(x)!=c||TexLib.contains_map(x)!=(c!=NULL)) vt::fail("wrong texture or map under a name","'%s' %s",x.c_str(),w); vt::count("evaluations"); } };
    for(size_t i=0;i<n.size();i++) { std::string x=n[(i*7)%n.size()]; if(m.count(x)) continue; Mat* a=new Mat(); Tex* b=new Tex(); Map* c=new Map(); MtlLib.add_inherit(x,a); TexLib.inherit_texture(x,b); TexLib.inherit_map(x,c); m[x]=a; t[x]=b; p[x]=c; if(i<20) check("while adding"); } check("when all are there");
    int k=0; for(auto& x:n) if(++k%3==0) { if(!m.count(x)) continue; int a=m[x]->id,b=t[x]->id,c=p[x]->id; MtlLib.erase(x); m.erase(x); if(k%2) { TexLib.erase_texture(x); t.erase(x); } else { TexLib.erase_map(x); p.erase(x); } if(gone[a]!=1||gone[k%2?b:c]!=1||gone[k%2?c:b]!=0) vt::fail("not destroyed","'%s'",x.c_str()); if(k<30) check("while removing"); } check("when a third is gone");
    MtlLib.clear(); TexLib.clear(); m.clear(); t.clear(); p.clear(); check("when all are gone"); for(auto& g:gone) if(g.second!=1) { vt::fail("destroyed twice","object %d: %d times",g.first,g.second); break; }
}
struct Model { int side; std::vector<int> v; std::vector<bool> known; };
static void arrays(int first,int depth,int sa,int sb)
{
    static const char* N[]={"a(0,0)=x","a(last)=x","a(mid)=x","b(0,last)=x","a=b","b=a","a=a","zero a","copy a","a(all)=x"};
    sequences(10,depth-1,[&](const std::vector<int>& r) {
        std::vector<int> q(1,first); q.insert(q.end(),r.begin(),r.end()); std::vector<uint64_t> sts; sts.reserve(q.size()+1); size_t mem=__sanitizer_get_current_allocated_bytes(); uint64_t st=vt::mix(sa,sb);
        {
            std::vector<int> init(sb*sb); for(int i=0;i<sb*sb;i++) init[i]=1000+i; Array2D<int> a(sa),b(init.data(),sb); Model ma,mb; ma.side=sa; ma.v.assign(sa*sa,0); ma.known.assign(sa*sa,false); mb.side=sb; mb.v=init; mb.known.assign(sb*sb,true);
            auto put=[](Array2D<int>& x,Model& m,int X,int Y,int v) { x.set(X,Y,v); m.v[Y*m.side+X]=v; m.known[Y*m.side+X]=true; };
            auto same=[&](const Array2D<int>& x,const Model& m,const char* w) { for(int Y=0;Y<m.side;Y++) for(int X=0;X<m.side;X++) if(m.known[Y*m.side+X]&&x.get(X,Y)!=m.v[Y*m.side+X]) { vt::fail("wrong value in a block array","%s(%d,%d) after %s sides %d and %d",w,X,Y,show(q,N).c_str(),sa,sb); return; } };
            for(size_t i=0;i<q.size();i++)
            {
                int o=q[i],x=7+(int)i; vt::count("transitions");
                switch(o) { case 0: put(a,ma,0,0,x); break; case 1: put(a,ma,ma.side-1,ma.side-1,x); break; case 2: put(a,ma,ma.side/2,ma.side-1,x); break; case 3: put(b,mb,0,mb.side-1,x); break; case 4: a=b; ma=mb; break; case 5: b=a; mb=ma; break; case 6: { Array2D<int>& c=a; a=c; break; }
                    case 7: a.zero_out(); ma.v.assign(ma.v.size(),0); ma.known.assign(ma.v.size(),true); break; case 8: { Array2D<int> c(a); same(c,ma,"copy"); c.set(0,0,-5); break; } case 9: for(int Y=0;Y<ma.side;Y++) for(int X=0;X<ma.side;X++) put(a,ma,X,Y,x*1000+Y*ma.side+X); break; }
                same(a,ma,"a"); same(b,mb,"b"); st=vt::mix(sa,sb); for(int z:ma.v) st=vt::mix(st,z); for(int z:mb.v) st=vt::mix(st,z); sts.push_back(st); 
            }
        }
        if(__sanitizer_get_current_allocated_bytes()>mem) vt::fail("memory of a block array is not given back","after %s",show(q,N).c_str()); for(auto z:sts) vt::seen(z); vt::count("executions"); }); vt::beat();
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough(); if(!freopen("/dev/null","w",stdout)||!freopen("/dev/null","w",stderr)) return 1;
    int dm=T?7:6,dx=T?6:5,dsn=T?7:6,da=T?5:4;
    for(int d=1;d<=dm;d++) for(int i=0;i<8;i++) if(vt::begin("material library, sequences of %d starting with operation %d",d,i)) { mtl(i,d); if(d==3) vt::sample("material library, sequences of %d operations from the %dth",d,i); }
    for(int d=1;d<=dx;d++) for(int i=0;i<10;i++) if(vt::begin("texture library, sequences of %d starting with operation %d",d,i)) tex(i,d);
    for(int d=1;d<=dsn;d++) for(int i=0;i<6;i++) if(vt::begin("scene, sequences of %d starting with operation %d",d,i)) scene(i,d);
    many(T);
    for(int na:{0,1,2,31,32,33,40,100}) for(int nl:{0,1,2,3,31,32,33,40}) for(int o=0;o<3;o++) if(vt::begin("%d assets and %d lights in one scene, %s",na,nl,o==0?"assets first":o==1?"lights first":"in turn")) mixed(na,nl,o);
    if(vt::begin("names nearly the same")) names();
    for(int sa:{1,2,3,4,5,7,8,9,16,17,33}) for(int sb:{1,3,4,6,16,20}) { if(!T&&sa*sb>200) continue; for(int i=0;i<10;i++) if(vt::begin("block arrays of %d and %d, starting with operation %d",sa,sb,i)) for(int d=1;d<=(sa*sb>200?da-1:da);d++) arrays(i,d,sa,sb); }
    return vt::finish();
}
