// The content of a scene as a configuration file describes it: materials,
// textures and their names, masks, placed shapes and lights, in every order.
#include "cfg_util.hpp"
#include "d3.hpp"
#include "img_util.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/microfacet.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "materials/metals.hpp"
#include "materials/single_brdf.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/dual.hpp"
#include "materials/bump.hpp"
#include "textures/texture_normal.hpp"
#include "textures/texture_uniform.hpp"
#include <algorithm>
#include <map>
static ColorRGB C3(int r,int g,int b) { return ColorRGB((unsigned char)r,(unsigned char)g,(unsigned char)b); }
static const int NS=sizeof(Spectrum)/sizeof(float);
#define BAD(k,...) do { char b_[700]; snprintf(b_,700,__VA_ARGS__); p.push_back({k,b_}); } while(0)
static bool close(double a,double b,double rel=2e-4,double ab=1e-6) { if(a!=a||b!=b) return (a!=a)==(b!=b); if(std::isinf(a)||std::isinf(b)) return a==b; return fabs(a-b)<=ab+rel*std::max(fabs(a),fabs(b)); }
static HitPoint at(double u,double v)
{ HitPoint h; memset((void*)&h,0,sizeof h); h.point_h=Point3(1,2,3); h.normal_h=Normal(0,0,1); h.dpdu=Vec3(1,0,0); h.dpdv=Vec3(0,1,0); h.uv=Point2(u,v); h.differentials=false; h.asset_h=NULL; return h; }
// two materials are the same when everything that can be asked of them is
static std::string differ(const Bsdf* a,const Bsdf* b,const std::vector<std::pair<double,double>>& uvs,bool dense)
{
    static std::vector<Vec3> dv; if(dv.empty()) for(double c:{0.95,0.5,-0.7}) for(double ph:{0.3,2.1,4.4}) { double q=sqrt(1-c*c); dv.push_back(Vec3(q*cos(ph),q*sin(ph),c)); }
    char s[300];
    for(auto& uv:uvs)
    {
        HitPoint h=at(uv.first,uv.second); ShadingSpace ma,mb; Normal na,nb; a->gen_shading_matrix(&h,&ma,&na); b->gen_shading_matrix(&h,&mb,&nb);
        if(!close(na.x,nb.x,1e-3,1e-4)||!close(na.y,nb.y,1e-3,1e-4)||!close(na.z,nb.z,1e-3,1e-4)) { snprintf(s,300,"normal %g %g %g instead of %g %g %g at uv %g %g",na.x,na.y,na.z,nb.x,nb.y,nb.z,uv.first,uv.second); return s; }
        for(size_t i=0;i<dv.size();i+=dense?1:2) for(size_t j=0;j<dv.size();j+=dense?1:2) for(int q=0;q<2;q++)
        {
            Vec3 o=dv[i],w=dv[j]; Spectrum x=a->value(&o,&h,&w,&ma,q),y=b->value(&o,&h,&w,&mb,q); double p1=a->pdf(&o,&h,&ma,&w,q),p2=b->pdf(&o,&h,&mb,&w,q); vt::count("comparisons");
            for(int k=0;k<NS;k++) if(!close(x.w[k],y.w[k])) { snprintf(s,300,"value %g instead of %g at uv %g %g",x.w[k],y.w[k],uv.first,uv.second); return s; } if(!close(p1,p2)) { snprintf(s,300,"density %g instead of %g",p1,p2); return s; }
        }
        for(size_t i=0;i<dv.size();i+=2) for(float r0:{0.2f,0.8f}) for(float r1:{0.15f,0.6f}) for(int q=0;q<2;q++)
        {
            Vec3 o=dv[i],w1(0,0,0),w2(0,0,0); float p1=0,p2=0; bool s1=false,s2=false; Spectrum x=a->sample_value(r0,r1,0.37f,&o,&h,&ma,&w1,&p1,q,&s1),y=b->sample_value(r0,r1,0.37f,&o,&h,&mb,&w2,&p2,q,&s2); vt::count("comparisons");
            if(!close(p1,p2)) { snprintf(s,300,"sampled density %g instead of %g",p1,p2); return s; } if(p1==0) continue;
            for(int k=0;k<NS;k++) if(!close(x.w[k],y.w[k])) { snprintf(s,300,"sampled value %g instead of %g at uv %g %g",x.w[k],y.w[k],uv.first,uv.second); return s; } if(s1!=s2) return "mirror flag"; if(!close(w1.x,w2.x,1e-3,1e-4)||!close(w1.y,w2.y,1e-3,1e-4)||!close(w1.z,w2.z,1e-3,1e-4)) return "sampled direction";
        }
    }
    return "";
}
// ---- materials
struct Mt
{
    int type=0; double rough=0,an=-1; int dist=1; int el=2; Spectrum ior; const Texture *df=NULL,*sp=NULL; const TextureImage* nm=NULL; // 0 matte 1 glossy 2 metal 3 glass; 0 blinn 1 beckmann 2 ggx
    Mt():ior(cauchy(1.45f,0.f)) { }
};
static MicrofacetDist* distr(const Mt& m,double x,double y) { if(y>=0) return new GGXaniso((float)x,(float)y); float f=(float)x; if(m.dist==0) return new Blinn(2.f/(f*f)-2); if(m.dist==1) return new Beckmann(f); return new GGXiso(f); }
static Bsdf* ref(const Mt& m)
{
    double x=std::min(1.,std::max(0.,m.rough)),y=m.an; if(y>=0&&(float)y==(float)x) y=-1; if(y>=0) { x=std::max(x,0.001); y=std::min(1.,std::max(y,0.001)); }
    const Texture* df=m.df?m.df:TexLib.get_dflt_teximage(); const Texture* sp=m.sp?m.sp:TexLib.get_dflt_teximage(); Spectrum air=cauchy(1.f,0.f); Bsdf* r=NULL;
    if(m.type==0) r=x>0?new SingleBRDF(new OrenNayar((float)(100*x)),df):new SingleBRDF(new Lambertian(),df);
    else if(m.type==1) { if(x==0) x=0.001; MultiBSDF* q=new MultiBSDF(); q->inherit_bdf(new Lambertian(),df); q->inherit_bdf(new MicrofacetR(distr(m,x,y),new Dielectric(cauchy(1.f,0.f),cauchy(1.5f,0.f))),sp); r=q; }
    else if(m.type==2) { Spectrum n(METALS[m.el].n),k(METALS[m.el].k); r=new SingleBRDF(x==0?(Bdf*)new ConductorReflection(n,k):(Bdf*)new MicrofacetR(distr(m,x,y),new Conductor(n,k))); }
    else { MultiBSDF* q=new MultiBSDF(); if(x==0) { q->inherit_bdf(new Refraction(air,m.ior),df); q->inherit_bdf(new DielectricReflection(air,m.ior),sp); } else { q->inherit_bdf(new MicrofacetT(distr(m,x,y),air,m.ior),df); q->inherit_bdf(new MicrofacetR(distr(m,x,y),new Dielectric(air,m.ior)),sp); } r=q; }
    r->inherit_bump(m.nm?(const Bump*)new TextureNormal(m.nm):new Bump()); return r;
}
static const char* TY[]={"matte","glossy","metal","glass"};
static const char* DI[]={"blinn","beckmann","ggx"};
static const char* EL[]={"Ag","Al","Au","Cu","Fe","Hg","Pb","Pt","W","Be","Bi","Co","Cr","Ge","K","Li","Mg","Mn","Mo","Na","Nb","Ni","Pd","Rh","Ta","Ti","V","Zn","Zr"};
typedef std::vector<std::pair<std::string,double>> Uv;
static std::vector<std::pair<double,double>> UVS={{0.3,0.6}};
struct Doc { std::string text; Mt m; };
static void judge_materials(const std::vector<Doc>& ds,const char* what)
{
    std::string t; for(size_t i=0;i<ds.size();i++) t+="material:{name:\"m"+std::to_string(i)+"\" "+ds[i].text+"}\n"; put("cfg/main.txt",t); vt::detail("%s",what);
    ChildEnd e=in_child([&](Problems& p) { int open0=vt::open_files(); Scene s; ConfigDriver d; Renderer* r=d.parse("cfg/main.txt",&s); if(!r) { BAD("no renderer","%s",what); return; } if(vt::open_files()!=open0) BAD("file left open after parsing","%s",what);
        for(size_t i=0;i<ds.size();i++) { const Bsdf* b=MtlLib.get("m"+std::to_string(i)); if(!b) { BAD("material lost","%s",ds[i].text.c_str()); continue; } Bsdf* q=ref(ds[i].m); std::string w=differ(b,q,UVS,false); if(!w.empty()) BAD("wrong material","%s: %s",ds[i].text.c_str(),w.c_str()); delete q; }
        if(MtlLib.contains("m"+std::to_string(ds.size()))) BAD("material made up","%s",what); delete r; });
    judge_end(e,what,false); vt::seen(vt::hash(t.data(),t.size())); vt::count("evaluations",(int64_t)ds.size()-1);
}
static void materials(bool T)
{
    std::vector<std::pair<std::string,double>> ro={{"",0},{"roughness:0",0},{"roughness:.0005",0.0005},{"roughness:0.3",0.3},{"roughness:1",1},{"roughness:0.05",0.05}},an={{"",-1},{"anisotropy:0",0},{"anisotropy:0.3",0.3},{"anisotropy:1",1},{"anisotropy:.05",0.05}};
    for(int t=-1;t<4;t++) for(auto& r:ro)
    {
        std::string ty=t<0?"":std::string("type:")+TY[t]; if(!vt::begin("materials: %s %s",ty.c_str(),r.first.c_str())) continue; std::vector<Doc> ds;
        for(auto& a:an) for(int k=-1;k<3;k++) for(int o=0;o<(T?4:2);o++) { Doc d; std::vector<std::string> v={ty,r.first,a.first,k<0?"":std::string("distribution:")+DI[k]}; if(o==1) std::reverse(v.begin(),v.end()); if(o==2) std::rotate(v.begin(),v.begin()+1,v.end()); if(o==3) std::swap(v[1],v[2]); for(auto& z:v) d.text+=z+" "; d.m.type=t<0?0:t; d.m.rough=r.second; d.m.an=a.second; d.m.dist=k<0?1:k; ds.push_back(d); }
        judge_materials(ds,"material");
    }
    if(vt::begin("roughness beyond its range")) { std::vector<Doc> ds; for(int t=0;t<4;t++) for(int k=0;k<3;k++) for(double r:{-0.5,-3.,1.5,20.}) { Doc d; d.m.type=t; d.m.dist=k; d.m.rough=r; d.text=std::string("type:")+TY[t]+" distribution:"+DI[k]+" roughness:"+std::to_string(r); ds.push_back(d); } judge_materials(ds,"roughness beyond its range"); }
    for(int up=0;up<3;up++) for(int r=0;r<3;r++) if(vt::begin("metals, spelling %d, roughness %d",up,r))
    {
        std::vector<Doc> ds; for(int e=0;e<29;e++) { std::string n=EL[e]; for(auto& c:n) c=up==1?tolower(c):up==2?toupper(c):c; Doc d; d.m.type=2; d.m.el=e; d.m.rough=r*0.25; d.text="element:"+n+" type:metal roughness:"+std::to_string(r*0.25); ds.push_back(d); } judge_materials(ds,"metals");
    }
    std::vector<std::pair<std::string,Spectrum>> io={{"1.33",cauchy(1.33f,0)},{"2",cauchy(2,0)},{"[1.5,0.004]",cauchy(1.5f,0.004f)},{"[1.45, 0]",cauchy(1.45f,0)},{"[1.7,.01,0.002]",cauchy(1.7f,0.01f,0.002f)},{"[1.03961212,0.231792344,1.01046945][0.00600069867,0.0200179144,103.560653]",sellmeier(1.03961212f,0.231792344f,1.01046945f,0.00600069867f,0.0200179144f,103.560653f)},{"[0.6961663,0.4079426,0.8974794] [0.0046791,0.0135121,97.934]",sellmeier(0.6961663f,0.4079426f,0.8974794f,0.0046791f,0.0135121f,97.934f)}};
    for(size_t i=0;i<io.size();i++) if(vt::begin("index of refraction %s",io[i].first.c_str()))
    { std::vector<Doc> ds; for(int r=0;r<3;r++) for(int o=0;o<2;o++) for(int k=0;k<3;k++) { Doc d; d.m.type=3; d.m.rough=r*0.2; d.m.dist=k; d.m.ior=io[i].second; std::string b="roughness:"+std::to_string(r*0.2)+",distribution:"+DI[k]; d.text=o?b+",ior:"+io[i].first+",type:glass":"type:glass ior:"+io[i].first+" "+b; ds.push_back(d); } judge_materials(ds,"index of refraction"); }
    // a setting of one material does not reach the next
    std::vector<std::string> st={"type:glass","type:metal element:Ag","roughness:0.3","anisotropy:0.2","distribution:ggx","diffuse:[255,0,0]","specular:[0,9,0]","ior:2"};
    for(size_t i=0;i<st.size();i++) if(vt::begin("a plain material after one with %s",st[i].c_str()))
    { std::vector<Doc> ds; for(int t=0;t<4;t++) { put("cfg/main.txt",""); Doc d; d.text=st[i]; std::string a="material:{name:'x' "+st[i]+"} material:{name:'y' type:"+TY[t]+"}"; put("cfg/main.txt",a); ChildEnd e=in_child([&](Problems& p) { Scene s; ConfigDriver c; Renderer* r=c.parse("cfg/main.txt",&s); Mt m; m.type=t; Bsdf* q=ref(m); const Bsdf* b=MtlLib.get("y"); std::string w=b?differ(b,q,UVS,false):"missing"; if(!w.empty()) BAD("settings leak into the next material","%s: %s",a.c_str(),w.c_str()); delete q; delete r; }); judge_end(e,a,false); } }
    // colours
    if(vt::begin("colours")) for(int t=0;t<4;t++) for(int which=0;which<3;which++)
    {
        struct C { const char* t; int r,g,b; }; for(const C& c:{C{"[255,0,0]",255,0,0},C{"[12,200,77]",12,200,77},C{"[0,0,0]",0,0,0},C{"[300,-5,128]",255,0,128},C{"[1e2,2.0,3]",100,2,3}})
        {
            std::string a=std::string("material:{name:'m' roughness:0.2 type:")+TY[t]+(which!=1?std::string(" diffuse:")+c.t:"")+(which!=0?std::string(" specular:")+c.t:"")+"}"; put("cfg/main.txt",a); vt::seen(vt::hash(a.data(),a.size()));
            ChildEnd e=in_child([&](Problems& p) { Scene s; ConfigDriver d; Renderer* r=d.parse("cfg/main.txt",&s); Mt m; m.type=t; m.rough=0.2; TextureUniform x(Spectrum(C3(c.r,c.g,c.b),false)); if(which!=1) m.df=&x; if(which!=0) m.sp=&x; Bsdf* q=ref(m); const Bsdf* b=MtlLib.get("m"); std::string w=b?differ(b,q,UVS,false):"missing"; if(!w.empty()) BAD("wrong colour","%s: %s",a.c_str(),w.c_str()); delete q; delete r; }); judge_end(e,a,false);
        }
    }
    // names: the first material with a name keeps it; dual materials
    std::vector<std::string> en={"material:{name:'a' diffuse:[200,0,0]}","material:{name:'a' diffuse:[0,200,0]}","material:{name:'b' type:metal}","dualmaterial:{name:'d' first:'a' second:'b' mask:'half.tga' using channel R}"};
    std::vector<int> o={0,1,2,3}; do { if(!vt::begin("names, order %d%d%d%d",o[0],o[1],o[2],o[3])) continue; std::string a; for(int i:o) a+=en[i]+"\n"; put("cfg/main.txt",a); bool red=std::find(o.begin(),o.end(),0)<std::find(o.begin(),o.end(),1);
        ChildEnd e=in_child([&](Problems& p) { Scene s; ConfigDriver d; Renderer* r=d.parse("cfg/main.txt",&s); Mt m,n; n.type=2; TextureUniform x(Spectrum(C3(red?200:0,red?0:200,0),false)); m.df=&x; Bsdf *q=ref(m),*g=ref(n); const Bsdf *b=MtlLib.get("a"),*c=MtlLib.get("d"); std::string w=b?differ(b,q,UVS,true):"missing"; if(!w.empty()) BAD("wrong material","%s: %s",a.c_str(),w.c_str());
            for(int k=0;k<2;k++) { w=c?differ(c,k?g:q,{{k?0.8:0.2,0.3}},true):"missing"; if(!w.empty()) BAD("wrong dual material","%s side %d: %s",a.c_str(),k,w.c_str()); } delete q; delete g; delete r; }); judge_end(e,a,false); vt::seen(vt::hash(a.data(),a.size())); } while(std::next_permutation(o.begin(),o.end()));
}
// ---- textures by name and by path
struct Tx { std::string file; double sx=1,sy=1,hx=0,hy=0; bool flt=false; };
static const TextureImage* make_tx(const Tx& t,TextureFilter_t f=TRILINEAR) { Vec2 sh(t.hx,t.hy),sc(t.sx,t.sy); return new TextureImage(File(t.file.c_str()),sh,sc,f); }
static void textures(bool T)
{
    std::string root=get_current_dir_name();
    struct Decl { std::string text,name; Tx t; bool ok; };
    std::vector<Decl> ds={{"texture:{name:'N' src:'t1.tga'}","N",{"cfg/t1.tga"},true},{"texture:{src:'t2.tga'}","t2.tga",{"cfg/t2.tga"},true},{"texture:{src:'a/t3.bmp',name:'N'}","N",{"cfg/a/t3.bmp"},true},{"texture:{src:'b/t3.bmp'}","t3.bmp",{"cfg/b/t3.bmp"},true},
        {"texture:{src:'a\\t3.bmp' scale:[2,3]}","t3.bmp",{"cfg/a/t3.bmp",2,3},true},{"texture:{shift:[.25,0.5] name:'a/t3.bmp' src:'t1.tga' scale:2}","a/t3.bmp",{"cfg/t1.tga",2,2,0.25,0.5},true},{"texture:{name:'M' src:'none.tga'}","M",{},false},{"texture:{name:'N' src:'odd.tga'}","N",{"cfg/odd.tga"},true},{"texture:{name:'M',src:'"+root+"/cfg/t2.tga'}","M",{"cfg/t2.tga"},true},{"texture:{name:'dir/x' src:'t2.tga'}","dir/x",{"cfg/t2.tga"},true},{"texture:{name:'N' src:'text.txt'}","N",{},false},{"texture:{src:'../up.tga'}","up.tga",{"up.tga"},true}};
    std::vector<std::string> rf={"N","M","t2.tga","t3.bmp","a/t3.bmp","b/t3.bmp","a\\t3.bmp","dir/x","t1.tga","up.tga","../up.tga",root+"/cfg/t1.tga","none.tga","text.txt","a","x"};
    auto file_of=[&](const std::string& r)->std::string { static const std::map<std::string,std::string> m={{"t2.tga","cfg/t2.tga"},{"a/t3.bmp","cfg/a/t3.bmp"},{"b/t3.bmp","cfg/b/t3.bmp"},{"a\\t3.bmp","cfg/a/t3.bmp"},{"t1.tga","cfg/t1.tga"},{"../up.tga","up.tga"}}; auto i=m.find(r); if(i!=m.end()) return i->second; if(r==root+"/cfg/t1.tga") return "cfg/t1.tga"; return ""; };
    std::vector<std::pair<double,double>> uv={{0.31,0.62},{0.81,0.12},{0.05,0.4}};
    // up to two declarations and two uses, the uses before, between and after them, as colour of one material each
    int n=(int)ds.size();
    for(int a=-1;a<n;a++) for(int b=-1;b<n;b++)
    {
        if(b>=0&&a<0) continue; if(a>=0&&b==a) continue; if(!vt::begin("textures %s %s",a<0?"":ds[a].text.c_str(),b<0?"":ds[b].text.c_str())) continue;
        for(size_t r=0;r<rf.size();r++) for(size_t q=0;q<rf.size();q++)
        {
            if(!T&&(a+b+(int)r+(int)q)%3&&b>=0) continue; int pos=(int)(r+q+a+b+2)%3; // where the uses stand
            std::map<std::string,Tx> lib; for(int k:{a,b}) if(k>=0&&ds[k].ok&&!lib.count(ds[k].name)) lib[ds[k].name]=ds[k].t;
            std::string u1="material:{name:'m0' diffuse:'"+rf[r]+"'}",u2="material:{name:'m1' type:glass specular:'"+rf[q]+"' roughness:0.4 diffuse:[9,200,30]}",d1=a<0?"":ds[a].text,d2=b<0?"":ds[b].text; std::string t=pos==0?u1+d1+u2+d2:pos==1?d1+u1+d2+u2:u1+u2+d1+d2; put("cfg/main.txt",t); vt::detail("%s",t.c_str());
            ChildEnd e=in_child([&](Problems& p) { Scene s; ConfigDriver d; Renderer* x=d.parse("cfg/main.txt",&s); if(!x) { BAD("no renderer","%s",t.c_str()); return; }
                for(int w=0;w<2;w++) { const std::string& name=rf[w?q:r]; auto i=lib.find(name); const TextureImage* g=NULL; if(i!=lib.end()) g=make_tx(i->second); else if(!file_of(name).empty()) { Tx z; z.file=file_of(name); g=make_tx(z); }
                    Mt m; TextureUniform un(Spectrum(C3(9,200,30),false)); if(w) { m.type=3; m.rough=0.4; m.sp=g; m.df=&un; } else m.df=g; const Bsdf* f=MtlLib.get(w?"m1":"m0"); Bsdf* o=ref(m); std::string why=f?differ(f,o,uv,false):"missing"; if(!why.empty()) BAD("wrong texture","%s: '%s' should be %s: %s",t.c_str(),name.c_str(),i!=lib.end()?("the texture of "+i->second.file).c_str():file_of(name).empty()?"the default":file_of(name).c_str(),why.c_str()); delete o; delete g; }
                delete x; });
            judge_end(e,t,false); vt::seen(vt::hash(t.data(),t.size()));
        }
    }
    // every order of the entries of a texture, and its filter
    std::vector<std::string> v={"name:'q'","src:'t1.tga'","scale:[2,.5]","shift:[0.25,.125]"}; std::vector<int> o={0,1,2,3};
    do { if(!vt::begin("texture entries, order %d%d%d%d",o[0],o[1],o[2],o[3])) continue; for(int cm=0;cm<2;cm++) for(int f=0;f<4;f++) { static const char* FN[]={"","filter:{texture:unfiltered}","filter:{texture:trilinear}","filter:{texture:ewa}"}; std::string t=std::string(FN[f])+"texture:{"; for(int i:o) t+=v[i]+(cm?",":" "); t+="} material:{diffuse:'q' name:'m'}"; put("cfg/main.txt",t);
        ChildEnd e=in_child([&](Problems& p) { Scene s; ConfigDriver d; Renderer* x=d.parse("cfg/main.txt",&s); Tx z; z.file="cfg/t1.tga"; z.sx=2; z.sy=.5; z.hx=.25; z.hy=.125; // another copy of the file, so that the map is not shared
            Tx y=z; y.file="cfg/t1copy.tga"; const TextureImage* g=make_tx(y,f==1?UNFILTERED:f==3?EWA:TRILINEAR); Mt m; m.df=g; Bsdf* r=ref(m); const Bsdf* b=MtlLib.get("m"); std::string w=b?differ(b,r,uv,false):"missing"; if(w.empty()&&b) { for(int k=0;k<6;k++) { HitPoint h=at(0.1+0.15*k,0.33); h.differentials=true; h.du=Vec2(0.03f*k,0.01f); h.dv=Vec2(0.02f,0.05f*k); ShadingSpace sp; Normal sn; b->gen_shading_matrix(&h,&sp,&sn); Vec3 a(0,0.6f,0.8f),c(0.3f,0,0.9f); c.normalize(); Spectrum A=b->value(&a,&h,&c,&sp,false),B=r->value(&a,&h,&c,&sp,false); for(int j=0;j<NS;j++) if(!close(A.w[j],B.w[j])) w="wrong filter"; } } if(!w.empty()) BAD("wrong texture","%s: %s",t.c_str(),w.c_str()); delete r; delete g; delete x; });
        judge_end(e,t,false); vt::seen(vt::hash(t.data(),t.size())); } } while(std::next_permutation(o.begin(),o.end()));
    // normal maps
    if(vt::begin("normal maps")) for(int t=0;t<4;t++) for(const char* nm:{"'nm.tga'","'Q'","'none.tga'"}) { std::string a=std::string("texture:{name:'Q' src:'nm.tga' scale:2} material:{name:'m' roughness:0.3 type:")+TY[t]+" normal:"+nm+"}"; put("cfg/main.txt",a); ChildEnd e=in_child([&](Problems& p) { Scene s; ConfigDriver d; Renderer* x=d.parse("cfg/main.txt",&s); Tx z; z.file="cfg/nm.tga"; if(nm[1]=='Q') z.sx=z.sy=2; const TextureImage* g=make_tx(z); Mt m; m.type=t; m.rough=0.3; m.nm=nm[2]=='o'?NULL:g; const Bsdf* b=MtlLib.get("m"); Bsdf* r=ref(m); std::string w=b?differ(b,r,uv,false):"missing"; if(!w.empty()) BAD("wrong normal map","%s: %s",a.c_str(),w.c_str()); delete r; delete g; delete x; }); judge_end(e,a,false); vt::seen(vt::hash(a.data(),a.size())); }
}
// ---- placed shapes
struct Tri3 { D3 p[3]; double uv[3][2]; std::string mat; };
static std::map<std::string,std::vector<Tri3>> shapes_;
static std::vector<Tri3> quad3(double x0,double x1,double y0,double y1,double z,const char* m1,const char* m2)
{
    Tri3 a,b; D3 q[4]={d3(x0,y0,z),d3(x1,y0,z),d3(x1,y1,z),d3(x0,y1,z)}; double t[4][2]={{0,0},{1,0},{1,1},{0,1}}; int ia[3]={0,1,2},ib[3]={0,2,3};
    for(int i=0;i<3;i++) { a.p[i]=q[ia[i]]; b.p[i]=q[ib[i]]; for(int k=0;k<2;k++) { a.uv[i][k]=t[ia[i]][k]; b.uv[i][k]=t[ib[i]][k]; } } a.mat=m1; b.mat=m2; return {a,b};
}
static std::string obj_text(const std::string& name,const std::vector<Tri3>& v,int& n)
{
    std::string s="o "+name+"\n"; char b[200]; for(auto& t:v) for(int i=0;i<3;i++) { snprintf(b,200,"v %g %g %g\nvt %g %g\n",t.p[i][0],t.p[i][1],t.p[i][2],t.uv[i][0],t.uv[i][1]); s+=b; }
    for(auto& t:v) { if(!t.mat.empty()) s+="usemtl "+t.mat+"\n"; snprintf(b,200,"f %d/%d %d/%d %d/%d\n",n,n,n+1,n+1,n+2,n+2); s+=b; n+=3; } return s;
}
static Aff place(D3 t,D3 rdeg,D3 s)
{
    Aff a; double k=M_PI/180; D3 c[3]; for(int i=0;i<3;i++) { D3 e=d3(i==0?s[0]:0,i==1?s[1]:0,i==2?s[2]:0); double x=rdeg[0]*k,y=rdeg[1]*k,z=rdeg[2]*k; e=d3(e[0],e[1]*cos(x)-e[2]*sin(x),e[1]*sin(x)+e[2]*cos(x)); e=d3(e[0]*cos(y)+e[2]*sin(y),e[1],-e[0]*sin(y)+e[2]*cos(y)); e=d3(e[0]*cos(z)-e[1]*sin(z),e[0]*sin(z)+e[1]*cos(z),e[2]); c[i]=e; }
    for(int i=0;i<3;i++) a.c[i]=c[i]; a.o=t; double det=dt(c[0],crs(c[1],c[2])); a.r[0]=crs(c[1],c[2])*(1/det); a.r[1]=crs(c[2],c[0])*(1/det); a.r[2]=crs(c[0],c[1])*(1/det); return a;
}
struct Mask { bool on=false; int ch=3; bool inv=false; }; // of half.tga: red visible on the left half, green on the upper, blue on the right, alpha on the lower
struct Obj { std::string shape; Aff a; std::string over; bool light=false; Spectrum em; Mask m; };
static bool visible(const Mask& m,double u,double v,bool& sure)
{
    if(!m.on) return true; u-=floor(u); v-=floor(v); for(double b:{0.,0.5,1.}) { if(fabs(u-b)<0.13) sure=false; if(fabs(v-b)<0.13) sure=false; }
    bool x=m.ch==0?u<0.5:m.ch==1?v<0.5:m.ch==2?u>=0.5:v>=0.5; return x!=m.inv;
}
struct Hit { bool hit=false,sure=true; double t=1e300; int obj=-1; std::string mat; D3 p; };
static Hit cast(const std::vector<Obj>& os,D3 o,D3 d)
{
    Hit h; double second=1e300;
    auto cand=[&](double t,int i,const std::string& m) { if(t<h.t) { second=h.t; h.t=t; h.obj=i; h.mat=m; h.hit=true; } else if(t<second) second=t; };
    for(size_t i=0;i<os.size();i++)
    {
        const Obj& b=os[i]; D3 oo=b.a.ipt(o),dd=b.a.ivec(d);
        if(b.shape=="Sphere")
        {
            double A=dt(dd,dd),B=dt(oo,dd),C=dt(oo,oo)-1,D_=B*B-A*C; if(fabs(D_)<2e-2*A) h.sure=false; if(D_<0) continue;
            for(int k=0;k<2;k++) { double t=(-B+(k?1:-1)*sqrt(D_))/A; if(t<0.02) continue; D3 p=oo+dd*t; double ph=atan2(p[1],p[0]); if(ph<0) ph+=2*M_PI; bool sure=true; bool vis=visible(b.m,ph/(2*M_PI),1-acos(std::max(-1.,std::min(1.,p[2])))/M_PI,sure); if(!sure) h.sure=false; if(vis) cand(t,(int)i,b.over.empty()?"":b.over); }
            continue;
        }
        for(auto& t:shapes_[b.shape])
        {
            D3 e1=t.p[1]-t.p[0],e2=t.p[2]-t.p[0],pv=crs(dd,e2); double det=dt(e1,pv),nl=sqrt(dt(crs(e1,e2),crs(e1,e2))),dl=sqrt(dt(dd,dd)); if(fabs(det)<2e-2*nl*dl) { h.sure=false; continue; } D3 tv=oo-t.p[0]; double u=dt(tv,pv)/det; D3 qv=crs(tv,e1); double v=dt(dd,qv)/det,tt=dt(e2,qv)/det; double mn=std::min(std::min(u,v),1-u-v); if(fabs(mn)<1e-2) h.sure=false; if(mn<0||tt<0.02) continue;
            double w=1-u-v,tu=w*t.uv[0][0]+u*t.uv[1][0]+v*t.uv[2][0],tw=w*t.uv[0][1]+u*t.uv[1][1]+v*t.uv[2][1]; bool sure=true,vis=visible(b.m,tu,tw,sure); if(!sure) h.sure=false; if(vis) cand(tt,(int)i,b.over.empty()?t.mat:b.over);
        }
    }
    if(h.hit&&second-h.t<1e-2*(1+h.t)) h.sure=false; if(h.hit) h.p=o+d*h.t; return h;
}
static void judge_scene(Problems& p,Scene& s,const std::vector<Obj>& os,const std::string& t,int grid)
{
    if(s.size_assets()!=os.size()) BAD("wrong number of assets","%s: %u instead of %d",t.c_str(),s.size_assets(),(int)os.size()); unsigned nl=0; for(auto& o:os) nl+=o.light; if(s.size_lights()!=nl) BAD("wrong number of lights","%s: %u instead of %u",t.c_str(),s.size_lights(),nl);
    if(os.empty()||s.size_assets()==0) return; s.k.buildTree(); std::vector<const Asset*> who(os.size(),(const Asset*)NULL); int hits=0;
    for(auto& tg:os) for(int i=0;i<grid;i++) for(int j=0;j<grid;j++)
    {
        // around each object, from all sides
        double ph=2*M_PI*(i+0.37)/grid,ct=1-2*(j+0.41)/grid,st=sqrt(1-ct*ct); D3 dir=d3(st*cos(ph),st*sin(ph),ct),x=nrm(crs(dir,d3(0.3,0.5,0.8))),y=crs(dir,x); double sz=sqrt(dt(tg.a.c[0],tg.a.c[0])+dt(tg.a.c[1],tg.a.c[1])+dt(tg.a.c[2],tg.a.c[2]));
        for(int k=0;k<4;k++) { D3 to=tg.a.o+x*(sz*0.31*(k-1.4))+y*(sz*0.27*((k*2)%3-0.9)),o=to-dir*(sz*2.2+3); Hit h=cast(os,o,dir); if(!h.sure) continue; Ray r(Point3(o[0],o[1],o[2]),Vec3(dir[0],dir[1],dir[2])); HitPoint g; g.asset_h=NULL; bool f=s.k.intersect(&r,&g); vt::count("comparisons"); char c[200]; snprintf(c,200,"ray %.4g,%.4g,%.4g to %.4g,%.4g,%.4g",o[0],o[1],o[2],dir[0],dir[1],dir[2]);
            if(f!=h.hit) { BAD(f?"something where there is nothing":"shape missing","%s: %s, expected %s at %g",t.c_str(),c,h.hit?os[h.obj].shape.c_str():"nothing",h.hit?h.t:0.); return; } if(!f) continue; hits++; D3 e=D(g.point_h)-h.p; if(sqrt(dt(e,e))>5e-3*(1+h.t)) { BAD("shape in the wrong place","%s: %s, at %g %g %g instead of %g %g %g",t.c_str(),c,g.point_h.x,g.point_h.y,g.point_h.z,h.p[0],h.p[1],h.p[2]); return; }
            const Obj& ob=os[h.obj]; if(who[h.obj]&&who[h.obj]!=g.asset_h) { BAD("one entry gave two assets","%s",t.c_str()); return; } who[h.obj]=g.asset_h; if(g.asset_h->is_light()!=ob.light) { BAD("light and shape confused","%s: %s",t.c_str(),c); return; }
            if(ob.light) { Spectrum q=((const AreaLight*)g.asset_h)->emissive_spectrum(); bool in=false; for(unsigned l=0;l<s.size_lights();l++) in|=s.get_light(l)==g.asset_h; if(!in) BAD("light not among the lights","%s",t.c_str()); for(int n=0;n<NS;n++) if(!close(q.w[n],ob.em.w[n])) { BAD("wrong light","%s: %g instead of %g",t.c_str(),q.w[n],ob.em.w[n]); return; } }
            else { const Bsdf* m=g.asset_h->get_material(g.index); const Bsdf* w=h.mat.empty()||!MtlLib.contains(h.mat)?MtlLib.get_default():MtlLib.get(h.mat); if(m!=w) { std::string df=m?differ(m,w,UVS,true):"none"; if(!df.empty()) { BAD("wrong material on a shape","%s: %s, expected '%s': %s",t.c_str(),c,h.mat.c_str(),df.c_str()); return; } } } }
    }
    if(hits==0&&grid>2) { bool masked=false; for(auto& o:os) masked|=o.m.on; if(!masked) vt::count("scenes_without_hits"); }
}
static void scene_case(const std::string& t,const std::vector<Obj>& os,int grid=4,bool warn=false)
{
    put("cfg/main.txt",t); vt::detail("%s",t.c_str());
    ChildEnd e=in_child([&](Problems& p) { int open0=vt::open_files(); Scene s; ConfigDriver d; Renderer* x=d.parse("cfg/main.txt",&s); if(!x) { BAD("no renderer","%s",t.c_str()); return; } int open1=vt::open_files(); if(open1!=open0) BAD("file left open after parsing","%d more: %s",open1-open0,t.c_str()); judge_scene(p,s,os,t,grid); delete x; });
    judge_end(e,t,false); if(warn&&e.console.empty()) vt::fail("no message about a missing file, shape or material","%s",t.c_str()); vt::seen(vt::hash(t.data(),t.size()));
}
static std::string v3(D3 a) { char b[100]; snprintf(b,100,"[%g,%g,%g]",a[0],a[1],a[2]); return b; }
static const char* MATS="material:{name:'A' diffuse:[255,0,0]} material:{name:'B' diffuse:[0,255,0] type:glossy} material:{name:'C' type:metal}\n";
static void placed(bool T)
{
    std::vector<D3> ps={d3(0,0,0),d3(1,-2,0.5),d3(-30,4,100)},rs={d3(0,0,0),d3(90,0,0),d3(0,90,0),d3(0,0,90),d3(30,0,0),d3(0,-45,0),d3(0,0,200),d3(30,60,0),d3(0,35,70),d3(20,40,65),d3(-100,250,400),d3(180,0,90)},ss={d3(1,1,1),d3(2.5,2.5,2.5),d3(1,2,3),d3(0.4,4,1),d3(-1,1,1),d3(2,-1,-3)};
    if(T) { rs.push_back(d3(1,2,3)); rs.push_back(d3(90,90,90)); rs.push_back(d3(90,-90,10)); rs.push_back(d3(720,-30,5)); ps.push_back(d3(0.001,1000,-7)); ss.push_back(d3(0.05,0.05,0.05)); ss.push_back(d3(20,1,5)); }
    for(const char* sh:{"Two","Tri","Sphere","Block"}) for(size_t i=0;i<ps.size();i++) for(size_t j=0;j<rs.size();j++)
    {
        if(!vt::begin("%s at %s turned by %s",sh,v3(ps[i]).c_str(),v3(rs[j]).c_str())) continue;
        for(size_t k=0;k<ss.size();k++) for(int li=0;li<2;li++) for(int om=0;om<4;om++)
        {
            D3 q=ps[i],r=rs[j],c=ss[k]; if(om&1&&(i||om!=1)) continue; if(om&2&&(k>1)) continue; bool uni=c[0]==c[1]&&c[1]==c[2];
            std::string t=std::string("shape:'two.obj' shape:'rest.obj' ")+MATS+(li?"light":"world")+":{name:'"+sh+"' "; if(!(om&1)) t+="position:"+v3(q)+" "; t+="rotation:"+v3(r); if(om&2) { if(!uni) continue; char b[50]; snprintf(b,50," scale:%g",c[0]); t+=b; } else t+=" scale:"+v3(c); t+="}"; Obj o; o.shape=sh; o.a=place(q,r,c); o.light=li; o.em=Spectrum(C3(255,255,255),true); scene_case(t,{o},T?6:4);
        }
        vt::sample("%s at %s turned by %s",sh,v3(ps[i]).c_str(),v3(rs[j]).c_str());
    }
    // flattened to nothing in one or more directions: seen flat or left out, with the rest of the scene as it is
    for(const char* sh:{"Two","Tri","Sphere","Block"}) for(int z=1;z<8;z++) if(vt::begin("%s, flattened, directions %d",sh,z)) for(int li=0;li<2;li++) for(size_t j=0;j<rs.size();j+=T?1:4)
    {
        D3 sc=d3(z&1?0:2,z&2?0:1.5,z&4?0:1); Obj b; b.shape="Two"; b.a=place(d3(0,0,50),d3(15,25,35),d3(1,1,1));
        std::string t=std::string("shape:'two.obj' shape:'rest.obj' ")+MATS+(li?"light":"world")+":{name:'"+sh+"' position:[1,2,3] rotation:"+v3(rs[j])+" scale:"+v3(sc)+"} world:{name:'Two' position:[0,0,50] rotation:[15,25,35]}"; put("cfg/main.txt",t); vt::detail("%s",t.c_str());
        ChildEnd e=in_child([&](Problems& p)
        {
            Scene s; ConfigDriver d; Renderer* x=d.parse("cfg/main.txt",&s); if(!x) { BAD("no renderer","%s",t.c_str()); return; } s.k.buildTree(); int seen=0;
            for(int i=0;i<9;i++) for(int k=0;k<9;k++) for(int f=0;f<6;f++)
            {
                D3 to=d3(1+(i-4)*0.41,2+(k-4)*0.37,3+((i*2+k)%9-4)*0.3),dir=d3(f==0,f==1,f==2); if(f>2) dir=nrm(d3(f==3?1:-0.3,f==4?1:0.4,f==5?1:0.2)); D3 o=to-dir*7; Ray r(Point3(o[0],o[1],o[2]),Vec3(dir[0],dir[1],dir[2])); HitPoint g; g.asset_h=NULL; bool h=s.k.intersect(&r,&g); vt::count("comparisons"); if(!h) continue;
                D3 q=D(g.point_h)-d3(1,2,3); if(q[2]>30) continue; seen++; double off=0; Obj fl; fl.a=place(d3(0,0,0),rs[j],d3(1,1,1)); for(int n=0;n<3;n++) if(sc[n]==0) off=std::max(off,fabs(dt(q,fl.a.c[n]))); if(!(off<2e-2)||!(sqrt(dt(q,q))<6)) { BAD("a flattened shape is hit outside itself","%s: at %g %g %g",t.c_str(),g.point_h.x,g.point_h.y,g.point_h.z); return; }
                if(!std::isfinite(g.normal_h.x+g.normal_h.y+g.normal_h.z)||!std::isfinite(g.uv.x+g.uv.y)) { BAD("the hit of a flattened shape is not a number","%s",t.c_str()); return; }
            }
            for(unsigned l=0;l<s.size_lights();l++) for(int i=0;i<9;i++) { Point3 at(i-4,1.3f,0.7f*i); Vec3 wi; float pdf=0,ds=0; Spectrum v=s.get_light(l)->sample_visible_surface(0.1f*i,0.95f-0.1f*i,&at,&wi,&pdf,&ds); if(!std::isfinite(pdf)||pdf<0) { BAD("the density of a flattened light is not a number","%s: %g",t.c_str(),pdf); return; } if(pdf>0&&!v.is_black()&&!std::isfinite(wi.x+wi.y+wi.z)) { BAD("the direction of a flattened light is not a number","%s",t.c_str()); return; } }
            delete x;
        });
        judge_end(e,t,false); vt::seen(vt::hash(t.data(),t.size()));
    }
    // all orders of the entries of a shape and of a light
    std::vector<std::string> w={"position:[1,2,-3]","rotation:[20,30,40]","scale:[1,2,0.5]","material:'C'","mask:'half.tga' using channel G inverted"},l={"position:[1,2,-3]","rotation:[20,30,40]","scale:2","color:[200,100,0]","mask:'half.tga' inverted using channel B"},l2={"position:[1,2,-3]","temperature:4000","rotation:[20,30,40]","scale:2"};
    for(int g=0;g<3;g++)
    {
        auto& v=g==0?w:g==1?l:l2; std::vector<int> o; for(size_t i=0;i<v.size();i++) o.push_back(i);
        do { if(!vt::begin("entries of a %s, kind %d, order %d%d%d%d",g?"light":"shape",g,o[0],o[1],o[2],o[3])) continue; for(const char* sh:{"Two","Sphere"}) { std::string t=std::string("shape:'two.obj' ")+MATS+(g?"light":"world")+":{name:'"+sh+"'"; for(int i:o) t+=(i&1?", ":" ")+v[i]; t+="}"; Obj b; b.shape=sh; b.a=place(d3(1,2,-3),d3(20,30,40),g?d3(2,2,2):d3(1,2,0.5)); b.light=g!=0; if(g==0) b.over="C"; b.em=g==2?Spectrum(4000):Spectrum(C3(200,100,0),true); if(g<2) { b.m.on=true; b.m.inv=true; b.m.ch=g==0?1:2; } scene_case(t,{b},5); } } while(std::next_permutation(o.begin(),o.end()));
    }
    // masks: every channel, inverted or not, by path and by name, and without a usable file
    for(int ch=-1;ch<4;ch++) for(int inv=0;inv<2;inv++) for(int by=0;by<5;by++) for(int k=0;k<2;k++)
    {
        if(!vt::begin("mask channel %d%s, way %d, kind %d",ch,inv?" inverted":"",by,k)) continue; static const char* CN[]={"R","G","B","A"}; static const char* BY[]={"half.tga","H","none.tga","text.txt","cfg"}; std::string at=ch<0?"":std::string(" using channel ")+CN[ch]; if(inv) at+=" inverted";
        Mask m; m.on=by<2; m.ch=ch<0?3:ch; m.inv=inv; std::string tx="texture:{name:'H' src:'half.tga'} ";
        if(k==0) for(const char* sh:{"Two","Sphere"}) { Obj b; b.shape=sh; b.a=place(d3(0,0,0),d3(15,25,35),d3(3,3,3)); b.m=m; scene_case("shape:'two.obj' "+tx+"world:{name:'"+sh+"' rotation:[15,25,35] scale:3 mask:'"+BY[by]+"'"+at+"}",{b},6,by>1); }
        else { std::string t=tx+MATS+"dualmaterial:{name:'d' first:'A' mask:'"+BY[by]+"'"+at+" second:'C'} world:{name:'Sphere' material:'d'}"; put("cfg/main.txt",t); ChildEnd e=in_child([&](Problems& p) { Scene s; ConfigDriver d; Renderer* x=d.parse("cfg/main.txt",&s); const Bsdf* b=MtlLib.get("d"); for(double u:{0.25,0.75}) for(double v:{0.25,0.75}) { bool sure=true,vis=visible(m,u,v,sure); std::string w=b?differ(b,MtlLib.get(vis?"A":"C"),{{u,v}},false):"missing"; if(!w.empty()) BAD("wrong dual material","%s at uv %g %g: %s",t.c_str(),u,v,w.c_str()); } delete x; }); judge_end(e,t,false); vt::seen(vt::hash(t.data(),t.size())); }
    }
    // lights
    if(vt::begin("temperatures")) for(int k:{0,1,1000,1850,2700,4000,5500,6500,9300,20000}) { Obj o; o.shape="Sphere"; o.a=place(d3(0,0,0),d3(0,0,0),d3(1,1,1)); o.light=true; o.em=Spectrum(k); scene_case("light:{name:'Sphere' temperature:"+std::to_string(k)+"}",{o},3); scene_case("light:{name:'Sphere' color:[1,2,3] temperature:"+std::to_string(k)+"}",{o},3); }
    if(vt::begin("colours of lights")) { struct C { const char* t; int r,g,b; }; for(const C& c:{C{"[255,0,0]",255,0,0},C{"[12,200,77]",12,200,77},C{"[0,0,0]",0,0,0},C{"[300,-5,128]",255,0,128}}) { Obj o; o.shape="Sphere"; o.a=place(d3(0,0,0),d3(0,0,0),d3(1,1,1)); o.light=true; o.em=Spectrum(C3(c.r,c.g,c.b),true); scene_case(std::string("light:{name:'Sphere' color:")+c.t+"}",{o},3); Obj n=o; n.em=Spectrum(C3(255,255,255),true); n.a=place(d3(9,0,0),d3(0,0,0),d3(1,1,1)); scene_case(std::string("light:{name:'Sphere' color:")+c.t+"} light:{name:'Sphere' position:[9,0,0]}",{o,n},3); } }
    // what a missing thing does
    struct Miss { const char* t; bool light; }; for(const char* a:{"world:{name:'Nothing'}","light:{name:'Nothing' color:[1,2,3]}","shape:'none.obj'","shape:'text.txt'","shape:'bad.obj'","world:{name:'two.obj'}","world:{name:'sphere'}"}) for(int before=0;before<2;before++) if(vt::begin("%s %s a sphere",a,before?"before":"after")) { Obj o; o.shape="Sphere"; o.a=place(d3(3,0,0),d3(0,0,0),d3(1,1,1)); std::string w="world:{name:'Sphere' position:[3,0,0]}"; scene_case(before?a+(" "+w):w+" "+a,{o},3,true); }
    // materials of the faces and overriding ones
    std::vector<std::pair<std::string,std::string>> ov={{"",""},{"material:'A'","A"},{"material:'D'","D"},{"material:'missing'","missing"},{"material:'Default'","Default"}};
    for(auto& o:ov) for(int d=0;d<4;d++) if(vt::begin("materials of faces, override %s, definitions %d",o.first.c_str(),d)) for(const char* sh:{"Two","Tri","Sphere","Block"}) { std::string t="shape:'rest.obj' shape:'two.obj' "; if(d&1) t+=MATS; if(d&2) t+="dualmaterial:{name:'D' first:'A' second:'nope'}"; t+="world:{name:'"+std::string(sh)+"' scale:2 "+o.first+"}"; Obj b; b.shape=sh; b.a=place(d3(0,0,0),d3(0,0,0),d3(2,2,2)); b.over=o.second; scene_case(t,{b},6); }
    // several shapes, in every order of the whole file, with parts of it in a child
    std::vector<std::string> st={"shape:'two.obj'","shape:'rest.obj'","texture:{name:'H' src:'half.tga'}",MATS,"dualmaterial:{name:'D' first:'B' second:'C' mask:'H' using channel R}","world:{name:'Two' position:[0,0,5] rotation:[0,30,0] scale:3 mask:'H' using channel B}","light:{name:'Block' position:[6,1,0] scale:[1,2,1] color:[10,20,200]}","world:{name:'Sphere' position:[-5,0,0] material:'D'} world:{name:'Block' position:[0,-6,1] rotation:[45,0,0]} light:{name:'Sphere' position:[1,9,2] temperature:3000}"};
    std::vector<Obj> all(5); all[0].shape="Two"; all[0].a=place(d3(0,0,5),d3(0,30,0),d3(3,3,3)); all[0].m.on=true; all[0].m.ch=2; all[1].shape="Block"; all[1].a=place(d3(6,1,0),d3(0,0,0),d3(1,2,1)); all[1].light=true; all[1].em=Spectrum(C3(10,20,200),true); all[2].shape="Sphere"; all[2].over="D"; all[2].a=place(d3(-5,0,0),d3(0,0,0),d3(1,1,1)); all[3].shape="Block"; all[3].a=place(d3(0,-6,1),d3(45,0,0),d3(1,1,1)); all[4].shape="Sphere"; all[4].light=true; all[4].em=Spectrum(3000); all[4].a=place(d3(1,9,2),d3(0,0,0),d3(1,1,1));
    std::vector<int> o; for(size_t i=0;i<st.size();i++) o.push_back(i); long n=0; do { n++; if(n%(T?5:31)) continue; char os[20]; int q=0; for(int i:o) os[q++]='0'+i; os[q]=0; if(!vt::begin("whole scene, order %s",os)) continue; std::string t,c; int cut=(int)(n%9); for(size_t i=0;i<o.size();i++) (((int)i<cut&&n%2)?c:t)+=st[o[i]]+"\n"; if(!c.empty()) { put("cfg/child.txt",c); t=n%3?t+"material:'child.txt'":"material:'child.txt' "+t; } scene_case(t,all,3); } while(std::next_permutation(o.begin(),o.end()));
    // shapes of the same name: the first one stays
    if(vt::begin("shapes of the same name")) for(int f=0;f<2;f++) { auto keep=shapes_["Two"]; if(f) shapes_["Two"]=quad3(-2,0,-1,3,1,"",""); Obj b; b.shape="Two"; b.a=place(d3(0,0,0),d3(0,0,0),d3(1,1,1)); Obj b2=b; b2.a=place(d3(0,0,4),d3(0,0,0),d3(1,1,1)); scene_case(std::string(f?"shape:'dup.obj' shape:'two.obj' ":"shape:'two.obj' shape:'dup.obj' ")+MATS+" world:{name:'Two'} world:{name:'Two' position:[0,0,4]}",{b,b2},6); shapes_["Two"]=keep; }
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough(); mkdir("cfg",0700); mkdir("cfg/a",0700); mkdir("cfg/b",0700);
    // pictures
    auto pic=[&](const char* f,int k,int side) { Img i; i.w=i.h=side; i.p.resize(side*side); for(int y=0;y<side;y++) for(int x=0;x<side;x++) i.p[y*side+x]=pix((x*29+k*61)&255,(y*37+k*113)&255,(x*y*11+k*17)&255); spit(f,tga_enc(i,24,false,0)); };
    pic("cfg/t1.tga",1,8); pic("cfg/t1copy.tga",1,8); pic("cfg/t2.tga",2,8); pic("up.tga",3,4); pic("cfg/odd.tga",4,6); for(int k=0;k<2;k++) { Img i; i.w=i.h=8; i.p.resize(64); for(int y=0;y<8;y++) for(int x=0;x<8;x++) i.p[y*8+x]=pix(k?x*30:250-x*30,k?40:y*20,k?y*31:90); spit(k?"cfg/b/t3.bmp":"cfg/a/t3.bmp",bmp_enc(i,24,false)); }
    { Img i; i.w=i.h=8; i.p.resize(64); for(int y=0;y<8;y++) for(int x=0;x<8;x++) i.p[y*8+x]=pix(x<4?255:0,y<4?128:127,x<4?100:160,y<4?0:255); spit("cfg/half.tga",tga_enc(i,32,false,0)); for(int y=0;y<8;y++) for(int x=0;x<8;x++) i.p[y*8+x]=pix(128+x*9-30,128+y*8-20,235); spit("cfg/nm.tga",tga_enc(i,24,false,0)); }
    put("cfg/text.txt","this is no picture"); put("cfg/bad.obj","f 1 2 3\n");
    // shapes
    shapes_["Two"]=quad3(-1,1,-1,1,0,"A","B"); { Tri3 t; t.p[0]=d3(0,0,0); t.p[1]=d3(1.5,0,0.3); t.p[2]=d3(0,1,-0.4); t.uv[0][0]=t.uv[0][1]=0; t.uv[1][0]=1; t.uv[1][1]=0; t.uv[2][0]=0; t.uv[2][1]=1; t.mat=""; shapes_["Tri"]={t}; }
    { std::vector<Tri3> b; const char* ms[]={"A","nowhere","B","A","C",""}; for(int f=0;f<6;f++) { int a=f/2,s=f&1?1:-1; D3 n=d3(a==0?s:0,a==1?s:0,a==2?s:0),u=d3(a==1,a==2,a==0)*0.8,v=crs(n,u); D3 q[4]={n*0.8-u-v,n*0.8+u-v,n*0.8+u+v,n*0.8-u+v}; Tri3 t; for(int k=0;k<3;k++) { t.p[k]=q[k]; t.uv[k][0]=k==1||k==2; t.uv[k][1]=k==2; } t.mat=ms[f]; b.push_back(t); t.p[1]=q[2]; t.p[2]=q[3]; t.uv[1][0]=1; t.uv[1][1]=1; t.uv[2][0]=0; t.uv[2][1]=1; b.push_back(t); } shapes_["Block"]=b; }
    { int n=1; put("cfg/two.obj",obj_text("Two",shapes_["Two"],n)); n=1; auto b=shapes_["Block"]; std::string x=obj_text("Tri",shapes_["Tri"],n); for(auto& t:b) if(t.mat.empty()) t.mat="Default"; put("cfg/rest.obj",x+obj_text("Block",b,n)); n=1; put("cfg/dup.obj",obj_text("Two",quad3(-2,0,-1,3,1,"",""),n)); }
    materials(T); textures(T); placed(T);
    return vt::finish();
}
