// OBJ files against an independent reader: the meshes of the file, their names,
// faces, normals, texture coordinates and materials, whatever the layout, the
// position of the read buffer and what is broken.
#include "cfg_util.hpp"
#include "parsers/parser_obj.hpp"
#include "materials/single_brdf.hpp"
#include "materials/lambertian.hpp"
#include <sstream>
#include <algorithm>
typedef std::string S;
struct RT { Vertex v[3]; };
struct RM { S name; std::vector<RT> t; std::vector<const Bsdf*> m; };
static const Bsdf* lib(const S& n) { return MtlLib.contains(n)?MtlLib.get(n):MtlLib.get_default(); }
// the reference: whole file in memory, one statement per line, words apart
struct Bad {};
static std::vector<RM> read_ref(const S& text)
{
    std::vector<RM> r; RM cur; cur.name=""; bool named=false,groups=false; const Bsdf* mat=MtlLib.get_default();
    std::vector<Point3> v; std::vector<Point2> vt; std::vector<Normal> vn; std::istringstream is(text); S line;
    auto close=[&]() { if(!cur.t.empty()) { if(!named) cur.name="Unnamed"; r.push_back(cur); cur=RM(); mat=MtlLib.get_default(); } };
    while(std::getline(is,line))
    {
        line=line.substr(0,line.find('#')); std::istringstream ls(line); S k; if(!(ls>>k)) continue;
        std::vector<S> w; S x; while(ls>>x) w.push_back(x); auto num=[&](size_t i) { return i<w.size()?strtof(w[i].c_str(),NULL):0.f; };
        if(k=="v") v.push_back(Point3(num(0),num(1),num(2)));
        else if(k=="vt") vt.push_back(Point2(num(0),num(1)));
        else if(k=="vn") vn.push_back(Normal(num(0),num(1),num(2)));
        else if(k=="usemtl") mat=lib(w.at(0));
        else if(k=="o"||k=="g")
        {
            if(k=="g"&&named&&!groups) continue;
            if(k=="g") groups=true;
            close(); cur.name=w.at(0); named=true;
        }
        else if(k=="f")
        {
            std::vector<Vertex> f; bool not_t=false,not_n=false;
            for(auto& c:w)
            {
                long id[3]={0,0,0}; size_t p=0; for(int i=0;i<3;i++) { size_t q=c.find('/',p); S part=c.substr(p,q==S::npos?S::npos:q-p); id[i]=part.empty()?0:atol(part.c_str()); if(q==S::npos) break; p=q+1; }
                long n[3]={(long)v.size(),(long)vt.size(),(long)vn.size()}; for(int i=0;i<3;i++) if(id[i]<0) { id[i]+=n[i]+1; if(id[i]<=0) throw Bad(); } else if(id[i]>n[i]) throw Bad();
                if(!id[0]) throw Bad(); Vertex ve; ve.p=v[id[0]-1]; if(id[1]) ve.t=vt[id[1]-1]; else not_t=true; if(id[2]) ve.n=vn[id[2]-1]; else not_n=true; f.push_back(ve);
            }
            if(f.size()<3) throw Bad();
            if(not_n)
            {
                double n[3]={0,0,0}; for(size_t i=0;i<f.size();i++) { const Point3& a=f[i].p; const Point3& b=f[(i+1)%f.size()].p; n[0]+=((double)a.y-b.y)*((double)a.z+b.z); n[1]+=((double)a.z-b.z)*((double)a.x+b.x); n[2]+=((double)a.x-b.x)*((double)a.y+b.y); }
                double l=sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]); if(l>0) for(auto& q:n) q/=l; for(auto& q:f) q.n=Normal(n[0],n[1],n[2]);
            }
            for(size_t i=2;i<f.size();i++) { RT t; t.v[0]=f[0]; t.v[1]=f[i-1]; t.v[2]=f[i]; if(not_t) { t.v[0].t=Point2(0,0); t.v[1].t=Point2(1,0); t.v[2].t=Point2(1,1); } cur.t.push_back(t); cur.m.push_back(mat); }
        }
    }
    close(); return r;
}
static bool close_to(float a,float b,float e=2e-4f) { return std::fabs(a-b)<=e*(1+std::fabs(b)); }
static void same(Problems& p,const Mesh& m,const std::vector<const Bsdf*>& mats,const RM& r)
{
    Mesh q(1); for(auto& t:r.t) q.add_triangle(&t.v[0],&t.v[1],&t.v[2]); q.finalize();
    std::vector<Ray> rays; float lo[3]={1e9f,1e9f,1e9f},hi[3]={-1e9f,-1e9f,-1e9f};
    for(auto& t:r.t) for(auto& v:t.v) for(int a=0;a<3;a++) { lo[a]=std::min(lo[a],v.p[a]); hi[a]=std::max(hi[a],v.p[a]); }
    Point3 mid((lo[0]+hi[0])/2,(lo[1]+hi[1])/2,(lo[2]+hi[2])/2);
    for(auto& t:r.t)
    {
        Vec3 n=cross(t.v[1].p-t.v[0].p,t.v[2].p-t.v[0].p); if(!(n.length()>1e-6f)) continue; n.normalize();
        const float w[2][3]={{0.41f,0.27f,0.32f},{0.12f,0.67f,0.21f}};
        for(int k=0;k<2;k++) { Point3 c(0,0,0); for(int a=0;a<3;a++) c[a]=w[k][0]*t.v[0].p[a]+w[k][1]*t.v[1].p[a]+w[k][2]*t.v[2].p[a];
            for(int s=-1;s<=1;s+=2) { Vec3 d=n; d.x*=-s; d.y*=-s; d.z*=-s; Point3 o(c.x+n.x*s*3.1f+0.07f,c.y+n.y*s*3.1f+0.05f,c.z+n.z*s*3.1f-0.06f); d=Vec3(c.x-o.x,c.y-o.y,c.z-o.z); d.normalize(); rays.push_back(Ray(o,d)); } }
    }
    const float dirs[][3]={{0.57f,0.31f,0.77f},{-0.41f,0.8f,0.23f},{0.21f,-0.7f,-0.6f}}; for(auto& d:dirs) { Vec3 v(d[0],d[1],d[2]); v.normalize(); rays.push_back(Ray(Point3(mid.x-v.x*9,mid.y-v.y*9,mid.z-v.z*9),v)); }
    uint64_t h=vt::mix(0,r.t.size());
    for(size_t i=0;i<rays.size();i++)
    {
        float da=1e30f,db=1e30f; HitPoint a,b; MaskBoolean nm; Ray ra=rays[i],rb=rays[i]; bool x=m.intersect(&ra,&da,&a,&nm),y=q.intersect(&rb,&db,&b,&nm);
        char t[300];
        if(x!=y||(x&&!close_to(da,db))) { snprintf(t,300,"mesh %s, ray %zu: %s at %g, the file says %s at %g",r.name.c_str(),i,x?"hit":"no hit",da,y?"hit":"no hit",db); p.push_back({"wrong shape",t}); return; }
        if(!x) continue;
        h=vt::mix(h,(uint64_t)(int64_t)(db*1000));
        if(!close_to(a.uv.x,b.uv.x)||!close_to(a.uv.y,b.uv.y)) { snprintf(t,300,"mesh %s, ray %zu: (%g,%g) instead of (%g,%g)",r.name.c_str(),i,a.uv.x,a.uv.y,b.uv.x,b.uv.y); p.push_back({"wrong texture coordinates",t}); return; }
        float l=b.normal_h.x*b.normal_h.x+b.normal_h.y*b.normal_h.y+b.normal_h.z*b.normal_h.z;
        if(l>0.5f&&(!close_to(a.normal_h.x,b.normal_h.x,1e-3f)||!close_to(a.normal_h.y,b.normal_h.y,1e-3f)||!close_to(a.normal_h.z,b.normal_h.z,1e-3f))) { snprintf(t,300,"mesh %s, ray %zu: (%g,%g,%g) instead of (%g,%g,%g)",r.name.c_str(),i,a.normal_h.x,a.normal_h.y,a.normal_h.z,b.normal_h.x,b.normal_h.y,b.normal_h.z); p.push_back({"wrong normal",t}); return; }
        if(a.index>=mats.size()||b.index>=r.m.size()) { p.push_back({"wrong face index",r.name}); return; }
        if(mats[a.index]!=r.m[b.index]) { snprintf(t,300,"mesh %s, ray %zu, face %u of %zu",r.name.c_str(),i,(unsigned)a.index,r.m.size()); p.push_back({"wrong material",t}); return; }
    }
    vt::seen(h);
}
struct Parsed { std::unique_ptr<Mesh> m; S name; std::vector<const Bsdf*> mats; int distinct; unsigned faces; };
// everything the parser returns for the opened file; limit guards against endless files
static std::vector<Parsed> take(ParserObj& ps,size_t limit,Problems& p)
{
    std::vector<Parsed> r;
    while(true)
    {
        Parsed q; q.m.reset(new Mesh(1)); if(!ps.get_next_mesh(q.m.get())) break;
        q.name=ps.get_mesh_name(); q.faces=ps.get_face_no(); int n=ps.get_material_no(); q.distinct=n; std::unique_ptr<const Bsdf*[]> ms(new const Bsdf*[n]); std::unique_ptr<unsigned char[]> as(new unsigned char[q.faces]);
        ps.get_materials(ms.get()); ps.get_material_association(as.get());
        for(unsigned i=0;i<q.faces;i++) { if(as[i]>=n) { p.push_back({"material beyond the list",q.name}); q.mats.push_back(NULL); } else q.mats.push_back(ms[as[i]]); }
        r.push_back(std::move(q)); if(r.size()>limit) { p.push_back({"more meshes than the file has",""}); break; }
    }
    return r;
}
static void judge(Problems& p,const std::vector<Parsed>& got,const std::vector<RM>& want,bool whole=true)
{
    char t[300];
    for(size_t i=0;i<want.size()&&i<got.size();i++)
    {
        if(got[i].name!=want[i].name) { p.push_back({"wrong mesh name",got[i].name+" instead of "+want[i].name}); return; }
        if(got[i].faces!=want[i].t.size()||(unsigned)got[i].m->get_faces_number()!=got[i].faces) { snprintf(t,300,"%s: %u faces reported, %d in the mesh, %zu in the file",want[i].name.c_str(),got[i].faces,got[i].m->get_faces_number(),want[i].t.size()); p.push_back({"wrong number of faces",t}); return; }
        std::vector<const Bsdf*> u(want[i].m); std::sort(u.begin(),u.end()); u.erase(std::unique(u.begin(),u.end()),u.end()); if((int)u.size()!=got[i].distinct) { snprintf(t,300,"%d instead of %zu",got[i].distinct,u.size()); p.push_back({"wrong number of materials",t}); return; }
        same(p,*got[i].m,got[i].mats,want[i]); if(!p.empty()) return;
    }
    if(whole&&got.size()!=want.size()) { snprintf(t,300,"%zu meshes instead of %zu",got.size(),want.size()); p.push_back({"wrong number of meshes",t}); }
}
static int serial=0;
static S dump(const S& t) { S r; for(char c:t.size()>260?t.substr(0,120)+" ... "+t.substr(t.size()-120):t) r+=c=='\n'?S(" | "):c=='\r'?S("\\r"):c=='\t'?S("\\t"):S(1,c); return r; }
static S cur_what;
static void valid(const S& text,const S& canonical)
{
    vt::beat(); vt::count("evaluations"); vt::detail("%s",dump(text).c_str());
    put("m.obj",text); Problems p; ParserObj ps; ps.start_parsing("m.obj"); auto got=take(ps,50,p); ps.end_parsing();
    std::vector<RM> want=read_ref(canonical); if(p.empty()) judge(p,got,want);
    for(auto& q:p) vt::fail(q.first.c_str(),"%s: %s",q.second.c_str(),dump(text).c_str());
}
static void valid(const S& text) { valid(text,text); }
static const S PRE="v 0 0 0\nv 1 0 0.1\nv 1.1 1 -0.2\nv 0 1.2 0.4\nv 0.4 0.5 1.3\nvt 0.1 0.2\nvt 0.9 0.3\nvt 0.6 0.8\nvn 0 0 1\nvn 0 0.6 0.8\nvn 1 0 0\n";
static const S RICH=S("# comment\nmtllib any.mtl\n")+PRE+"g first\nusemtl Red\ns off\nf 1//1 2//2 3//3\nf 1/1/1 2/2/2 3/3/3 4/1/1\nusemtl Nowhere\nf 1 2 5\nf -5/-3/-3 -4/-2/-2 -1/-1/-1\ng second\nv 2.5 -1e-1 .25\nvt -0.5 1.75\nusemtl Green\nf 6/4 2/2 3/3\nusemtl Blue\nf 1 2 3 4 5\nusemtl Green\nf -1//-1 -2//-2 -3//-1\ng third\nusemtl Red\nf 6 5 4\n";
static std::vector<S> words(const S& l) { std::vector<S> w; std::istringstream is(l); S x; while(is>>x) w.push_back(x); return w; }
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough();
    for(auto n:{"Red","Green","Blue"}) MtlLib.add_inherit(n,new SingleBRDF(new Lambertian()));
    for(int i=0;i<300;i++) MtlLib.add_inherit("M"+std::to_string(i),new SingleBRDF(new Lambertian()));
    if(!freopen("/dev/null","w",stdout)) return 1; if(!freopen("/dev/null","w",stderr)) return 1;
    // 1. every sequence of statements
    {
        std::vector<S> a={"f 1 2 3","f 2/1 3/2 5/3","f 4//1 3//2 5//3","f 1/1/1 2/2/2 5/3/3","f -1 -2 -3","f -3/-1/-1 -2/-2/-2 -1/-3/-3","f 1 2 3 4","f 1/1/1 5/2/2 3/3/3 4/1/2","o A","o B","g G","usemtl Red","usemtl Green","usemtl Nowhere","v 0.3 -0.8 0.6","vt 0.45 0.55\nvn 0 1 0","# f 1 2 3\ns off\nvp 0.31 0.22 0.13\nl 1 2\nusemap Red\nvp 1"};
        size_t n=a.size(); int D=T?5:4; size_t tot=1; for(int i=0;i<D;i++) tot*=n;
        for(size_t first=0;first<n*n;first++) if(vt::begin("statements '%s', '%s' and all that follow",a[first%n].c_str(),a[first/n].c_str()))
            for(size_t r=0;r<tot/(n*n);r++)
            {
                S t=PRE+"usemtl Blue\nf 1 2 4\n"; bool open=true,skip=false,namedq=false; size_t k=first+r*n*n; std::vector<S> st; for(int i=0;i<D;i++) { st.push_back(a[k%n]); k/=n; }
                // a name that follows faces without one is not judged, nor is a material kept over a name
                bool lead=st[0][0]=='o'||st[0][0]=='g'; if(lead) t=PRE; 
                for(int i=0;i<D;i++)
                {
                    char c=st[i][0];
                    if(c=='f') { if(i==0||!open) t+=""; }
                    bool nm=c=='o'||c=='g';
                    if(nm&&!lead&&!namedq) skip=true; if(nm) namedq=true;
                    t+=st[i]+"\n"; (void)open;
                    if(nm&&i+1<D&&st[i+1].substr(0,6)!="usemtl") t+="usemtl Default\n";
                }
                if(!skip) valid(t);
            }
    }
    // 2. layouts
    {
        std::vector<S> sep={" ","  ","\t"," \t "}, lead={""," ","\t"}, trail={""," ","\t"," # note"}, nl={"\n","\r\n","\n\n","\r\n\r\n"};
        for(auto& s:sep) for(auto& l:lead) for(auto& t:trail) for(auto& n:nl) for(int last=0;last<3;last++) if(vt::begin("layout of separator %zu, lead %zu, trail %zu, line end %zu, end %d",&s-&sep[0],&l-&lead[0],&t-&trail[0],&n-&nl[0],last))
            for(int which=0;which<3;which++)
            {
                S x; std::istringstream is(which==0?RICH:which==1?PRE+"f 1 2 3\n":"o Only\n"+PRE+"usemtl Red\nf 1//1 2//1 3//1 4//2\nl 1 2\n"); S canon=is.str(), line; bool firstl=true;
                while(std::getline(is,line)) { if(!firstl) x+=n; firstl=false; auto w=words(line); x+=l; for(size_t i=0;i<w.size();i++) x+=(i?s:"")+w[i]; x+=t; }
                if(last==0) x+=n; if(last==2) x+="\n# the end"; valid(x,canon);
            }
        std::vector<S> ones={"1","1.0","+1",".1E1","1e0","10E-1","01.","1.00000000000000000000000000000"}; 
        for(auto& x:ones) for(auto& y:ones) for(auto& z:ones) if(vt::begin("numbers %s %s %s",x.c_str(),y.c_str(),z.c_str()))
            valid("v 0 0 0\nv "+x+" 0 -"+(y[0]=='+'?y.substr(1):y)+"\nv 0 "+z+" .5\nvt 0 "+x+"\nvt "+y+" 0\nvt 1 1\nf 1/1 2/2 3/3\n","v 0 0 0\nv 1 0 -1\nv 0 1 .5\nvt 0 1\nvt 1 0\nvt 1 1\nf 1/1 2/2 3/3\n");
        if(vt::begin("optional components")) { valid("v 0 0 0 1.0\nv 1 0 0 0.5\nv 0 1 0 1\nvt 0.25\nvt 0.5 0.5 0\nvt 0.75 1 0\nf 1/1 2/2 3/3\n","v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0.25 0\nvt 0.5 0.5\nvt 0.75 1\nf 1/1 2/2 3/3\n"); valid("v 0 0 0 0.2 0.3 0.4\nv 1 0 0 1 1 1\nv 0 1 0 0 0 0\nf 1 2 3\n","v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"); }
        for(int n=3;n<=(T?64:24);n++) for(int al=0;al<3;al++) for(int mode=0;mode<4;mode++) if(vt::begin("polygon with %d corners, %d aligned ones first, parts %d",n,al,mode))
        {
            std::vector<std::pair<double,double>> c; for(int i=0;i<al;i++) c.push_back({(double)i/(al+1),0}); int k=n-al; if(k<2) { continue; } for(int i=0;i<k;i++) { double an=M_PI*i/(k-1>0?k-1:1); c.push_back({0.2+0.8*cos(an)*1.0,0.01+sin(an)}); }
            S t,f="f"; for(size_t i=0;i<c.size();i++) { char b[100]; snprintf(b,100,"v %.4f %.4f %.4f\nvt %.3f %.3f\nvn 0 %.3f %.3f\n",c[i].first,c[i].second,al?0.:0.3*c[i].second,i*0.1,1-i*0.05,sin(0.1*i),cos(0.1*i)); t+=b; S j=std::to_string(i+1); f+=" "+(mode==0?j:mode==1?j+"/"+j:mode==2?j+"//"+j:j+"/"+j+"/"+j); }
            valid(t+f+"\n");
        }
    }
    // 3. where the read buffer ends
    {
        int N=T?9000:4300;
        for(int b=0;b<N;b+=50) if(vt::begin("%d to %d bytes before the statements",b,b+49)) for(int k=b;k<b+50;k++)
        {
            valid("#"+S(k,'x')+"\n"+RICH,RICH);
            if(T||k%5==0) { S head=S("usemtl ")+S(k%1400,'y')+"\n", x=RICH; x.erase(x.size()-1); valid(head+RICH,RICH); valid("#"+S(k,'x')+"\n"+x,RICH); }
        }
        for(int k=0;k<(T?60:20);k++) if(vt::begin("long file %d",k)) { S t=PRE; for(int i=0;i<900+k;i++) t+="#"+S((i*7+k)%23,'z')+"\n"+(i%90==0?"o N"+std::to_string(i)+"\n":S(""))+"f 1/1/1 "+(i%2?"2/2/2":"4/2/2")+" 5/3/3\n"; valid(t); }
    }
    // 4. many objects, materials and faces
    for(int n=1;n<=(T?60:30);n++) if(vt::begin("%d objects",n)) for(int kind=0;kind<4;kind++)
    {
        S t; for(int i=0;i<n;i++) { char b[300]; if(kind%2&&i%3==1) t+="o nothing"+std::to_string(i)+"\n"; snprintf(b,300,"%c part%d\nv %d 0 0\nv %d.7 0 0.1\nv %d 0.9 0\nusemtl M%d\nf %d %d %d\nf -1 -2 -3\n",kind<2?'o':'g',i,i,i,i,(i*7)%300,3*i+1,3*i+2,3*i+3); t+=b; } if(kind==3) t+="g last\n"; valid(t);
    }
    for(int n=1;n<=300;n+=(n<250?(T?1:10):1)) if(vt::begin("%d materials in one object",n))
    {
        for(int order=0;order<2;order++) { S t="o big\n"; for(int i=0;i<n;i++) { char b[200]; snprintf(b,200,"v %d 0 0\nv %d.7 0 0.1\nv %d 0.9 0\nusemtl M%d\nf -1 -2 -3\n",i,i,i,order?n-1-i:i); t+=b; }
        if(n<=254) valid(t); else { put("m.obj",t); Problems p; ParserObj ps; ps.start_parsing("m.obj"); auto got=take(ps,5,p); vt::count("evaluations"); auto want=read_ref(t);
            if(got.size()!=1||got[0].faces!=(unsigned)n) vt::fail("wrong number of faces","%d materials",n); else { int wrong=0; for(auto& c:got[0].mats) if(!c) wrong++; if(wrong) vt::fail("face without material","%d of %d",wrong,n);
                // which faces keep their own material is open beyond the limit, but none may get that of another one
                const Bsdf* d=MtlLib.get_default(); std::vector<const Bsdf*> g(got[0].mats),w(want[0].m); size_t bad=0; for(auto c:g) { if(c==d) continue; auto f=std::find(w.begin(),w.end(),c); if(f==w.end()) bad++; else w.erase(f); } if(bad) vt::fail("material of another face","%d materials: %zu faces",n,bad); } } }
    }
    // 5. one parser for several files
    {
        std::vector<S> fs={RICH,PRE+"f 1 2 3\n",PRE+"o X\nf 1/1/1 2/2/2 3/3/3\no Y\nf 2 3 4\n","v 0 0 0\nv 1 0 0\nv 0 1 0\nf -1 -2 -3\n","","# nothing\n"};
        for(size_t i=0;i<fs.size();i++) for(size_t j=0;j<fs.size();j++) for(int upto=0;upto<4;upto++) for(int named=0;named<2;named++) if(vt::begin("file %zu after %d meshes of file %zu, %d",j,upto,i,named))
        {
            vt::count("evaluations"); put("a.obj",fs[i]); put("b.obj",fs[j]); Problems p; ParserObj ps; ps.start_parsing("a.obj"); std::vector<Parsed> first; 
            if(upto==3) first=take(ps,9,p); else for(int u=0;u<upto;u++) { Mesh m(1); ps.get_next_mesh(&m); }
            ps.end_parsing(); if(named) { ps.start_parsing("missing.obj"); auto none=take(ps,9,p); if(!none.empty()) vt::fail("meshes from a missing file",""); ps.end_parsing(); }
            ps.start_parsing("b.obj"); auto got=take(ps,9,p); ps.end_parsing(); if(p.empty()) judge(p,got,read_ref(fs[j])); for(auto& q:p) vt::fail(q.first.c_str(),"second file: %s",q.second.c_str());
            int open0=vt::open_files(); { // a parser abandoned in the middle, and one set on the second file without being told that the first one is over
                ParserObj z; z.start_parsing("a.obj"); for(int u=0;u<upto;u++) { Mesh m(1); z.get_next_mesh(&m); } z.start_parsing("b.obj"); Problems p3; auto g3=take(z,9,p3); if(p3.empty()) judge(p3,g3,read_ref(fs[j])); for(auto& q:p3) vt::fail(q.first.c_str(),"file of an abandoned one: %s",q.second.c_str()); }
            int open1=vt::open_files(); if(open1!=open0) vt::fail("OBJ file left open","%d more files open after a parser is gone",open1-open0);
            ParserObj x,y; x.start_parsing("a.obj"); y.start_parsing("b.obj"); Problems p2; auto g1=take(x,9,p2); auto g2=take(y,9,p2); if(p2.empty()) { judge(p2,g1,read_ref(fs[i])); judge(p2,g2,read_ref(fs[j])); } for(auto& q:p2) vt::fail(q.first.c_str(),"two parsers: %s",q.second.c_str());
        }
    }
    // 6. broken files
    {
        const S base=RICH; int bytes[]={0,7,'\n','\r',' ','\t','/','#','-','0','9','f','v','o','g','u','.',200,255};
        auto safe=[&](const S& t) { vt::beat(); vt::count("evaluations"); vt::detail("%s",dump(t).c_str()); put("m.obj",t); Problems p; ParserObj ps; ps.start_parsing("m.obj"); auto got=take(ps,60,p); ps.end_parsing(); for(auto& q:p) vt::fail(q.first.c_str(),"%s: %s",q.second.c_str(),dump(t).c_str()); uint64_t h=vt::mix(1,got.size()); for(auto& g:got) { h=vt::mix(h,g.faces); Ray r(Point3(0.3f,0.3f,9),Vec3(0,0,-1)); float d=1e30f; HitPoint hp; MaskBoolean nm; g.m->intersect(&r,&d,&hp,&nm); if(g.faces!=(unsigned)g.m->get_faces_number()) vt::fail("wrong number of faces","%s",dump(t).c_str()); } vt::seen(h); return got; };
        for(size_t n=0;n<=base.size();n++) if(vt::begin("file cut after %zu bytes",n)) { auto got=safe(base.substr(0,n)); // the complete lines are all there
            size_t e=base.rfind('\n',n?n-1:0); if(n&&e!=S::npos&&e+1==n) { Problems p; std::vector<RM> w=read_ref(base.substr(0,n)); judge(p,got,w); for(auto& q:p) vt::fail(q.first.c_str(),"cut after %zu bytes: %s",n,q.second.c_str()); } }
        for(size_t n=0;n<base.size();n++) if(vt::begin("byte %zu changed",n)) for(int b:bytes) { S x=base; x[n]=(char)b; safe(x); }
        std::vector<S> tk={"","1","2","3/1/1","0","6","-5","-6","9999999999","-9999999999","4294967297","-2147483648","/","//","1/","1//","1/4/1","1//4","1/-4/1","1//-9","1/1/1/1","x","1x","#"};
        for(size_t i=0;i<tk.size();i++) for(size_t j=0;j<tk.size();j++) if(vt::begin("faces of '%s' and '%s' and all others",tk[i].c_str(),tk[j].c_str())) for(size_t k=0;k<tk.size();k++) for(int l=0;l<3;l++)
        {
            S bad="f "+tk[i]+" "+tk[j]+" "+tk[k]+(l==1?" 4":l==2?" -9":"")+"\n"; auto got=safe(PRE+"o A\nf 1 2 3\no B\n"+bad+"o C\nf 2 3 4\n");
            if(got.empty()||got[0].name!="A"||got[0].faces!=1) vt::fail("object before the error lost","%s",dump(bad).c_str());
            // an index that the file does not have must not become a face
            bool allnum=true; std::vector<S> w=words(bad); for(size_t q=1;q<w.size();q++) if(w[q].find_first_not_of("-0123456789")!=S::npos) allnum=false;
            if(allnum) { bool rej=false; try { read_ref(PRE+bad); } catch(Bad&) { rej=true; } unsigned f=0; for(auto& g:got) if(g.name=="B") f=g.faces; if(rej&&f) vt::fail("face with a wrong index accepted","%s",dump(bad).c_str()); if(!rej&&!f) vt::fail("valid face refused","%s",dump(bad).c_str()); }
        }
        const char* st[]={"f","f ","f 1","f 1 2","f\t","v","v 1","vt","vn","o","g","usemtl","o \n","v a b c","v 1e99 nan inf","usemtl \t","f 1 1 1","f 1 2 1 2","x","\\","v 1 2 3 \\\n4","f 1 2 3 \\"};
        for(auto a:st) for(auto b:st) for(int k=0;k<3;k++) if(vt::begin("statements '%s' and '%s', end %d",a,b,k)) safe((k==2?S(""):PRE)+a+"\n"+b+(k?"":"\nf 1 2 3\n"));
        for(int n=200;n<600;n+=(T?1:7)) if(vt::begin("words of %d letters",n)) { S w(n,'a'); safe(PRE+"o "+w+"\nusemtl "+w+"\nf 1 2 3\nf "+S(n,'1')+" 2 3\n"); safe("o "+w+"\n"+w+" 1\nv "+S(n,'7')+" 1 2\n"); }
    }
    return vt::finish();
}
