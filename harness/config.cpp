// The configuration file: every setting, every order, layout and spelling of
// the entries, children files, and damaged files.
#define CFG_WRAP
#include "cfg_util.hpp"
#include <algorithm>
struct Want
{
    std::string out="out.ppm"; int w=800,h=600,spp=121,sampler=SPECTRE_SAMPLER_STRATIFIED;
    int cam=0; float pos[3]={0,0,0},tar[3]={0,0,1},up[3]={0,1,0},fov=55; // 0 perspective 1 orthographic 2 panorama
    int fil=3; float v0=0.33f,v1=0.33f; // 0 box 1 tent 2 gauss 3 mitchell 4 lanczos
};
// documented adjustments: width up to a multiple of 32 keeping the aspect ratio (height even), stratified counts to the nearest square
static void adjust(Want& w)
{
    if(w.w%32) { double a=(double)w.w/w.h; int d=32-w.w%32; w.w+=d; w.h+=(int)(d/a); if(w.h%2) w.h++; }
    if(w.sampler==SPECTRE_SAMPLER_STRATIFIED) { int best=1; for(int i=1;i<=2000;i++) if(std::fabs(std::sqrt((double)w.spp)-i)<std::fabs(std::sqrt((double)w.spp)-best)) best=i; w.spp=best*best; }
}
static Camera* ref_cam(const Want& w)
{
    Point3 p(w.pos[0],w.pos[1],w.pos[2]),t(w.tar[0],w.tar[1],w.tar[2]); Vec3 u(w.up[0],w.up[1],w.up[2]);
    if(w.cam==1) return new CameraOrthographic(&p,&t,&u,w.w,w.h);
    if(w.cam==2) return new Camera360(&p,&t,&u,w.w,w.h);
    return new CameraPerspective(&p,&t,&u,w.w,w.h,radians(w.fov));
}
static Filter* ref_fil(const Want& w)
{
    switch(w.fil) { case 0: return new FilterBox(); case 1: return new FilterTent(); case 2: return new FilterGaussian(w.v0); case 4: return new FilterLanczos(w.v0); default: return new FilterMitchell(w.v0,w.v1); }
}
#define BAD(k,...) do { char b_[600]; snprintf(b_,600,__VA_ARGS__); p.push_back({k,b_}); } while(0)
static void compare(Want w,Problems& p,bool height_slack=false)
{
    adjust(w); const Seen& s=seen_;
    if(s.w!=w.w||std::abs(s.h-w.h)>(height_slack?2:0)) BAD("wrong resolution","%dx%d instead of %dx%d",s.w,s.h,w.w,w.h);
    w.w=s.w; w.h=s.h;
    if(s.spp!=w.spp) BAD("wrong number of samples","%d instead of %d",s.spp,w.spp);
    if(s.sampler!=w.sampler) BAD("wrong sampler","%d",s.sampler);
    std::string o=w.out; if(s.out!=o) { size_t q=s.out.rfind('/'); if(q==std::string::npos||s.out.substr(q+1)!=o) BAD("wrong output file","%s instead of %s",s.out.c_str(),o.c_str()); }
    if(!s.cam||!s.fil||!dynamic_cast<const PathTracer*>(s.in)) { BAD("renderer incomplete","no camera, filter or integrator"); return; }
    std::unique_ptr<Camera> rc(ref_cam(w)); std::unique_ptr<Filter> rf(ref_fil(w));
    for(int i=0;i<5;i++) { Sample q; q.posx=w.w*(i*0.23f+0.03f); q.posy=w.h*(0.95f-i*0.21f); Ray a,b; s.cam->create_ray(&q,&a); rc->create_ray(&q,&b); if(!same_ray(a,b)) { BAD("wrong camera","ray at %g,%g: (%g %g %g) instead of (%g %g %g)",q.posx,q.posy,a.direction.x,a.direction.y,a.direction.z,b.direction.x,b.direction.y,b.direction.z); break; } }
    if(s.fil->range_x!=rf->range_x||s.fil->range_y!=rf->range_y) BAD("wrong filter","range %g",s.fil->range_x);
    else for(int i=0;i<=8;i++) { float x=rf->range_x*i/8,y=rf->range_y*(8-i)/11; if(std::fabs(s.fil->weight(x,y)-rf->weight(x,y))>1e-5f) { BAD("wrong filter","weight %g at %g,%g instead of %g",s.fil->weight(x,y),x,y,rf->weight(x,y)); break; } }
    vt::beat();
}
static void run(const std::string& file,const Want& w,const std::string& what,bool slack=false)
{
    vt::detail("%s",what.c_str());
    ChildEnd e=in_child([&](Problems& p) { Scene s; ConfigDriver d; Renderer* r=d.parse(file,&s); if(!r) { BAD("no renderer","%s",file.c_str()); return; } if(seen_.made!=1) BAD("renderer made more than once","%d",seen_.made); compare(w,p,slack); delete r; });
    judge_end(e,what,false);
    vt::seen(vt::hash(what.data(),what.size()));
}
struct Stmt { std::string text; std::function<void(Want&)> eff; };
static std::vector<Stmt> all_stmts()
{
    std::vector<Stmt> v;
    auto S=[&](std::string t,std::function<void(Want&)> f) { v.push_back({t,f}); };
    S("out:\"pic.tga\"",[](Want& w){ w.out="pic.tga"; }); S("out:'other.bmp'",[](Want& w){ w.out="other.bmp"; });
    S("resolution:{width:64 height:48}",[](Want& w){ w.w=64; w.h=48; }); S("resolution:{height:50}",[](Want& w){ w.h=50; }); S("resolution:{width:100}",[](Want& w){ w.w=100; });
    S("spp:4",[](Want& w){ w.spp=4; }); S("spp:+50",[](Want& w){ w.spp=50; });
    S("sampler:random",[](Want& w){ w.sampler=SPECTRE_SAMPLER_RANDOM; }); S("sampler:stratified",[](Want& w){ w.sampler=SPECTRE_SAMPLER_STRATIFIED; });
    S("integrator:path",[](Want&){});
    S("filter:{type:box}",[](Want& w){ w.fil=0; }); S("filter:{type:tent}",[](Want& w){ w.fil=1; }); S("filter:{type:triangle}",[](Want& w){ w.fil=1; });
    S("filter:{type:gauss value0:2}",[](Want& w){ w.fil=2; w.v0=2; }); S("filter:{type:gaussian,value0:.5}",[](Want& w){ w.fil=2; w.v0=.5f; });
    S("filter:{type:mitchell}",[](Want& w){ w.fil=3; }); S("filter:{value0:1.0e0,value1:0}",[](Want& w){ w.v0=1; w.v1=0; }); S("filter:{type:lanczos value0:3}",[](Want& w){ w.fil=4; w.v0=3; });
    S("filter:{texture:unfiltered}",[](Want&){}); S("filter:{texture:ewa}",[](Want&){});
    S("camera:{type:orthographic}",[](Want& w){ w.cam=1; }); S("camera:{type:panorama}",[](Want& w){ w.cam=2; }); S("camera:{type:perspective}",[](Want& w){ w.cam=0; });
    S("camera:{fov:30}",[](Want& w){ w.fov=30; }); S("camera:{position:[1,-2,.5]}",[](Want& w){ w.pos[0]=1; w.pos[1]=-2; w.pos[2]=.5f; });
    S("camera:{target:[-3,1,7]}",[](Want& w){ w.tar[0]=-3; w.tar[1]=1; w.tar[2]=7; }); S("camera:{up:[1,1,0]}",[](Want& w){ w.up[0]=1; w.up[1]=1; w.up[2]=0; });
    return v;
}
static std::string perm_text(std::vector<std::string> v,const std::vector<int>& o,const std::string& sep) { std::string s; for(size_t i=0;i<o.size();i++) { if(i) s+=sep; s+=v[o[i]]; } return s; }
static void settings(bool T)
{
    auto st=all_stmts(); const char* F="cfg/main.txt";
    const std::vector<std::string> seps={"\n",",","  ","\r\n","\t, # comment: out 'x' }\n"," #\n\n"};
    // each alone, every ordered pair (the later of two that set the same thing wins), with every separator
    for(size_t a=0;a<st.size();a++)
    {
        if(!vt::begin("settings: %s alone and before every other",st[a].text.c_str())) continue;
        for(size_t s=0;s<seps.size();s++) { put(F,(s&1?seps[s]:"")+st[a].text+(s&2?seps[s]:"")); Want w; st[a].eff(w); run(F,w,st[a].text); }
        for(size_t b=0;b<st.size();b++) { put(F,st[a].text+seps[(a+b)%seps.size()]+st[b].text+"\n"); Want w; st[a].eff(w); st[b].eff(w); run(F,w,st[a].text+" then "+st[b].text); }
        vt::sample("%s",st[a].text.c_str());
    }
    if(T) for(size_t a=0;a<st.size();a++) for(size_t b=0;b<st.size();b++)
    {
        if(!vt::begin("settings: %s, %s and every other",st[a].text.c_str(),st[b].text.c_str())) continue;
        for(size_t c=0;c<st.size();c++) { put(F,st[a].text+"\n"+st[b].text+" "+st[c].text); Want w; st[a].eff(w); st[b].eff(w); st[c].eff(w); run(F,w,st[a].text+" "+st[b].text+" "+st[c].text); }
    }
    // all orders of independent entries, on the top level and within the objects
    struct Group { std::string open,close; std::vector<std::string> v; std::function<void(Want&)> eff; };
    std::vector<Group> gs={
        {"","",{"out:\"p.png\"","resolution:{width:96 height:33}","filter:{type:tent}","spp:9","camera:{type:panorama,position:[5,6,7]}"},[](Want& w){ w.out="p.png"; w.w=96; w.h=33; w.fil=1; w.spp=9; w.cam=2; w.pos[0]=5; w.pos[1]=6; w.pos[2]=7; }},
        {"","",{"sampler:random","spp:7","resolution:{width:33}","resolution:{height:99}","integrator:path"},[](Want& w){ w.sampler=SPECTRE_SAMPLER_RANDOM; w.spp=7; w.w=33; w.h=99; }},
        {"camera:{","}",{"type:perspective","position:[1,2,3]","target:[4,5,-6]","up:[0,0,1]","fov:70.5"},[](Want& w){ w.pos[0]=1; w.pos[1]=2; w.pos[2]=3; w.tar[0]=4; w.tar[1]=5; w.tar[2]=-6; w.up[1]=0; w.up[2]=1; w.fov=70.5f; }},
        {"filter:{","}",{"type:mitchell","value0:.2","value1:.4","texture:trilinear"},[](Want& w){ w.v0=.2f; w.v1=.4f; }},
        {"resolution:{","}",{"width:128","height:2"},[](Want& w){ w.w=128; w.h=2; }}};
    for(size_t g=0;g<gs.size();g++) for(size_t s=0;s<seps.size();s++)
    {
        if(!vt::begin("orders: group %d, separator %d",(int)g,(int)s)) continue;
        std::vector<int> o; for(size_t i=0;i<gs[g].v.size();i++) o.push_back(i);
        do { put(F,gs[g].open+perm_text(gs[g].v,o,seps[s])+gs[g].close); Want w; gs[g].eff(w); run(F,w,gs[g].open+perm_text(gs[g].v,o," ")+gs[g].close,true); } while(std::next_permutation(o.begin(),o.end()));
    }
    // numbers
    struct Num { const char* t; float v; }; const Num nums[]={{"1",1},{"+1",1},{"-2",-2},{"0.5",.5f},{".5",.5f},{"-.25",-.25f},{"+2.5",2.5f},{"1e1",10},{"1E+1",10},{"25e-1",2.5f},{"-1.5e0",-1.5f},{"0",0},{"-0",0},{"123456",123456},{"1e6",1e6f},{".1E-3",1e-4f},{"007",7}};
    for(auto& n:nums)
    {
        if(!vt::begin("number %s",n.t)) continue;
        for(int i=0;i<3;i++) { std::string a[3]={"3","-4","5.5"}; float f[3]={3,-4,5.5f}; a[i]=n.t; f[i]=n.v; put(F,"camera:{position:["+a[0]+","+a[1]+" , "+a[2]+"] target:[9,9,9]}"); Want w; for(int k=0;k<3;k++) { w.pos[k]=f[k]; w.tar[k]=9; } run(F,w,std::string("number ")+n.t); }
    }
    // resolutions and sample counts
    for(int w0=1;w0<=(T?400:130);w0++)
    {
        if(!vt::begin("width %d and %d samples",w0,w0)) continue;
        for(int h0:{1,2,31,32,33,100,w0,w0*2}) { put(F,"resolution:{width:"+std::to_string(w0)+" height:"+std::to_string(h0)+"}"); Want w; w.w=w0; w.h=h0; run(F,w,"resolution "+std::to_string(w0)+"x"+std::to_string(h0),true); }
        for(int smp=0;smp<2;smp++) { put(F,std::string("spp:")+std::to_string(w0)+(smp?" sampler:random":"")); Want w; w.spp=w0; if(smp) w.sampler=SPECTRE_SAMPLER_RANDOM; run(F,w,(smp?"random ":"stratified ")+std::to_string(w0)+" samples"); }
    }
    for(int big:{1000,1023,1024,1025,4096,9999,10000,65535,1000000}) { if(!vt::begin("%d samples",big)) continue; put(F,"spp:"+std::to_string(big)); Want w; w.spp=big; run(F,w,std::to_string(big)+" samples"); }
}
// settings split over the main file and its children, in every way
static void children(bool T)
{
    auto st=all_stmts(); std::string root=get_current_dir_name();
    const std::vector<std::pair<std::string,std::string>> names={{"c1.txt","cfg/c1.txt"},{"sub/c2.txt","cfg/sub/c2.txt"},{"sub\\c3.txt","cfg/sub/c3.txt"},{"../up.txt","up.txt"},{root+"/abs.txt","abs.txt"}};
    for(size_t n=0;n<names.size();n++)
    {
        if(!vt::begin("child %s with every setting",names[n].first.c_str())) continue;
        for(size_t a=0;a<st.size();a++) for(int pos=0;pos<3;pos++)
        {
            std::string ref="material:\""+names[n].first+"\"", base="resolution:{width:320 height:100}"; Want w; w.w=320; w.h=100; st[a].eff(w);
            if(st[a].text.substr(0,10)=="resolution"&&pos!=0) continue;
            put(names[n].second,st[a].text); put("cfg/main.txt",pos==0?ref+"\n"+base:pos==1?base+","+ref:ref); if(pos==2) { w=Want(); st[a].eff(w); }
            run("cfg/main.txt",w,"child "+names[n].first+" holds "+st[a].text);
        }
    }
    // two and three children: all of them are read, in order, each from the folder of the main file
    for(size_t i=0;i<names.size();i++) for(size_t j=0;j<names.size();j++)
    {
        if(i==j) continue;
        if(!vt::begin("children %s and %s",names[i].first.c_str(),names[j].first.c_str())) continue;
        put(names[i].second,"spp:16 camera:{fov:20}\n"); put(names[j].second,"camera:{fov:40} filter:{type:box}"); put("cfg/main.txt","material:'"+names[i].first+"' material:'"+names[j].first+"'");
        Want w; w.spp=16; w.fov=40; w.fil=0; run("cfg/main.txt",w,"two children");
        for(size_t k=0;k<names.size();k++) if(k!=i&&k!=j) { put(names[k].second,"out:'k.ppm'"); put("cfg/main.txt","material:'"+names[i].first+"' material:'"+names[k].first+"',spp:36,material:'"+names[j].first+"'"); w.out="k.ppm"; run("cfg/main.txt",w,"three children"); }
        // missing children are reported and skipped, children of children are not read
        put(names[i].second,"spp:16 material:'"+names[j].first+"'"); put("cfg/main.txt","material:'nothere.txt' material:'"+names[i].first+"'"); Want v; v.spp=16; run("cfg/main.txt",v,"child of a child");
        unlink(names[i].second.c_str()); put(names[j].second,"spp:25"); put("cfg/main.txt","material:'"+names[i].first+"' material:'"+names[j].first+"'"); Want u; u.spp=25; run("cfg/main.txt",u,"missing child");
    }
    // the main file named in different ways
    for(const char* f:{"cfg/main.txt","./cfg/main.txt","cfg/../cfg/main.txt"})
    {
        if(!vt::begin("main file %s",f)) continue;
        put("cfg/c1.txt","spp:64"); put("cfg/main.txt","material:'c1.txt'"); Want w; w.spp=64; run(f,w,f); run(root+"/"+f,w,std::string("absolute ")+f);
    }
    // a relative output file belongs to the folder of the main file, like every other path in it
    if(vt::begin("relative output path"))
    {
        put("cfg/main.txt","out:'o.ppm'"); ChildEnd e=in_child([&](Problems& p) { Scene s; ConfigDriver d; Renderer* r=d.parse("cfg/main.txt",&s); delete r; if(std::string(File(seen_.out.c_str()).absolute_path())!=root+"/cfg/o.ppm") BAD("relative output path resolved from the working folder","%s",seen_.out.c_str()); });
        judge_end(e,"relative output path",false);
    }
}
// damaged files: parsing ends with a message naming file and line, or goes on; never anything else
static void damaged(bool T)
{
    const std::string base=
        "out:'x.ppm'\nresolution:{width:64 height:32}\nfilter:{type:lanczos, value0:3.5}\nspp:4 sampler:random\ncamera:{type:perspective position:[0,1,-2.5] fov:40}\n"
        "shape:'no.obj'\nlight:{name:'Sphere' temperature:5500 scale:2}\nworld:{name:\"Sphere\" position:[-1,0,0] mask:'m.ppm' using channel R inverted}\n"
        "material:{name:'m1' type:glass ior:[1,2,3][4,5,6] roughness:.2 distribution:ggx}\nmaterial:{name:'m2' type:metal element:Au diffuse:[1,2,3]} # end\n"
        "dualmaterial:{name:'d' first:'m1' second:'m2' mask:'m.ppm' using channel A}\ntexture:{name:'t' src:'t.ppm' scale:[1,2]}\n";
    const char* F="cfg/main.txt"; int n=base.size();
    auto one=[&](const std::string& text,const char* what) { put(F,text); vt::detail("%s",what); ChildEnd e=in_child([&](Problems&) { Scene s; ConfigDriver d; Renderer* r=d.parse(F,&s); delete r; }); judge_end(e,what,true); if(e.status==1&&e.console.find("CRITICAL")==std::string::npos) vt::fail("ends without a message","%s",what); vt::seen(vt::hash(e.console.data(),e.console.size())); return e; };
    char what[200];
    for(int lo=0;lo<n;lo+=16) { if(!vt::begin("configuration cut at bytes %d..",lo)) continue; for(int i=lo;i<lo+16&&i<n;i++) { snprintf(what,200,"cut to %d bytes",i); one(base.substr(0,i),what); } }
    const char chars[]={'@','\0','"','\'','{','}','[',']',',',':','#','\n','0','-','a','\xff',' '};
    for(int lo=0;lo<n;lo+=8) { if(!vt::begin("configuration with bytes %d.. changed",lo)) continue; for(int i=lo;i<lo+8&&i<n;i++) { std::string s=base; s.erase(i,1); snprintf(what,200,"byte %d missing",i); one(s,what); for(char c:chars) { if(!T&&(i*7+c)%3) continue; s=base; s[i]=c; snprintf(what,200,"byte %d is %d",i,c); one(s,what); if(T) { s=base; s.insert(s.begin()+i,c); snprintf(what,200,"%d inserted at %d",c,i); one(s,what); } } } }
    // the message names the file and the line, however long the line and wherever the error
    struct Bad { const char* t; int lead; };
    const std::vector<std::string> bad={"@","spp:-4","filter:{type:nothing}","camera:{fov:'x'}","}","world:{position:[1,2,3]}","resolution:{width:2.5}"};
    for(size_t b=0;b<bad.size();b++) for(int lines=0;lines<3;lines++)
    {
        if(!vt::begin("message for '%s' on line %d",bad[b].c_str(),lines*2+1)) continue;
        for(int pad=0;pad<=(T?400:300);pad+=(T?3:7)) for(int tail=0;tail<2;tail++)
        {
            std::string s; for(int i=0;i<lines*2;i++) s+="spp:4 # line\n"; s+=std::string(pad,pad%2?' ':',')+bad[b]+(tail?std::string(200,' ')+"spp:9\nspp:4\n":""); snprintf(what,200,"'%s' after %d columns%s",bad[b].c_str(),pad,tail?", more follows":""); ChildEnd e=one(s,what);
            if(e.status==42) vt::fail("invalid file accepted","%s",what);
            if(e.status==1) { std::string loc="main.txt:"+std::to_string(lines*2+1)+"."; if(e.console.find(loc)==std::string::npos) vt::fail("message without the line of the error","%s: %s not named",what,loc.c_str()); }
        }
    }
    // tokens of any length
    for(int len=1;len<=(T?600:300);len+=(T?3:9))
    {
        if(!vt::begin("token of %d characters",len)) continue;
        for(int pad:{0,1,40,60,100,130}) for(int k=0;k<3;k++)
        {
            std::string s=std::string(pad,' ')+(k==0?"'"+std::string(len,'x')+"'":k==1?std::string(len,'1'):"spp:'"+std::string(len,'y')+"' spp:4"); snprintf(what,200,"token of %d characters after %d columns, kind %d",len,pad,k); ChildEnd e=one(s,what);
            if(e.status==42) vt::fail("invalid file accepted","%s",what);
            if(e.status==1&&e.console.find("main.txt:1.")==std::string::npos) vt::fail("message without the line of the error","%s",what);
        }
    }
    // errors in a child name the child
    for(int k=0;k<4;k++)
    {
        if(!vt::begin("error in a child, line %d",k+1)) continue;
        std::string c; for(int i=0;i<k;i++) c+="spp:4\n"; put("cfg/c1.txt",c+"spp:@\n"); snprintf(what,200,"error in line %d of a child",k+1); ChildEnd e=one("spp:9\n\n\nmaterial:'c1.txt'\n\n",what);
        if(e.status==42) vt::fail("invalid file accepted","%s",what);
        if(e.status==1&&e.console.find("c1.txt:"+std::to_string(k+1)+".")==std::string::npos) vt::fail("message without the line of the error","%s",what);
    }
    // no file at all
    for(const char* f:{"cfg/none.txt","nofolder/x.txt","cfg"})
    {
        if(!vt::begin("no such file: %s",f)) continue;
        ChildEnd e=in_child([&](Problems&) { Scene s; ConfigDriver d; Renderer* r=d.parse(f,&s); delete r; });
        if(e.status==42) vt::fail("invalid file accepted","%s",f); else if(e.status!=1&&e.status!=2) vt::fail("crash while parsing","%s: status %d",f,e.status);
    }
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough();
    mkdir("cfg",0700); mkdir("cfg/sub",0700);
    settings(T); children(T); damaged(T);
    return vt::finish();
}
