// C26: the program as a whole.  A child process runs it on configuration files
// in scratch folders; the pictures are compared with an independent ray caster
// in double precision, whose answer for a pixel is only used when everything the
// filter can reach around it is the same.
#include "d3.hpp"
#include "img_util.hpp"
#define main spectre_main
#include "main.cpp"
#undef main
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
// the progress display waits for a second before it ends: shorten that
extern "C" int nanosleep(const struct timespec*,struct timespec*) { struct timespec t={0,200000}; return (int)syscall(SYS_nanosleep,&t,NULL); }
extern "C" int clock_nanosleep(clockid_t,int,const struct timespec*,struct timespec*) { struct timespec t={0,200000}; return (int)syscall(SYS_nanosleep,&t,NULL); }
extern "C" time_t time(time_t* t) { if(t) *t=1000000; return 1000000; }
struct T3 { D3 p[3]; double uv[3][2]; };
struct Thing { int shape; Aff a; int light; /* -1 black, else colour */ int ch; /* mask channel or -1 */ bool inv; D3 pos,rot,sc; }; // shape 0 ball, 1 square, 2 block, 3 wedge
static const int COL[][3]={{200,100,50},{40,160,90},{255,255,255},{60,70,210},{230,220,40},{120,30,160},{90,200,220},{255,128,128}};
static std::vector<T3> MESH[4];
static void face(std::vector<T3>& m,D3 a,D3 b,D3 c,D3 d) { double t[4][2]={{0,0},{1,0},{1,1},{0,1}}; D3 q[4]={a,b,c,d}; int ix[2][3]={{0,1,2},{0,2,3}}; for(auto& i:ix) { T3 x; for(int k=0;k<3;k++) { x.p[k]=q[i[k]]; x.uv[k][0]=t[i[k]][0]; x.uv[k][1]=t[i[k]][1]; } m.push_back(x); } }
static void meshes()
{
    face(MESH[1],d3(-1,-1,0),d3(1,-1,0),d3(1,1,0),d3(-1,1,0));
    for(int a=0;a<3;a++) for(int s=-1;s<=1;s+=2) { auto p=[&](double u,double v) { D3 r=d3(0,0,0); r.v[a]=0.8*s; r.v[(a+1)%3]=0.8*u*s; r.v[(a+2)%3]=0.8*v; return r; }; face(MESH[2],p(-1,-1),p(1,-1),p(1,1),p(-1,1)); }
    D3 w[4]={d3(-1,-0.7,-0.6),d3(1.1,-0.6,-0.5),d3(0.1,-0.5,1.2),d3(0,1.2,0.1)}; int f[4][3]={{0,1,2},{0,3,1},{1,3,2},{2,3,0}}; for(auto& i:f) { T3 x; for(int k=0;k<3;k++) { x.p[k]=w[i[k]]; x.uv[k][0]=x.uv[k][1]=0.3*k; } MESH[3].push_back(x); }
}
static std::string num(double v) { char b[40]; snprintf(b,40,"%.6g",v); return b; }
static std::string v3(D3 v) { return "["+num(v[0])+","+num(v[1])+","+num(v[2])+"]"; }
static double rd(double v) { return strtod(num(v).c_str(),NULL); }
static std::string obj_file()
{
    static const char* N[]={"","Square","Block","Wedge"}; std::string s="# test scene\n"; int n=1; for(int k=1;k<4;k++) { s+=std::string("o ")+N[k]+"\n"; for(auto& t:MESH[k]) for(int i=0;i<3;i++) s+="v "+num(t.p[i][0])+" "+num(t.p[i][1])+" "+num(t.p[i][2])+"\nvt "+num(t.uv[i][0])+" "+num(t.uv[i][1])+"\n"; s+="usemtl black\n"; for(size_t i=0;i<MESH[k].size();i++) { s+="f"; for(int j=0;j<3;j++) { s+=" "+std::to_string(n)+"/"+std::to_string(n); n++; } s+="\n"; } }
    return s;
}
static Aff place(D3 t,D3 rdeg,D3 s)
{
    Aff a; double k=M_PI/180; for(int i=0;i<3;i++) { D3 e=d3(i==0?s[0]:0,i==1?s[1]:0,i==2?s[2]:0); double x=rdeg[0]*k,y=rdeg[1]*k,z=rdeg[2]*k; e=d3(e[0],e[1]*cos(x)-e[2]*sin(x),e[1]*sin(x)+e[2]*cos(x)); e=d3(e[0]*cos(y)+e[2]*sin(y),e[1],-e[0]*sin(y)+e[2]*cos(y)); e=d3(e[0]*cos(z)-e[1]*sin(z),e[0]*sin(z)+e[1]*cos(z),e[2]); a.c[i]=e; }
    a.o=t; double det=dt(a.c[0],crs(a.c[1],a.c[2])); a.r[0]=crs(a.c[1],a.c[2])*(1/det); a.r[1]=crs(a.c[2],a.c[0])*(1/det); a.r[2]=crs(a.c[0],a.c[1])*(1/det); return a;
}
// colour seen along a ray: -1 nothing or black, -2 not sure
static int look(const std::vector<Thing>& ts,D3 o,D3 d)
{
    double best=1e300,second=1e300; int col=-1; bool sure=true;
    auto cand=[&](double t,const Thing& k,bool front,double u,double v)
    {
        if(t<0.03) { if(t>-0.03) sure=false; return; }
        if(k.ch>=0) { u-=floor(u); v-=floor(v); for(double b:{0.,0.5,1.}) if(fabs(u-b)<0.13||fabs(v-b)<0.13) sure=false; bool x=k.ch==0?u<0.5:k.ch==1?v<0.5:k.ch==2?u>=0.5:v>=0.5; if(x==k.inv) return; }
        if(t<best) { second=best; best=t; col=k.light>=0&&front?k.light:-1; } else if(t<second) second=t;
    };
    for(auto& k:ts)
    {
        D3 oo=k.a.ipt(o),dd=k.a.ivec(d);
        if(k.shape==0)
        {
            double A=dt(dd,dd),B=dt(oo,dd),C=dt(oo,oo)-1,q=B*B-A*C; if(fabs(q)<1e-3*A) sure=false; if(q<0) continue;
            for(int s=-1;s<=1;s+=2) { double t=(-B+s*sqrt(q))/A; D3 p=oo+dd*t; double ph=atan2(p[1],p[0]); if(ph<0) ph+=2*M_PI; cand(t,k,dt(p,dd)<0,ph/(2*M_PI),1-acos(std::max(-1.,std::min(1.,p[2])))/M_PI); } continue;
        }
        for(auto& t:MESH[k.shape])
        {
            D3 e=t.p[1]-t.p[0],f=t.p[2]-t.p[0],pv=crs(dd,f),n=crs(e,f); double det=dt(e,pv); if(fabs(dt(n,dd))<1e-3*sqrt(dt(n,n)*dt(dd,dd))) { continue; } D3 tv=oo-t.p[0]; double u=dt(tv,pv)/det; D3 qv=crs(tv,e); double v=dt(dd,qv)/det,tt=dt(f,qv)/det,w=1-u-v;
            // only real borders of the shape are borders: the diagonal of a square is not
            if(std::min(std::min(u,v),w)<0) continue;
            cand(tt,k,dt(n,dd)<0,w*t.uv[0][0]+u*t.uv[1][0]+v*t.uv[2][0],w*t.uv[0][1]+u*t.uv[1][1]+v*t.uv[2][1]);
        }
    }
    if(!sure) return -2;
    if(second-best<1e-3*(1+best)&&best<1e299) return -2; return col;
}
struct Cam { int kind; D3 pos,to,up; double fov; int w,h; D3 left,u,dir; };
static void prep(Cam& c) { c.dir=nrm(c.to-c.pos); c.left=nrm(crs(c.up,c.dir)); c.u=crs(c.dir,c.left); }
static void ray(const Cam& c,double x,double y,D3& o,D3& d)
{
    double ar=(double)c.w/c.h,bx=ar>1?ar:1,by=ar>1?1:1/ar,sx=-bx+2*bx*x/c.w,sy=by-2*by*y/c.h; D3 lo=d3(0,0,0),ld=d3(0,0,1);
    if(c.kind==0) { double t=tan(c.fov*M_PI/360); ld=nrm(d3(sx*t,sy*t,1)); } if(c.kind==1) lo=d3(sx,sy,0);
    if(c.kind==2) { double th=M_PI*y/c.h,ph=2*M_PI*x/c.w; ld=d3(sin(th)*cos(ph),cos(th),sin(th)*sin(ph)); }
    o=c.pos+c.left*lo[0]+c.u*lo[1]+c.dir*lo[2]; d=c.left*ld[0]+c.u*ld[1]+c.dir*ld[2];
}
static std::vector<Thing> scene(int kind,const Cam& c,int turn,int ball)
{
    std::vector<Thing> r; D3 fx=c.left,fy=c.u,fz=c.dir; if(c.kind==2&&turn&1) { fx=c.dir; fz=c.left*-1; } if(c.kind==2&&turn&2) { D3 q=fy; fy=fz*-1; fz=q; } // a panorama shows all around
    auto add=[&](int shape,double x,double y,double z,D3 rot,D3 sc,int light,int ch=-1,bool inv=false)
    {
        Thing t; t.shape=shape; D3 p=c.pos+fx*x+fy*y+fz*(c.kind==2?z*0.45:z); for(int i=0;i<3;i++) { t.pos[i]=rd(p[i]); t.rot[i]=rd(rot[i]); t.sc[i]=rd(sc[i]); } t.a=place(t.pos,t.rot,t.sc); t.light=light; t.ch=ch; t.inv=inv; r.push_back(t);
    };
    // squares turned so that their front looks at the camera: the angles that carry +z to the opposite of the view
    // Rx first: (0,0,1) -> (0,-sin x,cos x), then Ry: (cos x sin y,-sin x,cos x cos y)
    auto facing=[&](D3 n) { return d3(asin(std::max(-1.,std::min(1.,-n[1])))*180/M_PI,atan2(n[0],n[2])*180/M_PI,0); };
    // lights reflect light of others: they are placed so that none shines on the front of another
    D3 back=fz*-1; double s=c.kind==1?0.33:1;
    auto lamp=[&](double x,double y,double z,D3 rot,D3 sc,int light) { add(1,x,y,z,rot,sc,light); };
    if(kind==0)
    {
        // all in one plane
        lamp(-1.5*s,0.9*s,6.5,facing(back),d3(0.9*s,0.7*s,1),0); lamp(1.4*s,1.1*s,6.5,facing(back),d3(0.8*s,0.8*s,1),1); lamp(1.5*s,-1.4*s,6.5,facing(back),d3(0.6*s,0.9*s,1),3); lamp(-1.5*s,-1.3*s,6.5,facing(back),d3(0.9*s,0.4*s,1),4); lamp(0,-0.3*s,6.5,facing(back),d3(0.5*s,1.1*s,1),5);
        add(0,0.1*s,-0.2*s,5,d3(0,0,0),d3(0.4*s,0.4*s,0.4*s),-1); add(1,0.2*s,-0.3*s,9,facing(back),d3(2.6*s,1.1*s,1),-1);
        add(1,0.3*s,2*s,9.5,facing(fz),d3(s*1.2,0.5*s,1),2); // its back
        add(3,-2*s,2.4*s,8,d3(30,10,0),d3(s,s,s),-1); add(2,2.6*s,0.1*s,5.5,d3(10,20,30),d3(0.4*s,0.9*s,0.3*s),-1);
    }
    else if(kind==1) { add(ball,-0.5*s,0.3*s,6,d3(20,35,10),d3(1.3*s,1.3*s,(ball?1.1:1.3)*s),6); add(2,0.4*s,0.5*s,4.2,d3(15,25,35),d3(0.5*s,0.3*s,0.7*s),-1); add(3,-1.7*s,-0.9*s,5,d3(80,20,0),d3(0.6*s,0.6*s,0.6*s),-1); add(0,-0.9*s,0.1*s,4,d3(0,30,0),d3(0.25*s,0.45*s,0.35*s),-1); }
    else { for(int q=0;q<4;q++) { double x=(q%2?1.4:-1.4)*s,y=(q/2?1.1:-1.1)*s; add(1,x,y,7,facing(back),d3(1.25*s,0.95*s,1),q*2,q,q==3); } add(1,0.2*s,0.6*s,7,facing(back),d3(0.9*s,0.5*s,1),-1); add(1,-0.9*s,-0.2*s,6,facing(back),d3(1.6*s,1.3*s,1),-1,1,true); add(0,0.1*s,-0.1*s,5,d3(25,0,40),d3(0.6*s,0.6*s,0.6*s),-1,2); }
    return r;
}
static std::string entry(const Thing& t)
{
    static const char* N[]={"Sphere","Square","Block","Wedge"}; std::string s=t.light>=0?"light":"world"; s+=":{ name:\""+std::string(N[t.shape])+"\" position:"+v3(t.pos)+" rotation:"+v3(t.rot)+" scale:"+v3(t.sc);
    if(t.light<0) s+=" material:'black'"; else s+=" color:["+std::to_string(COL[t.light][0])+","+std::to_string(COL[t.light][1])+","+std::to_string(COL[t.light][2])+"]"; if(t.ch>=0) { s+=" mask:'half.tga' using channel "; s+="RGBA"[t.ch]; if(t.inv) s+=" inverted"; } return s+" }\n";
}
struct End { int status; std::string text; };
static End run(const std::vector<std::string>& args,const char* cwd,int cpus)
{
    fflush(vt::out()); int pid=fork();
    if(pid==0)
    {
        if(chdir(cwd)) _exit(98); if(!freopen("/dev/null","r",stdin)) _exit(98); std::string log=std::string(getenv("SCRATCH_LOG")); if(!freopen(log.c_str(),"w",stdout)) _exit(98); dup2(1,2); alarm(120);
        if(cpus) { cpu_set_t a,b; CPU_ZERO(&a); CPU_ZERO(&b); sched_getaffinity(0,sizeof a,&a); int n=0; for(int i=0;i<CPU_SETSIZE&&n<cpus;i++) if(CPU_ISSET(i,&a)) { CPU_SET(i,&b); n++; } sched_setaffinity(0,sizeof b,&b); }
        std::vector<char*> v; v.push_back((char*)"spectre"); for(auto& a:args) v.push_back((char*)a.c_str()); v.push_back(NULL); setenv("SPECTRE_RUN","1",1); execv("/proc/self/exe",v.data()); _exit(97);
    }
    int st=0; waitpid(pid,&st,0); vt::count("evaluations"); vt::beat(); End e; e.status=WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st); Bytes b=slurp(getenv("SCRATCH_LOG")); e.text.assign(b.begin(),b.end()); return e;
}
static std::string tail(const std::string& s) { std::string r=s.size()>200?s.substr(s.size()-200):s; for(auto& c:r) if((unsigned char)c<32) c=' '; return r; }
static void put(const std::string& n,const std::string& t) { spit(n.c_str(),Bytes(t.begin(),t.end())); }
static void clean() { if(getenv("VT_KEEP")) return; for(const char* f:{"scene.txt","mesh.obj","half.tga","out.ppm","pic.bmp","pic.tga","pic.png","pic.tif","pic.tiff","pic.jpg","pic.jpeg","pic.ppm","extra.txt"}) for(const char* d:{"","conf/","pics/"}) unlink((std::string(d)+f).c_str()); }
static const char* EXT[]={"ppm","bmp","tga","png","tif","jpg","tiff","jpeg"};
static const char* FIL[]={"{type:box texture:unfiltered}","{type:tent texture:unfiltered}","{type:gaussian value0:2 texture:unfiltered}","{type:mitchell value0:0.33 value1:0.33 texture:unfiltered}","{type:lanczos value0:3 texture:unfiltered}"};
static const double REACH[]={1,2,2,2,4};
int main(int argc,char** argv)
{
    if(getenv("SPECTRE_RUN")) return spectre_main(argc,argv);
    vt::init(argc,argv); bool T=vt::thorough(); meshes(); char cw[4096]; if(!getcwd(cw,sizeof cw)) return 1; std::string here=cw; setenv("SCRATCH_LOG",(here+"/console.log").c_str(),1); mkdir("conf",0700); mkdir("pics",0700);
#ifdef SPECTRAL
    const int CT=14; // spectra made from colours do not give exactly the same colour
#else
    const int CT=2;
#endif
    Bytes half; { Img i; i.w=i.h=16; i.p.resize(256); for(int y=0;y<16;y++) for(int x=0;x<16;x++) i.p[y*16+x]=pix(x<8?255:0,y<8?255:0,x>=8?255:0,y>=8?255:0); half=tga_enc(i,32,true,0); }
    static const float ps[][3]={{0,0,0},{3,-2,5},{-5,2,0.5f},{10,20,-30}}; static const float ts[][3]={{0,0,10},{-1,0.5f,1},{2,6,3},{9,18,-31}}; static const float us[][3]={{0,1,0},{0.2f,1,0},{0,0,1},{0,-1,0.3f}};
    static const int rs[][2]={{96,64},{128,128},{160,72},{64,140}}; static const int sp[]={1,4,9,16};
    // 1. pictures
    int idx=0;
    for(int sc=0;sc<3;sc++) for(int k=0;k<3;k++) for(int pl=0;pl<4;pl++) for(int re=0;re<4;re++) for(int fi=0;fi<5;fi++)
    {
        idx++;
#ifdef __SANITIZE_ADDRESS__
        if(idx%(T?4:16)) continue;
#else
#ifdef SPECTRAL
        if(!T&&(sc+k+pl+re+fi)%6) continue;
#else
        if(!T&&(sc+k+pl+re+fi)%3) continue;
#endif
#endif
        int ex=(idx+idx/5+idx/20)%8,sm=(idx/5+pl)%2,cpu=(idx/3)%4,lay=(idx/2+re)%5,spp=sp[(idx+idx/7)%4];
        static const char* KN[]={"perspective","orthographic","panorama"}; static const char* SN[]={"blocks and squares","a solid light","masks"}; static const char* LN[]={"in the current folder","in another folder","by its absolute name","pictures in another folder","settings in another file"};
        if(!vt::begin("%s, %s camera %d, %dx%d, filter %d, %s, %d samples, %s, %d processors, %s",SN[sc],KN[k],pl,rs[re][0],rs[re][1],fi,sm?"random":"stratified",spp,EXT[ex],cpu,LN[lay])) continue;
        Cam c; c.kind=k; c.pos=d3(ps[pl][0],ps[pl][1],ps[pl][2]); c.to=d3(ts[pl][0],ts[pl][1],ts[pl][2]); c.up=d3(us[pl][0],us[pl][1],us[pl][2]); c.fov=pl==1?40:pl==2?70:50; c.w=rs[re][0]; c.h=rs[re][1]; prep(c); auto th=scene(sc,c,pl+re,idx/4%3==0?0:1+idx/4%3);
        std::string head="resolution:{width:"+std::to_string(c.w)+" height:"+std::to_string(c.h)+"}\nspp:"+std::to_string(spp)+"\nsampler:"+(sm?"random":"stratified")+"\nintegrator: path\nfilter:"+FIL[fi]+"\ncamera:{type:"+KN[k]+" position:"+v3(c.pos)+" target:"+v3(c.to)+" up:"+v3(c.up)+(k==0?" fov:"+num(c.fov):"")+"}\n",body;
        std::string name=std::string("pic.")+EXT[ex]; head+="out:\""+std::string(lay==3?"../pics/":"")+name+"\"\n"; body="shape:\"mesh.obj\"\nmaterial:{name:\"black\" type:matte diffuse:[0,0,0]}\n"; for(auto& t:th) body+=entry(t);
        std::string dir=lay==0?"":"conf/"; clean(); spit((dir+"half.tga").c_str(),half); put(dir+"mesh.obj",obj_file()); if(lay==4) { put(dir+"extra.txt",(idx&1)?head:body); put(dir+"scene.txt",((idx&1)?body:head)+"material:\"extra.txt\"\n"); } else put(dir+"scene.txt",(idx&1)?head+body:body+head);
        std::string arg=lay==2?here+"/conf/scene.txt":dir+"scene.txt",pic=lay==0?name:lay==3?"pics/"+name:"conf/"+name; End e=run({arg},lay==1&&(idx&2)?"pics":".",cpu); if(lay==1&&(idx&2)) e=run({"../conf/scene.txt"},"pics",cpu);
        if(e.status!=0) { vt::fail("rendering a scene fails","status %d: %s",e.status,tail(e.text).c_str()); clean(); continue; }
        Img im; std::string why; if(!dec(EXT[ex],pic.c_str(),im,why)||im.w!=c.w||im.h!=c.h) { vt::fail("no picture of the asked size","%s: %s",pic.c_str(),why.c_str()); clean(); continue; }
        // what is seen at a grid of places, then each pixel by everything in reach of the filter
        double R=REACH[fi]; const int Q=3; int gw=c.w*Q,gh=c.h*Q,m=(int)ceil((R+0.5)*Q)+1; std::vector<int> seen((size_t)(gw+2*m)*(gh+2*m)); for(int y=-m;y<gh+m;y++) for(int x=-m;x<gw+m;x++) { D3 o,d; ray(c,(x+0.5)/Q,(y+0.5)/Q,o,d); seen[(size_t)(y+m)*(gw+2*m)+x+m]=x<0||y<0||x>=gw||y>=gh?-9:look(th,o,d); }
        // borders of the shapes can be thinner than the grid: everything near one is left out
        auto mark=[&](D3 p) { D3 q=p-c.pos; double lx=dt(q,c.left),ly=dt(q,c.u),lz=dt(q,c.dir),ar=(double)c.w/c.h,bx=ar>1?ar:1,by=ar>1?1:1/ar,x,y; if(k==2) { double ph=atan2(lz,lx); if(ph<0) ph+=2*M_PI; x=ph/(2*M_PI)*c.w; y=acos(std::max(-1.,std::min(1.,ly/sqrt(dt(q,q)))))/M_PI*c.h; } else { if(lz<=0) return; double f=k?1:lz*tan(c.fov*M_PI/360); x=(lx/f+bx)/(2*bx)*c.w; y=(by-ly/f)/(2*by)*c.h; }
            double a=floor(x*Q),b=floor(y*Q); if(a<0||b<0||a>=gw||b>=gh) return; seen[(size_t)(b+m)*(gw+2*m)+(size_t)a+m]=-2; };
        for(auto& t:th) if(t.shape) for(auto& f:MESH[t.shape]) for(int i=0;i<3;i++) { D3 A=t.a.pt(f.p[i]),B=t.a.pt(f.p[(i+1)%3]); D3 la=f.p[i],lb=f.p[(i+1)%3]; if(t.shape<3) { int dif=0; for(int z=0;z<3;z++) dif+=la[z]!=lb[z]; if(dif>1) continue; } for(int n=0;n<=300;n++) mark(A+(B-A)*(n/300.)); }
        int compared=0,lit=0; int tol=CT+(ex==5||ex==7?12:0);
        for(int y=0;y<c.h;y++) for(int x=0;x<c.w;x++)
        {
            int col=-9; bool one=true; int r=(int)ceil(R*Q)+1+(ex==5||ex==7?16*Q:0); // one strange pixel spoils its whole block of a jpeg
            for(int b=y*Q-r;b<y*Q+Q+r&&one;b++) for(int a=x*Q-r;a<x*Q+Q+r;a++) { if(a<-m||b<-m||a>=gw+m||b>=gh+m) continue; int s=seen[(size_t)(b+m)*(gw+2*m)+a+m]; if(s==-9) continue; if(col==-9) col=s; if(s!=col||s==-2) { one=false; break; } }
            if(!one||col==-9) continue; compared++; lit+=col>=0; vt::count("compared pixels"); uint32_t p=im.p[y*c.w+x]; int g[3]={pR(p),pG(p),pB(p)},w[3]={0,0,0}; if(col>=0) for(int i=0;i<3;i++) w[i]=COL[col][i];
            int worst=0; for(int i=0;i<3;i++) worst=std::max(worst,abs(g[i]-w[i])); if(worst>(col<0?(ex==5||ex==7?12:1):tol)) { vt::fail(col<0?"something is shown where nothing shines":"wrong colour in the picture","pixel %d,%d is %d,%d,%d instead of %d,%d,%d",x,y,g[0],g[1],g[2],w[0],w[1],w[2]); y=c.h; break; }
        }
        if(lit) vt::count("pictures with lights compared"); vt::seen(vt::hash(im.p.data(),im.p.size()*4,idx)); vt::sample("%s: %d of %d pixels compared, %d of them light",vt::sh()->desc,compared,c.w*c.h,lit);
        clean();
    }
    // 2. runs that cannot give what was asked for
    {
        struct Bad { const char* n; std::vector<std::string> args; const char* text; bool pic; }; std::string ok="resolution:{width:32 height:8} spp:1 out:'pic.ppm'\n";
        std::vector<Bad> bad={{"no arguments",{},NULL,false},{"a missing file",{"nowhere.txt"},NULL,false},{"a folder",{"conf"},NULL,false},{"an empty name",{""},NULL,false},{"a missing folder",{"no/where.txt"},NULL,false},{"a file used as folder",{"scene.txt/x"},"spp:1",false},
            {"a word nobody knows",{"scene.txt"},"resolution:{width:32 height:8} spp:1 out:'pic.ppm' nonsense",false},{"an unclosed bracket",{"scene.txt"},"resolution:{width:32 height:8 spp:1 out:'pic.ppm'",false},{"an unclosed string",{"scene.txt"},"resolution:{width:32 height:8} spp:1 out:'pic.ppm",false},{"a picture in a missing folder",{"scene.txt"},"resolution:{width:32 height:8} spp:1 out:'none/pic.ppm'",false},{"an empty picture name",{"scene.txt"},"resolution:{width:32 height:8} spp:1 out:''",false},{"a folder as picture",{"scene.txt"},"resolution:{width:32 height:8} spp:1 out:'conf'",false},
            {"more arguments",{"scene.txt","other.txt","-x"},"resolution:{width:32 height:8} spp:1 out:'pic.ppm'",true},{"nothing in the scene",{"scene.txt"},"resolution:{width:32 height:8} spp:1 out:'pic.ppm'",true},{"a missing shape",{"scene.txt"},"resolution:{width:32 height:8} spp:1 out:'pic.ppm' shape:'no.obj' world:{name:'Nothing'}",true},{"a missing material and texture",{"scene.txt"},"resolution:{width:32 height:8} spp:1 out:'pic.ppm' texture:{src:'no.tga'} material:{name:'m' diffuse:'no.png'} world:{name:'Sphere' material:'other' position:[0,0,5] mask:'no.bmp'}",true},{"a missing child",{"scene.txt"},"resolution:{width:32 height:8} spp:1 out:'pic.ppm' material:'no.txt'",true}};
        for(auto& b:bad) for(int cpu=0;cpu<2;cpu++) if(vt::begin("run with %s, %d processors",b.n,cpu))
        {
            clean(); if(b.text) put("scene.txt",b.text); End e=run(b.args,".",cpu); Img im; std::string why; bool pic=dec("ppm","pic.ppm",im,why); vt::seen(vt::mix(e.status+9,pic));
            if(e.status<0) vt::fail("the program crashes","%s: signal %d",b.n,-e.status); else if(b.pic) { if(e.status!=0||!pic||im.w!=32||im.h!=8) vt::fail("no picture although it could be made","%s: status %d: %s",b.n,e.status,tail(e.text).c_str()); } else { if(e.status==0) vt::fail("success status for a failed run","%s",b.n); if(pic) vt::fail("picture of a failed run","%s",b.n); if(e.text.find("ERROR")==std::string::npos&&e.text.find("CRITICAL")==std::string::npos&&e.text.find("WARNING")==std::string::npos&&e.text.find("failed")==std::string::npos) vt::fail("failure without a message","%s: %s",b.n,tail(e.text).c_str()); }
            vt::sample("%s: status %d",b.n,e.status); clean();
        }
    }
    rmdir("conf"); rmdir("pics"); unlink("console.log");
    return vt::finish();
}
