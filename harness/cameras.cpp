// C22: the rays of the three cameras and their neighbours one pixel further
#include "d3.hpp"
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera360.hpp"
struct Ref { D3 left,up,dir,pos; int kind,w,h; double fov; };
static void ref(const Ref& c,double x,double y,D3& o,D3& d)
{
    double ar=(double)c.w/c.h,bx=ar>1?ar:1,by=ar>1?1:1/ar,sx=-bx+2*bx*x/c.w,sy=by-2*by*y/c.h;
    D3 lo=d3(0,0,0),ld=d3(0,0,1);
    if(c.kind==0) { double t=tan(c.fov/2); ld=nrm(d3(sx*t,sy*t,1)); }
    if(c.kind==1) lo=d3(sx,sy,0);
    if(c.kind==2) { double th=M_PI*y/c.h,ph=2*M_PI*x/c.w; ld=d3(sin(th)*cos(ph),cos(th),sin(th)*sin(ph)); }
    o=c.pos+c.left*lo[0]+c.up*lo[1]+c.dir*lo[2]; d=c.left*ld[0]+c.up*ld[1]+c.dir*ld[2];
}
static void judge(const Ref& c,const char* what,const Ray& r,double x,double y)
{
    D3 o,d; ref(c,x,y,o,d); D3 eo=D(r.origin)-o,ed=D(r.direction)-d; vt::count("evaluations"); vt::seen(vt::hash(&r.direction,12,vt::hash(&r.origin,12)));
    double to=2e-6*(1+sqrt(dt(c.pos,c.pos))+(double)(c.w>c.h?c.w/c.h:c.h/c.w)+1);
    if(!(sqrt(dt(eo,eo))<=to)) vt::fail("origin","%s of %g,%g starts %g off",what,x,y,sqrt(dt(eo,eo)));
    if(!(fabs(sqrt(dt(D(r.direction),D(r.direction)))-1)<=1e-5)) vt::fail("length","%s of %g,%g has a direction of length %g",what,x,y,sqrt(dt(D(r.direction),D(r.direction))));
    // the position in the picture is a float: half an ulp of it moves the ray
    double td=2e-5; if(c.kind==2) td+=2e-6*(x/c.w+y/c.h);
    if(!(sqrt(dt(ed,ed))<=td)) vt::fail("direction","%s of %g,%g is %g off: %g,%g,%g instead of %g,%g,%g",what,x,y,sqrt(dt(ed,ed)),r.direction.x,r.direction.y,r.direction.z,d[0],d[1],d[2]);
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); const bool T=vt::thorough();
    static const float ps[][3]={{0,0,0},{0,0,-10},{3,-2,5},{-50,20,0.5f}};
    static const float ts[][3]={{0,0,100},{1,0,0},{-3,4,-2},{0.5f,-7,0.25f}};
    static const float us[][3]={{0,1,0},{0,0,1},{1,2,3},{0,-1,0}};
    static const int rs[][2]={{2,2},{1,1},{2,1},{640,480},{800,600},{100,300},{7,1},{1,9},{1920,1080},{33,512}};
    static const float fs[]={1,20,55,60,90,120,150,170,178};
    static const char* kn[]={"perspective","orthographic","panorama"};
    for(int k=0;k<3;k++) for(auto& rz:rs) for(size_t f=0;f<(k?1:sizeof fs/sizeof*fs);f++)
    {
        if(!vt::begin("%s camera, %dx%d%s%g",kn[k],rz[0],rz[1],k?", ":", field of view ",k?0.0:fs[f])) continue;
        vt::sample("%s",vt::sh()->desc);
        for(auto& p:ps) for(auto& t:ts) for(auto& u:us)
        {
            Ref c; c.kind=k; c.w=rz[0]; c.h=rz[1]; c.fov=(float)(fs[f]*M_PI/180); c.pos=d3(p[0],p[1],p[2]); D3 dir=d3(t[0],t[1],t[2])-c.pos; if(dt(dir,dir)<1e-6) continue;
            c.dir=nrm(dir); D3 up=nrm(d3(u[0],u[1],u[2])),l=crs(up,c.dir); if(dt(l,l)<1e-2) continue; c.left=nrm(l); c.up=crs(c.dir,c.left);
            Point3 pp(p[0],p[1],p[2]),tt(t[0],t[1],t[2]); Vec3 uu(u[0],u[1],u[2]); uu.normalize();
            std::unique_ptr<Camera> cam; if(k==0) cam.reset(new CameraPerspective(&pp,&tt,&uu,c.w,c.h,(float)c.fov)); else if(k==1) cam.reset(new CameraOrthographic(&pp,&tt,&uu,c.w,c.h)); else cam.reset(new Camera360(&pp,&tt,&uu,c.w,c.h));
            std::vector<Sample> ss; int n=T?12:5;
            for(int a=0;a<=n;a++) for(int b=0;b<=n;b++) { Sample s; s.posx=(float)c.w*a/n; s.posy=(float)c.h*b/n; ss.push_back(s); s.posx=(float)std::min((double)c.w,floor((double)c.w*a/n)+0.37); s.posy=(float)std::min((double)c.h,floor((double)c.h*b/n)+0.81); ss.push_back(s); }
            for(auto& s:ss)
            {
                Ray a,b,bx,by,d,dx,dy; cam->create_ray(&s,&a); cam->create_ray(&s,&b,&bx,&by); cam->Camera::create_ray(&s,&d,&dx,&dy);
                judge(c,"the ray",a,s.posx,s.posy); judge(c,"the ray with neighbours",b,s.posx,s.posy); judge(c,"the generic ray",d,s.posx,s.posy);
                judge(c,"the ray one pixel right",bx,(double)s.posx+1,s.posy); judge(c,"the ray one pixel down",by,s.posx,(double)s.posy+1);
                judge(c,"the generic ray one pixel right",dx,(double)s.posx+1,s.posy); judge(c,"the generic ray one pixel down",dy,s.posx,(double)s.posy+1);
            }
        }
    }
    return vt::finish();
}
