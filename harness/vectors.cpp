// C27: the arithmetic of vectors, points and normals, and the helpers below it
#include "vt.hpp"
#include "geometry/vec2.hpp"
#include "geometry/vec3.hpp"
#include "geometry/point2.hpp"
#include "geometry/point3.hpp"
#include "geometry/matrix4.hpp"
#include "geometry/ray.hpp"
#include "geometry/AABB.hpp"
#include "utility/utility.hpp"
#include "utility/array2D.hpp"
extern "C" {
#include "utility/imageio/imageio.h"
}
#include <cmath>
#include <vector>
#include <memory>
#include <set>
typedef std::vector<double> D;
static std::vector<float> LAT;
static D dv(const Vec2& v) { return D{v.x,v.y}; }
static D dv(const Point2& v) { return D{v.x,v.y}; }
static D dv(const Vec3& v) { return D{v.x,v.y,v.z}; }
static D dv(const Normal& v) { return D{v.x,v.y,v.z}; }
static D dv(const Point3& v) { return D{v.x,v.y,v.z}; }
static bool same(double a,double b) { return fabs(a-b)<=2e-6*std::max(1.0,std::max(fabs(a),fabs(b))); }
static bool same(const D& a,const D& b) { for(size_t i=0;i<b.size();i++) if(!same(a[i],b[i])) return false; return a.size()==b.size(); }
static std::string str(const D& a) { std::string s; char b[40]; for(double x:a) { snprintf(b,40,"%s%.9g",s.empty()?"":",",x); s+=b; } return "("+s+")"; }
template<class F> static D map(const D& a,const D& b,F f) { D r; for(size_t i=0;i<a.size();i++) r.push_back(f(a[i],b[i])); return r; }
static D all(size_t n,double f) { return D(n,f); }
static D A,B,C; static double S; // operands, for messages
static void is(const char* type,const char* op,const D& got,const D& want)
{
    vt::count("evaluations");
    if(!same(got,want)) { char k[60]; snprintf(k,60,"%s %s",type,op); vt::fail(k,"%s %s with %s, %s and %g gives %s instead of %s",type,op,str(A).c_str(),str(B).c_str(),S,str(got).c_str(),str(want).c_str()); }
}
static void is(const char* type,const char* op,double got,double want) { is(type,op,D{got},D{want}); }
static double f_add(double a,double b) { return a+b; }
static double f_sub(double a,double b) { return a-b; }
static double f_mul(double a,double b) { return a*b; }
static double f_quo(double a,double b) { return a/b; }
static double mx(double a,double b) { return a>b?a:b; }
static double mn(double a,double b) { return a<b?a:b; }
static double dotp(const D& a,const D& b) { double s=0; for(size_t i=0;i<a.size();i++) s+=a[i]*b[i]; return s; }
static bool zero(const D& a) { for(double x:a) if(x==0) return true; return false; }
static D sat(const D& a) { D r=a; for(double& x:r) x=x<0?0:x>1?1:x; return r; }
static D clip(const D& a,const D& lo,const D& hi) { D r=a; for(size_t i=0;i<r.size();i++) r[i]=mn(mx(r[i],lo[i]),hi[i]); return r; }
// operators vectors and normals have in common
template<class V> static void pairs(const char* T,const V& a,const V& b)
{
    A=dv(a); B=dv(b); const size_t n=A.size(); S=0;
#define BIN(op,f,ok) if(ok) { is(T,#op,dv(a op b),map(A,B,f)); V c=a; c op##= b; is(T,#op "=",dv(c),map(A,B,f)); is(T,"operand of " #op,dv(b),B); }
    BIN(+,f_add,true) BIN(-,f_sub,true) BIN(*,f_mul,true) BIN(/,f_quo,!zero(B))
    V c=a; c.max(b); is(T,"max",dv(c),map(A,B,mx)); is(T,"max of two",dv(max(a,b)),map(A,B,mx));
    c=a; c.min(b); is(T,"min",dv(c),map(A,B,mn)); is(T,"min of two",dv(min(a,b)),map(A,B,mn));
    double d=sqrt(dotp(map(A,B,f_sub),map(A,B,f_sub)));
    is(T,"distance",a.distance(b),d); is(T,"distance of two",distance(a,b),d);
    is(T,"dot",a.dot(b),dotp(A,B)); is(T,"dot of two",dot(a,b),dotp(A,B));
    is(T,"==",a==b,A==B); is(T,"!=",a!=b,A!=B);
    (void)n;
}
template<class V> static void single(const char* T,const V& a)
{
    A=dv(a); B.clear(); S=0; const size_t n=A.size();
#define SCA(op,f,ok) if(ok) { is(T,#op " number",dv(a op s),map(A,all(n,s),f)); V c=a; c op##= s; is(T,#op "= number",dv(c),map(A,all(n,s),f)); }
    for(float s:LAT) { S=s; SCA(+,f_add,true) SCA(-,f_sub,true) SCA(*,f_mul,true) SCA(/,f_quo,s!=0) }
    S=0; V c=a; c+=c; is(T,"+= itself",dv(c),map(A,A,f_add)); c=a; c-=c; is(T,"-= itself",dv(c),all(n,0)); c=a; c*=c; is(T,"*= itself",dv(c),map(A,A,f_mul));
    if(!zero(A)) { c=a; c/=c; is(T,"/= itself",dv(c),all(n,1)); }
    is(T,"negative",dv(-a),map(all(n,0),A,f_sub)); is(T,"!",dv(!a),map(all(n,0),A,f_sub));
    is(T,"length",a.length(),sqrt(dotp(A,A))); is(T,"length2",a.length2(),dotp(A,A));
    c=a; c.saturate(); is(T,"saturate",dv(c),sat(A)); is(T,"saturated copy",dv(saturate(a)),sat(A));
    double l=sqrt(dotp(A,A));
    is(T,"is_normalized",a.is_normalized(),fabs(l-1)<1e-9);
    if(l>0)
    {
        D u=map(A,all(n,l),f_quo); c=a; c.normalize(); is(T,"normalize",dv(c),u); is(T,"normalized copy",dv(normalize(a)),u);
        if(n==3) is(T,"is_normalized afterwards",c.is_normalized(),1);
    }
    float arr[5]={77,77,77,77,77}; a.to_array(arr+1); D w; for(size_t i=0;i<n;i++) w.push_back(arr[1+i]);
    is(T,"to_array",w,A); is(T,"bounds of to_array",D{arr[0],arr[n+1]},D{77,77}); V f((const float*)(arr+1)); is(T,"from array",dv(f),A);
    std::string t=a.to_string(); const char* p=strpbrk(t.c_str(),"[(") ; D g; if(p) for(p++;*p;) { char* e; double x=strtod(p,&e); if(e==p) { p++; continue; } g.push_back(x); p=e; }
    is(T,"to_string",g,A);
    V q(a); is(T,"copy",dv(q),A); is(T,"default",dv(V()),all(n,0)); is(T,"from a number",dv(V((float)A[0])),all(n,A[0]));
}
template<class V,class W> static void clamps(const char* T,const V& a,const W& lo,const W& hi)
{
    A=dv(a); B=dv(lo); D w=clip(A,B,dv(hi)); S=hi.x; V c=a; c.clamp(lo,hi); is(T,"clamp",dv(c),w); is(T,"clamped copy",dv(clamp(a,lo,hi)),w);
}
template<class P,class V> static void points(const char* T,const P& a,const P& b,const V& v)
{
    A=dv(a); B=dv(b); S=0;
    is(T,"+ vector",dv(a+v),map(A,B,f_add)); P c=a; c+=v; is(T,"+= vector",dv(c),map(A,B,f_add));
    is(T,"- vector",dv(a-v),map(A,B,f_sub)); c=a; c-=v; is(T,"-= vector",dv(c),map(A,B,f_sub));
    is(T,"- point",dv(a-b),map(A,B,f_sub));
    c=a; c.max(b); is(T,"max",dv(c),map(A,B,mx)); is(T,"max of two",dv(max(a,b)),map(A,B,mx));
    c=a; c.min(b); is(T,"min",dv(c),map(A,B,mn)); is(T,"min of two",dv(min(a,b)),map(A,B,mn));
    double d=sqrt(dotp(map(A,B,f_sub),map(A,B,f_sub))); is(T,"distance",a.distance(b),d); is(T,"distance of two",distance(a,b),d);
    is(T,"==",a==b,A==B); is(T,"!=",a!=b,A!=B);
    P q(a); for(size_t i=0;i<A.size();i++) { const P& k=a; is(T,"[]",k[(int)i],A[i]); q[(int)i]=(float)B[i]; D w=A; for(size_t j=0;j<=i;j++) w[j]=B[j]; is(T,"[] set",dv(q),w); }
    is(T,"from a number",dv(P((float)A[0])),all(A.size(),A[0]));
}
static void vectors(bool T)
{
    (void)T; std::vector<float>& L=LAT;
    for(float x:L) for(float y:L) if(vt::begin("vectors and points from %g,%g",x,y))
    {
        if(x==1&&y==0) vt::sample("%s",vt::sh()->desc);
        Vec2 a(x,y); vt::seen(vt::hash(&a,8)); single("Vec2",a); Point2 pa(x,y);
        for(float u:L) for(float w:L) { Vec2 b(u,w); pairs("Vec2",a,b); points("Point2",pa,Point2(u,w),b); if(u<=w) clamps("Vec2",a,Vec2(u,-w),Vec2(w,-u)); }
        for(float z:L)
        {
            Vec3 c(x,y,z); Normal n(x,y,z); Point3 p(x,y,z); vt::seen(vt::hash(&c,12)); single("Vec3",c); single("Normal",n); vt::beat();
            A=D{x,y,z}; B.clear(); is("Vec3","from two and one",dv(Vec3(a,z)),A); is("Normal","from two and one",dv(Normal(a,z)),A);
            is("Vec3","from normal",dv((Vec3)n),A); is("Normal","from vector",dv((Normal)c),A);
            for(int i=0;i<3;i++) { const Vec3& k=c; const Normal& m=n; is("Vec3","[]",k[i],A[i]); is("Normal","[]",m[i],A[i]); Vec3 q=c; q[i]=42; Normal r=n; r[i]=42; D w=A; w[i]=42; is("Vec3","[] set",dv(q),w); is("Normal","[] set",dv(r),w); }
            for(float u:L) for(float v:L) for(float w:L)
            {
                Vec3 d(u,v,w); Normal m(u,v,w); pairs("Vec3",c,d); pairs("Normal",n,m); points("Point3",p,Point3(u,v,w),d);
                A=D{x,y,z}; B=D{u,v,w}; double dt=dotp(A,B); is("Vec3","dot normal",c.dot(m),dt); is("Vec3","dot normal of two",dot(c,m),dt); is("Normal","dot vector",n.dot(d),dt); is("Normal","dot vector of two",dot(n,d),dt);
                is("Vec3","absdot",D{absdot(c,d),absdot(c,m),absdot(n,d),absdot(n,m)},all(4,fabs(dt)));
                D cr{A[1]*B[2]-A[2]*B[1],A[2]*B[0]-A[0]*B[2],A[0]*B[1]-A[1]*B[0]}; Vec3 o; c.cross(d,&o); is("Vec3","cross",dv(c.cross(d)),cr); is("Vec3","cross into",dv(o),cr); is("Vec3","cross of two",dv(cross(c,d)),cr);
                if(u<=v&&v<=w) { Vec3 lo(u,-w,v),hi(v,-u,w); clamps("Vec3",c,lo,hi); clamps("Normal",n,lo,hi); }
                A=D{x,y,z}; B=D{u,v,w}; Ray r(x,y,z,u,v,w); is("Ray","from numbers",D{r.origin.x,r.origin.y,r.origin.z,r.direction.x,r.direction.y,r.direction.z,(double)r.ricochet},D{x,y,z,u,v,w,0});
                AABB bx(p,Point3(u,v,w)); D lo=map(A,B,mn),hi=map(A,B,mx); if(lo==A) is("AABB","corners",D{bx.bounds[0].x,bx.bounds[0].y,bx.bounds[0].z,bx.bounds[1].x,bx.bounds[1].y,bx.bounds[1].z},D{lo[0],lo[1],lo[2],hi[0],hi[1],hi[2]});
            }
            AABB pt(p); is("AABB","of a point",D{pt.bounds[0].x,pt.bounds[0].y,pt.bounds[0].z,pt.bounds[1].x,pt.bounds[1].y,pt.bounds[1].z},D{x,y,z,x,y,z});
        }
    }
}
static void matrices(bool T)
{
    (void)T;
    for(int i=0;i<16;i++) if(vt::begin("matrices that differ in element %d",i)) for(float a:LAT) for(float b:LAT)
    {
        float f[16],g[16]; for(int k=0;k<16;k++) f[k]=g[k]=k*0.5f-3; f[i]=a; g[i]=b; Matrix4 m(f),n(g); vt::count("evaluations"); vt::seen(vt::hash(g,64,i));
        if((m==n)!=(a==b)||(m!=n)!=(a!=b)) vt::fail("Matrix4 ==","two matrices with %g and %g in element %d are %s and %s",a,b,i,m==n?"equal":"not equal",m!=n?"different":"not different");
        float o[16]; m.to_array(o); for(int k=0;k<16;k++) if(o[k]!=f[k]) vt::fail("Matrix4 to_array","element %d is %g instead of %g",k,o[k],f[k]);
    }
}
static void times(bool T)
{
    (void)T; const unsigned D1=86400;
    for(unsigned d=0;d<104;d++) if(vt::begin("times of day %u",d))
    {
        std::unique_ptr<char[]> buf(new char[MAX_TIME_FORMAT_LENGTH]); char* o=buf.get();
        for(unsigned k=0;k<D1;k++)
        {
            unsigned s=d==103?0u-1-k*49000:d*D1+k; memset(o,'x',MAX_TIME_FORMAT_LENGTH); format_seconds(s,o); vt::count("evaluations"); if(!(k&1023)) { vt::beat(); vt::seen(vt::hash(o,strnlen(o,MAX_TIME_FORMAT_LENGTH))); }
            if(!memchr(o,0,MAX_TIME_FORMAT_LENGTH)) { vt::fail("time end","%u seconds: the text does not end",s); continue; }
            if(s==0||s>=100*D1) { if(strcmp(o,s?MESSAGE_MORE_THAN_100_DAYS:MESSAGE_LESS_THAN_1_SECOND)) vt::fail("time limits","%u seconds are \"%s\"",s,o); continue; }
            unsigned long sum=0,last=~0ul; bool ok=true; const char* p=o;
            while(*p&&ok) { char* e; unsigned long n=strtoul(p,&e,10); unsigned long u=*e=='d'?D1:*e=='h'?3600:*e=='m'?60:*e=='s'?1:0; ok=e!=p&&u&&u<last&&(u==D1||n*u<(u==3600?D1:u*60)); last=u; sum+=n*u; p=e+(u?1:0); while(*p==' ') p++; }
            if(!ok||sum!=s) vt::fail("time","%u seconds are \"%s\"",s,o);
        }
    }
}
static void numbers(bool T)
{
    (void)T; std::vector<float> L={-1e6f,-100,-7.5f,-3,-1,-0.5f,-0.25f,0,0.25f,0.5f,1,2,3,7.5f,100,1e6f};
    A.clear(); B.clear();
    for(float a:L) if(vt::begin("numbers from %g",a)) for(float b:L)
    {
        S=b; A=D{a}; float x=a,y=b; swap(&x,&y); is("numbers","swap",D{x,y},D{b,a}); is("numbers","min",min(a,b),mn(a,b)); is("numbers","max",max(a,b),mx(a,b)); is("numbers","min of int",min((int)a,(int)b),mn((int)a,(int)b)); is("numbers","max of int",max((int)a,(int)b),mx((int)a,(int)b));
        is("numbers","sign",sign(a),a>=0?1:-1); is("numbers","equal",flt_equal(a,b),a==b); if(a!=0) is("numbers","linear equation",equation1(a,b),-(double)b/a);
        is("numbers","radians",radians(a),a*M_PI/180); is("numbers","degrees",degrees(a),a*180/M_PI);
        for(float c:L) { vt::seen(vt::hash(&c,4,vt::hash(&b,4,vt::hash(&a,4)))); if(b<=c) is("numbers","clamp",clamp(a,b,c),mn(mx(a,b),c)); if(a>=0&&a<=1&&fabs(b)<=100&&fabs(c)<=100) is("numbers","lerp",lerp(a,b,c),b+(double)a*(c-b)); if(b!=c&&fabs(b)<=100&&fabs(c)<=100) is("numbers","inverse lerp",inverse_lerp(a,b,c),(a-(double)b)/(c-(double)b)); }
        if(fabs(a)<=100&&fabs(b)<=100) for(float q:{-2.f,-1.f,-0.5f,0.5f,1.f,3.f})
        { // roots a and b
            float r=NAN,s=NAN; double bb=-(double)q*(a+b),cc=(double)q*a*b; bool h=equation2(q,(float)bb,(float)cc,&r,&s); S=q; B=D{b}; is("numbers","quadratic equation has roots",h,1);
            if(h) { double lo=mn(r,s),hi=mx(r,s),wl=mn(a,b),wh=mx(a,b); vt::count("evaluations"); if(!(fabs(lo-wl)<=1e-3*(1+fabs(wh)+fabs(wl))&&fabs(hi-wh)<=1e-3*(1+fabs(wh)+fabs(wl)))) vt::fail("quadratic equation","%gx^2+%gx+%g has the roots %g and %g instead of %g and %g",q,bb,cc,r,s,a,b); }
            double im=fabs(b)+0.5; h=equation2(q,(float)(-2.0*q*a),(float)(q*((double)a*a+im*im)),&r,&s); double dl=4.0*q*q*im*im; if(dl>0.01&&fabs(a)<=10) is("numbers","quadratic equation has no roots",h,0);
        }
    }
    for(unsigned m=1;m<=64;m++) if(vt::begin("multiples of %u",m)) for(unsigned n=0;n<=4096;n++)
    {
        unsigned r=nearest_uint(n,m); vt::count("evaluations"); unsigned d=r>n?r-n:n-r; if(r%m||2*d>m) vt::fail("multiple","the multiple of %u next to %u is %u",m,n,r);
    }
    if(vt::begin("byte orders of 16 bits")) for(unsigned k=0;k<65536;k++) { uint16_t r=swap_endianness((uint16_t)k); vt::count("evaluations"); if(r!=(uint16_t)(k<<8|k>>8)) vt::fail("endianness","%04x becomes %04x",k,r); }
    for(int h=0;h<256;h++) if(vt::begin("byte orders of 32 bits, %02x",h)) for(unsigned i=0;i<3*65536;i++)
    { // the first byte with every pair of the others
        unsigned char b[4]={(unsigned char)h,(unsigned char)i,(unsigned char)(i>>8),0x5a}; if(i>>16==1) std::swap(b[1],b[3]); if(i>>16==2) std::swap(b[2],b[3]); uint32_t v=(uint32_t)b[0]<<24|b[1]<<16|b[2]<<8|b[3],w=(uint32_t)b[3]<<24|b[2]<<16|b[1]<<8|b[0],r=swap_endianness(v);
        vt::count("evaluations"); if(r!=w) vt::fail("endianness","%08x becomes %08x",v,r);
        if(i<65536)
        {
            std::unique_ptr<uint8_t[]> o(new uint8_t[3]),src(new uint8_t[3]); uint32_t px=(uint32_t)b[2]<<24|(uint32_t)b[1]<<16|(uint32_t)b[0]<<8|b[3]; BGRAtoRGB(o.get(),&px,1); if(memcmp(o.get(),b,3)) vt::fail("pixel","the pixel %08x becomes %d,%d,%d",px,o[0],o[1],o[2]);
            memcpy(src.get(),b,3); std::unique_ptr<uint32_t[]> q(new uint32_t[1]); RGBtoBGRA(q.get(),src.get(),3); if(q[0]!=(px|255)) vt::fail("pixel","%d,%d,%d becomes %08x",b[0],b[1],b[2],q[0]);
        }
    }
    for(int n=0;n<=64;n++) if(vt::begin("rows of %d pixels",n))
    {
        std::vector<uint8_t> a(3*n+1),c(3*n+1,9); std::vector<uint32_t> b(n+1,0x01020304); for(int i=0;i<3*n;i++) a[i]=i*7+3; a[3*n]=0; RGBtoBGRA(b.data(),a.data(),3*n); BGRAtoRGB(c.data(),b.data(),n); vt::count("evaluations");
        if(b[n]!=0x01020304||c[3*n]!=9||memcmp(a.data(),c.data(),3*n)) vt::fail("pixels","%d pixels do not come back",n);
    }
}
static void arrays(bool T)
{
    std::vector<unsigned> L; for(unsigned s=1;s<=(T?300u:140u);s++) L.push_back(s); L.push_back(512); L.push_back(513); L.push_back(1025);
    for(unsigned s:L) if(vt::begin("arrays of %u by %u",s,s))
    {
        std::vector<int> v(s*s); for(size_t i=0;i<v.size();i++) v[i]=(int)(i*2654435761u>>3); Array2D<int> a(v.data(),s),c(a),e(s),f(1u); vt::count("evaluations",5*(int64_t)s*s); vt::seen(s);
        auto cmp=[&](const Array2D<int>& q,const char* w,int d) { for(unsigned y=0;y<s;y++) for(unsigned x=0;x<s;x++) if(q.get(x,y)!=(d?0:v[y*s+x])) { vt::fail(w,"element %u,%u is %d instead of %d",x,y,q.get(x,y),d?0:v[y*s+x]); return; } };
        cmp(a,"array",0); cmp(c,"copy of array",0); f=a; f=*&f; cmp(f,"assigned array",0); for(unsigned y=s;y-->0;) for(unsigned x=0;x<s;x++) e.set(x,y,v[y*s+x]); cmp(e,"array set",0);
        a.zero_out(); cmp(a,"cleared array",1); cmp(c,"copy of a cleared array",0); cmp(f,"array assigned before",0);
    }
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough();
    LAT=T?std::vector<float>{-3,-1,-0.5f,0,0.25f,1,1.5f,7}:std::vector<float>{-3,-1,0,0.25f,1,1.5f};
    vectors(T); matrices(T); times(T); numbers(T); arrays(T);
    return vt::finish();
}
