// C21: transformations, boxes and directions against double arithmetic
#include "d3.hpp"
#include "geometry/AABB.hpp"
#include <limits>
struct M { double a[4][4]; };
static M dm(const Matrix4& m) { M r; float v[16]; m.to_array(v); for(int i=0;i<16;i++) r.a[i/4][i%4]=v[i]; return r; }
static M mul(const M& x,const M& y) { M r; for(int i=0;i<4;i++) for(int j=0;j<4;j++) { r.a[i][j]=0; for(int k=0;k<4;k++) r.a[i][j]+=x.a[i][k]*y.a[k][j]; } return r; }
static M absm(const M& x) { M r; for(int i=0;i<16;i++) r.a[i/4][i%4]=fabs(x.a[i/4][i%4]); return r; }
static bool invd(const M& x,M& r,double& det)
{
    double a[4][8]; for(int i=0;i<4;i++) for(int j=0;j<8;j++) a[i][j]=j<4?x.a[i][j]:(j-4==i);
    det=1;
    for(int c=0;c<4;c++)
    {
        int p=c; for(int i=c;i<4;i++) if(fabs(a[i][c])>fabs(a[p][c])) p=i;
        if(a[p][c]==0) { det=0; return false; }
        if(p!=c) { det=-det; for(int j=0;j<8;j++) std::swap(a[p][j],a[c][j]); }
        det*=a[c][c]; double k=1/a[c][c]; for(int j=0;j<8;j++) a[c][j]*=k;
        for(int i=0;i<4;i++) if(i!=c) { double f=a[i][c]; for(int j=0;j<8;j++) a[i][j]-=f*a[c][j]; }
    }
    for(int i=0;i<4;i++) for(int j=0;j<4;j++) r.a[i][j]=a[i][j+4];
    return true;
}
static const double E=1.2e-7;
static void near_m(const char* key,const Matrix4& got,const M& want,const M& scale,double k)
{
    M g=dm(got); vt::count("evaluations");
    for(int i=0;i<4;i++) for(int j=0;j<4;j++)
        if(!(fabs(g.a[i][j]-want.a[i][j])<=k*E*scale.a[i][j]+1e-37)) { vt::fail(key,"element %d,%d is %.9g instead of %.9g",i,j,g.a[i][j],want.a[i][j]); return; }
}
static const double PT[][3]={{0,0,0},{1,0,0},{0,1,0},{0,0,1},{-1,2,0.5},{30,-7,11},{0.01,0.02,-0.03}};
static void matrix(const Matrix4& m,const M& e,const M& ea,int depth)
{
    M d=dm(m); vt::seen(vt::hash(&m,sizeof m)); vt::count("states");
    near_m("product",m,e,ea,8*depth+2);
    Matrix4 t; m.transpose(&t); vt::count("evaluations");
    M td=dm(t); for(int i=0;i<4;i++) for(int j=0;j<4;j++) if(td.a[i][j]!=d.a[j][i]) vt::fail("transpose","element %d,%d",i,j);
    double mx=0; for(int i=0;i<16;i++) mx=std::max(mx,fabs(d.a[i/4][i%4]));
    // points and directions
    for(auto& p:PT)
    {
        Point3 q=m*Point3((float)p[0],(float)p[1],(float)p[2]); Vec3 v=m*Vec3((float)p[0],(float)p[1],(float)p[2]); float P[3]={(float)p[0],(float)p[1],(float)p[2]};
        Ray r=m*Ray(Point3(P[0],P[1],P[2]),Vec3(P[2],P[0],P[1]));
        vt::count("evaluations",3);
        for(int i=0;i<3;i++)
        {
            double w=0,s=0,rv=0,rs=0; for(int k=0;k<3;k++) { w+=d.a[i][k]*P[k]; s+=fabs(d.a[i][k]*P[k]); rv+=d.a[i][k]*P[(k+2)%3]; rs+=fabs(d.a[i][k]*P[(k+2)%3]); }
            if(!(fabs(v[i]-w)<=4*E*s+1e-37)) vt::fail("vector","component %d of a direction is %.9g instead of %.9g",i,v[i],w);
            if(!(fabs(r.direction[i]-rv)<=4*E*rs+1e-37)) vt::fail("ray","component %d of the direction of a ray is %.9g instead of %.9g",i,r.direction[i],rv);
            w+=d.a[i][3]; s+=fabs(d.a[i][3]);
            if(!(fabs(q[i]-w)<=5*E*s+1e-37)) vt::fail("point","component %d of a point is %.9g instead of %.9g",i,q[i],w);
            if(!(fabs(r.origin[i]-w)<=5*E*s+1e-37)) vt::fail("ray","component %d of the origin of a ray is %.9g instead of %.9g",i,r.origin[i],w);
        }
    }
    Vec3 tr=m.get_translation(),sc=m.get_scale(); vt::count("evaluations",2);
    for(int i=0;i<3;i++)
    {
        if(tr[i]!=d.a[i][3]) vt::fail("translation","component %d is %.9g instead of %.9g",i,tr[i],d.a[i][3]);
        double l=sqrt(d.a[0][i]*d.a[0][i]+d.a[1][i]*d.a[1][i]+d.a[2][i]*d.a[2][i]);
        if(l>1e-15 && !(fabs(sc[i]-l)<=1e-6*l)) vt::fail("scale","component %d is %.9g instead of %.9g",i,sc[i],l);
    }
    // inverse
    M id; double det; if(!invd(d,id,det) || fabs(det)<1e-30 || fabs(det)>1e30) return;
    M ad=absm(d),ai=absm(id); double cond=0,n1=0,n2=0; for(int i=0;i<3;i++) { double s=0,u=0; for(int j=0;j<3;j++) { s+=ad.a[i][j]; u+=ai.a[i][j]; } n1=std::max(n1,s); n2=std::max(n2,u); }
    cond=n1*n2; if(cond>3e4) return; // too ill conditioned for single precision
    Matrix4 inv; memset((void*)&inv,0x7f,sizeof inv);
    vt::count("evaluations");
    if(!m.inverse(&inv)) { vt::fail("inverse refused","a transformation with determinant %g, that can be undone, was not inverted",det); return; }
    M bound=mul(mul(ai,ad),ai); for(int i=0;i<3;i++) for(int j=0;j<3;j++) bound.a[i][j]=std::max(bound.a[i][j],n2); 
    M ib; for(int i=0;i<4;i++) for(int j=0;j<4;j++) { double tl=0; if(j==3&&i<3) for(int k=0;k<3;k++) tl+=n2*cond*fabs(d.a[k][3]); ib.a[i][j]=bound.a[i][j]*cond+tl; }
    near_m("inverse",inv,id,ib,30);
    // normals stay perpendicular to the surface and on its side
    static const double T[][3]={{1,0,0},{0,1,0},{0,0,1},{1,1,0},{-1,0.5,2},{0.3,-0.2,0.9}};
    for(auto& a:T) for(auto& b:T)
    {
        D3 u=d3(a[0],a[1],a[2]),v=d3(b[0],b[1],b[2]),n=crs(u,v); double l=sqrt(dt(n,n)); if(l<1e-9) continue; n=n*(1/l);
        Normal q=transform_normal(Normal((float)n[0],(float)n[1],(float)n[2]),&inv); D3 qd=D(q); double ql=sqrt(dt(qd,qd));
        D3 mu=D(m*Vec3((float)u[0],(float)u[1],(float)u[2])),mv=D(m*Vec3((float)v[0],(float)v[1],(float)v[2])),mn=D(m*Vec3((float)n[0],(float)n[1],(float)n[2]));
        vt::count("evaluations");
        double tol=1e-4*std::max(1.0,cond*0.01); if(tol>0.05) continue;
        double eu=fabs(dt(mu,qd))/(ql*sqrt(dt(mu,mu))),ev=fabs(dt(mv,qd))/(ql*sqrt(dt(mv,mv)));
        if(!(eu<=tol) || !(ev<=tol)) vt::fail("normal","the transformed normal is off the perpendicular by %g",std::max(eu,ev));
        if(!(dt(mn,qd)>0)) vt::fail("normal","the transformed normal points to the other side of the surface");
    }
}
struct Step { const char* n; Matrix4 m; };
static void transforms(const std::vector<Step>& al,int depth)
{
    std::vector<int> ix;
    // all sequences of up to depth steps, grouped by their first two steps
    std::function<void(const Matrix4&,const M&,const M&,int)> go=[&](const Matrix4& m,const M& e,const M& ea,int k)
    {
        matrix(m,e,ea,k);
        if(k>=depth) return;
        for(auto& s:al)
        {
            M se=dm(s.m); Matrix4 n=m; n*=s.m; Matrix4 n2; mul(&m,&s.m,&n2); Matrix4 n3=m*s.m;
            vt::count("transitions");
            if(memcmp(&n,&n2,sizeof n)||memcmp(&n,&n3,sizeof n)) { M a=dm(n),b=dm(n2),c=dm(n3),w=mul(dm(m),se),sc=mul(absm(dm(m)),absm(se)); near_m("product forms",n2,w,sc,8); near_m("product forms",n3,w,sc,8); (void)a;(void)b;(void)c; }
            go(n,mul(e,se),mul(ea,absm(se)),k+1);
        }
    };
    for(size_t i=0;i<al.size();i++)
    {
        if(vt::begin("%s",al[i].n)) matrix(al[i].m,dm(al[i].m),absm(dm(al[i].m)),1);
        for(size_t j=0;j<al.size();j++)
        {
            if(!vt::begin("sequences of up to %d steps that start with %s, %s",depth,al[i].n,al[j].n)) continue;
            M a=dm(al[i].m),b=dm(al[j].m); Matrix4 m=al[i].m; m*=al[j].m; vt::count("transitions");
            go(m,mul(a,b),mul(absm(a),absm(b)),2);
            // sums and differences
            for(int q=0;q<2;q++)
            {
                Matrix4 s=q?al[i].m-al[j].m:al[i].m+al[j].m,s2=al[i].m,s3; if(q) { s2-=al[j].m; sub(&al[i].m,&al[j].m,&s3); } else { s2+=al[j].m; sum(&al[i].m,&al[j].m,&s3); }
                M w,z; for(int x=0;x<4;x++) for(int y=0;y<4;y++) { w.a[x][y]=q?a.a[x][y]-b.a[x][y]:a.a[x][y]+b.a[x][y]; z.a[x][y]=fabs(a.a[x][y])+fabs(b.a[x][y]); }
                near_m(q?"difference":"sum",s,w,z,1); near_m(q?"difference":"sum",s2,w,z,1); near_m(q?"difference":"sum",s3,w,z,1);
            }
        }
    }
}
// the elementary matrices themselves
static void elementary()
{
    static const float an[]={0,0.1f,0.5f,1.1f,(float)(M_PI/2),2.5f,(float)M_PI,-0.7f,-2.2f,7,100};
    for(int ax=0;ax<3;ax++) for(float t:an)
    {
        Matrix4 m; if(ax==0) m.set_rotate_x(t); else if(ax==1) m.set_rotate_y(t); else m.set_rotate_z(t);
        double c=cos((double)t),s=sin((double)t); M e; memset(&e,0,sizeof e); for(int i=0;i<4;i++) e.a[i][i]=1;
        int i=(ax+1)%3,j=(ax+2)%3; e.a[i][i]=e.a[j][j]=c; e.a[i][j]=-s; e.a[j][i]=s; // turns axis i towards axis j
        M one; for(int k=0;k<16;k++) one.a[k/4][k%4]=1; near_m("rotation",m,e,one,4);
    }
    static const float v[]={0,1,-1,0.001f,1000,-3.5f};
    for(float x:v) for(float y:v) for(float z:v)
    {
        M e,one; for(int k=0;k<16;k++) one.a[k/4][k%4]=0; Matrix4 m;
        memset(&e,0,sizeof e); for(int i=0;i<4;i++) e.a[i][i]=1; e.a[0][3]=x; e.a[1][3]=y; e.a[2][3]=z; m.set_translation(Vec3(x,y,z)); near_m("translation matrix",m,e,one,1);
        memset(&e,0,sizeof e); e.a[0][0]=x; e.a[1][1]=y; e.a[2][2]=z; e.a[3][3]=1; m.set_scale(Vec3(x,y,z)); near_m("scale matrix",m,e,one,1);
        if(x==0||y==0||z==0) { Matrix4 o; vt::count("evaluations"); if(m.inverse(&o)) vt::fail("inverse of a singular matrix","a scale by %g, %g, %g was inverted",x,y,z); }
        else { Matrix4 o; M w; memset(&w,0,sizeof w); w.a[0][0]=1.0/x; w.a[1][1]=1.0/y; w.a[2][2]=1.0/z; w.a[3][3]=1; if(!m.inverse(&o)) vt::fail("inverse refused","a scale by %g, %g, %g was not inverted",x,y,z); else near_m("inverse",o,w,absm(w),8); }
        if(x==y&&y==z) { M w; memset(&w,0,sizeof w); w.a[0][0]=w.a[1][1]=w.a[2][2]=x; w.a[3][3]=1; m.set_scale(x); near_m("scale matrix",m,w,one,1); }
    }
    Matrix4 m; M z; memset(&z,0,sizeof z); m.set_zero(); near_m("zero matrix",m,z,z,1); for(int i=0;i<4;i++) z.a[i][i]=1; m.set_identity(); near_m("identity matrix",m,z,z,1);
}
// matrices of all kinds, projective ones included: three elements of the identity replaced
static void general(bool T)
{
    std::vector<float> L={-2,0.5f,3}; if(T) { L.push_back(0); L.push_back(-1); }
    float base[4][16]={{1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1},{2,1,0,0,0,3,1,0,0,0,1,1,1,0,0,2},{0,1,0,0,0,0,1,0,0,0,0,1,1,0,0,0},{1,2,3,4,2,-1,1,0.5f,-3,1,2,1,0.25f,1,-1,2}};
    for(int i=0;i<16;i++) for(int j=0;j<16;j++) if(vt::begin("matrices with elements %d and %d and another one",i,j)) for(int k=0;k<16;k++) for(int b=0;b<4;b++) for(float x:L) for(float y:L) for(float z:L)
    {
        float f[16]; memcpy(f,base[b],64); f[i]=x; f[j]=y; f[k]=z; Matrix4 m(f),o,t; M d=dm(m),w,tr; double det; vt::seen(vt::hash(f,64));
        for(int r=0;r<4;r++) for(int c=0;c<4;c++) tr.a[r][c]=d.a[c][r]; m.transpose(&t); near_m("transpose",t,tr,tr,0);
        bool ok=invd(d,w,det); if(fabs(det)<1e-6) ok=false; bool g=m.inverse(&o);
        if(ok) { if(!g) vt::fail("inverse refused","a matrix with the determinant %g was not inverted",det); else { M sc,aw=absm(w),a=mul(mul(aw,absm(d)),aw); for(int q=0;q<16;q++) sc.a[q/4][q%4]=a.a[q/4][q%4]+aw.a[q/4][q%4]+40/fabs(det); near_m("inverse",o,w,sc,30); Matrix4 s=m; s.inverse(&s); near_m("inverse into itself",s,dm(o),sc,0); } }
        if(x==y&&y==z) for(int c=0;c<4;c++) { Matrix4 n(base[c]),p=m*n,q=m,s=m+n,u=m-n; M e=dm(n),pw=mul(d,e),ps=mul(absm(d),absm(e)); near_m("product",p,pw,ps,8); q*=n; near_m("product",q,pw,ps,8); M sw,uw,one; for(int h=0;h<16;h++) { sw.a[h/4][h%4]=d.a[h/4][h%4]+e.a[h/4][h%4]; uw.a[h/4][h%4]=d.a[h/4][h%4]-e.a[h/4][h%4]; one.a[h/4][h%4]=10; } near_m("sum",s,sw,one,2); near_m("difference",u,uw,one,2); q=m; q+=n; near_m("sum",q,sw,one,2); q=m; q-=n; near_m("difference",q,uw,one,2); }
    }
}
// camera frame
static void lookat(bool T)
{
    static const float c[]={-3,0,0.5f,10}; static const float ups[][3]={{0,1,0},{0,0,1},{1,0,0},{0,2,0},{0.6f,0.8f,0},{1,1,1},{0,-1,0}};
    std::vector<D3> ps; for(float x:c) for(float y:c) for(float z:c) ps.push_back(d3(x,y,z));
    for(auto& up:ups)
    {
        if(!vt::begin("view frames with up %g,%g,%g",up[0],up[1],up[2])) continue;
        for(size_t a=0;a<ps.size();a++) for(size_t b=0;b<ps.size();b++)
        {
            if(!T && (a*7+b)%3) continue;
            D3 dir=ps[b]-ps[a]; double l=sqrt(dt(dir,dir)); if(l<1e-9) continue; dir=dir*(1/l); D3 u=nrm(d3(up[0],up[1],up[2])); D3 left=crs(u,dir); if(dt(left,left)<1e-3) continue; left=nrm(left); D3 nu=crs(dir,left);
            Matrix4 m; m.set_lookAt_inverse(Point3((float)ps[a][0],(float)ps[a][1],(float)ps[a][2]),Point3((float)ps[b][0],(float)ps[b][1],(float)ps[b][2]),Vec3(up[0],up[1],up[2]));
            M e; memset(&e,0,sizeof e); for(int i=0;i<3;i++) { e.a[i][0]=left[i]; e.a[i][1]=nu[i]; e.a[i][2]=dir[i]; e.a[i][3]=ps[a][i]; } e.a[3][3]=1;
            M one; for(int k=0;k<16;k++) one.a[k/4][k%4]=1; near_m("view frame",m,e,one,200);
        }
    }
}
static bool nearly(double a,double b,double t) { return fabs(a-b)<=t; }
static void boxes(bool T)
{
    struct I { float a,b; }; std::vector<I> iv; static const float c[]={-1,0,2,4}; int nc=T?4:3; for(int i=0;i<nc;i++) for(int j=i;j<nc;j++) iv.push_back(I{c[i],c[j]});
    static const float oc[]={-2,-1,-0.5f,0,1,2,3}; static const float dc[]={0,-0.0f,1,-1,0.5f,-4}; static const float gd[]={0.3f,-0.7f,1.7f,0,-0.0f};
    for(size_t x=0;x<iv.size();x++) for(size_t y=0;y<iv.size();y++)
    {
        if(!vt::begin("boxes with x from %g to %g, y from %g to %g",iv[x].a,iv[x].b,iv[y].a,iv[y].b)) continue;
        for(size_t z=0;z<iv.size();z++)
        {
            float lo[3]={iv[x].a,iv[y].a,iv[z].a},hi[3]={iv[x].b,iv[y].b,iv[z].b}; AABB b(Point3(lo[0],lo[1],lo[2]),Point3(hi[0],hi[1],hi[2])); vt::seen(vt::hash(lo,12,vt::hash(hi,12)));
            double dx=hi[0]-lo[0],dy=hi[1]-lo[1],dz=hi[2]-lo[2]; vt::count("evaluations",4);
            if(!nearly(b.surface(),2*(dx*dy+dx*dz+dy*dz),1e-4)) vt::fail("surface","%g instead of %g",b.surface(),2*(dx*dy+dx*dz+dy*dz));
            if(!nearly(b.volume(),dx*dy*dz,1e-4)) vt::fail("volume","%g instead of %g",b.volume(),dx*dy*dz);
            int la=b.longest_axis(); double dd[3]={dx,dy,dz}; if(la<0||la>2||dd[la]<std::max(dx,std::max(dy,dz))) vt::fail("longest axis","axis %d",la);
            Point3 ce=b.center(); for(int i=0;i<3;i++) if(!nearly(ce[i],(lo[i]+hi[i])*0.5,1e-6)) vt::fail("center","component %d is %g",i,ce[i]);
            for(float e:{0.0f,0.5f,3.0f}) { AABB q=b; q.expand(e); vt::count("evaluations"); for(int i=0;i<3;i++) if(q.bounds[0][i]!=lo[i]-e||q.bounds[1][i]!=hi[i]+e) vt::fail("expand","axis %d by %g",i,e); }
            // points and growth
            for(float px:oc) for(float py:oc) for(float pz:oc)
            {
                float P[3]={px,py,pz}; Point3 p(px,py,pz); bool in=true; for(int i=0;i<3;i++) in=in&&P[i]>=lo[i]&&P[i]<=hi[i];
                vt::count("evaluations",3); if(b.inside(&p)!=in) vt::fail("inside","the point %g,%g,%g",px,py,pz);
                AABB g1=b,g2=b,g3=b,g4=b+p; g1.engulf(p); g2.engulf(&p); g3+=p; const AABB* gs[4]={&g1,&g2,&g3,&g4};
                for(auto g:gs) for(int i=0;i<3;i++) if(g->bounds[0][i]!=std::min(lo[i],P[i])||g->bounds[1][i]!=std::max(hi[i],P[i])) vt::fail("engulf","the point %g,%g,%g",px,py,pz);
            }
            for(auto& o:iv)
            {
                float l2[3]={o.a,o.a,-1},h2[3]={o.b,o.b,-0.5f}; AABB q(Point3(l2[0],l2[1],l2[2]),Point3(h2[0],h2[1],h2[2]));
                AABB g1=b,g2=b,g3=b,g4=b+q,g5; g1.engulf(q); g2.engulf(&q); g3+=q; g5+=b; g5.engulf(q); const AABB* gs[5]={&g1,&g2,&g3,&g4,&g5}; vt::count("evaluations");
                for(auto g:gs) for(int i=0;i<3;i++) if(g->bounds[0][i]!=std::min(lo[i],l2[i])||g->bounds[1][i]!=std::max(hi[i],h2[i])) vt::fail("engulf a box","axis %d",i);
                bool lt=b.surface()<q.surface(),gt=q.surface()<b.surface(); 
                if((b<q)!=lt||(b>q)!=gt||(b<=q)!=!gt||(b>=q)!=!lt||(b==q)!=(!lt&&!gt)||(b!=q)!=(lt||gt)) vt::fail("comparison","boxes of surface %g and %g",b.surface(),q.surface());
            }
            // rays
            for(float ox:oc) for(float oy:oc) for(float oz:oc) for(int kx=0;kx<11;kx++) for(int ky=0;ky<11;ky++) for(int kz=0;kz<11;kz++)
            {
                bool g=kx>=6; if((ky>=6)!=g||(kz>=6)!=g) continue;
                if(!T && (kx*5+ky*3+kz+(int)(2*ox+3*oy+5*oz)+100)%3) continue;
                float O[3]={ox,oy,oz},Dr[3]={g?gd[kx-6]:dc[kx],g?gd[ky-6]:dc[ky],g?gd[kz-6]:dc[kz]};
                if(Dr[0]==0&&Dr[1]==0&&Dr[2]==0) continue;
                double in=-INFINITY,out=INFINITY; bool miss=false,graze=false; double a[3],c2[3];
                for(int i=0;i<3;i++)
                {
                    a[i]=-INFINITY; c2[i]=INFINITY;
                    if(Dr[i]==0) { if(O[i]<lo[i]||O[i]>hi[i]) miss=true; else if(O[i]==lo[i]||O[i]==hi[i]) graze=true; }
                    else { double t1=(lo[i]-O[i])/(double)Dr[i],t2=(hi[i]-O[i])/(double)Dr[i]; a[i]=std::min(t1,t2); c2[i]=std::max(t1,t2); }
                    in=std::max(in,a[i]); out=std::min(out,c2[i]);
                }
                double tol=g?1e-5:0; if(!miss && in>out+tol) miss=true;
                else if(!miss && fabs(in-out)<=tol) { int n=0,w=-1; for(int i=0;i<3;i++) if(a[i]>=in-tol||c2[i]<=out+tol) { n++; w=i; } if(n!=1||lo[w]!=hi[w]) graze=true; }
                Ray r(Point3(O[0],O[1],O[2]),Vec3(Dr[0],Dr[1],Dr[2])); RayProperties rp(r); float p1=-77,p2=-77,q1=-77,q2=-77;
                bool h1=b.intersect(&r,&p1,&p2),h2=b.intersect(&r,&rp,&q1,&q2); vt::count("evaluations",2);
                if(miss) { if(h1||h2) vt::fail("ray beside the box","from %g,%g,%g along %g,%g,%g hits the box (%d, prepared %d)",ox,oy,oz,Dr[0],Dr[1],Dr[2],h1,h2); continue; }
                if(graze) continue;
                double t2=1e-5*(1+fabs(in)+fabs(out));
                if(!h1||!h2) vt::fail("ray through the box","from %g,%g,%g along %g,%g,%g misses the box (hit %d, prepared %d)",ox,oy,oz,Dr[0],Dr[1],Dr[2],h1,h2);
                if(h1&&(!nearly(p1,in,t2)||!nearly(p2,out,t2))) vt::fail("distances","from %g,%g,%g along %g,%g,%g enters at %g and leaves at %g instead of %g and %g",ox,oy,oz,Dr[0],Dr[1],Dr[2],p1,p2,in,out);
                if(h2&&(!nearly(q1,in,t2)||!nearly(q2,out,t2))) vt::fail("distances, prepared","from %g,%g,%g along %g,%g,%g enters at %g and leaves at %g instead of %g and %g",ox,oy,oz,Dr[0],Dr[1],Dr[2],q1,q2,in,out);
            }
        }
        vt::beat();
    }
}
// reflection and refraction of directions
static void directions(int nd)
{
    std::vector<D3> ds; for(int i=0;i<nd;i++) { double z=1-2*(i+0.5)/nd,p=i*2.399963,s=sqrt(1-z*z); ds.push_back(d3(s*cos(p),s*sin(p),z)); }
    for(int i=0;i<6;i++) { D3 q=d3(0,0,0); q[i/2]=i%2?-1:1; ds.push_back(q); }
    static const float eta[]={0.4f,0.66f,1,1.33f,2.5f};
    for(auto& n:ds)
    {
        if(!vt::begin("directions about %g,%g,%g",n[0],n[1],n[2])) continue;
        for(auto& s:ds)
        {
            Vec3 vn((float)n[0],(float)n[1],(float)n[2]),vs((float)s[0],(float)s[1],(float)s[2]); Normal nn((float)n[0],(float)n[1],(float)n[2]); D3 w=s-n*(2*dt(s,n)); vt::seen(vt::hash(&vs,12,vt::hash(&vn,12)));
            Vec3 r[4]; r[0]=reflect(vs,vn); r[1]=reflect(vs,nn); r[2]=vs; r[2].reflect(vn); r[3]=vs; r[3].reflect(nn); vt::count("evaluations",4);
            for(auto& q:r) { D3 e=D(q)-w; if(!(sqrt(dt(e,e))<=2e-6)) vt::fail("reflection","off by %g",sqrt(dt(e,e))); }
            double ci=dt(s,n); 
            D3 c=crs(s,n),cf=D(vs.cross(vn)),cg=D(cross(vs,vn)); vt::count("evaluations",2);
            if(sqrt(dt(c-cf,c-cf))>1e-6||sqrt(dt(c-cg,c-cg))>1e-6) vt::fail("cross product","off by %g",sqrt(dt(c-cf,c-cf)));
            if(fabs(dot(vs,vn)-ci)>1e-6||fabs(vs.dot(nn)-ci)>1e-6||fabs(absdot(vs,vn)-fabs(ci))>1e-6||fabs(nn.dot(vs)-ci)>1e-6) vt::fail("dot product","off");
            if(ci<=0.02) continue;
            for(float e:eta)
            {
                double st2=(1-ci*ci)*e*e; if(fabs(st2-1)<1e-4) continue;
                Vec3 q[4]; bool ok[2]; q[0]=refract(vs,vn,e); q[1]=refract(vs,nn,e); q[2]=vs; ok[0]=q[2].refract(vn,e); q[3]=vs; ok[1]=q[3].refract(nn,e); vt::count("evaluations",4);
                if(st2>1)
                {
                    if(q[0].x!=0||q[0].y!=0||q[0].z!=0||q[1].x!=0||q[1].y!=0||q[1].z!=0||ok[0]||ok[1]||memcmp(&q[2],&vs,sizeof vs)||memcmp(&q[3],&vs,sizeof vs)) vt::fail("total reflection","a direction was refracted though all is reflected");
                    continue;
                }
                if(!ok[0]||!ok[1]) vt::fail("refraction refused","sine %g",sqrt(st2));
                double tol=3e-6/std::max(0.01,sqrt(1-st2));
                for(auto& v:q)
                {
                    D3 x=D(v); D3 tang=x-n*dt(x,n),want=(s-n*ci)*(-(double)e); D3 df=tang-want;
                    if(!(fabs(dt(x,x)-1)<=tol) || !(dt(x,n)<0) || !(sqrt(dt(df,df))<=tol)) vt::fail("refraction","length %g, side %g, sine off by %g",sqrt(dt(x,x)),dt(x,n),sqrt(dt(df,df)));
                }
            }
            for(float t:{0.0f,-2.0f,0.5f,1000.0f}) { Ray ry(Point3(1,2,3),vs); Point3 p=ry.apply(t); D3 want=d3(1,2,3)+s*t,e=D(p)-want; vt::count("evaluations"); if(!(sqrt(dt(e,e))<=3e-7*(4+fabs(t)))) vt::fail("point of a ray","off by %g",sqrt(dt(e,e))); }
        }
    }
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); const bool T=vt::thorough();
    std::vector<Step> al; auto A=[&](const char* n,const Matrix4& m){ al.push_back(Step{n,m}); };
    A("move 1,2,3",m_tr(1,2,3)); A("move -100,0.5,0",m_tr(-100,0.5f,0)); A("double",m_sc(2,2,2)); A("a hundredth",m_sc(0.01f,0.01f,0.01f)); A("a hundred times",m_sc(100,100,100));
    A("stretch 1,3,0.5",m_sc(1,3,0.5f)); A("mirror x",m_sc(-1,1,1)); A("turn x 30",m_rot((float)(M_PI/6),0,0)); A("turn y 1.1",m_rot(0,1.1f,0)); A("turn z -2.3",m_rot(0,0,-2.3f)); A("turn x 90",m_rot((float)(M_PI/2),0,0));
    Matrix4 la; la.set_lookAt_inverse(Point3(1,-2,0.5f),Point3(4,0,7),Vec3(0,1,0)); A("view frame",la);
    float g[16]={2,0,1,0.5f, 0,3,0,-1, 1,0,1,4, 0,0,0,1}; A("shear",Matrix4(g));
    if(vt::begin("elementary matrices")) elementary();
#ifdef __SANITIZE_ADDRESS__
    transforms(al,T?5:4);
#else
    transforms(al,T?6:5);
#endif
    general(T);
    lookat(T);
    boxes(T);
    directions(T?300:120);
    return vt::finish();
}
