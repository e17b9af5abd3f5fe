// double precision vectors and affine maps of the reference computations
#ifndef D3_HPP
#define D3_HPP
#include "geo_util.hpp"
#include <algorithm>
struct D3 { double v[3]; double& operator[](int i) { return v[i]; } double operator[](int i) const { return v[i]; } };
inline D3 d3(double x,double y,double z) { D3 r={{x,y,z}}; return r; }
inline D3 operator+(D3 a,D3 b) { return d3(a[0]+b[0],a[1]+b[1],a[2]+b[2]); }
inline D3 operator-(D3 a,D3 b) { return d3(a[0]-b[0],a[1]-b[1],a[2]-b[2]); }
inline D3 operator*(D3 a,double k) { return d3(a[0]*k,a[1]*k,a[2]*k); }
inline double dt(D3 a,D3 b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline D3 crs(D3 a,D3 b) { return d3(a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]); }
inline D3 nrm(D3 a) { double l=sqrt(dt(a,a)); return l>0?a*(1/l):a; }
inline D3 D(const Point3& p) { return d3(p.x,p.y,p.z); }
inline D3 D(const Vec3& p) { return d3(p.x,p.y,p.z); }
inline D3 D(const Normal& p) { return d3(p.x,p.y,p.z); }
struct Aff
{
    D3 c[3],o; D3 r[3]; // columns, origin, rows of the inverse
    D3 pt(D3 p) const { return c[0]*p[0]+c[1]*p[1]+c[2]*p[2]+o; }
    D3 vec(D3 p) const { return c[0]*p[0]+c[1]*p[1]+c[2]*p[2]; }
    D3 ivec(D3 p) const { return d3(dt(r[0],p),dt(r[1],p),dt(r[2],p)); }
    D3 ipt(D3 p) const { return ivec(p-o); }
    D3 nor(D3 n) const { return nrm(r[0]*n[0]+r[1]*n[1]+r[2]*n[2]); }
};
inline Aff aff(const Matrix4& m)
{
    Aff a; a.o=D(m*Point3(0,0,0)); a.c[0]=D(m*Vec3(1,0,0)); a.c[1]=D(m*Vec3(0,1,0)); a.c[2]=D(m*Vec3(0,0,1));
    double det=dt(a.c[0],crs(a.c[1],a.c[2])); a.r[0]=crs(a.c[1],a.c[2])*(1/det); a.r[1]=crs(a.c[2],a.c[0])*(1/det); a.r[2]=crs(a.c[0],a.c[1])*(1/det);
    return a;
}
#endif
