// scene building helpers shared by the geometry harnesses
#ifndef GEO_UTIL_HPP
#define GEO_UTIL_HPP
#include "vt.hpp"
#include "geometry/point3.hpp"
#include "geometry/vec3.hpp"
#include "geometry/matrix4.hpp"
#include "geometry/ray.hpp"
#include "primitives/asset.hpp"
#include "primitives/sphere.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include <cfloat>
#include <cmath>
#include <vector>
#include <memory>
#include <functional>
inline Matrix4 m_id() { Matrix4 m; m.set_identity(); return m; }
inline Matrix4 m_tr(float x,float y,float z) { Matrix4 m; m.set_translation(Vec3(x,y,z)); return m; }
inline Matrix4 m_sc(float x,float y,float z) { Matrix4 m; m.set_scale(Vec3(x,y,z)); return m; }
inline Matrix4 m_rot(float x,float y,float z)
{ Matrix4 a,b,c; a.set_rotate_x(x); b.set_rotate_y(y); c.set_rotate_z(z); a*=b; a*=c; return a; }
inline Matrix4 m_mul(Matrix4 a,const Matrix4& b) { a*=b; return a; }
inline Vertex vtx(float x,float y,float z,float nx,float ny,float nz,float u,float v)
{ Vertex r; r.p=Point3(x,y,z); r.n=Normal(nx,ny,nz); r.t=Point2(u,v); return r; }
// unit square in the plane z=0
inline Mesh* quad()
{
    Mesh* m=new Mesh(2);
    Vertex a=vtx(0,0,0,0,0,1,0,0),b=vtx(1,0,0,0,0,1,1,0),c=vtx(1,1,0,0,0,1,1,1),d=vtx(0,1,0,0,0,1,0,1);
    m->add_triangle(&a,&b,&c); m->add_triangle(&a,&c,&d);
    m->finalize();
    return m;
}
inline Mesh* slanted()
{
    Mesh* m=new Mesh(1);
    Vertex a=vtx(0,0,0,0,0,1,0,0),b=vtx(1,0.1f,0.2f,0,0,1,1,0),c=vtx(0.2f,1,0.9f,0,0,1,0,1);
    m->add_triangle(&a,&b,&c);
    m->finalize();
    return m;
}
#endif
