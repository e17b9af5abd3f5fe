SEEDS = []
SEEDS.append(dict(id='c18-flip-direction', property='C18',
  needs='light leaving a surface that does not face along one axis',
  breaks='light is emitted into the surface instead of away from it',
  edits=[('src/lights/area_light.cpp', '''    if(out->direction.dot(n)<0.f)
        out->direction *= -1.f;
''', '''    if(out->direction.dot(n)<0.f)
        out->direction.z *= -1.f;
''')],
  demo=r'''
#include "lights/area_light.hpp"
#include "primitives/sphere.hpp"
int main()
{
    Sphere s; Matrix4 m; m.set_scale(2.f); AreaLight l(&s,m,SPECTRUM_ONE);
    for(int i=0;i<8;i++) for(int j=0;j<8;j++) for(int k=0;k<8;k++) for(int h=0;h<8;h++)
    {
        Ray r; float pdf; l.sample_surface((i+.5f)/8,(j+.5f)/8,(k+.5f)/8,(h+.5f)/8,&r,&pdf);
        if(r.origin.x*r.direction.x+r.origin.y*r.direction.y+r.origin.z*r.direction.z<-1e-3f) return 1;
    }
    return 0;
}
'''))
SEEDS.append(dict(id='c18-right-face', property='C18',
  needs='a box shaped light, and a sample on its last face',
  breaks='samples gather in one part of that face, the rest of it never shines',
  edits=[('src/primitives/box.cpp', '''        p->z = inverse_lerp(res-densities[4], 0, densities[5]-densities[4]);
''', '''        p->z = inverse_lerp(res-densities[4], 0, densities[5]-densities[3]);
''')],
  demo=r'''
#include "primitives/box.hpp"
int main()
{
    Box b; Matrix4 m; m.set_identity(); float d[6]; b.get_densities_array(&m,d); Point3 p; Normal n; float mx=0;
    for(int i=0;i<6000;i++) { b.sample_point((i+.5f)/6000,0.5f,d,&p,&n); if(n.x==1) mx=p.z>mx?p.z:mx; }
    return mx>0.95f?0:1;
}
'''))
SEEDS.append(dict(id='c21-past-critical', property='C21',
  needs='a direction just past the angle of total reflection',
  breaks='a direction that is not a number is returned instead of refusing to refract',
  edits=[('src/geometry/vec3.cpp', '''bool Vec3::refract(const Normal& interface, float eta)
{
#ifdef DEBUG
    if(!interface.is_normalized())
        Console.warning(MESSAGE_REFRACT_NONORMALIZED);
#endif
    const float cosi = Vec3::dot(interface); //cos incident
    const float sin2i = ::max(0.f, (1.f-cosi*cosi));
    const float sin2t = sin2i*eta*eta;
    if(sin2t>1.f) //bail out if tir
''', '''bool Vec3::refract(const Normal& interface, float eta)
{
#ifdef DEBUG
    if(!interface.is_normalized())
        Console.warning(MESSAGE_REFRACT_NONORMALIZED);
#endif
    const float cosi = Vec3::dot(interface); //cos incident
    const float sin2i = ::max(0.f, (1.f-cosi*cosi));
    const float sin2t = sin2i*eta*eta;
    if(sin2i*eta>1.f) //bail out if tir
''')],
  demo=r'''
#include "geometry/vec3.hpp"
#include <cmath>
int main()
{
    Normal n(0,0,1);
    for(int i=0;i<=100;i++) for(float eta:{0.6f,1.f,1.5f,2.4f})
    {
        float s=i/100.f; Vec3 v(s,0,sqrtf(1-s*s)); bool tir=s*eta>1.0001f; if(fabsf(s*eta-1)<1e-3f) continue;
        if(v.refract(n,eta)==tir) return 1;
        if(!tir&&!std::isfinite(v.z)) return 2;
    }
    return 0;
}
'''))
SEEDS.append(dict(id='c27-zero-out', property='C27',
  needs='an array of elements larger than a byte',
  breaks='only the first part of the array is cleared',
  edits=[('src/utility/array2D.hpp', '''        memset(data, 0, sizeof(T)*array_len);
''', '''        memset(data, 0, array_len);
''')],
  demo=r'''
#include "settings.h"
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include "utility/array2D.hpp"
#include <vector>
int main()
{
    std::vector<int> v(70*70,5); Array2D<int> a(v.data(),70); a.zero_out();
    for(int y=0;y<70;y++) for(int x=0;x<70;x++) if(a.get(x,y)) return 1;
    return 0;
}
'''))
SEEDS.append(dict(id='c27-negative-roots', property='C27',
  needs='a quadratic equation whose two roots lie on different sides of 0 and whose first coefficient is negative',
  breaks='one of the roots is wrong',
  edits=[('src/utility/utility.hpp', '''        if(b<0)
            q = -0.5f*(b-sqrtf(delta));
''', '''        if(b<0 && a>0)
            q = -0.5f*(b-sqrtf(delta));
        else if(b<0)
            q = 0.5f*(b-sqrtf(delta));
''')],
  demo=r'''
#include "utility/utility.hpp"
int main()
{
    for(float a:{-2.f,-1.f,1.f,3.f}) for(float r:{-2.f,1.f,4.f}) for(float s:{-3.f,0.5f,6.f})
    {
        float x,y; if(!equation2(a,-a*(r+s),a*r*s,&x,&y)) return 1;
        if(!(fabsf(min(x,y)-min(r,s))<1e-3f&&fabsf(max(x,y)-max(r,s))<1e-3f)) return 2;
    }
    return 0;
}
'''))
