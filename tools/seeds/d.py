SEEDS = []
SEEDS.append(dict(id='c02-last-row', property='C02',
  needs='a picture whose height is one more than a multiple of the size of an area',
  breaks='the last row is never sampled and stays black',
  edits=[('src/renderer.cpp', '''    for(int y = 0; y<height; y += SPLIT_SIZE)
''', '''    for(int y = 0; y<height-1; y += SPLIT_SIZE)
''')],
  demo=r'''
#include "renderer.hpp"
#include "cameras/camera_orthographic.hpp"
#include "samplers/filter_box.hpp"
#include "primitives/sphere.hpp"
#include "utility/imageio/imageio.h"
#include <vector>
struct White:public LightIntegrator { Spectrum radiance(const Scene*,const HitPoint*,const Ray*,Sampler*,OcclusionTester*) const { return SPECTRUM_ONE; } };
int run(int h)
{
    Renderer r(32,h,1,"out.ppm"); Point3 p(0,0,0),t(0,0,1); Vec3 u(0,1,0);
    r.inherit_camera(new CameraOrthographic(&p,&t,&u,32,h)); r.inherit_filter(new FilterBox()); r.set_sampler(SPECTRE_SAMPLER_STRATIFIED); r.inherit_integrator(new White());
    Scene s; Sphere* b=new Sphere(); s.inherit_shape(b); Matrix4 m; m.set_scale(1e3f); s.inherit_asset(new Asset(b,m,1));
    r.render(&s);
    std::vector<uint32_t> v(32*h); if(!img_read8("out.ppm","ppm",v.data())) return 1;
    for(int i=0;i<32*h;i++) if((v[i]>>8&255)<100) return 2;
    return 0;
}
int main() { int a=run(40); if(a) return a; a=run(33); return a?a+10:0; }
'''))
SEEDS.append(dict(id='c25-even-normal', property='C25',
  needs='an upright surface at exactly 45 degrees, whose normal has two equal components and a third of 0',
  breaks='the footprint of the pixel on the surface is lost, the texture is not filtered there',
  edits=[('src/primitives/hit_point.cpp', '''    else if(ny>nz)
    {
''', '''    else if(ny>nz && ny>nx)
    {
''')],
  demo=r'''
#include "primitives/hit_point.hpp"
#include <cmath>
int test(Vec3 n,Vec3 u,Vec3 v)
{
    HitPoint h; n.normalize(); h.point_h=Point3(0,0,0); h.normal_h=Normal(n.x,n.y,n.z); h.dpdu=u; h.dpdv=v; h.differentials=false;
    Point3 o(0,0,0); o=o+n*5.f; Vec3 d=n*-1.f; Ray x(o+u*0.25f,d),y(o+v*0.5f,d);
    calculate_differentials(&h,&x,&y);
    if(!h.differentials) return 1;
    if(fabs(h.du.x-0.25)>1e-3||fabs(h.dv.y-0.5)>1e-3||fabs(h.du.y)>1e-3||fabs(h.dv.x)>1e-3) return 2;
    return 0;
}
int main()
{
    if(test(Vec3(0,0,1),Vec3(1,0,0),Vec3(0,1,0))) return 1;
    if(test(Vec3(2,1,0),Vec3(-1,2,0),Vec3(0,0,1))) return 2;
    if(test(Vec3(1,1,0),Vec3(-1,1,0),Vec3(0,0,1))) return 3;
    return 0;
}
'''))
SEEDS.append(dict(id='c14-cold-light', property='C14',
  needs='a light with a temperature of 0',
  breaks='the light shines with the default colour instead of staying dark',
  edits=[('src/parsers/config_driver.cpp', '''            if(mesh_w.temperature>=0)
''', '''            if(mesh_w.temperature>0)
''')],
  demo=r'''
#include "parsers/config_driver.hpp"
#include <cstdio>
#include <cmath>
float shine(const char* what)
{
    FILE* f=fopen("s.txt","w"); fprintf(f,"resolution:{width:32 height:32} out:'o.ppm' light:{name:'Sphere' position:[0,0,5] %s}\n",what); fclose(f);
    ConfigDriver d; Scene s; Renderer* r=d.parse("s.txt",&s); float v=-1; if(s.size_lights()==1) { v=s.get_light(0)->emissive_spectrum().to_xyz().g; if(std::isnan(v)) v=-2; } delete r; return v;
}
int main()
{
    if(shine("color:[255,255,255]")<0.5f) return 1; if(shine("temperature:3000")<=0) return 2; if(shine("temperature:0")!=0) return 3; return 0;
}
'''))
SEEDS.append(dict(id='c26-unmasked-lights', property='C26',
  needs='a light with a mask in a scene file',
  breaks='lights shine everywhere, also where their mask hides them',
  edits=[('src/parsers/config_driver.cpp', '''        //resolve the mask
        current_asset->set_mask(build_mask(mesh_w.mask));
''', '''        //resolve the mask
        if(!mesh_w.is_light)
            current_asset->set_mask(build_mask(mesh_w.mask));
''')],
  demo=r'''
#include "parsers/config_driver.hpp"
#include "utility/imageio/imageio.h"
#include <cstdio>
#include <cfloat>
bool seen(const char* mask)
{
    uint32_t px[4]={0,0,0,0}; img_write("black.ppm","ppm",2,2,px);
    FILE* f=fopen("s.txt","w"); fprintf(f,"resolution:{width:32 height:32} out:'o.ppm' light:{name:'Sphere' position:[0,0,5] %s}\n",mask); fclose(f);
    ConfigDriver d; Scene s; Renderer* r=d.parse("s.txt",&s); s.k.buildTree(); Ray a(Point3(0,0,0),Vec3(0,0,1)); HitPoint h; bool v=s.k.intersect(&a,&h); delete r; return v;
}
int main() { if(!seen("")) return 1; return seen("mask:'black.ppm' using channel R")?2:0; }
'''))
