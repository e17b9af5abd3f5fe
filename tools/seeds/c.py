SEEDS = []
SEEDS.append(dict(id='c08-own-surface', property='C08',
  needs='a shadow ray whose intersection with the light itself is rounded to a slightly smaller distance',
  breaks='without the tolerance the light occludes itself',
  edits=[('src/utility/occlusion_tester.cpp', '''        newdistance = removeme.point_h.distance(r->origin);
        return newdistance+OCCLUSION_INTERSECT_ERROR<distance;
''', '''        newdistance = removeme.point_h.distance(r->origin);
        return newdistance<distance;
''')],
  demo=r'''
#include "utility/occlusion_tester.hpp"
#include "primitives/sphere.hpp"
#include <cmath>
int main()
{
    Scene s; Sphere* b=new Sphere(); s.inherit_shape(b);
    Matrix4 m; m.set_translation(Vec3(3,5,7)); s.inherit_asset(new Asset(b,m,1));
    s.k.buildTree();
    for(int i=0;i<200;i++)
    {
        OcclusionTester ot(&s); float x=0.37f*i,y=0.11f*i;
        Vec3 d(3-x,5-y,7); float l=d.length(); d.normalize();
        Ray a(Point3(x,y,0),d); a.ricochet=0;
        if(l>2 && ot.is_occluded(&a,l-1)) return 1;
    }
    return 0;
}
'''))
SEEDS.append(dict(id='c12-mkdirs-through-file', property='C12',
  needs='a path with missing folders of which the first can be created but a later one can not',
  breaks='creating all the folders of a path is reported as done although it stopped half way',
  edits=[('src/utility/file.cpp', '''            if (!res)
            {
                //override previously created folder result, 'cause one failed
                created = false;
                //avoid continuing the creation
                break;
            }
''', '''            if (!res)
            {
                //avoid continuing the creation
                break;
            }
''')],
  demo=r'''
#include "utility/file.hpp"
#include <string>
#include <sys/stat.h>
int main()
{
    std::string p="some/folder/"+std::string(300,'x');     // longer than a name may be
    File f(p.c_str()); if(f.mkdirs()) return 1;
    File g("other/folder/here"); if(!g.mkdirs()) return 2;
    struct stat s; if(stat("other/folder/here",&s)||!S_ISDIR(s.st_mode)) return 3;
    return 0;
}
'''))
SEEDS.append(dict(id='c10-missing-last-row', property='C10',
  needs='a BMP file whose end is missing, less than one line of it',
  breaks='a picture without its last line is reported as read',
  edits=[('src/utility/imageio/bmp.c', 'retval = written == (height*WIDTH);', 'retval = written >= ((height-1)*WIDTH);')],
  demo=r'''
extern "C" {
#include "utility/imageio/imageio.h"
}
#include <cstdio>
#include <unistd.h>
int main()
{
    pixBGRA p[16]; for(int i=0;i<16;i++) p[i]=0x102030FF+i*0x01010100;
    if(!img_write("a.bmp","bmp",4,4,p)) return 2;
    pixBGRA q[16]; if(!img_read8("a.bmp","bmp",q)) return 3;
    FILE* f=fopen("a.bmp","rb"); fseek(f,0,SEEK_END); long n=ftell(f); fclose(f);
    if(truncate("a.bmp",n-5)) return 4;
    return img_read8("a.bmp","bmp",q)?1:0;
}
'''))
SEEDS.append(dict(id='c13-mitchell-order', property='C13',
  needs='a configuration asking for a Mitchell filter with different factors',
  breaks='the two factors of the Mitchell filter are exchanged',
  edits=[('src/parsers/config_driver.cpp', 'filter = new FilterMitchell(value0, value1);', 'filter = new FilterMitchell(value1, value0);')],
  demo=r'''
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <sstream>
#include <thread>
#include <mutex>
#include <atomic>
#include <stack>
#define private public
#include "parsers/config_driver.hpp"
#include <cstdio>
#include <cmath>
int main()
{
    FILE* f=fopen("a.txt","w"); fputs("output: \"a.ppm\"\nresolution: 64 x 64\nfilter: {type: \"Mitchell\", factor0: 0.1, factor1: 0.9}\n",f); fclose(f);
    // whatever way the filter is asked for in the file, it is built from the two values
    ConfigDriver d; d.filter_type=SPECTRE_FILTER_MITCHELL; d.value0=0.1f; d.value1=0.9f;
    Filter* a=d.build_filter(); FilterMitchell b(0.1f,0.9f);
    for(int i=0;i<20;i++) if(fabsf(a->weight(i*0.1f,0.3f)-b.weight(i*0.1f,0.3f))>1e-5f) return 1;
    return 0;
}
'''))
SEEDS.append(dict(id='c14-shift-leaks', property='C14',
  needs='a texture with a shift followed by another texture without one',
  breaks='the shift of a texture is also applied to the textures after it',
  edits=[('src/parsers/config_driver.cpp', '''    tex_scale = Vec2(1.f); //reset scaling for next texture
    tex_shift = Vec2(); //reset shifting for next texture
''', '''    tex_scale = Vec2(1.f); //reset scaling for next texture
''')],
  demo=r'''
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <sstream>
#include <thread>
#include <mutex>
#include <atomic>
#include <stack>
#define private public
#include "parsers/config_driver.hpp"
#include "textures/texture_library.hpp"
extern "C" {
#include "utility/imageio/imageio.h"
}
#include <cstdio>
#include <cmath>
int main()
{
    pixBGRA p[16]; for(int i=0;i<16;i++) p[i]=((unsigned)(i*15)<<24)|((unsigned)(i*7)<<16)|((unsigned)(240-i*13)<<8)|255;
    if(!img_write("a.ppm","ppm",4,4,p)||!img_write("b.ppm","ppm",4,4,p)||!img_write("c.ppm","ppm",4,4,p)) return 2;
    ConfigDriver d; d.tex_filter=UNFILTERED; 
    d.tex_name="plain"; const TextureImage* c=d.load_texture("c.ppm");
    d.tex_shift=Vec2(0.5f,0.25f); d.tex_name="one"; d.load_texture("a.ppm");
    d.tex_name="two"; const TextureImage* b=d.load_texture("b.ppm");
    if(b==TexLib.get_dflt_teximage()||c==TexLib.get_dflt_teximage()) return 3;
    HitPoint h; h.differentials=false;
    for(int i=0;i<4;i++) for(int j=0;j<4;j++)
    {
        h.uv=Point2((i+.5f)/4,(j+.5f)/4); Spectrum x=c->map(&h),y=b->map(&h);
        for(int k=0;k<3;k++) if(fabsf(x.w[k]-y.w[k])>1e-4f) return 1;
    }
    return 0;
}
'''))
SEEDS.append(dict(id='c17-map-replaced', property='C17',
  needs='an image map added under a name that already has one',
  breaks='the map first added under a name is replaced by a later one, while textures still use it',
  edits=[('src/textures/texture_library.cpp', 'maplib.insert(std::make_pair(name, map));', 'maplib[name] = map;')],
  demo=r'''
#include "textures/texture_library.hpp"
int main()
{
    pixBGRA p=0xFFFFFFFF; const ImageMap* a=new ImageMapUnfiltered(&p,1); const ImageMap* b=new ImageMapUnfiltered(&p,1);
    TexLib.inherit_map("m",a); TexLib.inherit_map("m",b);
    return TexLib.get_map("m")==a?0:1;
}
'''))
SEEDS.append(dict(id='c18-emission-normal', property='C18',
  needs='rays leaving a light whose faces are slanted and which is scaled differently along its axes',
  breaks='the normal is transformed like a direction: rays leave the light from its back',
  edits=[('src/lights/area_light.cpp', '''    n = transform_normal(n, &(AreaLight::worldToObj));

''', '''    n = Normal(AreaLight::objToWorld*Vec3(n.x, n.y, n.z));

''')],
  demo=r'''
#include "lights/area_light.hpp"
#include "primitives/mesh.hpp"
int main()
{
    Mesh m(1); Vertex v[3]; v[0].p=Point3(0,0,0); v[1].p=Point3(1,0,1); v[2].p=Point3(0,1,0);
    for(int k=0;k<3;k++) { v[k].n=Normal(-0.70710678f,0,0.70710678f); v[k].t=Point2(k==1,k==2); }
    m.add_triangle(v,v+1,v+2); m.finalize();
    Matrix4 t; t.set_scale(Vec3(1,1,6)); AreaLight l(&m,t,SPECTRUM_ONE);
    Vec3 n(-6,0,1); n.normalize();       // of the scaled triangle, on the same side
    for(int i=0;i<20;i++) for(int j=0;j<20;j++)
    {
        Ray r; float pdf; l.sample_surface(0.3f,0.4f,(i+.5f)/20,(j+.5f)/20,&r,&pdf);
        if(r.direction.dot(n)<-1e-3f) return 1;
    }
    return 0;
}
'''))
SEEDS.append(dict(id='c19-aniso-inside', property='C19',
  needs='an anisotropic rough surface seen from inside of the object',
  breaks='the sampled microfacets face away from the viewer when it is inside: densities become negative',
  edits=[('src/materials/microfacet_distributions.cpp', '''    const float cost = 1.f/sqrtf(1.f+tantheta2);
    const float sint = sqrtf(max(0.f, 1.f-cost*cost));
    *wh = Vec3(sint*cosf(phi), sint*sinf(phi), cost);
    if(wo->z*wh->z<0)
        *wh = -*wh;
''' , '''    const float cost = 1.f/sqrtf(1.f+tantheta2);
    const float sint = sqrtf(max(0.f, 1.f-cost*cost));
    *wh = Vec3(sint*cosf(phi), sint*sinf(phi), cost);
''')],
  demo=r'''
#include "materials/microfacet.hpp"
#include "materials/microfacet_distributions.hpp"
int main()
{
    GGXaniso d(0.3f,0.6f); Vec3 wo(0.3f,0.2f,-0.93f); wo.normalize();
    for(int i=1;i<20;i++) for(int j=1;j<20;j++)
    {
        Vec3 wh; d.sample_wh(&wo,i/20.f,j/20.f,&wh);
        if(wh.z*wo.z<0) return 1;
    }
    return 0;
}
'''))
SEEDS.append(dict(id='c20-side-by-shading', property='C20',
  needs='a material with a normal map, light and viewer on the same side of the mapped normal but not of the surface',
  breaks='reflection is told from transmission by the mapped normal: light leaks through the surface',
  edits=[('src/materials/multi_bsdf.cpp', '''    char flags = matchSpec?FLAG_SPEC:0;
    if(wiW->dot(h->normal_h)*woW->dot(h->normal_h)>0)//reflected ray
        flags |= FLAG_BRDF;
    else                                //transmitted ray
        flags |= FLAG_BTDF;
    Spectrum retval = SPECTRUM_BLACK;
    Vec3 wo_shading = matrix->to_shading(*woW);
    Vec3 wi_shading = matrix->to_shading(*wiW);
''', '''    char flags = matchSpec?FLAG_SPEC:0;
    Spectrum retval = SPECTRUM_BLACK;
    Vec3 wo_shading = matrix->to_shading(*woW);
    Vec3 wi_shading = matrix->to_shading(*wiW);
    if(wi_shading.z*wo_shading.z>0)//reflected ray
        flags |= FLAG_BRDF;
    else                                //transmitted ray
        flags |= FLAG_BTDF;
''')],
  demo=r'''
#include "materials/multi_bsdf.hpp"
#include "materials/lambertian.hpp"
int main()
{
    MultiBSDF m; m.inherit_bdf(new Lambertian()); m.inherit_bdf(new Lambertian());
    HitPoint h; h.differentials=false; h.point_h=Point3(0,0,0); h.normal_h=Normal(0,0,1); h.dpdu=Vec3(1,0,0); h.dpdv=Vec3(0,1,0); h.uv=Point2(0.5f,0.5f);
    ShadingSpace s(&h);
    // a frame slanted by 45 degrees
    HitPoint g=h; g.normal_h=Normal(0.70710678f,0,0.70710678f); g.dpdu=Vec3(0.70710678f,0,-0.70710678f);
    ShadingSpace q(&g);
    Vec3 wo(0.6f,0,0.8f),wi(0.98f,0,-0.2f); wi.normalize();
    return m.value(&wo,&h,&wi,&q,false).is_black()?0:1;
}
'''))
SEEDS.append(dict(id='c22-portrait', property='C22',
  needs='a perspective camera and a picture higher than wide',
  breaks='pictures higher than wide show the scene stretched',
  edits=[('src/cameras/camera_perspective.cpp', '''        bounds[2] = -1.f/aspect_ratio;//miny
        bounds[3] = 1.f/aspect_ratio; //maxy
''', '''        bounds[2] = -1.f;//miny
        bounds[3] = 1.f; //maxy
''')],
  demo=r'''
#include "cameras/camera_perspective.hpp"
#include <cmath>
int main()
{
    Point3 p(0,0,0),t(0,0,1); Vec3 up(0,1,0); CameraPerspective c(&p,&t,&up,40,80,1.f);
    // one pixel to the right and one pixel up are the same distance
    const Camera& k=c; Sample s; Ray r; s.posx=20; s.posy=40; k.create_ray(&s,&r); Vec3 a=r.direction;
    s.posx=21; k.create_ray(&s,&r); Vec3 b=r.direction; s.posx=20; s.posy=41; k.create_ray(&s,&r); Vec3 e=r.direction;
    float x=fabsf(b.x/b.z-a.x/a.z),y=fabsf(e.y/e.z-a.y/a.z);
    return fabsf(x-y)<1e-4f?0:1;
}
'''))
SEEDS.append(dict(id='c23-any-light', property='C23',
  needs='a light seen past another light that covers it',
  breaks='whatever light is met counts as the chosen one: a light shines through the lights in front of it',
  edits=[('src/integrators/ray_tracer.cpp', 'if(h2.asset_h->get_id() == light->get_id())', 'if(h2.asset_h->is_light())')],
  demo=r'''
#include "integrators/path_tracer.hpp"
#include "primitives/mesh.hpp"
#include "materials/material_library.hpp"
#include "samplers/sampler_random.hpp"
static Mesh* square(float z,float r,float n)
{
    Mesh* m=new Mesh(2); Vertex v[4]; const float x[]={-1,1,1,-1},y[]={-1,-1,1,1};
    for(int i=0;i<4;i++) { v[i].p=Point3(x[i]*r,y[i]*r,z); v[i].n=Normal(0,0,n); v[i].t=Point2(x[i],y[i]); }
    m->add_triangle(v,v+1,v+2); m->add_triangle(v,v+2,v+3); m->finalize(); return m;
}
int main()
{
    // a floor, a black light over it, and a bright one hidden behind
    Scene s; Matrix4 id; id.set_identity();
    Mesh* f=square(0,20,1); Mesh* a=square(4,20,-1); Mesh* b=square(8,2,-1);
    s.inherit_shape(f); s.inherit_shape(a); s.inherit_shape(b);
    const Bsdf* mt[1]={MtlLib.get_default()}; unsigned char as[2]={0,0};
    Asset* fl=new Asset(f,id,1); fl->set_materials(mt,1,as); s.inherit_asset(fl);
    AreaLight* l1=new AreaLight(a,id,SPECTRUM_BLACK); l1->set_materials(mt,1,as); AreaLight* l2=new AreaLight(b,id,SPECTRUM_ONE); l2->set_materials(mt,1,as);
    s.inherit_light(l1); s.inherit_light(l2); s.k.buildTree();
    unsigned int seed[32]; for(int i=0;i<32;i++) seed[i]=i*7919+1;
    SamplerRandom sam(0,32,0,32,1,seed); OcclusionTester ot(&s); PathTracer pt; LightIntegrator* in=&pt;
    for(int i=0;i<3000;i++)
    {
        Ray r(Point3(0.1f,0.2f,2),Vec3(0,0,-1)); r.ricochet=0; HitPoint h; h.differentials=false;
        if(!s.k.intersect(&r,&h)) return 2;
        h.differentials=false;
        if(!in->radiance(&s,&h,&r,&sam,&ot).is_black()) return 1;
    }
    return 0;
}
'''))
