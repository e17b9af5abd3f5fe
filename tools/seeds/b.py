SEEDS = []
SEEDS.append(dict(id='c06-far-side-cull', property='C06',
  needs='a mesh whose nodes overlap in depth: the nearest triangle lies in a node that reaches beyond the hit found first',
  breaks='nodes are skipped when their far side, instead of their near side, is beyond the closest hit',
  edits=[('src/accelerators/bvh.cpp', '!(found && dmin>*distance))', '!(found && dmax>*distance))')],
  demo=r'''
#include "primitives/mesh.hpp"
#include "primitives/hit_point.hpp"
#include <cfloat>
#include <cmath>
#include <vector>
static unsigned rs=12345; static float rnd() { rs=rs*1664525u+1013904223u; return (rs>>8)/16777216.f; }
int main()
{
    // large crossing triangles: the nodes overlap in depth
    const int N=120; Mesh all(N); std::vector<Mesh*> one;
    for(int i=0;i<N;i++)
    {
        Vertex v[3]; for(int k=0;k<3;k++) { v[k].p=Point3(8*rnd()-4,8*rnd()-4,8*rnd()-4); v[k].n=Normal(0,0,-1); v[k].t=Point2(k==1,k==2); }
        all.add_triangle(v,v+1,v+2); Mesh* m=new Mesh(1); m->add_triangle(v,v+1,v+2); m->finalize(); one.push_back(m);
    }
    all.finalize(); MaskBoolean mask;
    for(int i=0;i<3000;i++)
    {
        Vec3 d(rnd()-0.5f,rnd()-0.5f,1); d.normalize(); Ray r(Point3(4*rnd()-2,4*rnd()-2,-10),d);
        HitPoint h; float best=FLT_MAX,dist=FLT_MAX; bool hit=false;
        for(auto m:one) if(m->intersect(&r,&best,&h,&mask)) hit=true;
        bool got=all.intersect(&r,&dist,&h,&mask);
        if(got!=hit || (hit && fabsf(dist-best)>1e-3f)) return 1;
    }
    return 0;
}
'''))
SEEDS.append(dict(id='c07-inner-normal', property='C07',
  needs='a sphere with a mask that hides its front but not the far side behind it',
  breaks='the hit on the far side keeps the normal of the hidden front',
  edits=[('src/primitives/sphere.cpp', '''            hitp = r->apply(sol2);
            tmp.point_h = hitp;
''', '''            tmp.point_h = r->apply(sol2);
''')],
  demo=r'''
#include "primitives/sphere.hpp"
#include "primitives/hit_point.hpp"
#include "textures/mask_boolean.hpp"
#include "textures/texture_image.hpp"
#include <cfloat>
#include <cmath>
int main()
{
    // opaque in one half of u, transparent in the other one
    pixBGRA px[4]={0xFFFFFFFF,0xFFFFFF00,0xFFFFFFFF,0xFFFFFF00};
    ImageMapUnfiltered* map=new ImageMapUnfiltered(px,2); Vec2 sh(0.f),sc(1.f);
    TextureImage* t=new TextureImage(map,sh,sc,true);
    MaskBoolean mask(t,ALPHA,false); Sphere s; int n=0;
    for(int i=0;i<8;i++)
    {
        float a=0.3f+i*0.785f; Vec3 d(cosf(a),sinf(a),0.1f); d.normalize();
        Ray r(Point3(-5*d.x,-5*d.y,-5*d.z),d); HitPoint h; h.differentials=false; float dist=FLT_MAX;
        if(!s.intersect(&r,&dist,&h,&mask)) continue;
        n++;
        if(fabsf(h.normal_h.x-h.point_h.x)+fabsf(h.normal_h.y-h.point_h.y)+fabsf(h.normal_h.z-h.point_h.z)>1e-2f) return 1;
    }
    return n==8?0:2;
}
'''))

SEEDS.append(dict(id='c09-tga-origin-bits', property='C09',
  needs='a 32 bit TGA stored from the top whose descriptor also holds its alpha depth, as most programs write it',
  breaks='the origin is compared with the whole descriptor: the picture is read upside down',
  edits=[('src/utility/imageio/tga.c', 'if(header.img_descriptor & TGA_UPPER_ORIGIN)', 'if(header.img_descriptor == TGA_UPPER_ORIGIN)')],
  demo=r'''
extern "C" {
#include "utility/imageio/imageio.h"
}
#include <cstdio>
#include <cstring>
int main()
{
    unsigned char h[18]={0}; h[2]=2; h[12]=1; h[14]=2; h[16]=32;
    const int desc[]={0x20,0x28,0x00,0x08};
    for(int d:desc)
    {
        h[17]=(unsigned char)d; FILE* f=fopen("a.tga","wb"); fwrite(h,1,18,f);
        unsigned char p[8]={1,2,3,255,11,12,13,255}; fwrite(p,1,8,f); fclose(f);
        if(!img_valid("a.tga","tga")) continue;      // being refused is another matter
        pixBGRA v[2]={0,0}; if(!img_read8("a.tga","tga",v)) return 2;
        int top=(d&0x20)?3:13; if((int)BGRA_RED(v[0])!=top) return 1;
    }
    return 0;
}
'''))

SEEDS.append(dict(id='c15-missing-keeps-previous', property='C15',
  needs='an OBJ file with a usemtl of an unknown material after a known one',
  breaks='the faces after the unknown material get the previous material instead of the default one',
  edits=[('src/parsers/parser_obj.cpp', '''                            used_materials.insert({{token, 0}});
                            current_material = 0;
                            Console.warning(MESSAGE_MISSING_MATERIAL,
''', '''                            used_materials.insert({{token, 0}});
                            Console.warning(MESSAGE_MISSING_MATERIAL,
''')],
  demo=r'''
#include "parsers/parser_obj.hpp"
#include "materials/material_library.hpp"
#include "materials/single_brdf.hpp"
#include "materials/lambertian.hpp"
#include <cstdio>
#include <cstdlib>
int main()
{
    MtlLib.add_inherit("known",new SingleBRDF(new Lambertian()));
    FILE* f=fopen("a.obj","w");
    fputs("o a\nv 0 0 0\nv 1 0 0\nv 0 1 0\nv 1 1 0\nusemtl known\nf 1 2 3\nusemtl unknown\nf 2 3 4\nusemtl known\nf 1 2 4\n",f); fclose(f);
    ParserObj p; p.start_parsing("a.obj"); Mesh m(3);
    if(!p.get_next_mesh(&m)) return 2;
    unsigned char n=p.get_material_no(); const Bsdf** mats=(const Bsdf**)malloc(sizeof(Bsdf*)*(n?n:1)); p.get_materials(mats);
    unsigned char* as=(unsigned char*)malloc(3); p.get_material_association(as);
    const Bsdf* k=MtlLib.get("known");
    if(mats[as[0]]!=k||mats[as[2]]!=k) return 3;
    return mats[as[1]]==MtlLib.get_default()?0:1;
}
'''))
SEEDS.append(dict(id='c16-ewa-axis-swap', property='C16',
  needs='anisotropic filtering where the footprint is longer along y and one of its axes is slanted',
  breaks='exchanging the axes of the ellipse forgets one component: the footprint is wrong',
  edits=[('src/textures/image_map.cpp', '''        swap(&dudx, &dudy);
        swap(&dvdx, &dvdy);
''', '''        swap(&dudx, &dudy);
''')],
  demo=r'''
#include "textures/image_map.hpp"
#include <cstdlib>
int main()
{
    // stripes along the diagonal: a footprint along them keeps their colour
    static pixBGRA px[64*64];
    for(int y=0;y<64;y++) for(int x=0;x<64;x++) { unsigned v=((x-y+64)%16<8)?255:0; px[y*64+x]=(v<<24)|(v<<16)|(v<<8)|255; }
    ImageMapEWA m(px,64);
    for(int i=0;i<64;i+=3)
    {
        float u=(i+0.5f)/64,v=(((i+52)%64)+0.5f)/64; // middle of a white stripe: x-y+64 = 12 or 76 mod 16 = 12
        TexelUnion p=m.filter(u,v,0.01f,-0.01f,0.06f,0.06f), r=m.filter(u,v,0.06f,0.06f,0.01f,-0.01f);
        if(abs(p.bgra_texel.r-r.bgra_texel.r)>8) return 1;
    }
    return 0;
}
'''))





FULL = r'''#!/bin/bash
# links demo.cpp with the objects of the spectral renderer; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'find "$w" -delete' EXIT
objs=$(find "$PWD/_build/CMakeFiles/spectre-full.dir/src" -name '*.o' ! -name 'main.cpp.o')
g++ -std=gnu++11 -include cstdint -O1 -w -DDEBUG -DSPECTRAL -I "$PWD/src" "$here/demo.cpp" $objs -o "$w/demo" -ljpeg -lpng -lz -ltiff -lpthread -ldl >"$w/log" 2>&1 || { tail -20 "$w/log"; exit 4; }
cd "$w" && mkdir work && cd work
timeout 100 ../demo >/dev/null 2>&1
rc=$?
echo "demo exit $rc"
exit $rc
'''
SEEDS.append(dict(id='c24-magenta-branch', property='C24',
  needs='the spectral build and a light whose smallest channel is green and which is more blue than red',
  breaks='the spectrum of purple lights is made of red instead of blue',
  edits=[('src/utility/spectrum.cpp', '*this += SPECTRUM_BLUEL*(c.b-c.r);', '*this += SPECTRUM_REDL*(c.b-c.r);')],
  sh=FULL, demo=r'''
#include "utility/spectrum.hpp"
int main()
{
    for(int r=0;r<100;r+=20) for(int b=150;b<256;b+=20)
    {
        Spectrum s(ColorRGB((unsigned char)r,(unsigned char)0,(unsigned char)b),true);
        ColorRGB c=s.to_xyz().to_sRGB();
        if(!(c.b>c.r)) return 1;
    }
    return 0;
}
'''))
