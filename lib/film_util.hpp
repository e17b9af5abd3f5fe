// helpers shared by the film harnesses: reference film and an independent PPM reader
#ifndef FILM_UTIL_HPP
#define FILM_UTIL_HPP
#include "vt.hpp"
#include "cameras/image_film.hpp"
#include "samplers/filter.hpp"
#include "utility/color.hpp"
#include <cmath>
#include <vector>
#include <string>

struct Img { int w=0,h=0; std::vector<int> px; };
// independent reader of P3/P6 files; strict: exact amount of data required
inline bool read_ppm(const char* path, Img& im)
{
    FILE* f=fopen(path,"rb"); if(!f) return false;
    char m[3]={0}; int maxv=0;
    bool ok = fscanf(f,"%2s %d %d %d",m,&im.w,&im.h,&maxv)==4 && m[0]=='P' && (m[1]=='3'||m[1]=='6') && maxv==255
              && im.w>0 && im.h>0 && im.w<100000 && im.h<100000;
    im.px.clear();
    if(ok && m[1]=='6') fgetc(f);
    if(ok)
        for(int i=0;i<im.w*im.h*3;i++)
        {
            int v;
            if(m[1]=='6') { v=fgetc(f); if(v==EOF) { ok=false; break; } }
            else if(fscanf(f,"%d",&v)!=1) { ok=false; break; }
            im.px.push_back(v);
        }
    fclose(f);
    return ok;
}
struct RefSample { float x,y; ColorXYZ c; };
// the specification: every pixel whose centre is within the support of the
// filter around the sample receives the sample with the filter's weight
struct RefFilm
{
    int w,h; const Filter* f;
    std::vector<double> X,Y,Z,S; std::vector<int> n; std::vector<char> edge,soft;
    RefFilm(int w,int h,const Filter* f):w(w),h(h),f(f),X(w*h),Y(w*h),Z(w*h),S(w*h),n(w*h),edge(w*h),soft(w*h){}
    void add(float px,float py,ColorXYZ c)
    {
        double cx=(double)px-0.5, cy=(double)py-0.5;
        int x0=(int)std::floor(cx-f->range_x)-1, x1=(int)std::ceil(cx+f->range_x)+1;
        int y0=(int)std::floor(cy-f->range_y)-1, y1=(int)std::ceil(cy+f->range_y)+1;
        for(int y=y0;y<=y1;y++) for(int x=x0;x<=x1;x++)
        {
            if(x<0||y<0||x>=w||y>=h) continue;
            double dx=std::fabs(x-cx), dy=std::fabs(y-cy);
            // exactly on the border of the support: either answer is fine
            if(std::fabs(dx-f->range_x)<1e-4 || std::fabs(dy-f->range_y)<1e-4)
                if(dx<=f->range_x+1e-4 && dy<=f->range_y+1e-4)
                {
                    // unless it counts nothing anyway
                    if(std::fabs(f->weight((float)std::min(dx,f->range_x-2e-4),(float)std::min(dy,f->range_y-2e-4)))>1e-3) edge[y*w+x]=1; else soft[y*w+x]=1;
                    continue;
                }
            if(dx>f->range_x || dy>f->range_y) continue;
            float wt=f->weight((float)(x-cx),(float)(y-cy));
            int i=y*w+x;
            X[i]+=(double)std::max(0.f,c.r)*wt; Y[i]+=(double)std::max(0.f,c.g)*wt; Z[i]+=(double)std::max(0.f,c.b)*wt;
            S[i]+=wt; n[i]++;
        }
    }
    void rgb(int i,int* o) const
    {
        if(S[i]>0)
        {
            ColorRGB c=ColorXYZ((float)(X[i]/S[i]),(float)(Y[i]/S[i]),(float)(Z[i]/S[i])).to_sRGB();
            float v[3]={c.r,c.g,c.b};
            for(int k=0;k<3;k++) { float q=v[k]<0?0:v[k]; q*=255.f; if(q>255.f) q=255.f; o[k]=(int)q; }
        }
        else o[0]=o[1]=o[2]=0;
    }
};
// grey with the given intensity
inline ColorXYZ grey(float v) { return ColorXYZ(0.9505f*v,1.f*v,1.089f*v); }
// compare the stored picture with the reference; -1 if equal else the pixel
inline int compare(const Img& im,const RefFilm& r,std::string& msg,int tol=2)
{
    if(im.w!=r.w||im.h!=r.h) { msg="wrong image size"; return 0; }
    for(int i=0;i<r.w*r.h;i++)
    {
        if(r.edge[i]||(r.soft[i]&&std::fabs(r.S[i])<0.02)) continue;
        if(r.S[i]!=0 && std::fabs(r.S[i])<1e-3) continue;
        int e[3]; r.rgb(i,e);
        for(int k=0;k<3;k++)
            if(std::abs(e[k]-im.px[3*i+k])>tol)
            {
                char b[300];
                snprintf(b,sizeof b,"pixel (%d,%d) is %d,%d,%d, expected %d,%d,%d from %d samples",i%r.w,i/r.w,
                         im.px[3*i],im.px[3*i+1],im.px[3*i+2],e[0],e[1],e[2],r.n[i]);
                msg=b; return i;
            }
    }
    return -1;
}
#endif
