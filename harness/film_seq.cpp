// Reconstruction filters and the film, one thread: every filter, film shape,
// sub-pixel sample position and order of merging deferred pixels.
#include "film_util.hpp"
#include "samplers/filter_box.hpp"
#include "samplers/filter_tent.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/filter_lanczos.hpp"
#include <memory>
#include <functional>

// one dimensional kernels, in double precision, from their definitions
struct Def { std::string name; std::function<Filter*()> make; std::function<double(double)> k; double range; };
static double sinc(double x) { return std::fabs(x)<1e-9?1.0:std::sin(x)/x; }
static double mitch(double x,double b,double c)
{
    x=std::fabs(x);
    if(x>=2) return 0;
    if(x<1) return ((12-9*b-6*c)*x*x*x+(-18+12*b+6*c)*x*x+(6-2*b))/6;
    return ((-b-6*c)*x*x*x+(6*b+30*c)*x*x+(-12*b-48*c)*x+(8*b+24*c))/6;
}
static std::vector<Def> defs()
{
    std::vector<Def> r;
    r.push_back({"box",[]{return (Filter*)new FilterBox();},[](double){return 1.0;},1});
    r.push_back({"tent",[]{return (Filter*)new FilterTent();},[](double x){return std::max(0.0,1-std::fabs(x)/2);},2});
    for(double a:{0.2,0.5,1.0,2.0,3.7})
    { char n[40]; snprintf(n,40,"gaussian %g",a);
      r.push_back({n,[a]{return (Filter*)new FilterGaussian((float)a);},[a](double x){return std::max(0.0,std::exp(-a*x*x)-std::exp(-a*4));},2}); }
    for(std::pair<double,double> p:{std::make_pair(1/3.0,1/3.0),std::make_pair(0.0,0.5),std::make_pair(1.0,0.0),std::make_pair(0.6,0.2)})
    { char n[60]; snprintf(n,60,"mitchell %.3g %.3g",p.first,p.second);
      r.push_back({n,[p]{return (Filter*)new FilterMitchell((float)p.first,(float)p.second);},[p](double x){return mitch(x,p.first,p.second);},2}); }
    for(double t:{1.0,2.0,3.0,4.0,2.5})
    { char n[40]; snprintf(n,40,"lanczos %g",t);
      r.push_back({n,[t]{return (Filter*)new FilterLanczos((float)t);},[t](double x){x=std::fabs(x)/4; return x>1?0.0:sinc(M_PI*x*t)*sinc(M_PI*x);},4}); }
    return r;
}
struct S { float x,y; ColorXYZ c; };
static void run(const std::string& fn,const Filter* f,int w,int h,const std::vector<S>& s,int mode,const char* what)
{
    vt::beat(); vt::count("evaluations");
    RefFilm ref(w,h,f);
    {
        ImageFilm film(w,h,fn.c_str());
        film.set_filter(const_cast<Filter*>(f));
        ExecutorData a,b;
        a.startx=0; a.endx=w; a.starty=0; a.endy=h;
        // mode 1/2: two areas split at a column / row, merged in different orders
        b=a;
        if(mode==1) { a.endx=(w+1)/2; b.startx=a.endx; }
        if(mode==2) { a.endy=(h+1)/2; b.starty=a.endy; }
        if(mode==3) { a.endx=(w+1)/2; b.startx=a.endx; }
        int n=0;
        for(auto& q:s)
        {
            Sample p; memset((void*)&p,0,sizeof p); p.posx=q.x; p.posy=q.y;
            bool first=true;
            if(mode==1||mode==3) first=q.x<a.endx; if(mode==2) first=q.y<a.endy;
            ExecutorData* e=first?&a:&b;
            film.add_pixel(&p,q.c,e);
            ref.add(q.x,q.y,q.c);
            if(mode==3 && ++n%3==0) film.add_pixel_deferred(e);
        }
        if(mode==2) { film.add_pixel_deferred(&b); film.add_pixel_deferred(&a); }
        if(mode==1) { film.add_pixel_deferred(&a); }
        film.add_pixel_forced(&b); film.add_pixel_forced(&a);
        film.add_pixel_forced(&a); // nothing left: no effect
        if(!film.save_image()) { vt::fail("save failed","save_image() returned false (%s)",what); return; }
    }
    Img im; std::string msg;
    if(!read_ppm(fn.c_str(),im)) { vt::fail("image unreadable","%s",what); return; }
    int p=compare(im,ref,msg);
    if(p>=0) vt::fail("wrong reconstruction","%s: %s",what,msg.c_str());
    vt::seen(vt::hash(im.px.data(),im.px.size()*sizeof(int)));
}
int main(int argc,char** argv)
{
    vt::init(argc,argv);
    std::vector<Def> ds=defs();
    const bool T=vt::thorough();
    // kernels on a dense grid of offsets inside their support
    for(auto& d:ds)
    {
        const int N=T?512:96;
        for(int yi=-N;yi<=N;yi++)
        {
            if(yi%(N/24)!=0 && !T) continue;
            if(!vt::begin("kernel %s, row %d of %d",d.name.c_str(),yi,N)) continue;
            std::unique_ptr<Filter> f(d.make());
            if(f->range_x!=d.range||f->range_y!=d.range) vt::fail("filter range","%s affects %gx%g pixels",d.name.c_str(),f->range_x,f->range_y);
            for(int xi=-N;xi<=N;xi++)
                for(double e:{0.0,1e-4,-1e-4})
                {
                    float x=(float)(d.range*xi/N+e), y=(float)(d.range*yi/N);
                    if(std::fabs(x)>d.range) continue;
                    double want=d.k(x)*d.k(y); float got=f->weight(x,y);
                    vt::count("evaluations"); uint32_t u; memcpy(&u,&got,4); vt::seen(vt::mix(u,7));
                    if(!(std::fabs(got-want)<=3e-5)) vt::fail("wrong filter weight","%s weight(%g,%g)=%g, expected %g",d.name.c_str(),x,y,got,want);
                }
        }
    }
    struct Sz { int w,h; };
    std::vector<Sz> sizes={{1,1},{2,1},{1,3},{3,2},{2,5},{5,5},{4,4},{8,3},{3,9},{9,9},{17,2},{33,1}};
    if(T) { sizes.push_back({7,12}); sizes.push_back({16,16}); sizes.push_back({1,40}); sizes.push_back({31,6}); }
    for(size_t di=0;di<ds.size();di++)
    {
        Def& d=ds[di];
        for(auto& z:sizes) for(int mode=0;mode<4;mode++) for(int mono=0;mono<3;mono++)
        {
            if(!T && (di+mode+mono)%2 && z.w*z.h>12) continue;
            if(!vt::begin("film %dx%d, filter %s, area mode %d, colour %d",z.w,z.h,d.name.c_str(),mode,mono)) continue;
            std::unique_ptr<Filter> f(d.make());
            // dark grid of samples, then one bright sample at every lattice position
            std::vector<S> base;
            for(int y=0;y<z.h;y++) for(int x=0;x<z.w;x++)
                base.push_back(S{x+0.48f,y+0.53f,mono==2?grey(0.3f):grey(0)});
            ColorXYZ bright=mono==0?grey(1.f):mono==1?ColorXYZ(0.4124f,0.2126f,0.0193f):ColorXYZ(1.8f,-0.3f,0.7f);
            float lat[]={0.f,0.001f,0.26f,0.5f,0.77f,0.9985f};
            int step=std::max(1,z.w*z.h/(T?64:10));
            for(int i=0;i<z.w*z.h;i+=step) for(float fy:lat) for(float fx:lat)
            {
                float px=i%z.w+fx, py=i/z.w+fy;
                std::vector<S> s=base; s.push_back(S{px,py,bright});
                char b[120]; snprintf(b,120,"bright sample at %g,%g",px,py);
                run("o.ppm",f.get(),z.w,z.h,s,mode,b);
            }
            // samples on the far border of the image, only one sample, no samples
            for(float px:{0.f,(float)z.w}) for(float py:{0.f,(float)z.h,z.h-0.5f})
            {
                char b[120]; snprintf(b,120,"only sample at %g,%g",px,py);
                run("o.ppm",f.get(),z.w,z.h,{S{px,py,bright}},mode,b);
            }
            run("o.ppm",f.get(),z.w,z.h,{},mode,"no sample");
        }
    }
    return vt::finish();
}
