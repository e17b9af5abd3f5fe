// Samplers and the random number generator over all small areas, sample counts and seeds.
#include "vt.hpp"
#include "samplers/sampler_random.hpp"
#include "samplers/sampler_stratified.hpp"
#include "utility/wellrng.hpp"
#include <vector>
#include <map>
#include <memory>
#include <cmath>

// WELL1024a as published by Panneton, L'Ecuyer, Matsumoto
struct Ref
{
    uint32_t s[32]; unsigned i=0;
    uint32_t next()
    {
        auto& V0=s[i]; auto& VM1=s[(i+3)%32]; auto& VM2=s[(i+24)%32]; auto& VM3=s[(i+10)%32];
        auto& VRm1=s[(i+31)%32];
        uint32_t z0=VRm1, z1=V0^(VM1^(VM1>>8)), z2=(VM2^(VM2<<19))^(VM3^(VM3<<14));
        V0=z1^z2;
        VRm1=(z0^(z0<<11))^(z1^(z1<<7))^(z2^(z2<<13));
        i=(i+31)%32;
        return s[i];
    }
};
static std::vector<std::vector<unsigned>> seeds(bool T)
{
    std::vector<std::vector<unsigned>> r;
    r.push_back(std::vector<unsigned>(32,0u));
    r.push_back(std::vector<unsigned>(32,0xFFFFFFFFu));
    std::vector<unsigned> a(32); for(int i=0;i<32;i++) a[i]=i; r.push_back(a);
    for(int i=0;i<32;i++) a[i]=1234567u*(i+1); r.push_back(a);
    for(int w=0;w<32;w++) for(int b=0;b<32;b+=(T?1:5)) { std::vector<unsigned> z(32,0u); z[w]=1u<<b; r.push_back(z); z.assign(32,~0u); z[w]^=1u<<b; r.push_back(z); }
    return r;
}
int main(int argc,char** argv)
{
    vt::init(argc,argv);
    const bool T=vt::thorough();
    auto sd=seeds(T);
    for(size_t k=0;k<sd.size();k++)
    {
        if(!vt::begin("generator, seed number %d",(int)k)) continue;
        Ref ref; for(int i=0;i<32;i++) ref.s[i]=sd[k][i];
        WELLrng g(sd[k].data());
        const int N=T?4000:600;
        for(int i=0;i<N;i++)
        {
            float v=g.getNumber(); double e=ref.next()/4294967296.0;
            vt::count("evaluations");
            if(!(v>=0.f&&v<=1.f)) vt::fail("number outside [0,1]","number %d is %g",i,v);
            if(std::fabs(v-e)>1e-6) { vt::fail("not the WELL sequence","number %d is %g, expected %g",i,v,e); break; }
            uint32_t u; memcpy(&u,&v,4); vt::seen(u);
        }
        std::unique_ptr<Sampler> s(new SamplerRandom(0,1,0,1,1,sd[k].data()));
        for(int n:{1,2,6,37})
        {
            std::vector<float> c(n+2,-5.f);
            s->get_random_numbers(c.data()+1,n);
            vt::count("evaluations");
            if(c[0]!=-5.f||c[n+1]!=-5.f) vt::fail("writes beyond the requested amount","%d numbers",n);
            for(int i=1;i<=n;i++) if(!(c[i]>=0.f&&c[i]<=1.f)) vt::fail("number outside [0,1]","%g",c[i]);
        }
    }
    int st[]={0,1,31,32,1000};
    for(int kind=0;kind<3;kind++) // random, stratified jittered, stratified centred
    for(int w=1;w<=(T?9:5);w++) for(int h=1;h<=(T?9:5);h++) for(int sx:st) for(int sy:st)
    {
        if(!T && sx!=sy && sx>1 && sy>1) continue;
        static const int sq[]={1,4,9,16,25,121,256}, any[]={1,2,3,5,10,16,50};
        for(int q=0;q<7;q++)
        {
            int spp=kind?sq[q]:any[q];
            if(!vt::begin("%s sampler, area %dx%d at %d,%d, %d spp",kind==0?"random":kind==1?"stratified":"stratified (centres)",w,h,sx,sy,spp)) continue;
            for(size_t k=0;k<4;k++)
            {
                vt::count("evaluations");
                std::unique_ptr<Sampler> s(kind==0?(Sampler*)new SamplerRandom(sx,sx+w,sy,sy+h,spp,sd[k].data())
                                                  :(Sampler*)new SamplerStratified(sx,sx+w,sy,sy+h,spp,sd[k].data(),kind==1));
                std::map<std::pair<int,int>,int> seen;
                int n=(int)std::lround(std::sqrt((double)spp));
                int diag=0,total=0,same=0; int calls=0; uint64_t hh=k; bool bad=false;
                for(;;)
                {
                    // a private buffer per call: overruns are caught, leftovers are visible
                    std::unique_ptr<Sample[]> buf(new Sample[spp]);
                    for(int i=0;i<spp;i++) buf[i].posx=buf[i].posy=-12345.f;
                    if(!s->get_samples(buf.get())) break;
                    if(++calls>w*h+2) { vt::fail("sampler does not end","more than %d pixels",w*h); bad=true; break; }
                    hh=vt::hash(buf.get(),sizeof(Sample)*spp,hh);
                    // all the samples of one call belong to one pixel (the closed square)
                    double cx=0,cy=0; for(int i=0;i<spp;i++) { cx+=buf[i].posx; cy+=buf[i].posy; }
                    int px=(int)std::floor(cx/spp), py=(int)std::floor(cy/spp);
                    auto inside=[&](int X,int Y){ for(int i=0;i<spp;i++) if(buf[i].posx<X||buf[i].posx>X+1||buf[i].posy<Y||buf[i].posy>Y+1) return false; return X>=sx&&Y>=sy&&X<sx+w&&Y<sy+h; };
                    bool ok=false;
                    // a sample on a border belongs to either pixel: take one not yet seen
                    for(int dy=0;dy>=-1&&!ok;dy--) for(int dx=0;dx>=-1&&!ok;dx--)
                        if(inside(px+dx,py+dy) && !seen.count({px+dx,py+dy})) { seen[{px+dx,py+dy}]++; px+=dx; py+=dy; ok=true; }
                    if(!ok) { vt::fail("samples not inside one new pixel of the area","call %d: first sample %g,%g, mean %g,%g",calls,buf[0].posx,buf[0].posy,cx/spp,cy/spp); bad=true; break; }
                    if(kind>0)
                    {
                        std::vector<int> cell(n*n);
                        // positions are rounded to single precision: within that a
                        // sample on a border fits either stratum
                        const double tol=n*1.3e-7*(std::max(px,py)+2);
                        std::vector<int> late;
                        for(int pass=0;pass<2&&!bad;pass++) for(int i=0;i<spp&&!bad;i++)
                        {
                            double ux=(buf[i].posx-px)*n, uy=(buf[i].posy-py)*n;
                            int xs[2]={(int)std::floor(ux-tol),(int)std::floor(ux+tol)}, ys[2]={(int)std::floor(uy-tol),(int)std::floor(uy+tol)};
                            bool amb=xs[0]!=xs[1]||ys[0]!=ys[1];
                            if(amb!=(pass==1)) continue;
                            bool put=false;
                            for(int b:ys) for(int a:xs)
                                if(!put && a>=0&&b>=0&&a<n&&b<n && !cell[b*n+a]) { cell[b*n+a]=1; put=true; }
                            if(!put) { vt::fail("two samples in one stratum","pixel %d,%d sample %d at %g,%g",px,py,i,buf[i].posx,buf[i].posy); bad=true; }
                            else if(kind==2 && (std::fabs(ux-std::floor(ux)-0.5)>2*tol || std::fabs(uy-std::floor(uy)-0.5)>2*tol))
                            { vt::fail("sample not in the centre of its stratum","pixel %d,%d sample %d at %g,%g",px,py,i,buf[i].posx,buf[i].posy); bad=true; }
                        }
                    }
                    if(k>=2 && kind!=2) for(int i=0;i<spp;i++)
                    {
                        total++;
                        double fx=(buf[i].posx-px)*n, fy=(buf[i].posy-py)*n;
                        if(std::fabs((fx-std::floor(fx))-(fy-std::floor(fy)))<1e-3) diag++;
                        if(i&&kind==0&&buf[i].posx==buf[i-1].posx) same++;
                    }
                    if(bad) break;
                }
                if(bad) continue;
                vt::seen(hh);
                if((int)seen.size()!=w*h) vt::fail("pixels left out","%d pixels of %d sampled",(int)seen.size(),w*h);
                Sample* none=new Sample[spp];
                for(int i=0;i<3;i++) if(s->get_samples(none)) { vt::fail("samples after the end","call %d after the area was finished",i); break; }
                delete[] none;
                if(total>=20 && (diag*2>total||same*2>total)) vt::fail("sample positions are not random","%d of %d samples have equal offsets in both axes, %d repeat",diag,total,same);
            }
        }
    }
    return vt::finish();
}
