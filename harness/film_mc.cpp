// Every interleaving (up to a preemption bound) of threads adding samples to one film.
#include "vt.hpp"
#include "mcrt.hpp"
#include "film_util.hpp"
#include <thread>
#include <memory>

struct CFilter : public Filter
{
    int kind;
    CFilter(float rx,float ry,int kind):Filter(rx,ry),kind(kind) {}
    float weight(float x,float y) const
    { return kind==0?1.f:(float)(std::max(0.0,1.25-std::fabs(x)/(range_x+1))*std::max(0.0,1.25-std::fabs(y)/(range_y+1))); }
};
struct Tile { int x0,x1,y0,y1; };
struct Scen
{
    std::string name; int w,h; float rx,ry; int kind;
    std::vector<std::vector<Tile>> work;   // per thread
    std::vector<std::pair<float,float>> offs; // sample positions inside a tile, from 0 to 1
    int bound;
    int rep; // how many times every thread but the last adds its samples
};
static std::vector<Scen> scenarios()
{
    std::vector<Scen> r;
    // positions: corner, edges, centre - the first/last ones collide with neighbours
    std::vector<std::vector<std::pair<float,float>>> pos={
        {{0.02f,0.5f},{0.98f,0.5f}},
        {{0.5f,0.03f},{0.5f,0.97f},{0.5f,0.5f}},
        {{0.02f,0.02f},{0.98f,0.98f},{0.98f,0.02f},{0.02f,0.98f}},
        {{0.f,0.f},{1.f,1.f}},
        {{0.13f,0.13f},{0.37f,0.63f},{0.87f,0.87f}},
    };
    struct L { const char* n; int w,h; std::vector<std::vector<Tile>> t; };
    std::vector<L> lay={
        {"2x1",16,8,{{{0,8,0,8}},{{8,16,0,8}}}},
        {"1x2",8,16,{{{0,8,0,8}},{{0,8,8,16}}}},
        {"diag",16,16,{{{0,8,0,8}},{{8,16,8,16}}}},
        {"anti",16,16,{{{8,16,0,8}},{{0,8,8,16}}}},
        {"2x2",16,16,{{{0,8,0,8},{8,16,8,16}},{{8,16,0,8},{0,8,8,16}}}},
        {"swap",16,8,{{{0,8,0,8},{8,16,0,8}},{}}},
        {"3x1",24,8,{{{0,8,0,8}},{{8,16,0,8}},{{16,24,0,8}}}},
        {"seam",24,8,{{{0,8,0,8},{16,24,0,8}},{{8,16,0,8}}}},
        {"thin",8,3,{{{0,4,0,3}},{{4,8,0,3}}}},
        {"row",12,1,{{{0,4,0,1}},{{4,8,0,1}},{{8,12,0,1}}}},
    };
    std::vector<std::pair<float,float>> ranges={{1,1},{2,2},{0.5f,0.5f},{4,4},{1.5f,0.75f},{2,3}};
    for(auto& l:lay) for(size_t p=0;p<pos.size();p++) for(size_t q=0;q<ranges.size();q++)
    {
        bool big=l.t.size()>2;
        if(!vt::thorough() && ((big && (p+q)%3) || (!big && (p+q)%2 && p>1))) continue;
        Scen s; s.w=l.w; s.h=l.h; s.rx=ranges[q].first; s.ry=ranges[q].second; s.kind=(int)((p+q)%2);
        s.work=l.t; s.offs=pos[p];
        s.bound = vt::thorough()?(big?3:4):(big?2:3);
        char b[100]; snprintf(b,sizeof b,"tiles %s, samples set %d, filter range %gx%g, kernel %d",l.n,(int)p,s.rx,s.ry,s.kind);
        s.name=b; s.rep=1;
        r.push_back(s);
    }
    // a backlog far larger than what one tile normally leaves at its borders
    for(int rep:{60,450}) for(int lay2=0;lay2<2;lay2++)
    {
        Scen s; s.w=16; s.h=8; s.rx=2; s.ry=2; s.kind=0; s.rep=rep; s.bound=1;
        s.offs=pos[2];
        if(lay2) s.work={{{0,8,0,8},{8,16,0,8}},{{8,16,0,8}}}; else s.work={{{0,8,0,8}},{{8,16,0,8}}};
        char b[100]; snprintf(b,sizeof b,"backlog of %d samples, layout %d",rep*4,lay2);
        s.name=b;
        r.push_back(s);
    }
    return r;
}
static float value(int thread,int tile,int k) { return (float)(((thread*5+tile*3+k*2)%4)/3.0); }

int main(int argc,char** argv)
{
    vt::init(argc,argv);
    std::vector<Scen> sc=scenarios();
    for(size_t si=0;si<sc.size();si++)
    {
        Scen& s=sc[si];
        const int parts=s.bound>=3?2:1;
        for(int sub=0;sub<parts;sub++)
        {
            if(!vt::begin("%s, %d threads, %d preemptions, part %d/%d",s.name.c_str(),(int)s.work.size(),s.bound,sub,parts)) continue;
            CFilter filter(s.rx,s.ry,s.kind);
            std::unique_ptr<ImageFilm> film;
            RefFilm ref(s.w,s.h,&filter);
            for(size_t t=0;t<s.work.size();t++)
                for(size_t j=0;j<s.work[t].size();j++)
                    for(int rp=0;rp<(t+1<s.work.size()?s.rep:1);rp++) for(size_t k=0;k<s.offs.size();k++)
                    {
                        Tile& tl=s.work[t][j];
                        ref.add(tl.x0+s.offs[k].first*(tl.x1-tl.x0),tl.y0+s.offs[k].second*(tl.y1-tl.y0),grey(value((int)t,(int)j,(int)k)));
                    }
            std::vector<ExecutorData>* exd=NULL;
            auto body=[&]()
            {
                film.reset(new ImageFilm(s.w,s.h,"film.ppm"));
                film->set_filter(&filter);
                std::vector<ExecutorData> ex(s.work.size());
                exd=&ex;
                std::vector<std::thread> th;
                for(size_t t=0;t<s.work.size();t++)
                    th.push_back(std::thread([&,t]()
                    {
                        ExecutorData& e=ex[t];
                        for(size_t j=0;j<s.work[t].size();j++)
                        {
                            Tile& tl=s.work[t][j];
                            e.startx=tl.x0; e.endx=tl.x1; e.starty=tl.y0; e.endy=tl.y1;
                            for(int rp=0;rp<(t+1<s.work.size()?s.rep:1);rp++) for(size_t k=0;k<s.offs.size();k++)
                            {
                                Sample smp;
                                smp.posx=tl.x0+s.offs[k].first*(tl.x1-tl.x0);
                                smp.posy=tl.y0+s.offs[k].second*(tl.y1-tl.y0);
                                film->add_pixel(&smp,grey(value((int)t,(int)j,(int)k)),&e);
                            }
                            film->add_pixel_deferred(&e);
                        }
                        film->add_pixel_forced(&e);
                    }));
                for(auto& t:th) t.join();
                for(auto& e:ex)
                    if(!e.deferred.empty()) vt::fail("pixels left behind","%d deferred pixels after add_pixel_forced",(int)e.deferred.size());
                unlink("film.ppm");
                if(!film->save_image()) vt::fail("image not saved","save_image returned false");
            };
            int outc=0;
            mc::Config c; c.bound=s.bound; c.sub=sub; c.nsub=parts;
            mc::Stats st=mc::explore(c,body,[&](const mc::Outcome& o)
            {
                for(auto& r:o.races)
                    vt::fail(("race on "+r).c_str(),"unordered accesses (%s); schedule: %s",r.c_str(),o.trace.c_str());
                Img im; std::string msg;
                if(!read_ppm("film.ppm",im)) { vt::fail("image unreadable","stored image cannot be read back"); return false; }
                vt::seen(vt::hash(im.px.data(),im.px.size()*sizeof(int)));
                int p=compare(im,ref,msg);
                if(p>=0) vt::fail("wrong accumulated pixel","%s; schedule: %s",msg.c_str(),o.trace.c_str());
                if(outc++==1) vt::sample("%s -> schedule%s",s.name.c_str(),o.trace.c_str());
                return true;
            });
            vt::count("executions",st.executions); vt::count("transitions",st.points); vt::count("states",st.states);
            vt::count("diverged",st.diverged);
        }
    }
    return vt::finish();
}
