// Image files: round trips through every writer, reading every supported
// variant, every truncation and mutation, every point at which a write fails.
#include "img_util.hpp"
extern "C" {
#include "utility/imageio/imageio.h"
}
#include <sys/resource.h>
#include <signal.h>
#include <sys/stat.h>
static const char* EXTS[]={"bmp","tga","ppm","jpg","jpeg","png","tif","tiff"};
static std::string fname(const std::string& ext) { return "pic."+ext; }
// read through the library into a buffer of exactly the announced size
struct Got { int valid,dims,w,h,read; Pix p; bool big; };
static Got library_read(const char* n,const char* ext)
{
    Got g; g.w=-7777; g.h=-7777; g.read=0; g.big=false;
    g.valid=img_valid(n,ext); g.dims=img_dimensions(n,ext,&g.w,&g.h);
    if(!g.dims) return g;
    if(g.w<=0||g.h<=0||(long)g.w*g.h>(1<<20)) { g.big=true; return g; }
    uint32_t* b=(uint32_t*)malloc(sizeof(uint32_t)*g.w*g.h); for(int i=0;i<g.w*g.h;i++) b[i]=0xA5A5A5A5;
    g.read=img_read8(n,ext,b); g.p.assign(b,b+(size_t)g.w*g.h); free(b);
    return g;
}
static void roundtrip(bool T)
{
    for(int e=0;e<8;e++) for(int w=1;w<=(T?40:17);w++) for(int h=1;h<=(T?12:6);h++) for(int pat=0;pat<4;pat++)
    {
        if(!vt::begin("write %dx%d pattern %d as %s",w,h,pat,EXTS[e])) continue;
        std::string f=fname(EXTS[e]); bool lossy=EXTS[e][0]=='j';
        Img i=picture(w,h,lossy&&(pat==0||pat==3)?2:pat,pat==0); Pix want=i.p; for(auto& p:want) p|=255;
        uint32_t* buf=(uint32_t*)malloc(4*i.p.size()); memcpy(buf,i.p.data(),4*i.p.size());
        unlink(f.c_str()); if(w%3==0) spit(f.c_str(),Bytes(50000,'z')); // an older file is replaced
        int ok=img_write(f.c_str(),EXTS[e],w,h,buf); vt::count("evaluations");
        if(memcmp(buf,i.p.data(),4*i.p.size())) vt::fail("writer changes the picture","%s",EXTS[e]);
        free(buf);
        if(!ok) { vt::fail("write fails","%s",EXTS[e]); continue; }
        Img o; std::string why;
        if(!dec(EXTS[e],f.c_str(),o,why)) { vt::fail((std::string("written file malformed: ")+EXTS[e]).c_str(),"%s",why.c_str()); continue; }
        if(o.w!=w||o.h!=h) { vt::fail("written size","%dx%d instead of %dx%d",o.w,o.h,w,h); continue; }
        int d=maxdiff(o.p,want); vt::seen(vt::hash(o.p.data(),o.p.size()*4,e));
        if(d>(lossy?6:0)) vt::fail("written picture differs","%s: by up to %d",EXTS[e],d);
        Got g=library_read(f.c_str(),EXTS[e]);
        if(!g.valid) vt::fail("own file not recognised","%s",EXTS[e]);
        if(!g.dims||g.w!=w||g.h!=h) vt::fail("own file has wrong size","%s: %d %dx%d",EXTS[e],g.dims,g.w,g.h);
        else if(!g.read) vt::fail("own file not readable","%s",EXTS[e]);
        else if(maxdiff(g.p,lossy?o.p:want)) vt::fail("own file reads back differently","%s: by up to %d",EXTS[e],maxdiff(g.p,lossy?o.p:want));
    }
    // all values of a channel
    for(int e=0;e<8;e++) for(int c=0;c<4;c++)
    {
        if(EXTS[e][0]=='j'&&c<3) continue;
        if(!vt::begin("all values of channel %d as %s",c,EXTS[e])) continue;
        Img i; i.w=i.h=16; for(int k=0;k<256;k++) i.p.push_back(c==0?pix(k,7,9):c==1?pix(3,k,250):c==2?pix(128,99,k):pix(k,k,k));
        std::string f=fname(EXTS[e]); vt::count("evaluations");
        if(!img_write(f.c_str(),EXTS[e],16,16,i.p.data())) { vt::fail("write fails","%s",EXTS[e]); continue; }
        Got g=library_read(f.c_str(),EXTS[e]); vt::seen(vt::hash(g.p.data(),g.p.size()*4,e*4+c));
        if(!g.read||maxdiff(g.p,i.p)>(EXTS[e][0]=='j'?3:0)) vt::fail("channel values change","%s channel %d",EXTS[e],c);
    }
    // unsupported types and unwritable places leave nothing behind
    for(const char* x:{"gif","BMP","","bm","bmpx","webp"})
    {
        if(!vt::begin("unsupported type '%s'",x)) continue;
        Img i=picture(4,4,0); int w=-1,h=-1; uint32_t b[16]; vt::count("evaluations");
        if(img_supported(x)) vt::fail("unsupported type","'%s' is said to be supported",x);
        if(img_write("pic.x",x,4,4,i.p.data())||access("pic.x",F_OK)==0) vt::fail("unsupported type","'%s' written",x);
        spit("pic.x",bmp_enc(i,24,true)); if(img_valid("pic.x",x)||img_dimensions("pic.x",x,&w,&h)||img_read8("pic.x",x,b)) vt::fail("unsupported type","'%s' read",x);
        unlink("pic.x");
    }
    for(int e=0;e<8;e++)
    {
        if(!vt::begin("%s in a missing folder",EXTS[e])) continue;
        std::string f=std::string("missing/pic.")+EXTS[e]; Img i=picture(4,4,0); uint32_t b[16]; int w,h; vt::count("evaluations");
        if(!img_supported(EXTS[e])) vt::fail("unsupported type","%s",EXTS[e]);
        if(img_write(f.c_str(),EXTS[e],4,4,i.p.data())) vt::fail("write reported although impossible","%s",EXTS[e]);
        if(img_valid(f.c_str(),EXTS[e])||img_dimensions(f.c_str(),EXTS[e],&w,&h)||img_read8(f.c_str(),EXTS[e],b)) vt::fail("missing file read","%s",EXTS[e]);
    }
}
static void variants(bool T)
{
    for(int w=1;w<=(T?20:9);w++) for(int h=1;h<=(T?6:4);h++) for(int pat=0;pat<4;pat++)
    {
        if(!vt::begin("read every variant of a %dx%d picture, pattern %d",w,h,pat)) continue;
        refs(w,h,pat,[&](const Ref& r){
            std::string f=fname(r.ext); spit(f.c_str(),r.data); vt::count("evaluations"); vt::detail("%s",r.name.c_str());
            Got g=library_read(f.c_str(),r.ext.c_str());
            if(!g.valid) vt::fail(("not recognised: "+r.ext).c_str(),"%s",r.name.c_str());
            if(!g.dims||g.w!=w||g.h!=h) { vt::fail(("wrong size: "+r.ext).c_str(),"%s: %dx%d",r.name.c_str(),g.w,g.h); return; }
            if(!g.read) { vt::fail(("not readable: "+r.ext).c_str(),"%s",r.name.c_str()); return; }
            Img o=r.want; std::string why; if(r.lossy && !dec(r.ext,f.c_str(),o,why)) return;
            int d=maxdiff(g.p,o.p); vt::seen(vt::hash(g.p.data(),g.p.size()*4,r.name.size()));
            if(d>r.tol) vt::fail(("read differently: "+r.ext).c_str(),"%s: by up to %d",r.name.c_str(),d);
        });
    }
}
// damaged files: memory safe, and success only with the complete picture
static void judge(const Ref& r,const Bytes& b,const char* what,bool truncated)
{
    std::string f=fname(r.ext); spit(f.c_str(),b); vt::count("evaluations");
    Got g=library_read(f.c_str(),r.ext.c_str());
    if(g.dims && (g.w==-7777||g.h==-7777)) vt::fail(("size reported without reading it: "+r.ext).c_str(),"%s, %s",r.name.c_str(),what);
    if(g.dims && (g.w<0||g.h<0)) vt::fail(("negative size: "+r.ext).c_str(),"%s, %s: %dx%d",r.name.c_str(),what,g.w,g.h);
    if(g.big) vt::count("too large to read");
    if(g.read)
    {
        vt::count("damaged files read");
        if(truncated)
        {
            Img o=r.want; std::string why; if(r.lossy) { spit("ref.jpg",r.data); jpg_dec("ref.jpg",o,why); }
            // a number cut short is still a number: the format itself cannot tell
            size_t last=r.data.size(); if(r.name.substr(0,9)=="ppm ascii") { while(last && r.data[last-1]<=' ') last--; while(last && r.data[last-1]>' ') last--; }
            if(b.size()<=last && maxdiff(g.p,o.p,true)>r.tol) vt::fail(("incomplete file read successfully: "+r.ext).c_str(),"%s, %s",r.name.c_str(),what);
        }
        else for(auto p:g.p) if(p==0xA5A5A5A5) { vt::fail(("success without setting every pixel: "+r.ext).c_str(),"%s, %s",r.name.c_str(),what); break; }
    }
    vt::seen(vt::hash(g.p.data(),g.p.size()*4,g.read*2+g.dims));
}
static void damaged(bool T)
{
    for(int sz=0;sz<(T?4:2);sz++)
    {
        int w=sz==0?3:sz==1?5:sz==2?8:2,h=sz==0?2:sz==1?3:sz==2?5:7;
        std::vector<Ref> rs; for(int pat=0;pat<2;pat++) refs(w,h,pat,[&](const Ref& r){ rs.push_back(r); },true);
        for(auto& r:rs)
        {
            size_t n=r.data.size(); char what[100];
            // every length; headers of jpeg files are long, so they are cut at every byte too
            for(size_t lo=0;lo<n;lo+=64)
            {
                if(!vt::begin("%s, %dx%d, cut to %d..%d of %d bytes",r.name.c_str(),w,h,(int)lo,(int)std::min(n,lo+64)-1,(int)n)) continue;
                for(size_t l=lo;l<n&&l<lo+64;l++) { Bytes b(r.data.begin(),r.data.begin()+l); snprintf(what,100,"cut to %d bytes",(int)l); vt::detail("%s",what); judge(r,b,what,true); }
            }
            // every byte changed to every value of a small alphabet
            const int vals[]={0,1,2,3,0x10,0x20,0x7f,0x80,0x81,0xff,-1,-2};
            for(size_t lo=0;lo<n;lo+=16)
            {
                if(!T && sz>0 && lo>64) continue;
                if(!vt::begin("%s, %dx%d, bytes %d..%d changed",r.name.c_str(),w,h,(int)lo,(int)std::min(n,lo+16)-1)) continue;
                for(size_t l=lo;l<n&&l<lo+16;l++)
                {
                    for(int v:vals) { Bytes b=r.data; b[l]=v==-1?b[l]^1:v==-2?b[l]^0x80:v; if(b[l]==r.data[l]) continue; snprintf(what,100,"byte %d is %d",(int)l,b[l]); vt::detail("%s",what); judge(r,b,what,false); }
                    if(T||l<64) { Bytes b=r.data; b.erase(b.begin()+l); snprintf(what,100,"byte %d missing",(int)l); judge(r,b,what,false); b=r.data; b.insert(b.begin()+l,b[l]); snprintf(what,100,"byte %d doubled",(int)l); judge(r,b,what,false); }
                }
            }
            // pairs of bytes of the header
            if(r.ext!="bmp"&&r.ext!="tga") continue;
            size_t hl=r.ext=="bmp"?54:18; const int v2[]={0,1,0xff,0x80};
            for(size_t a=0;a<hl;a++)
            {
                if(!T && sz) continue;
                if(!vt::begin("%s, %dx%d, header byte %d and another changed",r.name.c_str(),w,h,(int)a)) continue;
                for(size_t c=a+1;c<hl;c++) for(int x:v2) for(int y:v2) { Bytes b=r.data; b[a]=x; b[c]=y; snprintf(what,100,"byte %d is %d, byte %d is %d",(int)a,x,(int)c,y); vt::detail("%s",what); judge(r,b,what,false); }
            }
        }
        // headers without data, text headers
        const char* txt[]={"P6","P3","P","","P6 ","P6 3","P6 3 2","P6 3 2 255","P3 3 2 255 1 2","P6 -3 2 255 ","P6 0 0 255 ","P6 3 0 255 ","P6 99999 99999 255 ","P6 a b c","P3 2 1 255 1 2 3 4 5","P3 2 1 255 1 2 3 4 5 x","P6 # c\n3 2 255\n","P3 2 1 0 1 2 3 4 5 6","P6 2 1 0 abcdef","P7 2 1 255 abcdef","P3 1 1 99999 1 2 3","P3 2 1 255 1 2 3 4 5 123456","BM","B"};
        for(const char* t:txt) for(int e=0;e<8;e++)
        {
            if(sz) continue;
            if(!vt::begin("file '%s' as %s",t,EXTS[e])) continue;
            Ref r; r.name=t; r.ext=EXTS[e]; r.want.w=r.want.h=0; r.tol=0; r.lossy=false; judge(r,Bytes(t,t+strlen(t)),"text",false);
        }
    }
    // one format under the name of another
    std::vector<Ref> rs; refs(5,3,0,[&](const Ref& r){ rs.push_back(r); },true);
    for(auto& r:rs) for(int e=0;e<8;e++) { if(!vt::begin("%s under the name %s",r.name.c_str(),EXTS[e])) continue; if(r.ext.substr(0,2)==std::string(EXTS[e]).substr(0,2)) continue; Ref x=r; x.ext=EXTS[e]; judge(x,r.data,"another format",false); }
}
// every point at which the disk may be full
static void faults(bool T)
{
    signal(SIGXFSZ,SIG_IGN); struct rlimit old; getrlimit(RLIMIT_FSIZE,&old);
    for(int e=0;e<8;e++) for(int sz=0;sz<(T?4:3);sz++)
    {
        int w=sz==0?3:sz==1?16:sz==2?70:120,h=sz==0?2:sz==1?16:sz==2?60:90; Img i=picture(w,h,0); std::string f=fname(EXTS[e]);
        unlink(f.c_str()); if(!img_write(f.c_str(),EXTS[e],w,h,i.p.data())) continue; Bytes full=slurp(f.c_str()); size_t n=full.size();
        size_t step=sz==0?1:sz==1?(T?1:7):(T?61:509);
        for(size_t blk=0;blk<=n;blk+=step*32)
        {
            if(!vt::begin("%s %dx%d (%d bytes), disk full after %d.. bytes",EXTS[e],w,h,(int)n,(int)blk)) continue;
            for(size_t l=blk;l<=n&&l<blk+step*32;l+=step) for(int last=0;last<1+(l+step>n);last++)
            {
                size_t lim=last?n:l; struct rlimit r=old; r.rlim_cur=lim; unlink(f.c_str()); vt::detail("disk full after %d bytes",(int)lim);
                setrlimit(RLIMIT_FSIZE,&r); int ok=img_write(f.c_str(),EXTS[e],w,h,i.p.data()); setrlimit(RLIMIT_FSIZE,&old);
                vt::count("evaluations"); vt::count("crash_points"); bool same=slurp(f.c_str())==full;
                vt::seen(vt::mix(lim,e*4+sz));
                if(ok && !same) vt::fail((std::string("incomplete file reported as written: ")+EXTS[e]).c_str(),"%dx%d: disk full after %d of %d bytes",w,h,(int)lim,(int)n);
                if(!ok && lim>=n) vt::fail("write fails","%s: enough space",EXTS[e]);
            }
        }
    }
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough();
    if(vt::st().prop=="C09") { roundtrip(T); variants(T); }
    else if(vt::st().prop=="C10") damaged(T);
    else faults(T);
    return vt::finish();
}
