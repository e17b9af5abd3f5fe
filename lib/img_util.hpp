// Independent encoders and decoders of the image formats.
#ifndef IMG_UTIL_HPP
#define IMG_UTIL_HPP
#include "vt.hpp"
#include <string>
#include <vector>
#include <png.h>
#include <jpeglib.h>
#include <tiffio.h>
#include <setjmp.h>
#include <functional>
typedef std::vector<uint8_t> Bytes;
typedef std::vector<uint32_t> Pix; // 0xBBGGRRAA
inline uint32_t pix(int r,int g,int b,int a=255) { return (uint32_t)b<<24|(uint32_t)g<<16|(uint32_t)r<<8|(uint32_t)a; }
inline int pR(uint32_t p) { return p>>8&255; }
inline int pG(uint32_t p) { return p>>16&255; }
inline int pB(uint32_t p) { return p>>24; }
inline int pA(uint32_t p) { return p&255; }
inline void spit(const char* n,const Bytes& b) { FILE* f=fopen(n,"wb"); if(!f) abort(); if(b.size()&&fwrite(b.data(),1,b.size(),f)!=b.size()) abort(); fclose(f); }
inline Bytes slurp(const char* n) { Bytes b; FILE* f=fopen(n,"rb"); if(!f) return b; int c; while((c=fgetc(f))!=EOF) b.push_back((uint8_t)c); fclose(f); return b; }
struct Img { int w,h; Pix p; };
// ---- test pictures: pattern 0 distinct pixels, 1 flat, 2 grey ramp, 3 extremes
inline Img picture(int w,int h,int pat,bool alpha=false)
{
    Img i; i.w=w; i.h=h; i.p.resize((size_t)w*h);
    for(int y=0;y<h;y++) for(int x=0;x<w;x++)
    {
        int k=y*w+x; uint32_t v;
        if(pat==0) v=pix((k*37+11)&255,(k*91+200)&255,(k*53+77)&255,alpha?(k*29+5)&255:255);
        else if(pat==1) v=pix(190,40,90,alpha?100:255);
        else if(pat==2) { int g=(int)(255.0*(x+y)/(w+h)); v=pix(g,g,g,alpha?255-g:255); }
        else v=pix(k&1?255:0,k&2?255:0,k&4?255:0,alpha&&(k&8)?0:255);
        i.p[k]=v;
    }
    return i;
}
inline void le16(Bytes& b,unsigned v) { b.push_back(v&255); b.push_back(v>>8&255); }
inline void le32(Bytes& b,unsigned v) { le16(b,v); le16(b,v>>16); }
// ---- BMP
inline Bytes bmp_enc(const Img& i,int bpp,bool topdown,int extra=0)
{
    Bytes b; int bytes=bpp/8,row=(i.w*bytes+3)/4*4;
    b.push_back('B'); b.push_back('M'); le32(b,54+extra+row*i.h); le32(b,0); le32(b,54+extra);
    le32(b,40); le32(b,i.w); le32(b,topdown?-i.h:i.h); le16(b,1); le16(b,bpp); le32(b,0); le32(b,row*i.h); le32(b,2835); le32(b,2835); le32(b,0); le32(b,0);
    for(int k=0;k<extra;k++) b.push_back(0xEE);
    for(int y=0;y<i.h;y++)
    {
        int yy=topdown?y:i.h-1-y; int n=0;
        for(int x=0;x<i.w;x++) { uint32_t p=i.p[yy*i.w+x]; b.push_back(pB(p)); b.push_back(pG(p)); b.push_back(pR(p)); n+=3; if(bpp==32) { b.push_back(pA(p)); n++; } }
        while(n<row) { b.push_back(0xCC); n++; }
    }
    return b;
}
inline unsigned g16(const Bytes& b,size_t o) { return o+1<b.size()?b[o]|b[o+1]<<8:0; }
inline unsigned g32(const Bytes& b,size_t o) { return g16(b,o)|g16(b,o+2)<<16; }
inline bool bmp_dec(const Bytes& b,Img& i,std::string& why)
{
    if(b.size()<54||b[0]!='B'||b[1]!='M') { why="no header"; return false; }
    i.w=(int)g32(b,18); int h=(int)g32(b,22); bool td=h<0; i.h=td?-h:h; int bpp=g16(b,28);
    if((bpp!=24&&bpp!=32)||g32(b,30)) { why="depth"; return false; }
    if(g32(b,2)!=b.size()) { why="file size field"; return false; }
    if(g16(b,26)!=1) { why="planes"; return false; }
    if(i.w<=0||i.h<=0||i.w>4096||i.h>4096) { why="size"; return false; }
    size_t off=g32(b,10),row=(i.w*(bpp/8)+3)/4*4;
    if(off<54||off+row*i.h>b.size()) { why="too short"; return false; }
    if(off+row*i.h<b.size()) { why="trailing data"; return false; }
    i.p.assign((size_t)i.w*i.h,0);
    for(int y=0;y<i.h;y++) for(int x=0;x<i.w;x++) { const uint8_t* p=&b[off+row*(td?y:i.h-1-y)+x*(bpp/8)]; i.p[y*i.w+x]=pix(p[2],p[1],p[0],bpp==32?p[3]:255); }
    return true;
}
// ---- TGA; rle 0 none, 1 every run as short as possible, 2 greedy, 3 crossing lines, 4 raw packets, 5 raw packets crossing lines
inline void tga_px(Bytes& b,uint32_t p,int bpp)
{
    if(bpp==24||bpp==32) { b.push_back(pB(p)); b.push_back(pG(p)); b.push_back(pR(p)); if(bpp==32) b.push_back(pA(p)); }
    else { unsigned v=(pR(p)>>3)<<10|(pG(p)>>3)<<5|pB(p)>>3; if(bpp==16&&pA(p)>127) v|=0x8000; le16(b,v); }
}
inline Bytes tga_enc(const Img& i,int bpp,bool topdown,int rle,int idlen=0)
{
    Bytes b; b.push_back(idlen); b.push_back(0); b.push_back(rle?10:2); le16(b,0); le16(b,0); b.push_back(0); le16(b,0); le16(b,0); le16(b,i.w); le16(b,i.h); b.push_back(bpp);
    b.push_back((topdown?0x20:0)|(bpp==32?8:bpp==16?1:0)); for(int k=0;k<idlen;k++) b.push_back('x');
    Pix s; for(int y=0;y<i.h;y++) for(int x=0;x<i.w;x++) s.push_back(i.p[(topdown?y:i.h-1-y)*i.w+x]);
    size_t n=s.size();
    if(!rle) { for(auto p:s) tga_px(b,p,bpp); return b; }
    size_t k=0;
    while(k<n)
    {
        size_t lim=(rle==3||rle==5)?n:(k/i.w+1)*i.w; if(lim>k+128) lim=k+128;
        size_t r=1; while(k+r<lim && s[k+r]==s[k]) r++;
        if(rle==1) r=1;
        if(rle==4||rle==5) { r=lim-k; b.push_back((uint8_t)(r-1)); for(size_t j=0;j<r;j++) tga_px(b,s[k+j],bpp); }
        else if(r>1||(rle==1&&k%2)) { b.push_back((uint8_t)(0x80|(r-1))); tga_px(b,s[k],bpp); }
        else if(rle==1) { b.push_back(0); tga_px(b,s[k],bpp); }
        else // mixed: a raw packet up to the next run
        {
            size_t q=1; while(k+q<lim && !(k+q+1<lim && s[k+q]==s[k+q+1])) q++;
            b.push_back((uint8_t)(q-1)); for(size_t j=0;j<q;j++) tga_px(b,s[k+j],bpp); r=q;
        }
        k+=r;
    }
    return b;
}
inline bool tga_dec(const Bytes& b,Img& i,std::string& why)
{
    if(b.size()<18||b[1]||b[2]!=2||(b[16]!=24&&b[16]!=32)) { why="header"; return false; }
    i.w=g16(b,12); i.h=g16(b,14); int n=b[16]/8; bool td=b[17]&0x20; size_t off=18+b[0];
    if(off+(size_t)i.w*i.h*n!=b.size()) { why="length"; return false; }
    i.p.resize((size_t)i.w*i.h);
    for(int y=0;y<i.h;y++) for(int x=0;x<i.w;x++) { const uint8_t* p=&b[off+((size_t)(td?y:i.h-1-y)*i.w+x)*n]; i.p[y*i.w+x]=pix(p[2],p[1],p[0],n==4?p[3]:255); }
    return true;
}
// ---- PPM; sep: white space between the fields
inline Bytes ppm_enc(const Img& i,bool ascii,int depth,const char* sep)
{
    char t[100]; snprintf(t,sizeof t,"P%d%s%d%s%d%s%d%c",ascii?3:6,sep,i.w,sep,i.h,sep,depth,sep[0]); Bytes b(t,t+strlen(t)); int n=0;
    for(auto p:i.p)
    {
        int c[3]={pR(p),pG(p),pB(p)};
        for(int k=0;k<3;k++)
        {
            int v=(int)((c[k]*(long)depth+127)/255);
            if(ascii) { snprintf(t,sizeof t,"%d%c",v,++n%9?' ':'\n'); for(char* q=t;*q;q++) b.push_back(*q); }
            else { if(depth>255) b.push_back(v>>8); b.push_back(v&255); }
        }
    }
    return b;
}
inline bool ppm_dec(const Bytes& b,Img& i,std::string& why)
{
    int w,h,d,off=0; std::string s(b.begin(),b.begin()+(b.size()<60?b.size():60));
    if(sscanf(s.c_str(),"P6 %d %d %d%n",&w,&h,&d,&off)!=3||d!=255) { why="header"; return false; }
    off++; if((size_t)off+(size_t)w*h*3!=b.size()) { why="length"; return false; }
    i.w=w; i.h=h; i.p.resize((size_t)w*h); for(int k=0;k<w*h;k++) i.p[k]=pix(b[off+k*3],b[off+k*3+1],b[off+k*3+2]);
    return true;
}
// ---- PNG through libpng
inline Bytes png_enc(const Img& i,int type,int depth,bool interlace,bool trns)
{
    // type: PNG_COLOR_TYPE_*; picture must be representable
    const char* tmp="enc.png"; FILE* f=fopen(tmp,"wb"); png_structp p=png_create_write_struct(PNG_LIBPNG_VER_STRING,NULL,NULL,NULL); png_infop q=png_create_info_struct(p);
    png_init_io(p,f); png_set_IHDR(p,q,i.w,i.h,depth,type,interlace?PNG_INTERLACE_ADAM7:PNG_INTERLACE_NONE,PNG_COMPRESSION_TYPE_DEFAULT,PNG_FILTER_TYPE_DEFAULT);
    int ch=type==PNG_COLOR_TYPE_RGB?3:type==PNG_COLOR_TYPE_RGBA?4:type==PNG_COLOR_TYPE_GRAY_ALPHA?2:1;
    std::vector<uint32_t> pal;
    if(type==PNG_COLOR_TYPE_PALETTE)
    {
        for(auto x:i.p) { bool in=false; for(auto y:pal) in|=y==x; if(!in) pal.push_back(x); }
        std::vector<png_color> c; std::vector<png_byte> a; for(auto x:pal) { png_color k; k.red=pR(x); k.green=pG(x); k.blue=pB(x); c.push_back(k); a.push_back(pA(x)); }
        png_set_PLTE(p,q,c.data(),(int)c.size()); if(trns) png_set_tRNS(p,q,a.data(),(int)a.size(),NULL);
    }
    png_color_16 key; memset(&key,0,sizeof key);
    if(trns && type!=PNG_COLOR_TYPE_PALETTE) { uint32_t x=i.p[0]; key.red=pR(x); key.green=pG(x); key.blue=pB(x); key.gray=pR(x)>>(8-(depth<8?depth:8)); if(depth==16) { key.red*=257; key.green*=257; key.blue*=257; key.gray*=257; } png_set_tRNS(p,q,NULL,0,&key); }
    png_write_info(p,q);
    std::vector<Bytes> rows(i.h); std::vector<png_bytep> rp(i.h);
    for(int y=0;y<i.h;y++)
    {
        Bytes& r=rows[y]; int bits=0; unsigned acc=0;
        for(int x=0;x<i.w;x++)
        {
            uint32_t v=i.p[y*i.w+x]; int c[4]; int n=ch;
            if(type==PNG_COLOR_TYPE_PALETTE) { c[0]=0; for(size_t k=0;k<pal.size();k++) if(pal[k]==v) c[0]=(int)k; }
            else if(ch<=2) { c[0]=pR(v); c[1]=pA(v); } else { c[0]=pR(v); c[1]=pG(v); c[2]=pB(v); c[3]=pA(v); }
            for(int k=0;k<n;k++)
            {
                if(depth==16) { r.push_back(c[k]); r.push_back(c[k]); }
                else if(depth==8) r.push_back(c[k]);
                else { int s=type==PNG_COLOR_TYPE_PALETTE?c[k]:c[k]>>(8-depth); acc=acc<<depth|s; bits+=depth; if(bits==8) { r.push_back(acc); acc=0; bits=0; } }
            }
        }
        if(bits) r.push_back(acc<<(8-bits));
        rp[y]=r.data();
    }
    png_write_image(p,rp.data()); png_write_end(p,NULL); png_destroy_write_struct(&p,&q); fclose(f);
    Bytes b=slurp(tmp); unlink(tmp); return b;
}
inline bool png_dec(const char* name,Img& i,std::string& why)
{
    png_image im; memset(&im,0,sizeof im); im.version=PNG_IMAGE_VERSION;
    if(!png_image_begin_read_from_file(&im,name)) { why=im.message; return false; }
    im.format=PNG_FORMAT_RGBA; Bytes b(PNG_IMAGE_SIZE(im)); if(!png_image_finish_read(&im,NULL,b.data(),0,NULL)) { why=im.message; png_image_free(&im); return false; }
    i.w=im.width; i.h=im.height; i.p.resize((size_t)i.w*i.h); for(int k=0;k<i.w*i.h;k++) i.p[k]=pix(b[k*4],b[k*4+1],b[k*4+2],b[k*4+3]);
    return true;
}
// ---- JPEG through libjpeg
inline Bytes jpg_enc(const Img& i,bool grey,bool progressive,int quality=95)
{
    const char* tmp="enc.jpg"; FILE* f=fopen(tmp,"wb"); jpeg_compress_struct c; jpeg_error_mgr e; c.err=jpeg_std_error(&e); jpeg_create_compress(&c); jpeg_stdio_dest(&c,f);
    c.image_width=i.w; c.image_height=i.h; c.input_components=grey?1:3; c.in_color_space=grey?JCS_GRAYSCALE:JCS_RGB; jpeg_set_defaults(&c); jpeg_set_quality(&c,quality,1); if(progressive) jpeg_simple_progression(&c);
    jpeg_start_compress(&c,1); for(int y=0;y<i.h;y++) { Bytes r; for(int x=0;x<i.w;x++) { uint32_t v=i.p[y*i.w+x]; r.push_back(pR(v)); if(!grey) { r.push_back(pG(v)); r.push_back(pB(v)); } } JSAMPROW rr=r.data(); jpeg_write_scanlines(&c,&rr,1); }
    jpeg_finish_compress(&c); jpeg_destroy_compress(&c); fclose(f); Bytes b=slurp(tmp); unlink(tmp); return b;
}
struct JErr { jpeg_error_mgr m; jmp_buf j; };
inline void j_exit(j_common_ptr c) { longjmp(((JErr*)c->err)->j,1); }
inline void j_msg(j_common_ptr) {}
inline bool jpg_dec(const char* name,Img& i,std::string& why)
{
    FILE* f=fopen(name,"rb"); if(!f) { why="no file"; return false; }
    jpeg_decompress_struct c; JErr e; c.err=jpeg_std_error(&e.m); e.m.error_exit=j_exit; e.m.output_message=j_msg;
    static Bytes* row; row=new Bytes;
    if(setjmp(e.j)) { jpeg_destroy_decompress(&c); fclose(f); why="decoder error"; return false; }
    jpeg_create_decompress(&c); jpeg_stdio_src(&c,f); jpeg_read_header(&c,TRUE); c.out_color_space=JCS_RGB; jpeg_start_decompress(&c);
    i.w=c.output_width; i.h=c.output_height; i.p.resize((size_t)i.w*i.h); row->resize(i.w*3); JSAMPROW rr=row->data();
    while(c.output_scanline<c.output_height) { int y=c.output_scanline; jpeg_read_scanlines(&c,&rr,1); for(int x=0;x<i.w;x++) i.p[y*i.w+x]=pix((*row)[x*3],(*row)[x*3+1],(*row)[x*3+2]); }
    bool ok=e.m.num_warnings==0; jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c); fclose(f); delete row; if(!ok) why="corrupt data"; return ok;
}
// ---- TIFF through libtiff; strip: rows per strip
inline Bytes tif_enc(const Img& i,int ch,int comp,int strip)
{
    const char* tmp="enc.tif"; TIFF* t=TIFFOpen(tmp,"w"); TIFFSetField(t,TIFFTAG_IMAGEWIDTH,i.w); TIFFSetField(t,TIFFTAG_IMAGELENGTH,i.h); TIFFSetField(t,TIFFTAG_SAMPLESPERPIXEL,ch); TIFFSetField(t,TIFFTAG_BITSPERSAMPLE,8);
    TIFFSetField(t,TIFFTAG_ORIENTATION,ORIENTATION_TOPLEFT); TIFFSetField(t,TIFFTAG_PLANARCONFIG,PLANARCONFIG_CONTIG); TIFFSetField(t,TIFFTAG_PHOTOMETRIC,PHOTOMETRIC_RGB); TIFFSetField(t,TIFFTAG_COMPRESSION,comp); TIFFSetField(t,TIFFTAG_ROWSPERSTRIP,strip);
    if(ch==4) { uint16_t ex=EXTRASAMPLE_ASSOCALPHA; TIFFSetField(t,TIFFTAG_EXTRASAMPLES,1,&ex); }
    for(int y=0;y<i.h;y++) { Bytes r; for(int x=0;x<i.w;x++) { uint32_t v=i.p[y*i.w+x]; r.push_back(pR(v)); r.push_back(pG(v)); r.push_back(pB(v)); if(ch==4) r.push_back(pA(v)); } TIFFWriteScanline(t,r.data(),y,0); }
    TIFFClose(t); Bytes b=slurp(tmp); unlink(tmp); return b;
}
inline bool tif_dec(const char* name,Img& i,std::string& why)
{
    TIFFSetWarningHandler(NULL); TIFFSetErrorHandler(NULL);
    TIFF* t=TIFFOpen(name,"r"); if(!t) { why="no header"; return false; }
    uint32_t w=0,h=0; TIFFGetField(t,TIFFTAG_IMAGEWIDTH,&w); TIFFGetField(t,TIFFTAG_IMAGELENGTH,&h); if(!w||!h||w>4096||h>4096) { TIFFClose(t); why="size"; return false; }
    Pix raw((size_t)w*h); bool ok=TIFFReadRGBAImageOriented(t,w,h,raw.data(),ORIENTATION_TOPLEFT,1); TIFFClose(t); if(!ok) { why="data"; return false; }
    i.w=w; i.h=h; i.p.resize(raw.size()); for(size_t k=0;k<raw.size();k++) i.p[k]=pix(TIFFGetR(raw[k]),TIFFGetG(raw[k]),TIFFGetB(raw[k]),TIFFGetA(raw[k]));
    return true;
}
inline bool dec(const std::string& ext,const char* name,Img& i,std::string& why)
{
    if(ext=="bmp") return bmp_dec(slurp(name),i,why); if(ext=="tga") return tga_dec(slurp(name),i,why); if(ext=="ppm") return ppm_dec(slurp(name),i,why);
    if(ext=="jpg"||ext=="jpeg") return jpg_dec(name,i,why); if(ext=="png") return png_dec(name,i,why); return tif_dec(name,i,why);
}
inline int maxdiff(const Pix& a,const Pix& b,bool alpha=true)
{ int m=0; if(a.size()!=b.size()) return 999; for(size_t k=0;k<a.size();k++) for(int s=alpha?0:8;s<32;s+=8) { int d=abs((int)(a[k]>>s&255)-(int)(b[k]>>s&255)); if(d>m) m=d; } return m; }
// ---- the reference files: every supported variant of every format
struct Ref { std::string name,ext; Bytes data; Img want; int tol; bool lossy; };
inline void refs(int w,int h,int pat,const std::function<void(const Ref&)>& f,bool few=false)
{
    Img rgb=picture(w,h,pat),rgba=picture(w,h,pat,true); char n[200]; Ref r;
    auto out=[&](const char* ext,const Bytes& b,const Img& i,int tol,bool lossy=false){ r.name=n; r.ext=ext; r.data=b; r.want=i; r.tol=tol; r.lossy=lossy; f(r); };
    for(int bpp=24;bpp<=32;bpp+=8) for(int td=0;td<2;td++) for(int ex=0;ex<(few?1:2);ex++) { snprintf(n,200,"bmp %d bit %s%s",bpp,td?"top-down":"bottom-up",ex?", data further behind":""); out("bmp",bmp_enc(bpp==32?rgba:rgb,bpp,td,ex*7),bpp==32?rgba:rgb,0); }
    for(int bpp:{15,16,24,32}) for(int td=0;td<2;td++) for(int rle=0;rle<6;rle++) for(int id=0;id<(few?1:2);id++)
    {
        if(few && (bpp==15 || rle==1)) continue;
        Img i=bpp==32?rgba:rgb; if(bpp<24) for(auto& p:i.p) p&=0xF8F8F8FF;
        snprintf(n,200,"tga %d bit %s encoding %d%s",bpp,td?"top-down":"bottom-up",rle,id?" with an id":""); out("tga",tga_enc(i,bpp,td,rle,id*13),i,0);
    }
    for(int a=0;a<2;a++) for(int d:{255,65535,1023,31,4095,256}) for(const char* s:{"\n"," ","\t\n "}) { if(few && (d==4095||d==256||s[0]!='\n')) continue; snprintf(n,200,"ppm %s depth %d separator %d",a?"ascii":"binary",d,s[0]); Img i=rgb; out("ppm",ppm_enc(i,a,d,s),i,d==255?0:d<255?(255/d)+1:1); }
    struct { int t,d; const char* s; } pt[]={{PNG_COLOR_TYPE_RGB,8,"rgb"},{PNG_COLOR_TYPE_RGBA,8,"rgba"},{PNG_COLOR_TYPE_RGB,16,"rgb16"},{PNG_COLOR_TYPE_RGBA,16,"rgba16"},{PNG_COLOR_TYPE_GRAY,8,"grey"},{PNG_COLOR_TYPE_GRAY,1,"grey1"},{PNG_COLOR_TYPE_GRAY,2,"grey2"},{PNG_COLOR_TYPE_GRAY,4,"grey4"},{PNG_COLOR_TYPE_GRAY,16,"grey16"},{PNG_COLOR_TYPE_GRAY_ALPHA,8,"grey alpha"},{PNG_COLOR_TYPE_GRAY_ALPHA,16,"grey alpha 16"},{PNG_COLOR_TYPE_PALETTE,8,"palette"},{PNG_COLOR_TYPE_PALETTE,4,"palette4"},{PNG_COLOR_TYPE_PALETTE,1,"palette1"}};
    for(auto& t:pt) for(int il=0;il<2;il++) for(int tr=0;tr<2;tr++)
    {
        bool al=t.t&PNG_COLOR_MASK_ALPHA; if(al&&tr) continue; if(few && (il||tr) && t.d!=8) continue;
        Img i=al||(tr&&t.t==PNG_COLOR_TYPE_PALETTE)?rgba:rgb;
        if(t.t==PNG_COLOR_TYPE_GRAY||t.t==PNG_COLOR_TYPE_GRAY_ALPHA) for(auto& p:i.p) { int g=pR(p); if(t.d<8) { int m=(1<<t.d)-1; g=(g>>(8-t.d))*255/m; } p=pix(g,g,g,pA(p)); }
        if(t.t==PNG_COLOR_TYPE_PALETTE) { int lim=1<<t.d,k=0; for(auto& p:i.p) { int j=k++%lim; p=rgb.p[j%rgb.p.size()]; if(tr) p=(p&~255u)|((j*40)&255); } if((size_t)lim<1) continue; }
        Img want=i; if(tr&&t.t!=PNG_COLOR_TYPE_PALETTE) for(size_t k=1;k<=want.p.size();k++) { size_t j=k%want.p.size(); if((i.p[j]&~255u)==(i.p[0]&~255u)) want.p[j]=i.p[j]&~255u; }
        snprintf(n,200,"png %s%s%s",t.s,il?" interlaced":"",tr?" with transparency":""); out("png",png_enc(i,t.t,t.d,il,tr),want,0);
    }
    for(int g=0;g<2;g++) for(int pr=0;pr<2;pr++) { Img i=rgb; if(g) for(auto& p:i.p) p=pix(pR(p),pR(p),pR(p)); snprintf(n,200,"jpeg %s%s",g?"grey":"colour",pr?" progressive":""); out(pr?"jpeg":"jpg",jpg_enc(i,g,pr),i,0,true); }
    for(int ch=3;ch<=4;ch++) for(int c:{COMPRESSION_NONE,COMPRESSION_LZW,COMPRESSION_PACKBITS}) for(int s=1;s<=8;s+=7)
    {
        if(few && c==COMPRESSION_PACKBITS) continue;
        Img i=ch==4?rgba:rgb; if(ch==4) for(auto& p:i.p) { int a=pA(p); p=pix(pR(p)*a/255,pG(p)*a/255,pB(p)*a/255,a); } // associated alpha
        snprintf(n,200,"tiff %d channels compression %d, %d rows per strip",ch,c,s); out(ch==3?"tif":"tiff",tif_enc(i,ch,c,s),i,0);
    }
}
#endif
