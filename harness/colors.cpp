// C24: colours and spectra: every 8-bit colour, every temperature, every sample
#include "vt.hpp"
#include "utility/spectrum.hpp"
#include <cmath>
#include <vector>
static const int NS=sizeof(Spectrum)/sizeof(float);
#ifdef SPECTRAL
static const bool SP=true;
#else
static const bool SP=false;
#endif
static double lin(double c) { return c>0.04045?pow((c+0.055)/1.055,2.4):c/12.92; }
static double gam(double c) { return c>0.0031308?1.055*pow(c,1/2.4)-0.055:c*12.92; }
// sRGB with the D65 white: from its primaries, by way of a matrix inversion
static double FW[3][3],BW[3][3],AD[3][3];
static void inv(const double m[3][3],double r[3][3])
{
    double d=0; for(int i=0;i<3;i++) d+=m[0][i]*(m[1][(i+1)%3]*m[2][(i+2)%3]-m[1][(i+2)%3]*m[2][(i+1)%3]);
    for(int i=0;i<3;i++) for(int j=0;j<3;j++) r[i][j]=(m[(j+1)%3][(i+1)%3]*m[(j+2)%3][(i+2)%3]-m[(j+1)%3][(i+2)%3]*m[(j+2)%3][(i+1)%3])/d;
}
static void primaries(const double xy[3][2],double out[3][3])
{
    const double wx=0.31271,wy=0.32902,W[3]={wx/wy,1,(1-wx-wy)/wy}; double p[3][3],q[3][3];
    for(int i=0;i<3;i++) { p[0][i]=xy[i][0]/xy[i][1]; p[1][i]=1; p[2][i]=(1-xy[i][0]-xy[i][1])/xy[i][1]; }
    inv(p,q); for(int i=0;i<3;i++) { double s=0; for(int k=0;k<3;k++) s+=q[i][k]*W[k]; for(int k=0;k<3;k++) out[k][i]=p[k][i]*s; }
}
static void mul(const double m[3][3],const double* a,double* r) { for(int i=0;i<3;i++) r[i]=m[i][0]*a[0]+m[i][1]*a[1]+m[i][2]*a[2]; }
static bool near(double a,double b,double t) { return fabs(a-b)<=t; }

static const double TOL[2]={0.06,0.14};
static void bytes(bool T)
{
    (void)T; static Spectrum row[2][256],last[2][256]; // spectra of the colours of the previous blue and green
    for(int r=0;r<256;r++) if(vt::begin("colours %d,*,*",r))
    {
        if(r==0||r==128) vt::sample("%s",vt::sh()->desc);
        for(int g=0;g<256;g++) { vt::beat(); for(int b=0;b<256;b++)
        {
            vt::count("evaluations");
            ColorRGB c((unsigned char)r,(unsigned char)g,(unsigned char)b); pixBGRA px=((pixBGRA)b<<24)|((pixBGRA)g<<16)|((pixBGRA)r<<8)|((r^g^b)&255); ColorRGB c2(px);
            if(!near(c.r,r/255.0,1e-6)||!near(c.g,g/255.0,1e-6)||!near(c.b,b/255.0,1e-6)) vt::fail("bytes","%d,%d,%d became %g,%g,%g",r,g,b,c.r,c.g,c.b);
            if(!near(c2.r,r/255.0,1e-6)||!near(c2.g,g/255.0,1e-6)||!near(c2.b,b/255.0,1e-6)) vt::fail("pixel","pixel %08x became %g,%g,%g",px,c2.r,c2.g,c2.b);
            ColorXYZ x=c.to_XYZ(); double l[3]={lin(r/255.0),lin(g/255.0),lin(b/255.0)},w[3]; mul(FW,l,w);
            if(!near(x.r,w[0],1e-3)||!near(x.g,w[1],1e-3)||!near(x.b,w[2],1e-3)) vt::fail("to-xyz","%d,%d,%d is %g,%g,%g in XYZ instead of %g,%g,%g",r,g,b,x.r,x.g,x.b,w[0],w[1],w[2]);
            ColorRGB k=x.to_sRGB();
            if(!near(k.r,c.r,2e-4)||!near(k.g,c.g,2e-4)||!near(k.b,c.b,2e-4)) vt::fail("round-trip","%d,%d,%d comes back as %g,%g,%g",r,g,b,k.r*255,k.g*255,k.b*255);
            vt::seen(vt::hash(&x,12));
            for(int e=0;e<2;e++)
            {
                if(SP&&((r|g|b)&3)&&!T) continue; // spectra: every fourth value unless thorough
                Spectrum s(c,e!=0); ColorXYZ y=s.to_xyz(); ColorRGB q=y.to_sRGB(); double mxl=std::max(l[0],std::max(l[1],l[2])),ql[3]; double yv[3]={y.r,y.g,y.b}; mul(BW,yv,ql); if(SP&&!e) for(int i=0;i<3;i++) ql[i]/=BW[i][0]+BW[i][1]+BW[i][2]; /* surfaces: white is a constant spectrum, lights: D65 */ double tol=SP?TOL[e]*mxl+1e-6:2e-4;

                if(SP?!near(ql[0],l[0],tol)||!near(ql[1],l[1],tol)||!near(ql[2],l[2],tol):!near(q.r,c.r,tol)||!near(q.g,c.g,tol)||!near(q.b,c.b,tol)) vt::fail("colour-of-spectrum","the %s spectrum of %d,%d,%d has the colour %g,%g,%g",e?"light":"surface",r,g,b,q.r*255,q.g*255,q.b*255);
                if(!near(s.luminance(),y.g,1e-6)) vt::fail("luminance","luminance %g, Y %g",s.luminance(),y.g);
                if(s.is_black()!=(!r&&!g&&!b)) vt::fail("black","%d,%d,%d is %sblack",r,g,b,s.is_black()?"":"not ");
                for(int i=0;i<NS;i++) if(!(s.w[i]>=0&&s.w[i]<=(SP?1:1.09))) vt::fail("range","sample %d of %d,%d,%d is %g",i,r,g,b,s.w[i]);
                int step=SP&&!T?4:1; double md=step/255.0*2.4*1.3; // slope of the gamma, largest sample of a basis spectrum
                if(b>=step) for(int i=0;i<NS;i++) if(fabs((double)s.w[i]-row[e][b-step].w[i])>md) vt::fail("jump","sample %d changes by %g between blue %d and %d of %d,%d",i,(double)s.w[i]-row[e][b-step].w[i],b-step,b,r,g);
                if(g>=step) for(int i=0;i<NS;i++) if(fabs((double)s.w[i]-last[e][b].w[i])>md) vt::fail("jump","sample %d changes by %g between green %d and %d of %d,_,%d",i,(double)s.w[i]-last[e][b].w[i],g-step,g,r,b);
                row[e][b]=s; last[e][b]=s;
            }
        } }
    }
}
static void xyz(bool T)
{
    int n=T?120:40;
    for(int a=0;a<=n;a++) if(vt::begin("X %g",1.2*a/n)) for(int b=0;b<=n;b++) for(int c=0;c<=n;c++)
    {
        double v[3]={(float)(1.2*a/n),(float)(1.2*b/n),(float)(1.2*c/n)},l[3],m[3]; ColorXYZ x((float)v[0],(float)v[1],(float)v[2]); mul(BW,v,l); mul(AD,v,m);
        vt::count("evaluations");
        double pin[3]={v[0]*2.04159-v[1]*0.56501-v[2]*0.34473,-v[0]*0.96924+v[1]*1.87597+v[2]*0.03342,v[0]*0.01344-v[1]*0.11836+v[2]*1.34926};
        ColorRGB s=x.to_sRGB(),d=x.to_AdobeRGB(); float sv[3]={s.r,s.g,s.b},dv[3]={d.r,d.g,d.b};
        for(int i=0;i<3;i++)
        {
            // near the start of the curve the derivative is 12.92
            double t=l[i]>0.01?3e-3:2e-2; if(l[i]<0) t=2e-2*(1-l[i]);
            if(!near(sv[i],gam(l[i]),t)) vt::fail("srgb","XYZ %g,%g,%g: channel %d is %g instead of %g",v[0],v[1],v[2],i,sv[i],gam(l[i]));
            if(!std::isfinite(dv[i])) vt::fail("adobe-nan","XYZ %g,%g,%g: channel %d of Adobe RGB is %g",v[0],v[1],v[2],i,dv[i]);
            // the tests pin a matrix with two wrong coefficients (known finding)
            else if(m[i]>1e-2&&!near(dv[i],pow(m[i],1/2.19921875),4e-3)&&near(dv[i],pow(std::max(0.0,pin[i]),1/2.19921875),1e-4)) vt::fail("adobe-matrix","XYZ %g,%g,%g: channel %d of Adobe RGB is %g instead of %g",v[0],v[1],v[2],i,dv[i],pow(m[i],1/2.19921875));
            else if(m[i]<=1e-2&&dv[i]>0.15&&near(dv[i],pow(std::max(0.0,pin[i]),1/2.19921875),1e-4)) vt::fail("adobe-matrix","XYZ %g,%g,%g: channel %d of Adobe RGB is %g instead of %g",v[0],v[1],v[2],i,dv[i],pow(std::max(0.0,m[i]),1/2.19921875));
            else if(m[i]>1e-2&&!near(dv[i],pow(m[i],1/2.19921875),4e-3)) vt::fail("adobe","XYZ %g,%g,%g: channel %d of Adobe RGB is %g instead of %g",v[0],v[1],v[2],i,dv[i],pow(m[i],1/2.19921875));
            else if(m[i]<=1e-2&&dv[i]>0.15) vt::fail("adobe","XYZ %g,%g,%g: channel %d of Adobe RGB is %g",v[0],v[1],v[2],i,dv[i]);
        }
    }
}
static void blackbody(bool T)
{
    const double h=6.62606957e-34,c=299792458.0,kb=1.38064852e-23;
    int top=T?200000:30000;
    for(int a=0;a<=top;a+=1000) if(vt::begin("temperatures %d to %d",a,a+999)) for(int t=a;t<a+1000;t++)
    {
        vt::count("evaluations"); Spectrum s(t); ColorXYZ x=s.to_xyz();
        if(t==0) { if(!s.is_black()) vt::fail("cold","0 kelvin shines"); continue; }
        // v: Planck's law; u: the same with a plus sign, which is a recorded defect and told apart from any other error
        double v[16],u[16],mx=0,mu=0;
        for(int i=0;i<16;i++)
        {
            double wl=(400+20*i)*1e-9,n=2*h*c*c/pow(wl,5),q=h*c/kb/(t*wl);
            v[i]=n/expm1(q); u[i]=n/(exp(q)+1); mx=std::max(mx,v[i]); mu=std::max(mu,u[i]);
        }
        for(int i=0;i<NS;i++) if(!std::isfinite(s.w[i])||s.w[i]<0||s.w[i]>1.2) vt::fail("blackbody-range","sample %d at %d K is %g",i,t,s.w[i]);
        if(mx<1e-20) continue; // no light at all in single precision
        for(int i=0;i<16;i++) { v[i]/=mx; u[i]/=mu; }
        // the colour of the spectrum, by the sensitivity of the eye in bands of 20 nm
        static const double X[16]={0.0485479,0.248643,0.339131,0.237593,0.0685131,0.00743358,0.0859658,0.301519,0.585142,0.884037,1.04763,0.917296,0.558248,0.248463,0.0826624,0.0235659};
        static const double Y[16]={0.00136349,0.0104404,0.0335974,0.0778086,0.169708,0.382633,0.733352,0.950499,0.989712,0.883049,0.670351,0.43439,0.2264,0.0935659,0.0302771,0.00853075};
        static const double Z[16]={0.231853,1.2146,1.76174,1.45574,0.663707,0.240215,0.0750986,0.0208246,0.00453914,0.00170354,0.00090069,0.000257272,3.91912e-05,1.96433e-06,0,0};
        double V[16]={0},U[16]={0},n=0; int k=SP?16:3;
        if(SP) for(int i=0;i<16;i++) V[i]=v[i],U[i]=u[i];
        else
        {
            for(int i=0;i<16;i++) { V[0]+=v[i]*X[i]; V[1]+=v[i]*Y[i]; V[2]+=v[i]*Z[i]; U[0]+=u[i]*X[i]; U[1]+=u[i]*Y[i]; U[2]+=u[i]*Z[i]; n+=Y[i]; }
            for(int i=0;i<3;i++) V[i]/=n,U[i]/=n;
        }
        bool right=true,plus=true; int at=0;
        for(int i=k-1;i>=0;i--) { if(!near(s.w[i],V[i],2e-3)) right=false,at=i; if(!near(s.w[i],U[i],2e-3)) plus=false; }
        if(!right) vt::fail(plus?"planck-sign":"planck","%d K: sample %d is %g instead of %g",t,at,s.w[at],V[at]);
        vt::seen(vt::hash(&s,sizeof s));
    }
    static const int hot[]={1000000,10000000,100000000,2147483647};
    for(int t:hot) if(vt::begin("temperature %d",t)) { Spectrum s(t); for(int i=0;i<NS;i++) if(!std::isfinite(s.w[i])||s.w[i]<0||s.w[i]>1.5) vt::fail("blackbody-range","sample %d at %d K is %g",i,t,s.w[i]); }
}
static void samples()
{
    // every sample of the spectra works on its own: a unit in each, weighed by the eye
    if(vt::begin("samples one by one"))
    {
        double xs=0,ys=0,zs=0; Spectrum one(1.f); ColorXYZ all=one.to_xyz();
        for(int i=0;i<NS;i++)
        {
            Spectrum s(0.f); vt::count("evaluations"); if(!s.is_black()) vt::fail("black","zero is not black"); s.w[i]=0.5f; if(s.is_black()) vt::fail("black","sample %d does not count",i); if(!s.is_valid()) vt::fail("valid","sample %d: 0.5 is not valid",i);
            ColorXYZ x=s.to_xyz(); xs+=x.r; ys+=x.g; zs+=x.b; if(!near(x.g,s.luminance(),1e-7)) vt::fail("luminance","sample %d",i);
            const float bad[]={NAN,INFINITY,-INFINITY}; for(float q:bad) { s.w[i]=q; if(s.is_valid()) vt::fail("valid","sample %d: %g is valid",i,q); if(s.is_black()) vt::fail("black","sample %d: %g is black",i,q); }
        }
        if(!near(all.r,2*xs,1e-5)||!near(all.g,2*ys,1e-5)||!near(all.b,2*zs,1e-5)) vt::fail("sum","the samples add up to %g,%g,%g instead of %g,%g,%g",2*xs,2*ys,2*zs,all.r,all.g,all.b);
        if(!near(all.g,1,1e-3)) vt::fail("white","a constant 1 has luminance %g",all.g);
    }
    static const float v[]={0,1,0.25f,-0.5f,3,1e-3f,1e6f}; const int n=sizeof v/sizeof*v;
    for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(vt::begin("arithmetic with %g and %g",v[i],v[j])) for(int k=0;k<NS;k++) for(int op=0;op<4;op++)
    {
        if(op==3&&v[j]==0) continue;
        vt::count("evaluations");
        // the two values in sample k, other ones around it
        Spectrum a(0.75f),b(2.f); for(int q=0;q<NS;q++) { a.w[q]=0.75f+q; b.w[q]=2.f+0.5f*q; } a.w[k]=v[i]; b.w[k]=v[j];
        auto e=[op](float x,float y) { return op==0?x+y:op==1?x-y:op==2?x*y:x/y; };
        Spectrum r=op==0?a+b:op==1?a-b:op==2?a*b:a/b,s=a,f=op==0?a+v[j]:op==1?a-v[j]:op==2?a*v[j]:a/v[j],h=a;
        if(op==0) s+=b; else if(op==1) s-=b; else if(op==2) s*=b; else s/=b;
        if(op==0) h+=v[j]; else if(op==1) h-=v[j]; else if(op==2) h*=v[j]; else h/=v[j];
        for(int q=0;q<NS;q++)
        {
            double w=e(a.w[q],b.w[q]),u=e(a.w[q],v[j]),tw=1e-6*(fabs(w)+1e-6),tu=1e-6*(fabs(u)+1e-6);
            if(!near(r.w[q],w,tw)||!near(s.w[q],w,tw)) vt::fail("arithmetic","%g %c %g in sample %d is %g and %g",a.w[q],"+-*/"[op],b.w[q],q,r.w[q],s.w[q]);
            if(!near(f.w[q],u,tu)||!near(h.w[q],u,tu)) vt::fail("arithmetic","%g %c the number %g in sample %d is %g and %g",a.w[q],"+-*/"[op],v[j],q,f.w[q],h.w[q]);
        }
        if(k<3)
        {
            Color ca(a.w[0],a.w[1],a.w[2]),cb(b.w[0],b.w[1],b.w[2]); Color cr=op==0?ca+cb:op==1?ca-cb:op==2?ca*cb:ca/cb,cs=ca,cf=op==0?ca+v[j]:op==1?ca-v[j]:op==2?ca*v[j]:ca/v[j],ch=ca;
            if(op==0) cs+=cb; else if(op==1) cs-=cb; else if(op==2) cs*=cb; else cs/=cb;
            if(op==0) ch+=v[j]; else if(op==1) ch-=v[j]; else if(op==2) ch*=v[j]; else ch/=v[j];
            float R[3]={cr.r,cr.g,cr.b},S[3]={cs.r,cs.g,cs.b},F[3]={cf.r,cf.g,cf.b},H[3]={ch.r,ch.g,ch.b};
            for(int q=0;q<3;q++) { double w=e(a.w[q],b.w[q]),u=e(a.w[q],v[j]),tw=1e-6*(fabs(w)+1e-6),tu=1e-6*(fabs(u)+1e-6); if(!near(R[q],w,tw)||!near(S[q],w,tw)||!near(F[q],u,tu)||!near(H[q],u,tu)) vt::fail("arithmetic","colours: %g %c %g in channel %d",a.w[q],"+-*/"[op],b.w[q],q); }
            Color z(0,0,0); if(!z.is_black()) vt::fail("black","colour 0,0,0"); (k==0?z.r:k==1?z.g:z.b)=1e-3f; if(z.is_black()) vt::fail("black","channel %d does not count",k);
        }
    }
    if(vt::begin("lists of samples"))
    {
        for(int i=0;i<16;i++)
        {
            vt::count("evaluations"); float u[16]={0}; u[i]=1;
            Spectrum s({u[0],u[1],u[2],u[3],u[4],u[5],u[6],u[7],u[8],u[9],u[10],u[11],u[12],u[13],u[14],u[15]});
            if(SP) { for(int k=0;k<NS;k++) if(s.w[k]!=u[k]) vt::fail("list","sample %d is %g instead of %g",k,s.w[k],u[k]); }
            else { double t=0; for(int k=0;k<NS;k++) { if(s.w[k]<0) vt::fail("list","negative"); t+=s.w[k]; } if(!(t>0.1&&t<0.25)) vt::fail("list","sample %d adds %g",i,t); }
        }
        Spectrum s({1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1}); for(int k=0;k<NS;k++) if(!near(s.w[k],1,1e-6)) vt::fail("list","sixteen ones are %g",s.w[k]);
        bool th=false; try { Spectrum q({1,2,3}); } catch(...) { th=true; } if(!th) vt::fail("list","three samples are taken for sixteen");
    }
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); const bool T=vt::thorough();
    const double s[3][2]={{0.64,0.33},{0.30,0.60},{0.15,0.06}},a[3][2]={{0.64,0.33},{0.21,0.71},{0.15,0.06}}; double q[3][3]; primaries(s,FW); inv(FW,BW); primaries(a,q); inv(q,AD);
    bytes(T); xyz(T); blackbody(T); samples();
    return vt::finish();
}
