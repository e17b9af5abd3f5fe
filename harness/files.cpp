// File: path resolution against a lexical model for all short paths, parents,
// appending, copies; directory operations against a model of the tree.
#include "vt.hpp"
#include "utility/file.hpp"
#include <set>
#include <memory>
#include <algorithm>
#include <sys/stat.h>
#include <errno.h>
#include <fcntl.h>
typedef std::vector<std::string> Segs;
static std::string ROOT; // scratch directory: nothing is created outside of it
static std::vector<std::string> escaped;
extern "C" int __real_mkdir(const char*,mode_t);
extern "C" int __wrap_mkdir(const char* p,mode_t m)
{
    std::string s=p;
    if(s.compare(0,ROOT.size()+1,ROOT+"/")!=0 || s.find("..")!=std::string::npos)
    { struct stat st; if(stat(p,&st)==0) { errno=EEXIST; return -1; } escaped.push_back(s); errno=EACCES; return -1; }
    return __real_mkdir(p,m);
}
// the specification: '\' is '/', empty and '.' segments vanish, '..' removes the previous one, never above the root
static Segs split(const std::string& s) { Segs r; std::string c; for(char ch:s) { if(ch=='/'||ch=='\\') { r.push_back(c); c.clear(); } else c+=ch; } r.push_back(c); return r; }
static void walk(Segs& at,const std::string& rel) { for(auto& g:split(rel)) { if(g.empty()||g==".") continue; if(g=="..") { if(at.size()) at.pop_back(); } else at.push_back(g); } }
static std::string join(const Segs& s) { if(s.empty()) return "/"; std::string r; for(auto& g:s) r+="/"+g; return r; }
static std::string extof(const std::string& n) { size_t p=n.rfind('.'); if(p==std::string::npos||p==0) return ""; return n.substr(p+1); }

static void judge(const File& f,const Segs& want,const char* how,const std::string& in)
{
    vt::count("evaluations");
    std::string a=join(want),n=want.empty()?"/":want.back(); struct stat st; bool ex=stat(a.c_str(),&st)==0,dir=ex&&S_ISDIR(st.st_mode),reg=ex&&S_ISREG(st.st_mode);
    if(a!=f.absolute_path()) { vt::fail("wrong absolute path","%s '%s' gives '%s' instead of '%s'",how,in.c_str(),f.absolute_path(),a.c_str()); return; }
    if(n!=f.filename()) vt::fail("wrong file name","%s '%s' (%s) has name '%s'",how,in.c_str(),a.c_str(),f.filename());
    // a directory may or may not show what follows its last dot
    if(extof(n)!=f.extension() && !(dir&&!*f.extension()) && strcmp(how,"parent of")) vt::fail("wrong extension","%s '%s' (%s) has extension '%s'",how,in.c_str(),a.c_str(),f.extension());
    if(f.exists()!=ex) vt::fail("wrong existence","%s '%s'",how,in.c_str());
    if(f.is_folder()!=dir) vt::fail("wrong folder flag","%s '%s' (%s): %d",how,in.c_str(),a.c_str(),f.is_folder());
    if(f.is_file()!=reg) vt::fail("wrong file flag","%s '%s' (%s): %d",how,in.c_str(),a.c_str(),f.is_file());
    if(ex&&!f.readable()) vt::fail("wrong readable flag","%s",a.c_str());
    if(!ex&&(f.readable()||f.writable())) vt::fail("wrong access flag","%s",a.c_str());
    vt::seen(vt::hash(a.data(),a.size()));
}
// ... and its parents up to the root, copies and assignments
static void judge_all(const File& f,const Segs& want,const char* how,const std::string& in)
{
    judge(f,want,how,in);
    if(join(want)!=f.absolute_path()) return;
    Segs up=want; std::unique_ptr<File> p(new File(f));
    judge(*p,want,"copy of",in);
    for(int i=0;i<12;i++)
    {
        File q=p->get_parent(); std::string before=join(up);
        if(up.size()) up.pop_back();
        judge(q,up,"parent of",before);
        if(join(up)!=q.absolute_path()) break;
        File r("x.y"); r=q; judge(r,up,"parent of",before); File& self=r; r=self; judge(r,up,"parent of",before);
        p.reset(new File(q));
        if(up.empty()&&i>want.size()) break;
    }
}
static void paths(bool T)
{
    const std::vector<std::string> seg={"a","b.c",".h",".","..","","dir","...","..x",".x.y","z."};
    const int N=(int)seg.size(), maxd=T?5:4;
    struct Base { std::string cwd; Segs at; };
    std::vector<Base> bs; Segs root; walk(root,ROOT);
    for(std::string sub:{"","d","d/e","dir/q.r"}) { Segs s=root; walk(s,sub); bs.push_back({ROOT+"/"+sub,s}); }
    bs.push_back({"/",Segs()});
    for(size_t b=0;b<bs.size();b++) for(int d=0;d<=maxd;d++) for(int lead=0;lead<2;lead++) for(int first=0;first<(d?N:1);first++)
    {
        if(!vt::begin("cwd %d, %s paths of %d segments starting with '%s'",(int)b,lead?"absolute":"relative",d,d?seg[first].c_str():"")) continue;
        if(chdir(bs[b].cwd.c_str())!=0) abort();
        long total=1; for(int i=1;i<d;i++) total*=N;
        for(long k=0;k<total;k++) for(int style=0;style<4;style++)
        {
            // style: separator '/' or '\' (relative paths only), with or without a trailing one
            if((style&1)&&d>3&&!T) continue;
            std::string s; long q=k; char sep=style&1?'\\':'/';
            if(lead) s="/";
            for(int i=0;i<d;i++) { int g=i?q%N:first; if(i) q/=N; if(i) s+=sep; s+=seg[g]; }
            if(style&2) s+=sep;
            Segs want; bool abs=!s.empty()&&s[0]=='/'; if(!abs) want=bs[b].at;
            walk(want,s); vt::detail("%s",s.c_str());
            File f(s.c_str());
            if(d<=2||k%7==0) judge_all(f,want,"path",s); else judge(f,want,"path",s);
        }
        vt::beat();
        vt::sample("'%s' style paths from cwd %d",d?seg[first].c_str():"",(int)b);
    }
    // append: every path of up to 3 segments to several starting points, and twice
    std::vector<std::string> start={"/","/a","/a/b.c","a",".","..","d/e","d/f.txt","/x/y/z/w"};
    for(auto& st:start) for(int d=0;d<=(T?4:3);d++) for(int first=0;first<(d?N:1);first++)
    {
        if(!vt::begin("append %d segments starting with '%s' to '%s'",d,d?seg[first].c_str():"",st.c_str())) continue;
        if(chdir(ROOT.c_str())!=0) abort();
        long total=1; for(int i=1;i<d;i++) total*=N;
        for(long k=0;k<total;k++) for(int style=0;style<4;style++)
        {
            std::string s; long q=k; if(style&1) s="/";
            for(int i=0;i<d;i++) { int g=i?q%N:first; if(i) q/=N; if(i) s+="/"; s+=seg[g]; }
            if(style&2) s+="/";
            Segs want; if(st[0]!='/') want=root; walk(want,st); File f(st.c_str()); walk(want,s); vt::detail("%s + %s",st.c_str(),s.c_str());
            File& r=f.append(s.c_str()); if(&r!=&f) vt::fail("append returns another object","%s",st.c_str());
            judge_all(f,want,"appended",st+" + "+s);
            if(d<=2) for(auto& t:seg) { File g(f); Segs w2=want; walk(w2,t); g.append(t.c_str()); judge(g,w2,"appended twice",st+" + "+s+" + "+t); }
        }
    }
}
// directory operations: every sequence over a small name space, against a set of directories and files
static void rmtree(const std::string& p)
{
    if(p.compare(0,ROOT.size()+1,ROOT+"/")!=0) abort();
    std::string c="/usr/bin/find '"+p+"' -xdev -depth -delete 2>/dev/null"; if(system(c.c_str())) {}
}
static void trees(bool T)
{
    const std::vector<std::string> name={"m","m/n","m/n/o","p.q","p.q/n","longer-name/n/o","m/../k/l"};
    std::vector<std::string> lists={"","m","m/n","p.q"};
    struct Op { int kind; int n; }; std::vector<Op> ops; // 0 mkdir 1 mkdirs 2 create a regular file
    for(int k=0;k<3;k++) for(int n=0;n<(int)name.size();n++) { if(k==2&&n!=0&&n!=1&&n!=3) continue; ops.push_back({k,n}); }
    const int depth=T?4:3; const int N=(int)ops.size();
    for(int a=0;a<N;a++) for(int b=0;b<N;b++)
    {
        if(!vt::begin("directory operations starting with %d %s, %d %s",ops[a].kind,name[ops[a].n].c_str(),ops[b].kind,name[ops[b].n].c_str())) continue;
        long total=1; for(int i=2;i<depth;i++) total*=N;
        for(long k=0;k<total;k++)
        {
            std::string w=ROOT+"/w"; rmtree(w); __real_mkdir(w.c_str(),0700); if(chdir(w.c_str())!=0) abort();
            std::map<std::string,char> m; m[w]='d'; std::string trace; long q=k; escaped.clear();
            for(int i=0;i<depth;i++)
            {
                Op o=ops[i==0?a:i==1?b:q%N]; if(i>=2) q/=N; 
                Segs s; walk(s,w); walk(s,name[o.n]); std::string p=join(s); trace+=(o.kind==0?" mkdir ":o.kind==1?" mkdirs ":" create ")+name[o.n]; vt::detail("%s",trace.c_str());
                Segs up=s; up.pop_back(); std::string par=join(up);
                if(o.kind==2) { int fd=open(p.c_str(),O_CREAT|O_WRONLY|O_EXCL,0600); if(fd>=0) { close(fd); m[p]='f'; } continue; }
                bool ok; File f(name[o.n].c_str());
                bool res;
                if(o.kind==0) { ok=!m.count(p)&&m.count(par)&&m[par]=='d'; if(ok) m[p]='d'; res=f.mkdir(); }
                else
                {
                    // every missing folder is created; nothing above or beside them
                    ok=!m.count(p); Segs c; for(auto& g:s) { c.push_back(g); std::string x=join(c); if(x.size()<=w.size()) continue; if(m.count(x)) { if(m[x]!='d') { ok=false; break; } } else m[x]='d'; }
                    res=f.mkdirs();
                }
                vt::count("evaluations");
                // creating what is already there may be called a success or a failure
                bool there=o.kind==1&&m.count(p)&&m[p]=='d';
                if(res!=ok && !(there&&!ok)) vt::fail("wrong result of a creation","%s: returned %d",trace.c_str(),res);
                if(f.is_folder()!=(m.count(p)&&m[p]=='d')) vt::fail("folder flag not refreshed after creation","%s: is_folder %d",trace.c_str(),f.is_folder());
                if(p!=f.absolute_path()) vt::fail("path changed by a creation","%s: now %s",trace.c_str(),f.absolute_path());
            }
            // the tree holds exactly what the model says, and is listed so
            for(auto& l:lists)
            {
                Segs s; walk(s,w); walk(s,l); std::string p=join(s); std::set<std::string> want,got;
                if(m.count(p)&&m[p]=='d') for(auto& e:m) { size_t c=e.first.rfind('/'); if(e.first.substr(0,c)==p) want.insert(e.first); }
                std::vector<File> v; File f(l.empty()?".":l.c_str()); f.ls(&v); vt::count("evaluations");
                for(auto& x:v)
                {
                    if(!got.insert(x.absolute_path()).second) vt::fail("entry listed twice","%s: %s",trace.c_str(),x.absolute_path());
                    auto it=m.find(x.absolute_path()); if(it==m.end()) continue;
                    if(x.is_folder()!=(it->second=='d')||x.is_file()!=(it->second=='f')) vt::fail("listed entry has wrong kind","%s: %s",trace.c_str(),x.absolute_path());
                }
                if(want!=got) vt::fail("wrong listing","after%s: %s lists %d entries instead of %d",trace.c_str(),l.c_str(),(int)got.size(),(int)want.size());
                uint64_t h=3; for(auto& g:got) h=vt::hash(g.data(),g.size(),h); vt::seen(h);
            }
            for(auto& e:escaped) vt::fail("creation outside of the given path","after%s: %s",trace.c_str(),e.c_str());
        }
        vt::beat();
    }
    // long names and many entries
    if(vt::begin("long names and many entries"))
    {
        std::string w=ROOT+"/w"; rmtree(w); __real_mkdir(w.c_str(),0700); if(chdir(w.c_str())!=0) abort(); std::set<std::string> want,got;
        for(int i=1;i<=255;i++) { std::string n(i,'a'+i%26); int fd=open(n.c_str(),O_CREAT|O_WRONLY,0600); if(fd>=0) { close(fd); want.insert(w+"/"+n); } }
        std::vector<File> v; File f(w.c_str()); f.ls(&v); for(auto& x:v) got.insert(x.absolute_path()); vt::count("evaluations");
        if(got!=want||v.size()!=want.size()) vt::fail("wrong listing","%d of %d long names",(int)got.size(),(int)want.size());
        std::string deep=w; for(int i=0;i<12;i++) deep+="/"+std::string(200,'a'+i); File g(deep.c_str()); bool r=g.mkdirs(); struct stat st;
        if(!r||stat(deep.c_str(),&st)!=0||!g.is_folder()) vt::fail("wrong result of a creation","deep path of %d bytes: %d",(int)deep.size(),r);
    }
    rmtree(ROOT+"/w");
}
int main(int argc,char** argv)
{
    vt::init(argc,argv); bool T=vt::thorough();
    char* c=realpath(".",NULL); ROOT=c; free(c);
    for(const char* d:{"d","d/e","dir","dir/q.r","a","dir/a"}) __real_mkdir((ROOT+"/"+d).c_str(),0700);
    for(const char* f:{"b.c","d/f.txt","dir/.h","d/e/a"}) { int fd=open((ROOT+"/"+f).c_str(),O_CREAT|O_WRONLY,0600); if(fd>=0) close(fd); }
    paths(T); trees(T);
    return vt::finish();
}
