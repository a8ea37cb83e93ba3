// P10: filesystem helpers (directory creation races and faults, listings, filters, preallocation).
// P27: text formatting and log atomicity.   P11 (part strings): string helpers.
#include "litiv/utils/platform.hpp"
#include "../mc/report.hpp"
#include "../mc/sched.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <signal.h>
#include <dirent.h>
#include <fstream>
#include <thread>
#include <sstream>
using namespace vr;

// system calls of the code under test that become scheduling points and fault-injection sites
static int g_fault_call=-1, g_fault_errno=0, g_call=0; static thread_local bool g_trace=false;
extern "C" int mkdir(const char* p, mode_t m) noexcept {
    if(g_trace) {mc::point("mkdir"); if(g_call++==g_fault_call) {errno=g_fault_errno; return -1;}}
    return (int)syscall(SYS_mkdir,p,m);
}
extern "C" int stat(const char* p, struct stat* st) noexcept {
    if(g_trace) {mc::point("stat"); if(g_call++==g_fault_call) {errno=g_fault_errno; return -1;}}
    return (int)syscall(SYS_newfstatat,AT_FDCWD,p,st,0);
}
static std::string dir;
static void sh_rm(const std::string& p) { // remove a scratch tree
    DIR* d=opendir(p.c_str()); if(d) {while(dirent* e=readdir(d)) {std::string n=e->d_name; if(n!="."&&n!="..") {std::string q=p+"/"+n; struct stat s; if(lstat(q.c_str(),&s)==0 && S_ISDIR(s.st_mode)) sh_rm(q); else unlink(q.c_str());}} closedir(d);}
    rmdir(p.c_str());
}
static void touch(const std::string& p, const std::string& c="") {FILE* f=fopen(p.c_str(),"wb"); if(f) {fwrite(c.data(),1,c.size(),f); fclose(f);}}
static bool isdir(const std::string& p) {struct stat s; return ::stat(p.c_str(),&s)==0 && S_ISDIR(s.st_mode);}

struct MkCfg {int threads; bool slash; bool pre;};
static void mkdir_body(void* a) {
    const MkCfg& c=*(const MkCfg*)a; std::string d=dir+"/mk"; rmdir(d.c_str()); if(c.pre) mkdir(d.c_str(),0777); std::string q=c.slash?d+"/":d; bool r[3]={false,false,false};
    std::vector<std::thread> t; for(int i=0;i<c.threads;++i) t.emplace_back([&,i]{g_trace=true; r[i]=lv::createDirIfNotExist(q); if(r[i] && !isdir(d)) mc::fail("mkdir-missing","creation reported success but the directory does not exist"); g_trace=false;});
    for(auto& x : t) x.join();
    for(int i=0;i<c.threads;++i) if(!r[i]) mc::fail("mkdir-race","thread %d of %d failed to create a directory that was being created concurrently",i,c.threads);
    if(!isdir(d)) mc::fail("mkdir-missing","no directory after success");
    rmdir(d.c_str()); ctx().evals++;
}
static void mkdir_faults() {
    // state of the path before x which call fails
    for(int st=0;st<6;++st) for(int call=-1;call<3;++call) for(int err : {EACCES,ENOSPC,ENOENT}) {
        if(call<0 && err!=EACCES) continue;
        std::string d=dir+"/mf"; sh_rm(d); unlink(d.c_str()); std::string target=d; bool exists=false, can=true;
        if(st==1) {mkdir(d.c_str(),0777); exists=true;} if(st==2) {touch(d); can=false;} if(st==3) {target=d+"/a/b"; can=false;} if(st==4) {if(symlink((dir+"/nowhere").c_str(),d.c_str())) {} can=false;} if(st==5) {mkdir((dir+"/real").c_str(),0777); if(symlink((dir+"/real").c_str(),d.c_str())) {} exists=true;}
        mark("createDir state %d fault %d errno %d",st,call,err); ctx().evals++; ctx().nontriv++;
        g_call=0; g_fault_call=call; g_fault_errno=err; g_trace=true; bool r=lv::createDirIfNotExist(target); g_trace=false; int used=g_call; g_fault_call=-1;
        bool is=isdir(target);
        if(r && !is) violation("createdir-lies",fmt("success reported for state %d, failing call %d, but no directory exists",st,call));
        if((call<0 || call>=used) && r!=(exists||can)) violation("createdir-result",fmt("state %d: returned %d",st,(int)r));
        sh_rm(d); unlink(d.c_str()); rmdir((dir+"/real").c_str());
    }
    sample("createDirIfNotExist: 6 initial states x failing call 0..2 x 3 error codes");
}
static void listing() {
    // every subset of a universe of entries
    struct E {const char* n; int kind;}; // 0 file 1 dir 2 link->file 3 link->dir 4 dangling 5 fifo
    const E U[]={{"b.png",0},{"a.png",0},{".hidden",0},{"Thumbs.db",0},{"sub",1},{".hsub",1},{"zlink",2},{"dlink",3},{"broken",4},{"fifo",5},{"Thumbs.db2",0}}; const int N=sizeof(U)/sizeof(U[0]);
    std::string ext=dir+"/ext"; mkdir(ext.c_str(),0777); touch(ext+"/f"); mkdir((ext+"/d").c_str(),0777);
    for(int mask=0;mask<(1<<N);++mask) {
        std::string d=dir+"/ls"; mkdir(d.c_str(),0777); std::vector<std::string> files,subs;
        for(int i=0;i<N;++i) if(mask>>i&1) {
            std::string p=d+"/"+U[i].n;
            switch(U[i].kind) {case 0: touch(p); break; case 1: mkdir(p.c_str(),0777); break; case 2: if(symlink((ext+"/f").c_str(),p.c_str())) {} break; case 3: if(symlink((ext+"/d").c_str(),p.c_str())) {} break; case 4: if(symlink("nowhere",p.c_str())) {} break; case 5: mkfifo(p.c_str(),0600); break;}
            if((U[i].kind==0||U[i].kind==2) && std::string(U[i].n)!="Thumbs.db") files.push_back(p); if(U[i].kind==1||U[i].kind==3) subs.push_back(p);
        }
        std::sort(files.begin(),files.end()); std::sort(subs.begin(),subs.end());
        for(int slash=0;slash<2;++slash) {
            std::string q=slash?d+"/":d; mark("listing mask %x",mask); ctx().evals++; ctx().nontriv++;
            auto f=lv::getFilesFromDir(q); auto s=lv::getSubDirsFromDir(q);
            if(f!=files) violation("list-files",fmt("subset %x%s: %zu files listed, %zu expected",mask,slash?" (slash)":"",f.size(),files.size()));
            if(s!=subs) violation("list-dirs",fmt("subset %x%s: %zu subdirectories listed, %zu expected",mask,slash?" (slash)":"",s.size(),subs.size()));
            for(int i=0;i<N && slash==0;++i) {bool ex=(mask>>i&1) && U[i].kind!=4; if(lv::checkIfExists(d+"/"+U[i].n)!=ex) violation("exists",fmt("subset %x: %s",mask,U[i].n));}
        }
        sh_rm(d); if(out_of_time()) break;
    }
    sh_rm(ext);
    if(!lv::getFilesFromDir(dir+"/none").empty() || !lv::getSubDirsFromDir(dir+"/none").empty() || lv::checkIfExists(dir+"/none")) violation("list-missing","entries listed for a missing directory");
    sample(fmt("directory listings: all %d subsets of files, hidden files, directories, links, broken links, fifos",1<<N));
    for(int n : {9,10,11,99,100,101,300,1200}) { // many entries, names that do not sort like numbers, long names
        std::string d=dir+"/many"; mkdir(d.c_str(),0777); std::vector<std::string> files,subs; mark("listing of %d entries",n); ctx().evals++; ctx().nontriv++;
        for(int i=0;i<n;++i) {std::string f=d+"/"+(i%7==3?"Img":"img")+std::to_string((i*37)%n)+"_"+std::to_string(i)+(i%5==0?std::string(size_t(i%200),'x'):std::string())+".png"; touch(f); files.push_back(f); if(i%4==0) {std::string q=d+"/dir"+std::to_string(i); mkdir(q.c_str(),0777); subs.push_back(q);}}
        std::sort(files.begin(),files.end()); std::sort(subs.begin(),subs.end());
        if(lv::getFilesFromDir(d)!=files) violation("list-files",fmt("directory of %d files listed wrongly",n)); if(lv::getSubDirsFromDir(d)!=subs) violation("list-dirs",fmt("directory of %zu subdirectories listed wrongly",subs.size()));
        std::vector<std::string> g=lv::getFilesFromDir(d), e; lv::filterFilePaths(g,{"Img","_1.","xxxx"},{"7","_2"}); for(auto& f : files) {auto has=[&](const char* t){return f.find(t)!=std::string::npos;}; if(!has("Img")&&!has("_1.")&&!has("xxxx")&&(has("7")||has("_2"))) e.push_back(f);}
        if(g!=e) violation("filter-paths",fmt("filtering the listing of %d files: %zu left, %zu expected",n,g.size(),e.size())); sh_rm(d);
    }
    const char* pp[][2]={{"",""},{".","./"},{"..","../"},{"a","a/"},{"a/","a/"},{"/","/"},{"a/b","a/b/"},{"a\\","a\\"},{"...",".../"},{"a/..","a/../"}}; for(auto& x : pp) if(lv::addDirSlashIfMissing(x[0])!=x[1]) violation("dir-slash",fmt("addDirSlashIfMissing(\"%s\")",x[0]));
}
static void filters() {
    // all lists of <=3 paths from 5 x all subsets of 3 tokens to remove / keep
    const std::vector<std::string> P={"ab","b","a/c","abc",""}, T={"a","bc","c"};
    for(int n=0;n<=3;++n) {
        std::vector<int> ix(n,0);
        while(true) {
            for(int rm=0;rm<8;++rm) for(int kp=0;kp<8;++kp) {
                std::vector<std::string> v,r,k; for(int i : ix) v.push_back(P[i]); for(int i=0;i<3;++i) {if(rm>>i&1) r.push_back(T[i]); if(kp>>i&1) k.push_back(T[i]);}
                std::vector<std::string> e; auto has=[](const std::string& s, const std::vector<std::string>& t){for(auto& x : t) if(s.find(x)!=std::string::npos) return true; return false;};
                for(auto& s : v) if(!has(s,r) && (k.empty()||has(s,k))) e.push_back(s);
                auto g=v; lv::filterFilePaths(g,r,k); ctx().evals++; ctx().nontriv++; if(g!=e) violation("filter-paths",fmt("%d paths, remove mask %d, keep mask %d",n,rm,kp));
            }
            int q=n-1; while(q>=0 && ++ix[q]==(int)P.size()) ix[q--]=0; if(q<0) break;
        }
    }
    sample("filterFilePaths: all lists of up to 3 paths from 5, all token subsets");
}
static void setlimit(rlim_t v) {struct rlimit r; getrlimit(RLIMIT_FSIZE,&r); r.rlim_cur=std::min(v,r.rlim_max); setrlimit(RLIMIT_FSIZE,&r);}
static std::string slurp(const std::string& p) {std::ifstream f(p,std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>());}
static void prealloc() {
    signal(SIGXFSZ,SIG_IGN); std::string p=dir+"/pre.bin";
    std::vector<int> sizes={-1,0,1,2,7,8,9,4095,4096,8191,8192,8193,20000};
    for(int old : sizes) for(int req : sizes) if(req>=0) for(int zero=0;zero<2;++zero) {
        unlink(p.c_str()); std::string c; for(int i=0;i<old;++i) c+=char('A'+i%23); if(old>=0) touch(p,c);
        mark("prealloc old %d req %d zero %d",old,req,zero); ctx().evals++; ctx().nontriv++;
        try {
            {std::fstream f=lv::createBinFileWithPrealloc(p,req,zero!=0); if(!f.is_open() || !f) violation("prealloc-open",fmt("old size %d, requested %d: stream unusable",old,req)); if(f.tellp()!=std::streampos(0)) violation("prealloc-pos",fmt("old %d, requested %d: position %d",old,req,(int)f.tellp()));}
            std::string g=slurp(p); size_t exp=size_t(std::max(std::max(old,0),req));
            if(g.size()!=exp) violation("prealloc-size",fmt("old %d, requested %d: %zu bytes",old,req,g.size()));
            if(g.compare(0,c.size(),c)!=0) violation("prealloc-keeps",fmt("old %d, requested %d: existing bytes changed",old,req));
            if(zero) for(size_t i=c.size();i<g.size();++i) if(g[i]!=0) {violation("prealloc-zero",fmt("old %d, requested %d: byte %zu not zero",old,req,i)); break;}
            {std::fstream f=lv::createBinFileWithPrealloc(p,req,zero!=0); f.write("XY",2); f.close(); std::string h=slurp(p); if(h.size()!=std::max(exp,size_t(2)) || h.substr(0,2)!="XY" || (exp>2 && h.substr(2)!=g.substr(2))) violation("prealloc-write",fmt("old %d, requested %d: writing at the start",old,req));}
        } catch(std::exception& e) {violation("prealloc-throw",fmt("old %d, requested %d: %s",old,req,e.what()));}
        for(int L : {0,1,7,100,4095,4096,8191,8192,8193,12000,19999}) if(L<req && L>=old) { // device full
            unlink(p.c_str()); if(old>=0) touch(p,c); bool thr=false; ctx().evals++; setlimit(L); try {std::fstream f=lv::createBinFileWithPrealloc(p,req,zero!=0);} catch(std::exception&) {thr=true;} setlimit(RLIM_INFINITY);
            if(!thr) violation("prealloc-fault",fmt("old %d, requested %d, device full after %d bytes: unreported",old,req,L));
        }
    }
    for(int old : {-1,0,5,65535,65537,200000}) for(int req : {65535,65536,65537,100000,131072,1<<20,(1<<20)+1,3333333}) for(int zero=0;zero<2;++zero) { // beyond every buffer size
        unlink(p.c_str()); std::string c; for(int i=0;i<old;++i) c+=char('A'+i%23); if(old>=0) touch(p,c); mark("prealloc old %d req %d zero %d",old,req,zero); ctx().evals++;
        try {{std::fstream f=lv::createBinFileWithPrealloc(p,size_t(req),zero!=0); if(!f.is_open() || !f || f.tellp()!=std::streampos(0)) violation("prealloc-open",fmt("old size %d, requested %d: stream unusable",old,req));}
            std::string g=slurp(p); if(g.size()!=size_t(std::max(std::max(old,0),req))) violation("prealloc-size",fmt("old %d, requested %d: %zu bytes",old,req,g.size())); if(g.compare(0,c.size(),c)!=0) violation("prealloc-keeps",fmt("old %d, requested %d: existing bytes changed",old,req));
            if(zero) for(size_t i=c.size();i<g.size();++i) if(g[i]!=0) {violation("prealloc-zero",fmt("old %d, requested %d: byte %zu not zero",old,req,i)); break;}
        } catch(std::exception& e) {violation("prealloc-throw",fmt("old %d, requested %d: %s",old,req,e.what()));}
    }
    {bool thr=false; try {lv::createBinFileWithPrealloc(dir+"/nodir/x",10);} catch(...) {thr=true;} if(!thr) violation("prealloc-nodir","missing directory unreported");}
    unlink(p.c_str()); sample("preallocation: 13 old sizes x 12 requested sizes x device-full points");
}
static void format() {
    // every length around the internal buffer boundaries, and several argument kinds
    for(int L=0;L<=(ctx().thorough?70000:5000);++L) {
        std::string s((size_t)L,'x'); for(int i=0;i<L;++i) s[i]=char('a'+i%26); if((L&63)==0) mark("putf length %d",L); ctx().evals++; ctx().nontriv++;
        std::string g=lv::putf("%s",s.c_str()); if(g!=s) violation("putf",fmt("text of %d characters became %zu",L,g.size()));
        std::stringstream ss; lv::safe_print(ss,"%s",s.c_str()); if(ss.str()!=s) violation("safe_print",fmt("text of %d characters became %zu",L,ss.str().size()));
        if(L<2300) {std::string h=lv::putf("<%d|%s|%5.2f>",L,s.c_str(),L*0.5); if(h!=fmt("<%d|%s|%5.2f>",L,s.c_str(),L*0.5)) violation("putf",fmt("mixed format with %d characters",L));}
    }
    sample("formatting: all text lengths 0..5000 (70000)");
    // errors raised by the framework carry their text verbatim, whatever characters it contains
    for(const char* m : {"plain","100%","%s%s%n","%d items","a%%b","%"}) {
        ctx().evals++; mark("error text %s",m); std::string w; try {lvError(m);} catch(lv::Exception& e) {w=e.what();} if(w.find(std::string("[lvError: ")+m+"]")==std::string::npos) violation("error-text",fmt("error message \"%s\" became \"%s\"",m,w.c_str()));
        w=""; try {int a=5,n=2; lvAssert_(a%n==0,m);} catch(lv::Exception& e) {w=e.what();} if(w.find(m)==std::string::npos || w.find("a%n==0")==std::string::npos) violation("assert-text",fmt("assertion message \"%s\" became \"%s\"",m,w.c_str()));
    }
    {std::string w; try {int a=5,n=2; lvAssert(a%n==0);} catch(lv::Exception& e) {w=e.what();} if(w.find("a%n==0")==std::string::npos) violation("assert-text","assertion expression with a remainder operator: "+w);}
    {std::string w; try {int a=5,n=2; lvAssert__(a%n==0,"got %d and %s",a,"text");} catch(lv::Exception& e) {w=e.what();} if(w.find("a%n==0")==std::string::npos || w.find("got 5 and text")==std::string::npos) violation("assert-text","assertion with arguments: "+w);}
    // verbosity filter
    for(int v=-1;v<=4;++v) for(int l=0;l<=4;++l) {lv::setVerbosity(v); std::stringstream ss; lv::ostream_guard<std::stringstream>(ss,l) << "m" << 5; if((ss.str()=="m5")!=(v>=l) || (v<l && !ss.str().empty())) violation("verbosity",fmt("verbosity %d, message level %d: \"%s\"",v,l,ss.str().c_str()));} lv::setVerbosity(0);
}
static void strings() {
    const char A[]={'a','B',','}; std::vector<std::string> all; for(int len=0;len<=6;++len) {int n=1; for(int i=0;i<len;++i) n*=3; for(int c=0;c<n;++c) {std::string s; int x=c; for(int i=0;i<len;++i) {s+=A[x%3]; x/=3;} all.push_back(s);}}
    for(auto& s : all) {
        ctx().evals++; ctx().nontriv++; mark("split \"%s\"",s.c_str());
        std::vector<std::string> e; std::string cur; bool pend=false; for(char c : s) {if(c==',') {e.push_back(cur); cur=""; pend=false;} else {cur+=c; pend=true;}} if(pend) e.push_back(cur);
        if(lv::split(s,',')!=e) violation("split",fmt("split(\"%s\",',')",s.c_str()));
        for(size_t n=0;n<=8;++n) {std::string g=lv::clampString(s,n,'.'); if(g!=(s.size()>n?s.substr(0,n):std::string(n-s.size(),'.')+s)) violation("clampString",fmt("clampString(\"%s\",%zu) = \"%s\"",s.c_str(),n,g.c_str()));}
        if(s.size()<=4) for(auto& t : all) if(t.size()<=4) {ctx().evals++; std::string a=s,b=t; for(char& c : a) c=(char)tolower(c); for(char& c : b) c=(char)tolower(c); if(lv::compare_lowercase(s,t)!=(a<b)) violation("compare_lowercase",fmt("\"%s\" < \"%s\"",s.c_str(),t.c_str())); if(lv::string_contains_token(s,{t})!=(s.find(t)!=std::string::npos)) violation("contains_token",fmt("\"%s\" in \"%s\"",t.c_str(),s.c_str())); if(lv::string_contains_token(s,{"zz",t})!=(s.find(t)!=std::string::npos)) violation("contains_token",fmt("second token \"%s\" in \"%s\"",t.c_str(),s.c_str()));}
        {std::string lg; for(int k=0;k<40;++k) lg+=s+(k%3?",":"x"); std::vector<std::string> el; std::string cu; for(char c : lg) {if(c==',') {el.push_back(cu); cu="";} else cu+=c;} if(!cu.empty()) el.push_back(cu); if(lv::split(lg,',')!=el) violation("split",fmt("split of 40 repetitions of \"%s\"",s.c_str())); if(lv::clampString(lg,300,'.')!=(lg.size()>300?lg.substr(0,300):std::string(300-lg.size(),'.')+lg)) violation("clampString",fmt("40 repetitions of \"%s\"",s.c_str())); if(lv::convertWStrToStr(lv::convertStrToWStr(lg))!=lg) violation("wstring",lg);}
        std::wstring w=lv::convertStrToWStr(s); if(lv::convertWStrToStr(w)!=s || w.size()!=s.size()) violation("wstring",s);
    }
    sample(fmt("string helpers: all %zu strings over {a,B,comma} up to length 6",all.size()));
}
// log atomicity: every character written is a scheduling point
struct PointBuf : std::streambuf {std::string s; int overflow(int c) override {mc::point("char"); s+=(char)c; return c;}};
static void log_body(void* a) {
    int kind=*(int*)a; PointBuf b; std::ostream os(&b);
    auto msg=[&](int i){std::string m(3,char('a'+i)); if(kind==0) lv::safe_print(os,"<%s%d>",m.c_str(),i); else if(kind==1) lv::ostream_guard<std::ostream>(os,0) << "<" << m << i << ">"; else if(i) lv::safe_print(os,"<%s%d>",m.c_str(),i); else lv::ostream_guard<std::ostream>(os,0) << "<" << m << i << ">";};
    std::thread t1([&]{msg(0);}), t2([&]{msg(1);}); msg(2); t1.join(); t2.join();
    std::string s=b.s; int n=0; for(int i=0;i<3;++i) {std::string m="<"+std::string(3,char('a'+i))+std::to_string(i)+">"; if(s.find(m)!=std::string::npos) ++n;}
    if(n!=3 || s.size()!=18) mc::fail("log-interleaved","concurrent messages were mixed: \"%s\"",s.c_str());
    ctx().evals++;
}
int main(int argc, char** argv) {
    init(argc,argv); lv::setVerbosity(0); dir=(ctx().scratch.empty()?std::string("/tmp/sc"):ctx().scratch);
    auto run=[&](const char* nm, int b, mc::body_t f, void* a) {
        const std::string& part=ctx().part; if(!part.empty() && std::string(nm).compare(0,part.size(),part)!=0) return;
        mc::Config c; c.bound=b; mc::Stats st; mc::explore(nm,c,f,a,st); nontrivial(nm);
        if(ctx().replay.empty()) sample(fmt("%s: bound %d, %llu executions, %llu choice states",nm,b,(unsigned long long)st.executions,(unsigned long long)st.nodes));
    };
    bool th=ctx().thorough;
    static MkCfg m1{2,false,false}, m2{3,true,false}, m3{2,true,true}; run("fs-mkdir-2",4,mkdir_body,&m1); run("fs-mkdir-3",th?6:3,mkdir_body,&m2); run("fs-mkdir-pre",3,mkdir_body,&m3);
    static int k0=0,k1=1,k2=2; run("log-print",th?3:2,log_body,&k0); run("log-guard",th?3:2,log_body,&k1); run("log-mixed",th?3:2,log_body,&k2);
    uint64_t e0=ctx().evals;
    if(is_part("fs-fault")) mkdir_faults();
    if(is_part("fs-list")) listing();
    if(is_part("fs-filter")) filters();
    if(is_part("fs-prealloc")) prealloc();
    if(is_part("fmt")) format();
    if(is_part("strings")) strings();
    ctx().states+=ctx().evals-e0; ctx().traces+=ctx().evals-e0; ctx().transitions+=ctx().evals-e0;
    return finish();
}
