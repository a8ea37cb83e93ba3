// P08: matrix archives: round trips, all truncations (crash points), all write-fault points, header corruption.
// P09: pack/unpack of matrix lists.
#include "litiv/utils/opencv.hpp"
#include "litiv/utils/platform.hpp"
#include "../mc/report.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <fstream>
#include <cfloat>
using namespace vr;

static std::string slurp(const std::string& p) {std::ifstream f(p,std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>());}
static void spit(const std::string& p, const std::string& d) {FILE* f=fopen(p.c_str(),"wb"); if(f) {fwrite(d.data(),1,d.size(),f); fclose(f);}}
static void setlimit(rlim_t v) {struct rlimit r; getrlimit(RLIMIT_FSIZE,&r); r.rlim_cur=std::min(v,r.rlim_max); setrlimit(RLIMIT_FSIZE,&r);}
static const char* fname(int f) {return f==lv::MatArchive_BINARY?"binary":f==lv::MatArchive_PLAINTEXT?"text":"storage";}

// element values chosen to stress each depth
static cv::Mat make(const std::vector<int>& sz, int type, int pat) {
    cv::Mat m((int)sz.size(),sz.data(),type); CV_Assert(m.isContinuous());
    size_t n=m.total()*m.channels();
    for(size_t i=0;i<n;++i) {
        unsigned k=unsigned(i+pat*3);
        switch(m.depth()) {
            case CV_8U: {static const int v[]={0,255,1,128,13,10,32,26}; m.data[i]=(uchar)v[k%8]; break;}
            case CV_8S: {static const int v[]={0,-128,127,-1,13}; ((schar*)m.data)[i]=(schar)v[k%5]; break;}
            case CV_16U: {static const int v[]={0,65535,256,2573,1}; ((ushort*)m.data)[i]=(ushort)v[k%5]; break;}
            case CV_16S: {static const int v[]={0,-32768,32767,-1,300}; ((short*)m.data)[i]=(short)v[k%5]; break;}
            case CV_32S: {static const int v[]={0,INT_MIN,INT_MAX,123456789,-1,16777217}; ((int*)m.data)[i]=v[k%6]; break;}
            case CV_32F: {static const float v[]={0.f,-1.5f,0.1f,FLT_MAX,FLT_MIN,1.0f/3,123456.79f,-7e-20f,16777216.f}; ((float*)m.data)[i]=v[k%9]; break;}
            case CV_64F: {static const double v[]={0.0,-1.5,0.1,DBL_MAX,DBL_MIN,1.0/3,123456789.123456789,-7e-200,M_PI}; ((double*)m.data)[i]=v[k%9]; break;}
        }
    }
    return m;
}
static bool same(const cv::Mat& a, const cv::Mat& b) {
    if(a.dims!=b.dims || a.type()!=b.type()) return false;
    for(int d=0;d<a.dims;++d) if(a.size[d]!=b.size[d]) return false;
    cv::Mat x=a.isContinuous()?a:a.clone(), y=b.isContinuous()?b:b.clone();
    return memcmp(x.data,y.data,x.total()*x.elemSize())==0;
}
static std::string desc(const cv::Mat& m) {std::string s="["; for(int d=0;d<m.dims;++d) s+=(d?"x":"")+std::to_string(m.size[d]); return s+fmt("] depth %d channels %d",m.depth(),m.channels());}
static const std::vector<std::vector<int>> SIZES={{1,1},{1,2},{3,1},{2,3},{5,7},{2,1,3},{2,2,2},{1,3,1,2}};
struct Fm {int f; const char* ext;}; static const Fm FORMATS[]={{lv::MatArchive_BINARY,".bin"},{lv::MatArchive_PLAINTEXT,".txt"},{lv::MatArchive_FILESTORAGE,".yml"},{lv::MatArchive_FILESTORAGE,".xml"}};

static void roundtrip(const std::string& dir) {
    for(auto& F : FORMATS) for(int depth=CV_8U;depth<=CV_64F;++depth) for(int ch=1;ch<=4;++ch) for(auto& sz : SIZES) for(int var=0;var<4;++var) {
        cv::Mat m=make(sz,CV_MAKETYPE(depth,ch),var); cv::Mat src=m;
        if(var==1) { // non-continuous view
            std::vector<int> big=sz; for(int& x : big) x+=2; cv::Mat B=make(big,m.type(),7); std::vector<cv::Range> r; for(int x : sz) r.push_back(cv::Range(1,1+x)); src=B(r.data()); m=src.clone();
        }
        std::string p=dir+"/m"+F.ext; mark("archive roundtrip %s %s variant %d",fname(F.f),desc(m).c_str(),var); ctx().evals++; ctx().nontriv++; ctx().transitions+=2;
        cv::Mat before=src.clone(), out;
        if(var==2) out=make({4,4},CV_32FC2,1); // stale output
        if(var==3) {spit(p,std::string(100000,'x'));} // overwrites a longer file
        try {lv::write(p,src,(lv::MatArchiveList)F.f); lv::read(p,out,(lv::MatArchiveList)F.f);}
        catch(std::exception& e) {violation(fmt("archive-roundtrip:%s",fname(F.f)),fmt("%s archive of %s: %s",fname(F.f),desc(m).c_str(),e.what())); continue;}
        if(!same(m,out)) violation(fmt("archive-roundtrip:%s",fname(F.f)),fmt("%s archive of %s variant %d: read back %s with different content",fname(F.f),desc(m).c_str(),var,desc(out).c_str()));
        if(!same(before,src)) violation("archive-input-modified",fmt("%s archive of %s modified its input",fname(F.f),desc(m).c_str()));
        if(F.f==lv::MatArchive_BINARY) {cv::Mat o2=lv::read(p); if(!same(m,o2)) violation("archive-default","default format is not readable back");}
        if((ctx().evals%97)==0) sample(fmt("roundtrip %s %s variant %d",fname(F.f),desc(m).c_str(),var));
    }
    for(auto& F : FORMATS) { // invalid requests are refused
        int n=0; try {lv::write(dir+"/none"+F.ext,cv::Mat(),(lv::MatArchiveList)F.f);} catch(...) {++n;} try {lv::write("",make({1,1},CV_8U,0),(lv::MatArchiveList)F.f);} catch(...) {++n;}
        cv::Mat o; try {lv::read(dir+"/missing"+F.ext,o,(lv::MatArchiveList)F.f);} catch(...) {++n;} try {lv::write(dir+"/nodir/x"+F.ext,make({1,1},CV_8U,0),(lv::MatArchiveList)F.f);} catch(...) {++n;}
        VCHECK(n==4,"archive-refuse","%s: %d of 4 invalid requests refused",fname(F.f),n);
    }
}
static void largeArchives(const std::string& dir) { // archives well beyond any stream buffer, long rows, many dimensions, more than four channels
    struct L {std::vector<int> sz; int ch;}; const std::vector<L> S={{{64,65},1},{{1,5000},1},{{5000,1},1},{{3,300,7},1},{{257,129},3},{{2,3,2,3,2},2},{{1,1,1,1,1,9},1},{{70,40},4},{{6,7},5},{{300,2},16},{{1000,33},1},{{255,256},1},{{256,257},1},{{2,2},64}};
    for(auto& F : FORMATS) for(int depth=CV_8U;depth<=CV_64F;++depth) for(auto& l : S) for(int view=0;view<2;++view) {
        std::vector<int> big=l.sz; if(view) for(int& x : big) x+=1; cv::Mat B=make(big,CV_MAKETYPE(depth,l.ch),view), src=B; if(view) {std::vector<cv::Range> r; for(int x : l.sz) r.push_back(cv::Range(1,1+x)); src=B(r.data());}
        if(F.f!=lv::MatArchive_BINARY && src.total()*src.channels()>12000 && !ctx().thorough && depth!=CV_8U && depth!=CV_32F) continue;
        cv::Mat m=src.clone(), out; std::string p=dir+"/l"+F.ext; mark("large archive %s %s view %d",fname(F.f),desc(m).c_str(),view); ctx().evals++; ctx().nontriv++; ctx().transitions+=2;
        try {lv::write(p,src,(lv::MatArchiveList)F.f); lv::read(p,out,(lv::MatArchiveList)F.f);} catch(std::exception& e) {violation(fmt("archive-roundtrip:%s",fname(F.f)),fmt("%s archive of %s: %s",fname(F.f),desc(m).c_str(),e.what())); continue;}
        if(!same(m,out)) violation(fmt("archive-roundtrip:%s",fname(F.f)),fmt("%s archive of %s (view %d): read back %s with different content",fname(F.f),desc(m).c_str(),view,desc(out).c_str()));
        if(view==0 && F.f==lv::MatArchive_BINARY) {std::string full=slurp(p); for(size_t cut : {full.size()-1,full.size()-m.elemSize1(),full.size()/2,size_t(65536),size_t(8192),size_t(4096)}) if(cut<full.size()) {spit(p,full.substr(0,cut)); ctx().evals++; bool threw=false; try {cv::Mat o; lv::read(p,o);} catch(std::exception&) {threw=true;} if(!threw) violation("archive-truncated:binary-accepted",fmt("binary archive of %s cut at byte %zu of %zu was accepted",desc(m).c_str(),cut,full.size()));}}
        unlink(p.c_str()); if(out_of_time()) return;
    }
    sample("large archives: 14 shapes (up to 65792 elements, 6 dimensions, 64 channels) x depths x formats x views");
}
static void truncations(const std::string& dir) {
    const std::vector<std::vector<int>> S={{1,1},{2,3},{2,1,2}};
    for(auto& F : FORMATS) if(F.f!=lv::MatArchive_FILESTORAGE /*parsed by opencv itself*/) for(int depth=CV_8U;depth<=CV_64F;++depth) for(int ch : {1,3}) for(auto& sz : S) for(int pat=0;pat<(ctx().thorough?6:2);++pat) {
        cv::Mat m=make(sz,CV_MAKETYPE(depth,ch),pat); std::string p=dir+"/t"+F.ext;
        lv::write(p,m,(lv::MatArchiveList)F.f); std::string full=slurp(p);
        for(size_t L=0;L<full.size();++L) {
            spit(p,full.substr(0,L)); mark("archive truncated %s %s at %zu of %zu",fname(F.f),desc(m).c_str(),L,full.size()); ctx().evals++; ctx().nontriv++;
            cv::Mat out; bool threw=false; try {lv::read(p,out,(lv::MatArchiveList)F.f);} catch(std::exception&) {threw=true;}
            // losing trailing bytes that carry no data may go unnoticed; a different matrix may not
            if(!threw && !same(m,out)) violation(fmt("archive-truncated:%s",fname(F.f)),fmt("%s archive of %s cut at byte %zu of %zu was read as %s with different content",fname(F.f),desc(m).c_str(),L,full.size(),desc(out).c_str()));
            if(!threw && F.f==lv::MatArchive_BINARY) violation("archive-truncated:binary-accepted",fmt("binary archive of %s cut at byte %zu of %zu was accepted",desc(m).c_str(),L,full.size()));
        }
        if(out_of_time()) return;
        sample(fmt("truncations: %s %s, every length below %zu bytes",fname(F.f),desc(m).c_str(),full.size()));
    }
}
static void writefaults(const std::string& dir) {
    signal(SIGXFSZ,SIG_IGN);
    for(int f : {lv::MatArchive_BINARY,lv::MatArchive_PLAINTEXT}) for(int type : {CV_8UC1,CV_32SC3,CV_64FC1}) for(std::vector<int> sz : {std::vector<int>{1,1},std::vector<int>{3,4},std::vector<int>{2,2,2},std::vector<int>{40,70}}) {
        cv::Mat m=make(sz,type,0); std::string p=dir+"/f.dat"; lv::write(p,m,(lv::MatArchiveList)f); size_t full=slurp(p).size();
        size_t step=full>3000?(ctx().thorough?1:61):1;
        for(size_t L=0;L<=full;L+=(L+1>=full||full-L<20)?1:step) {
            unlink(p.c_str()); mark("archive %s %s: device full after %zu of %zu bytes",fname(f),desc(m).c_str(),L,full); ctx().evals++; ctx().nontriv++;
            setlimit(L); bool threw=false; try {lv::write(p,m,(lv::MatArchiveList)f);} catch(std::exception&) {threw=true;} setlimit(RLIM_INFINITY);
            if(L<full && !threw) violation(fmt("archive-write-fault:%s",fname(f)),fmt("%s archive of %s: device full after %zu of %zu bytes went unreported",fname(f),desc(m).c_str(),L,full));
            if(L==full) {cv::Mat out; if(threw) violation("archive-write-spurious",fmt("%s archive of %s reported an error although it fits",fname(f),desc(m).c_str())); else {lv::read(p,out,(lv::MatArchiveList)f); if(!same(m,out)) violation("archive-roundtrip:limit",desc(m));}}
        }
        sample(fmt("write faults: %s %s, device full after each of %zu byte counts",fname(f),desc(m).c_str(),full));
    }
}
static void headers(const std::string& dir) { // corrupted binary headers: refused, or read without touching foreign memory
    for(int type : {CV_8UC1,CV_16UC3,CV_64FC1}) for(std::vector<int> sz : {std::vector<int>{2,3},std::vector<int>{2,2,2}}) {
        cv::Mat m=make(sz,type,1); std::string p=dir+"/h.bin"; lv::write(p,m); std::string full=slurp(p); size_t H=4+8+8+4+4*sz.size();
        for(size_t b=0;b<H;++b) for(int v=0;v<256;++v) {
            if((uchar)full[b]==v) continue;
            if((b%4)==3 && !(v==0x7f||v==0x80||v==0xff||v==1)) continue; // most significant bytes: a few representatives (huge allocations)
            if((b%4)==2 && (v>2 && v<0xfd)) continue;
            std::string c=full; c[b]=(char)v; spit(p,c); mark("archive header %s byte %zu = %d",desc(m).c_str(),b,v); ctx().evals++; ctx().nontriv++;
            cv::Mat out; bool threw=false; try {lv::read(p,out);} catch(std::exception&) {threw=true;}
            if(!threw && out.total()*out.elemSize()!=full.size()-(4+8+8+4+4*size_t(out.dims)) && out.dims==(int)sz.size()) violation("archive-header",fmt("%s: header byte %zu = %d accepted with a mismatched size",desc(m).c_str(),b,v));
        }
        sample(fmt("header corruption: %s, single-byte changes of the %zu-byte header",desc(m).c_str(),H));
    }
}
static void packing() {
    // all lists of up to 3 matrices from a catalogue
    std::vector<cv::Mat> cat; cat.push_back(cv::Mat()); cat.push_back(make({2,3},CV_8UC1,0)); cat.push_back(make({1,5},CV_8UC1,1)); cat.push_back(make({2,2},CV_8UC3,2)); cat.push_back(make({2,2},CV_32FC1,3)); cat.push_back(make({3,1},CV_32FC2,4)); cat.push_back(make({2,2,2},CV_64FC1,5)); cat.push_back(make({1,1},CV_16SC4,6)); cat.push_back(make({1,1},CV_8UC1,2));
    {cv::Mat B=make({5,6},CV_8UC1,7); cat.push_back(B(cv::Rect(1,1,3,2)));} {cv::Mat B=make({4,4},CV_32SC1,8); cat.push_back(B(cv::Rect(0,1,2,3)));} {cv::Mat B=make({4,4,4},CV_32FC1,2); cv::Range r[3]={cv::Range(1,3),cv::Range(0,2),cv::Range(1,4)}; cat.push_back(B(r));}
    int K=(int)cat.size(), maxn=ctx().thorough?4:3;
    for(int n=0;n<=maxn;++n) {
        std::vector<int> ix(n,0);
        while(true) {
            std::vector<cv::Mat> v; std::string d; for(int i : ix) {v.push_back(cat[i]); d+=" "+desc(cat[i]);} mark("pack%s",d.c_str()); ctx().evals++; ctx().nontriv++; ctx().transitions+=2;
            std::vector<cv::Mat> before; for(auto& m : v) before.push_back(m.clone());
            try {
                std::vector<lv::MatInfo> info(5); cv::Mat pk=lv::packData(v,&info); cv::Mat pk2=lv::packData(v);
                size_t bytes=0; for(auto& m : v) bytes+=m.total()*m.elemSize();
                if(pk.total()*pk.elemSize()!=bytes || !pk.isContinuous() && bytes) violation("pack-size",fmt("packing%s gives %zu bytes, expected %zu",d.c_str(),pk.total()*pk.elemSize(),bytes));
                if(bytes && !same(pk,pk2)) violation("pack-info-dependent",fmt("packing%s depends on whether packing info is requested",d.c_str()));
                if(info.size()!=v.size()) violation("pack-info",fmt("packing%s returned %zu info entries",d.c_str(),info.size()));
                for(size_t i=0;i<v.size()&&i<info.size();++i) if(!(info[i]==lv::MatInfo(v[i]))) violation("pack-info",fmt("packing%s: wrong info for entry %zu",d.c_str(),i));
                if(n>0) {
                    cv::Mat own=pk.clone(); auto u=lv::unpackData(own,info);
                    if(u.size()!=v.size()) violation("unpack-count",d);
                    else for(size_t i=0;i<v.size();++i) {
                        if(v[i].empty()?!u[i].empty():!same(u[i],v[i])) violation("unpack-content",fmt("packing%s: entry %zu differs after unpacking",d.c_str(),i));
                        if(!u[i].empty() && (u[i].data<own.data || u[i].data+u[i].total()*u[i].elemSize()>own.data+bytes)) violation("unpack-bounds",fmt("packing%s: entry %zu lies outside the packet",d.c_str(),i));
                    }
                    for(size_t i=0;i<v.size();++i) for(uchar* p=pk.data;p<pk.data+bytes && i==0;++p) (void)*p;
                    if(bytes) { // the packet is a copy: changing it leaves the sources alone
                        pk.setTo(cv::Scalar::all(3)); for(size_t i=0;i<v.size();++i) if(!v[i].empty() && !same(v[i],before[i])) violation("pack-aliases",fmt("packing%s: packet shares memory with entry %zu",d.c_str(),i));
                        // mismatching info is refused
                        auto bad=info; bad.push_back(lv::MatInfo(cat[1])); bool thr=false; try {lv::unpackData(own,bad);} catch(...) {thr=true;} if(!thr) violation("unpack-mismatch",fmt("packing%s: excess info accepted",d.c_str()));
                        if(!v.back().empty()) {bad=info; bad.pop_back(); thr=false; try {lv::unpackData(own,bad);} catch(...) {thr=true;} if(!thr) violation("unpack-mismatch",fmt("packing%s: missing info accepted",d.c_str()));}
                    }
                }
            } catch(std::exception& e) {violation("pack-throw",fmt("packing%s: %s",d.c_str(),e.what()));}
            if(ctx().evals%211==0) sample("pack"+d);
            int k=n-1; while(k>=0 && ++ix[k]==K) ix[k--]=0;
            if(k<0) break;
        }
    }
}
static void packLarge() { // long lists and large entries
    std::vector<cv::Mat> cat={make({100,70},CV_8UC1,0),make({3,5},CV_32FC3,1),cv::Mat(),make({1,4097},CV_16UC1,2),make({2,3,4},CV_64FC1,3),make({1,1},CV_8UC1,4),make({33,17},CV_8SC4,5),make({256,256},CV_32SC1,6)};
    {cv::Mat B=make({90,80},CV_8UC3,7); cat.push_back(B(cv::Rect(3,5,41,67)));}
    for(int n : {4,5,8,9,16,17,40,100,257}) for(int rot=0;rot<9;++rot) for(int step : {1,2,4,5}) {
        if(n>40 && rot>2) continue; std::vector<cv::Mat> v; for(int i=0;i<n;++i) v.push_back(cat[size_t(rot+i*step)%cat.size()].empty()&&i+1==n?cat[1]:cat[size_t(rot+i*step)%cat.size()]); mark("pack list of %d rotation %d step %d",n,rot,step); ctx().evals++; ctx().nontriv++;
        try {
            std::vector<lv::MatInfo> info; cv::Mat pk=lv::packData(v,&info); size_t bytes=0; for(auto& m : v) bytes+=m.total()*m.elemSize();
            if(pk.total()*pk.elemSize()!=bytes) violation("pack-size",fmt("packing %d entries gives %zu bytes, expected %zu",n,pk.total()*pk.elemSize(),bytes));
            if(info.size()!=v.size()) {violation("pack-info",fmt("packing %d entries returned %zu info entries",n,info.size())); continue;}
            for(size_t i=0;i<v.size();++i) if(!(info[i]==lv::MatInfo(v[i]))) violation("pack-info",fmt("packing %d entries: wrong info for entry %zu",n,i));
            auto u=lv::unpackData(pk,info); if(u.size()!=v.size()) {violation("unpack-count",fmt("%d entries",n)); continue;}
            for(size_t i=0;i<v.size();++i) if(v[i].empty()?!u[i].empty():!same(u[i],v[i])) violation("unpack-content",fmt("packing %d entries (rotation %d step %d): entry %zu %s differs after unpacking",n,rot,step,i,desc(v[i]).c_str()));
        } catch(std::exception& e) {violation("pack-throw",fmt("packing %d entries: %s",n,e.what()));}
    }
    sample("packing: lists of 4 to 257 matrices of up to 65536 elements");
}
int main(int argc, char** argv) {
    init(argc,argv); lv::setVerbosity(0); cv::setNumThreads(1); cv::redirectError([](int,const char*,const char*,const char*,int,void*){return 0;});
    std::string dir=ctx().scratch.empty()?std::string("/tmp"):ctx().scratch; 
    if(is_part("archive-rt")) {roundtrip(dir); largeArchives(dir);}
    if(is_part("archive-trunc")) truncations(dir);
    if(is_part("archive-fault")) writefaults(dir);
    if(is_part("archive-hdr")) headers(dir);
    if(is_part("pack")) {packing(); packLarge();}
    ctx().states+=ctx().evals; ctx().traces+=ctx().evals;
    return finish();
}
