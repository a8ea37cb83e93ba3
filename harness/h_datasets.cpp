// P25: dataset structure, packet loading, output and feature archives.   P23: hierarchical metrics and reports.   P05: batch lifecycle.
#include "litiv/datasets.hpp"
#include "../mc/report.hpp"
#include "../mc/sched.hpp"
#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <thread>
#include <cmath>
using namespace vr;

// ---- data sets driven by the harness -------------------------------------------------------------------------
struct StreamSpec {cv::Size sz; int type;};
struct BatchSpec {
    int id=0; size_t frames=1; std::vector<StreamSpec> in{{cv::Size(3,2),CV_8UC1}}, gt{{cv::Size(3,2),CV_8UC1}};
    std::vector<int> lut; // frame -> ground truth index (-1: none)
    size_t gts=0; // number of ground truth files
    std::vector<cv::Mat> roi; // per gt stream, may hold empty matrices
    double scale=1; bool align4=false;
};
static std::map<std::string,BatchSpec> g_spec; // by relative path
static cv::Mat content(int id, size_t k, size_t s, const StreamSpec& sp, int salt) {
    cv::Mat m(sp.sz,sp.type); const int cn=m.channels();
    for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols;++x) for(int c=0;c<cn;++c) {
        const int v=id*37+(int)k*11+(int)s*53+y*17+x*7+c*29+salt*101;
        if(m.depth()==CV_16U) m.ptr<ushort>(y)[x*cn+c]=(ushort)(v*257+id); else m.ptr<uchar>(y)[x*cn+c]=(uchar)v;
    }
    return m;
}
static cv::Mat gtContent(int id, size_t k, size_t s, const StreamSpec& sp) { // classification ground truth values
    static const uchar v[5]={0,255,85,170,50}; cv::Mat m(sp.sz,CV_8UC1); size_t h=size_t(id*7+(int)k*3+(int)s*5+1);
    for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols;++x) {h=h*1103515245u+12345u; m.at<uchar>(y,x)=v[(h>>16)%5];}
    return m;
}
static bool g_stereo=false; // ground truth holds disparities
static cv::Mat gtFor(const BatchSpec& b, size_t k, size_t s) {if(!g_stereo) return gtContent(b.id,k,s,b.gt[s]); cv::Mat m=content(b.id,k,s,b.gt[s],9)/16; m.at<uchar>(0,0)=255; return m;} // 255: no disparity known

namespace lv {
    constexpr DatasetList DS_Flat=DatasetList(Dataset_Custom+1), DS_NoEval=DatasetList(Dataset_Custom+2);
    static MatInfo infoOf(const StreamSpec& s, const BatchSpec& b) {
        const cv::Size z(cvRound(s.sz.width*b.scale),cvRound(s.sz.height*b.scale)); const int cn=CV_MAT_CN(s.type);
        return MatInfo{MatSize(b.scale==1?s.sz:z),MatType(CV_MAKETYPE(CV_MAT_DEPTH(s.type),cn==3&&b.align4?4:cn))};
    }
    template<DatasetList D> struct FlatVideo : public IDataProducerWrapper_<DatasetTask_Segm,DatasetSource_Video,D> {
    protected: void parseData() override {
        const BatchSpec& b=g_spec.at(this->getRelativePath()); this->m_nFrameCount=b.frames; this->m_vsInputPaths.clear(); this->m_vsGTPaths.clear(); this->m_mGTIndexLUT.clear();
        for(size_t k=0;k<b.frames;++k) this->m_vsInputPaths.push_back(this->getDataPath()+fmt("i%zu_0.png",k));
        for(size_t k=0;k<b.gts;++k) this->m_vsGTPaths.push_back(this->getDataPath()+fmt("g%zu_0.png",k));
        for(size_t k=0;k<b.lut.size();++k) if(b.lut[k]>=0) this->m_mGTIndexLUT[k]=(size_t)b.lut[k];
        this->m_oInputInfo=infoOf(b.in[0],b); this->m_oGTInfo=infoOf(b.gt[0],b); this->m_oInputROI=cv::Mat(); this->m_oGTROI=b.roi.empty()?cv::Mat():b.roi[0];
    }};
    template<> struct DataProducer_<DatasetTask_Segm,DatasetSource_Video,DS_Flat> : public FlatVideo<DS_Flat> {};
    template<> struct DataProducer_<DatasetTask_Segm,DatasetSource_Video,DS_NoEval> : public FlatVideo<DS_NoEval> {};
    template<> constexpr DatasetEvalList getDatasetEval<DatasetTask_Segm,DS_NoEval>() {return DatasetEval_None;}
    template<> struct DataProducer_<DatasetTask_EdgDet,DatasetSource_Image,DS_Flat> : public IDataProducerWrapper_<DatasetTask_EdgDet,DatasetSource_Image,DS_Flat> {
        const cv::Mat& getGTROI(size_t k) const override {const BatchSpec& b=g_spec.at(getRelativePath()); return b.roi.empty()||k>=b.lut.size()||b.lut[k]<0||(size_t)b.lut[k]>=b.gts?lv::emptyMat():b.roi[0];}
    protected: void parseData() override {
        const BatchSpec& b=g_spec.at(getRelativePath()); m_vsInputPaths.clear(); m_vsGTPaths.clear(); m_mGTIndexLUT.clear(); m_vInputInfos.clear(); m_vGTInfos.clear(); m_bIsInputInfoConst=m_bIsGTInfoConst=true;
        for(size_t k=0;k<b.frames;++k) {m_vsInputPaths.push_back(getDataPath()+fmt("i%zu_0.png",k)); m_vInputInfos.push_back(infoOf(b.in[0],b));}
        for(size_t k=0;k<b.gts;++k) {m_vsGTPaths.push_back(getDataPath()+fmt("g%zu_0.png",k)); m_vGTInfos.push_back(infoOf(b.gt[0],b));}
        for(size_t k=0;k<b.lut.size();++k) if(b.lut[k]>=0) m_mGTIndexLUT[k]=(size_t)b.lut[k];
    }};
    template<DatasetTaskList T> struct DataProducer_<T,DatasetSource_VideoArray,DS_Flat> : public IDataProducerWrapper_<T,DatasetSource_VideoArray,DS_Flat> {
        size_t getInputStreamCount() const override {return g_spec.at(this->getRelativePath()).in.size();}
        size_t getGTStreamCount() const override {return g_spec.at(this->getRelativePath()).gt.size();}
    protected: void parseData() override {
        const BatchSpec& b=g_spec.at(this->getRelativePath()); this->m_vvsInputPaths.clear(); this->m_vvsGTPaths.clear(); this->m_mGTIndexLUT.clear(); this->m_vInputInfos.clear(); this->m_vGTInfos.clear();
        for(size_t k=0;k<b.frames;++k) {this->m_vvsInputPaths.emplace_back(); for(size_t s=0;s<b.in.size();++s) this->m_vvsInputPaths.back().push_back(this->getDataPath()+fmt("i%zu_%zu.png",k,s));}
        for(size_t k=0;k<b.gts;++k) {this->m_vvsGTPaths.emplace_back(); for(size_t s=0;s<b.gt.size();++s) this->m_vvsGTPaths.back().push_back(this->getDataPath()+fmt("g%zu_%zu.png",k,s));}
        for(size_t k=0;k<b.lut.size();++k) if(b.lut[k]>=0) this->m_mGTIndexLUT[k]=(size_t)b.lut[k];
        for(auto& s : b.in) this->m_vInputInfos.push_back(infoOf(s,b)); for(auto& s : b.gt) this->m_vGTInfos.push_back(infoOf(s,b));
        this->m_vInputROIs=std::vector<cv::Mat>(b.in.size()); this->m_vGTROIs=b.roi.empty()?std::vector<cv::Mat>(b.gt.size()):b.roi;
    }};
    template<DatasetTaskList T> struct DataProducer_<T,DatasetSource_ImageArray,DS_Flat> : public IDataProducerWrapper_<T,DatasetSource_ImageArray,DS_Flat> {
        size_t getInputStreamCount() const override {return g_spec.at(this->getRelativePath()).in.size();}
        size_t getGTStreamCount() const override {return g_spec.at(this->getRelativePath()).gt.size();}
        const std::vector<cv::Mat>& getGTROIArray(size_t k) const override {const BatchSpec& b=g_spec.at(this->getRelativePath()); return b.roi.empty()||k>=b.lut.size()||b.lut[k]<0?IDataLoader_<Array>::getGTROIArray(k):b.roi;}
    protected: void parseData() override {
        const BatchSpec& b=g_spec.at(this->getRelativePath()); this->m_vvsInputPaths.clear(); this->m_vvsGTPaths.clear(); this->m_mGTIndexLUT.clear(); this->m_vvInputInfos.clear(); this->m_vvGTInfos.clear(); this->m_bIsInputInfoConst=this->m_bIsGTInfoConst=true;
        for(size_t k=0;k<b.frames;++k) {this->m_vvsInputPaths.emplace_back(); this->m_vvInputInfos.emplace_back(); for(size_t s=0;s<b.in.size();++s) {this->m_vvsInputPaths.back().push_back(this->getDataPath()+fmt("i%zu_%zu.png",k,s)); this->m_vvInputInfos.back().push_back(infoOf(b.in[s],b));}}
        for(size_t k=0;k<b.gts;++k) {this->m_vvsGTPaths.emplace_back(); this->m_vvGTInfos.emplace_back(); for(size_t s=0;s<b.gt.size();++s) {this->m_vvsGTPaths.back().push_back(this->getDataPath()+fmt("g%zu_%zu.png",k,s)); this->m_vvGTInfos.back().push_back(infoOf(b.gt[s],b));}}
        for(size_t k=0;k<b.lut.size();++k) if(b.lut[k]>=0) this->m_mGTIndexLUT[k]=(size_t)b.lut[k];
    }};
}
template<lv::DatasetTaskList T, lv::DatasetList D> using DS=lv::Dataset_<T,D,lv::NonParallel>;
typedef DS<lv::DatasetTask_EdgDet,lv::Dataset_Custom> DSImg;      // the library's own image parser
typedef DS<lv::DatasetTask_Segm,lv::Dataset_Custom> DSVid;        // the library's own video parser
typedef DS<lv::DatasetTask_Segm,lv::DS_Flat> DSSeg;
typedef DS<lv::DatasetTask_EdgDet,lv::DS_Flat> DSEdg;
typedef DS<lv::DatasetTask_Cosegm,lv::DS_Flat> DSCos;
typedef DS<lv::DatasetTask_StereoReg,lv::DS_Flat> DSStr;
typedef DS<lv::DatasetTask_Segm,lv::DS_NoEval> DSNon;
typedef std::vector<std::string> SV;

// ---- helpers -------------------------------------------------------------------------------------------------
static std::string root;
static void rm(const std::string& p) {
    DIR* d=opendir(p.c_str()); if(d) {while(dirent* e=readdir(d)) {std::string n=e->d_name; if(n!="."&&n!="..") {std::string q=p+"/"+n; struct stat s; if(lstat(q.c_str(),&s)==0 && S_ISDIR(s.st_mode)) rm(q); else unlink(q.c_str());}} closedir(d);}
    rmdir(p.c_str());
}
static void mk(const std::string& p) {for(size_t i=1;i<=p.size();++i) if(i==p.size()||p[i]=='/') mkdir(p.substr(0,i).c_str(),0777);}
static bool isdir(const std::string& p) {struct stat s; return ::stat(p.c_str(),&s)==0 && S_ISDIR(s.st_mode);}
static bool exists(const std::string& p) {struct stat s; return ::stat(p.c_str(),&s)==0;}
static bool eq(const cv::Mat& a, const cv::Mat& b) {
    if(a.empty()||b.empty()) return a.empty()&&b.empty();
    if(a.type()!=b.type() || a.dims!=2 || b.dims!=2 || a.rows!=b.rows || a.cols!=b.cols) return false;
    for(int y=0;y<a.rows;++y) if(memcmp(a.ptr(y),b.ptr(y),a.elemSize()*(size_t)a.cols)) return false;
    return true;
}
static std::string desc(const cv::Mat& m) {
    if(m.empty()) return "an empty matrix"; std::string s=fmt("%dx%d type %d [",m.cols,m.rows,m.type());
    for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols*m.channels();++x) {if(s.size()>120) return s+"..]"; s+=fmt("%d ",m.depth()==CV_16U?(int)m.ptr<ushort>(y)[x]:(int)m.ptr<uchar>(y)[x]);} return s+"]";
}
// what the loader has to deliver for a stored image: alpha added when alignment asks for it, then nearest-neighbour scaling
static cv::Mat delivered(const cv::Mat& src, double scale, bool a4) {
    cv::Mat m=src; const int cn=src.channels();
    if(cn==3 && a4) {m=cv::Mat(src.size(),CV_MAKETYPE(src.depth(),4)); for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols;++x) for(int c=0;c<4;++c) {if(m.depth()==CV_16U) m.ptr<ushort>(y)[x*4+c]=c<3?src.ptr<ushort>(y)[x*3+c]:65535; else m.ptr<uchar>(y)[x*4+c]=c<3?src.ptr<uchar>(y)[x*3+c]:255;}}
    if(scale==1) return m.clone();
    const int w=cvRound(m.cols*scale), h=cvRound(m.rows*scale); cv::Mat r(h,w,m.type());
    for(int y=0;y<h;++y) for(int x=0;x<w;++x) {const int sy=std::min(m.rows-1,(int)std::floor((double)y*m.rows/h)), sx=std::min(m.cols-1,(int)std::floor((double)x*m.cols/w)); memcpy(r.ptr(y,x),m.ptr(sy,sx),m.elemSize());}
    return r;
}
static void writeBatch(const std::string& rel, const BatchSpec& b) {
    g_spec[rel]=b; const std::string d=root+"/data/"+rel; mk(d);
    for(size_t k=0;k<b.frames;++k) for(size_t s=0;s<b.in.size();++s) cv::imwrite(d+fmt("i%zu_%zu.png",k,s),content(b.id,k,s,b.in[s],0));
    for(size_t k=0;k<b.gts;++k) for(size_t s=0;s<b.gt.size();++s) cv::imwrite(d+fmt("g%zu_%zu.png",k,s),gtFor(b,k,s));
}
static void fresh() {rm(root); g_spec.clear(); mk(root+"/data"); mk(root+"/out");}
static void freshOut() {rm(root+"/out"); mk(root+"/out");}
template<typename D> static std::shared_ptr<D> make(const SV& dirs, const SV& skip={}, bool save=false, bool eval=false, bool a4=false, double scale=1, bool slash=false) {
    return D::create("DS",root+(slash?"/data/":"/data"),root+(slash?"/out/":"/out"),dirs,skip,save,eval,a4,scale);
}
template<typename D> static typename D::WorkBatch& leaf(const lv::IDataHandlerPtr& p) {return dynamic_cast<typename D::WorkBatch&>(*p);}
static lv::IIDataLoader& loader(const lv::IDataHandlerPtr& p) {return dynamic_cast<lv::IIDataLoader&>(*p);}

// runs f under virtual time (one schedule): precaching threads otherwise wait in real time
static void virt(std::function<void()> f) {mc::Config c; c.single=true; c.bound=0; c.races=false; c.max_steps=1000000; mc::Stats st; mc::explore("virtual",c,[](void* a){(*(std::function<void()>*)a)();},&f,st);}

// ---- P25: images ---------------------------------------------------------------------------------------------
struct FileSpec {const char* name; int type; cv::Size sz; bool ok;};
static void load_images() {
    const std::vector<FileSpec> F={{"a.png",CV_8UC3,cv::Size(3,2),true},{"b.png",CV_8UC1,cv::Size(3,2),true},{"b.x.bmp",CV_8UC3,cv::Size(3,2),true},{"c.png",CV_16UC1,cv::Size(4,3),true},{"d.png",CV_8UC4,cv::Size(3,2),true},{"junk.png",-1,cv::Size(),false},{"n.txt",-2,cv::Size(),false},{"z.png",CV_16UC3,cv::Size(2,5),true}};
    const std::vector<double> scales=ctx().thorough?std::vector<double>{1,0.5,2,1.5,0.75}:std::vector<double>{1,0.5,2};
    for(int sub=1;sub<(1<<F.size());++sub) for(double sc : scales) for(int a4=0;a4<2;++a4) {
        if(out_of_time()) return;
        fresh(); mk(root+"/data/g"); std::vector<cv::Mat> exp; SV names; std::vector<cv::Mat> stored;
        for(size_t i=0;i<F.size();++i) if(sub>>i&1) {
            const std::string p=root+"/data/g/"+F[i].name;
            if(!F[i].ok) {FILE* f=fopen(p.c_str(),"wb"); if(f) {fputs("not an image",f); fclose(f);} continue;}
            cv::Mat m=content((int)i,i,0,StreamSpec{F[i].sz,F[i].type},1); cv::imwrite(p,m); exp.push_back(delivered(m,sc,a4)); std::string n=F[i].name; names.push_back(n.substr(0,n.find_last_of('.')));
        }
        mark("image directory subset %d scale %g align %d",sub,sc,a4); ctx().evals++; ctx().nontriv++;
        std::shared_ptr<DSImg> p; bool threw=false; try {p=make<DSImg>({"g"},{},false,false,a4,sc);} catch(...) {threw=true;}
        if(threw!=exp.empty()) {violation(threw?"img-refused":"img-empty-accepted",fmt("directory subset %d (scale %g): %s",sub,sc,threw?"a directory with readable images was refused":"a directory without any readable image was accepted")); continue;}
        if(threw) continue;
        auto v=p->getBatches(false); if(v.size()!=1) {violation("img-batches",fmt("%zu batches for one image directory",v.size())); continue;}
        auto& b=leaf<DSImg>(v[0]); auto& l=loader(v[0]);
        VCHECK(b.getInputCount()==exp.size() && b.getImageCount()==exp.size(),"img-count","subset %d: %zu images, expected %zu",sub,b.getInputCount(),exp.size());
        VCHECK(b.getGTCount()==0 && b.getExpectedOutputCount()==0,"img-gtcount","ground truth counted in a directory without any");
        size_t load=0; bool same=true; for(auto& m : exp) {load+=m.total()*m.elemSize(); same=same && m.type()==exp[0].type() && m.size()==exp[0].size();}
        VCHECK(b.getExpectedLoadSize()==load && p->getExpectedLoadSize()==load,"img-load","subset %d scale %g align %d: load size %zu, expected %zu",sub,sc,a4,b.getExpectedLoadSize(),load);
        VCHECK(b.isInputInfoConst()==same,"img-const","subset %d: constant packet size/type reported as %d, expected %d",sub,(int)b.isInputInfoConst(),(int)same);
        virt([&]{for(int pass=0;pass<3;++pass) {
            mark("image directory subset %d scale %g align %d pass %d",sub,sc,a4,pass);
            if(pass==1) {b.startPrecaching(); VCHECK(b.isPrecaching() && p->isPrecaching(),"img-precaching","precaching not reported as active");}
            if(pass==2) {b.stopPrecaching(); VCHECK(!b.isPrecaching() && !p->isPrecaching(),"img-precaching-off","precaching still reported after its end");}
            for(size_t q=0;q<=exp.size();++q) {
                const size_t k=pass==2?exp.size()-q:q; const cv::Mat want=k<exp.size()?exp[k]:cv::Mat(); cv::Mat got; bool t=false;
                try {got=b.getInput(k);} catch(...) {t=true;}
                if(t) violation("img-throw",fmt("subset %d scale %g align %d pass %d: loading image %zu of %zu failed",sub,sc,a4,pass,k,exp.size()));
                else if(!eq(got,want)) violation("img-content",fmt("subset %d scale %g align %d pass %d: image %zu of %zu is %s, expected %s",sub,sc,a4,pass,k,exp.size(),desc(got).c_str(),desc(want).c_str()));
                if(pass==0) {
                    const lv::MatInfo o=l.getInputInfo(k);
                    if(k<exp.size()) {VCHECK(o.size()==want.size() && o.type()==want.type(),"img-info","subset %d scale %g align %d: declared size/type of image %zu differs from the delivered one",sub,sc,a4,k); VCHECK(b.getInputName(k)==names[k] && b.getOutputName(k)==names[k] && b.getFeaturesName(k)==names[k],"img-name","image %zu is named '%s', expected '%s'",k,b.getInputName(k).c_str(),names[k].c_str());}
                    else {VCHECK(o.size.empty(),"img-info-end","size declared for an image past the end"); VCHECK(b.getInputName(k)==fmt("%06zu",k),"img-name-end","name '%s' for an image past the end",b.getInputName(k).c_str());}
                    VCHECK(l.getGT(k).empty() && l.getGTROI(k).empty() && l.getInputROI(k).empty(),"img-gt","ground truth or region delivered for a directory without any");
                }
            }
        }});
        sample(fmt("image directory subset %d, scale %g, align %d: %zu images",sub,sc,a4,exp.size()));
    }
}
// larger directories and images: names that do not sort like numbers, many files, images of other sizes in between
static void load_large() {
    for(int n : {11,25,130}) for(int a4=0;a4<2;++a4) for(double sc : {1.0,0.5}) {
        if(n==130 && a4) continue; fresh(); mk(root+"/data/g"); std::vector<std::pair<std::string,cv::Mat>> f; mark("image directory of %d files",n); ctx().evals++; ctx().nontriv++;
        for(int i=0;i<n;++i) {std::string nm=fmt("%s%d",i%6==4?"Frame":"frame",(i*7)%n); StreamSpec sp{i%9==5?cv::Size(100,64):i%9==7?cv::Size(33,21):cv::Size(20,16),i%4==1?CV_8UC1:CV_8UC3}; cv::Mat m=content(i,(size_t)i,0,sp,1); cv::imwrite(root+"/data/g/"+nm+".png",m); f.push_back({nm,m});}
        std::sort(f.begin(),f.end(),[](const std::pair<std::string,cv::Mat>& x, const std::pair<std::string,cv::Mat>& y){return x.first+".png"<y.first+".png";});
        auto p=make<DSImg>({"g"},{},false,false,a4,sc); auto v=p->getBatches(false); auto& b=leaf<DSImg>(v[0]); auto& l=loader(v[0]); size_t load=0; std::vector<cv::Mat> exp; for(auto& x : f) {exp.push_back(delivered(x.second,sc,a4)); load+=exp.back().total()*exp.back().elemSize();}
        VCHECK(b.getInputCount()==(size_t)n && b.getExpectedLoadSize()==load && !b.isInputInfoConst(),"img-count","directory of %d images: %zu images, load size %zu (expected %zu)",n,b.getInputCount(),b.getExpectedLoadSize(),load);
        virt([&]{for(int pass=0;pass<3;++pass) {if(pass==1) b.startPrecaching(); if(pass==2) b.stopPrecaching(); for(int q=0;q<n;++q) {size_t k=(size_t)(pass==2?(q*7+3)%n:q); mark("directory of %d files, pass %d, image %zu",n,pass,k); cv::Mat got=b.getInput(k).clone(); if(!eq(got,exp[k])) {violation("img-content",fmt("directory of %d images, scale %g, align %d, pass %d: image %zu is %s, expected %s",n,sc,a4,pass,k,desc(got).c_str(),desc(exp[k]).c_str())); break;} if(pass==0) {lv::MatInfo o=l.getInputInfo(k); VCHECK(b.getInputName(k)==f[k].first && o.size()==exp[k].size() && o.type()==exp[k].type(),"img-name","directory of %d images: image %zu is called %s",n,k,b.getInputName(k).c_str());}}}});
    }
    {fresh(); SV dirs; std::vector<std::pair<std::string,int>> leaves; const StreamSpec sp{cv::Size(5,4),CV_8UC1}; for(int g=0;g<14;++g) {std::string gn=fmt("group%d",(g*5)%14); dirs.push_back(gn); for(int k=0;k<12;++k) {std::string d=gn+"/"+fmt("b%d",(k*5)%12); mk(root+"/data/"+d); cv::imwrite(root+"/data/"+d+"/x.png",content(g*12+k,0,0,sp,1));}} // many groups of many batches
        auto p=make<DSImg>(dirs); auto v=p->getBatches(false); ctx().evals++; mark("14 groups of 12 batches"); std::set<std::string> got,want; for(auto& b : v) got.insert(b->getRelativePath()); for(auto& d : dirs) for(int k=0;k<12;++k) want.insert(d+"/"+fmt("b%d",k)+"/"); VCHECK(v.size()==168 && got==want,"tree-large","14 groups of 12 batches: %zu batches listed",v.size()); VCHECK(p->getBatches(true).size()==14 && p->getInputCount()==168,"tree-large","14 groups of 12 batches: %zu groups, %zu packets",p->getBatches(true).size(),p->getInputCount());}
    sample("directories of 11, 25 and 130 images; 14 groups of 12 batches");
}
// the library's own video parser: frames in a directory, or one video file
static void load_video() {
    for(int n : {2,3,5,12,40}) for(int a4=0;a4<2;++a4) for(double sc : {1.0,0.5,2.0}) for(int ch : {1,3}) { // directories of frames
        fresh(); mk(root+"/data/v"); std::vector<std::pair<std::string,cv::Mat>> f; for(int i=0;i<n;++i) {std::string nm=fmt("in%d.png",i); cv::Mat m=content(i,(size_t)i,0,StreamSpec{cv::Size(12,8),CV_8UC(ch)},1); cv::imwrite(root+"/data/v/"+nm,m); f.push_back({nm,m});} std::sort(f.begin(),f.end(),[](const std::pair<std::string,cv::Mat>& x, const std::pair<std::string,cv::Mat>& y){return x.first<y.first;});
        mark("video directory of %d frames",n); ctx().evals++; ctx().nontriv++; auto p=make<DSVid>({"v"},{},false,false,a4,sc); auto v=p->getBatches(false); if(v.size()!=1) {violation("vid-batches","one video directory"); continue;} auto& b=leaf<DSVid>(v[0]); auto& l=loader(v[0]);
        std::vector<cv::Mat> exp; for(auto& x : f) exp.push_back(delivered(x.second,sc,a4)); VCHECK(b.getInputCount()==(size_t)n && b.getFrameCount()==(size_t)n,"vid-count","directory of %d frames: %zu",n,b.getInputCount()); VCHECK(b.getExpectedLoadSize()==(size_t)n*exp[0].total()*exp[0].elemSize(),"vid-load","directory of %d frames: load size %zu",n,b.getExpectedLoadSize()); VCHECK(l.getInputInfo(0).size()==exp[0].size() && l.getInputInfo(0).type()==exp[0].type() && b.getFrameSize()==exp[0].size(),"vid-info","directory of %d frames, scale %g, align %d",n,sc,a4); cv::Mat roi=l.getInputROI(0); VCHECK(roi.size()==exp[0].size() && roi.type()==CV_8UC1 && cv::countNonZero(roi)==(int)roi.total(),"vid-roi","directory of %d frames: region of interest",n);
        virt([&]{for(int pass=0;pass<3;++pass) {if(pass==1) b.startPrecaching(); if(pass==2) b.stopPrecaching(); for(int q=0;q<=n;++q) {int k=pass==2?n-q:q; cv::Mat got=b.getInput((size_t)k).clone(), want=k<n?exp[k]:cv::Mat(); ctx().evals++; if(!eq(got,want)) violation("vid-content",fmt("directory of %d frames, scale %g, align %d, pass %d: frame %d is %s, expected %s",n,sc,a4,pass,k,desc(got).c_str(),desc(want).c_str()));}}});
    }
    // one video file: any order of requests delivers the frame of that position
    for(int n : {2,6}) for(int a4=0;a4<2;++a4) for(double sc : {1.0,0.5}) { if(a4 && sc!=1.0) continue;
        fresh(); mk(root+"/data/v"); const std::string vf=root+"/data/v/clip.avi"; {cv::VideoWriter w; if(!w.open(vf,cv::CAP_OPENCV_MJPEG,cv::VideoWriter::fourcc('M','J','P','G'),10,cv::Size(48,32))) {ctx().counters["video writer unavailable"]++; continue;} for(int k=0;k<n;++k) {cv::Mat m(32,48,CV_8UC3,cv::Scalar(20+30*k,220-30*k,90)); m(cv::Rect(5*k,3,8,8)).setTo(cv::Scalar(0,0,255)); w << m;}}
        std::vector<cv::Mat> exp; {cv::VideoCapture c(vf); cv::Mat m; while(c.isOpened() && c.read(m)) exp.push_back(delivered(m,sc,a4));} if((int)exp.size()!=n) {ctx().counters["video reader unavailable"]++; continue;}
        int depth=n==6?3:4; long tot=1; for(int i=0;i<depth;++i) tot*=n+1; std::shared_ptr<DSVid> keep=make<DSVid>({"v"},{},false,false,a4,sc); auto kv=keep->getBatches(false); auto& kb=leaf<DSVid>(kv[0]); VCHECK(kb.getInputCount()==(size_t)n && kb.getFrameSize()==exp[0].size() && loader(kv[0]).getInputInfo(0).type()==exp[0].type(),"vid-count","video of %d frames: %zu",n,kb.getInputCount());
        for(long h=0;h<tot;++h) {mark("video of %d frames, requests %ld",n,h); ctx().evals++; ctx().nontriv++; bool own=h%(n==2?9:49)==0; std::shared_ptr<DSVid> p=own?make<DSVid>({"v"},{},false,false,a4,sc):keep; auto v=p->getBatches(false); auto& b=leaf<DSVid>(v[0]); long q=h; std::string t; for(int i=0;i<depth;++i,q/=n+1) {size_t k=(size_t)(q%(n+1)); t+=fmt(" %zu",k); cv::Mat got, want=k<(size_t)n?exp[k]:cv::Mat(); try {got=b.getInput(k).clone();} catch(const std::exception&) {} if(!eq(got,want)) {violation("vid-seek",fmt("video of %d frames, scale %g, align %d, requests%s: frame %zu is %s, expected %s",n,sc,a4,t.c_str(),k,desc(got).c_str(),desc(want).c_str())); break;}} if(out_of_time()) return;}
    }
    sample("video directories of 2 to 40 frames; video files of 2 and 6 frames with all request orders of depth 3-4 including past the end");
}
// ---- P25: trees ----------------------------------------------------------------------------------------------
static void load_tree() {
    // per group: 0 images directly (bare), 1 one sub-directory, 2 two, 3 three of which one skipped, 4 only a skipped one, 5 group name skipped, 6 directory missing, 7 sub-directory holding a further directory
    const char* gname[3]={"grpB","grpA","extra"}; const StreamSpec sp{cv::Size(3,2),CV_8UC1};
    const int K=8, G=3; int tot=1; for(int i=0;i<G;++i) tot*=K;
    for(int code=0;code<tot;++code) for(int slash=0;slash<2;++slash) for(int tok=0;tok<3;++tok) {
        if(out_of_time()) return;
        fresh(); SV dirs; bool bad=false; const SV skip=tok==0?SV{}:tok==1?SV{"skip"}:SV{"zzz","skip"}; int id=0;
        struct L {std::string name,rel; size_t n;}; struct Gp {std::string name; bool bare; std::vector<L> l;}; std::vector<Gp> exp;
        auto put=[&](const std::string& rel, size_t n) {const std::string d=root+"/data/"+rel; mk(d); for(size_t k=0;k<n;++k) cv::imwrite(d+fmt("im%zu.png",k),content(id,k,0,sp,2)); ++id;};
        for(int g=0,c=code;g<G;++g,c/=K) {
            const int kind=c%K; std::string n=gname[g]; if(kind==5) n+="_skip"; dirs.push_back(n); Gp e{n,false,{}};
            auto add=[&](const std::string& s, size_t cnt) {put(n+"/"+s+"/",cnt); if(!lv::string_contains_token(s,skip)) e.l.push_back(L{s,n+"/"+s+"/",cnt});};
            if(kind==0||kind==5) {put(n+"/",(size_t)g+1); e.bare=true; e.l.push_back(L{n,n+"/",(size_t)g+1});}
            if(kind==1) add("b0",2); if(kind==2) {add("b10",1); add("b9",3);} if(kind==3) {add("a",1); add("b_skip",1); add("c",2);} if(kind==4) add("skipme",1); if(kind==7) {add("n",2); put(n+"/n/inner/",1); put(n+"/n/precomp2/",1);}
            if(kind==6) bad=true;
            if(kind==5 && tok) {e.l.clear(); e.bare=true;}
            exp.push_back(e);
        }
        mark("tree code %d slash %d skip tokens %d",code,slash,tok); ctx().evals++; ctx().nontriv++;
        std::shared_ptr<DSImg> p; std::string why; try {p=make<DSImg>(dirs,skip,false,false,false,1,slash);} catch(const std::exception& e) {why=e.what();} catch(...) {why="unknown exception";}
        if(bad) {VCHECK(!p,"tree-missing","a data set was created although a batch directory is missing"); continue;}
        if(!p) {violation("tree-refused",fmt("tree %d (skip tokens %d): a valid data set was refused: %s",code,tok,why.substr(0,300).c_str())); continue;}
        auto gs=p->getBatches(true); size_t total=0, nl=0; auto flat=p->getBatches(false);
        VCHECK(p->isRoot() && p->isGroup() && !p->isBare() && !p->getParent() && p->getRoot().get()==p.get(),"tree-root","root flags are wrong");
        VCHECK(p->getDataPath()==root+"/data/" && p->getOutputPath()==root+"/out/" && p->getFeaturesPath()==root+"/out/precomp/" && p->getRelativePath().empty() && p->getName()=="DS","tree-root-paths","root paths are wrong: '%s' '%s' '%s'",p->getDataPath().c_str(),p->getOutputPath().c_str(),p->getFeaturesPath().c_str());
        if(gs.size()!=exp.size()) {violation("tree-groups",fmt("tree %d: %zu groups, expected %zu",code,gs.size(),exp.size())); continue;}
        std::string st; bool printed=true; try {st=p->printDataStructure("");} catch(...) {printed=false;} VCHECK(printed,"tree-print","tree %d: printing the structure failed",code);
        for(size_t g=0;g<gs.size();++g) {
            auto v=gs[g]->getBatches(true); const Gp& e=exp[g]; size_t gn=0;
            VCHECK(gs[g]->getName()==e.name && gs[g]->isGroup() && !gs[g]->isRoot() && gs[g]->isBare()==e.bare && gs[g]->getParent().get()==(lv::IDataHandler*)p.get(),"tree-group","tree %d group %zu: name '%s' (expected '%s'), bare %d (expected %d)",code,g,gs[g]->getName().c_str(),e.name.c_str(),(int)gs[g]->isBare(),(int)e.bare);
            if(v.size()!=e.l.size()) {violation("tree-batches",fmt("tree %d group '%s' (skip tokens %d): %zu batches, expected %zu",code,e.name.c_str(),tok,v.size(),e.l.size())); continue;}
            for(size_t i=0;i<v.size();++i) {
                auto& b=leaf<DSImg>(v[i]); const L& x=e.l[i]; gn+=x.n;
                VCHECK(b.getName()==x.name && b.getRelativePath()==x.rel && b.getDataPath()==root+"/data/"+x.rel && b.getOutputPath()==root+"/out/"+x.rel && b.getFeaturesPath()==root+"/out/"+x.rel+"precomp/","tree-batch","tree %d: batch '%s' at '%s' (output '%s', features '%s'), expected '%s' at '%s'",code,b.getName().c_str(),b.getDataPath().c_str(),b.getOutputPath().c_str(),b.getFeaturesPath().c_str(),x.name.c_str(),x.rel.c_str());
                VCHECK(isdir(root+"/out/"+x.rel) && isdir(root+"/out/"+x.rel+"precomp"),"tree-outdir","output directories of batch '%s' were not created",x.rel.c_str());
                VCHECK(!b.isGroup() && !b.isRoot() && !b.isBare() && b.getBatches(true).empty() && b.getParent()==gs[g] && b.getRoot().get()==(lv::IDataHandler*)p.get(),"tree-batch-flags","flags of batch '%s' are wrong",x.rel.c_str());
                VCHECK(b.getInputCount()==x.n && b.getExpectedLoadSize()==x.n*6,"tree-count","batch '%s' has %zu packets (load %zu), expected %zu",x.rel.c_str(),b.getInputCount(),b.getExpectedLoadSize(),x.n);
                VCHECK(nl<flat.size() && flat[nl]==v[i],"tree-flat","tree %d: flattened batch list differs at %zu",code,nl); ++nl;
                VCHECK(!printed || st.find("Batch '"+x.name+"'")!=std::string::npos,"tree-print-batch","structure print misses batch '%s'",x.name.c_str());
            }
            VCHECK(gs[g]->getInputCount()==gn && gs[g]->getExpectedLoadSize()==gn*6 && gs[g]->getGTCount()==0,"tree-group-count","group '%s' counts %zu packets, expected %zu",e.name.c_str(),gs[g]->getInputCount(),gn); total+=gn;
        }
        VCHECK(flat.size()==nl,"tree-flat-count","tree %d: %zu flattened batches, expected %zu",code,flat.size(),nl);
        VCHECK(p->getInputCount()==total && p->getExpectedLoadSize()==total*6 && p->getCurrentOutputCount()==0 && !p->isProcessing() && !p->isPrecaching(),"tree-total","data set counts %zu packets, expected %zu",p->getInputCount(),total);
        sample(fmt("tree %d: %zu groups, %zu batches, %zu packets",code,exp.size(),nl,total));
    }
}
// ---- P25: ground truth mapping --------------------------------------------------------------------------------
template<typename D> static void gtCase(const BatchSpec& b, const char* what, int code) {
    ctx().evals++; ctx().nontriv++; mark("%s ground truth map %d scale %g align %d",what,code,b.scale,b.align4);
    auto p=make<D>({"g"},{},false,false,b.align4,b.scale); auto v=p->getBatches(false); if(v.size()!=1) {violation("gt-batches","wrong number of batches"); return;}
    auto& l=loader(v[0]); size_t n=0; for(int x : b.lut) n+=x>=0; VCHECK(v[0]->getGTCount()==n && v[0]->getExpectedOutputCount()==n && p->getGTCount()==n,"gt-count","%s map %d: %zu ground truth packets, expected %zu",what,code,v[0]->getGTCount(),n);
    virt([&]{for(int pass=0;pass<2;++pass) {
        if(pass) l.startPrecaching(false);
        for(size_t k=0;k<=b.frames;++k) {
            const bool has=k<b.lut.size() && b.lut[k]>=0 && (size_t)b.lut[k]<b.gts; const cv::Mat want=has?delivered(gtFor(b,(size_t)b.lut[k],0),b.scale,b.align4):cv::Mat();
            const cv::Mat win=k<b.frames?delivered(content(b.id,k,0,b.in[0],0),b.scale,b.align4):cv::Mat();
            bool t=false; cv::Mat got,gin,roi; lv::MatInfo o; try {gin=l.getInput(k); got=l.getGT(k); roi=l.getGTROI(k); o=l.getGTInfo(k);} catch(...) {t=true;}
            if(t) {violation("gt-throw",fmt("%s map %d scale %g pass %d: loading packet %zu failed",what,code,b.scale,pass,k)); continue;}
            VCHECK(eq(gin,win),"gt-input","%s map %d scale %g align %d: input %zu is %s, expected %s",what,code,b.scale,(int)b.align4,k,desc(gin).c_str(),desc(win).c_str());
            VCHECK(eq(got,want),"gt-content","%s map %d scale %g pass %d: ground truth of frame %zu is %s, expected %s",what,code,b.scale,pass,k,desc(got).c_str(),desc(want).c_str());
            VCHECK(eq(roi,has&&!b.roi.empty()?b.roi[0]:cv::Mat()),"gt-roi","%s map %d: region of frame %zu is %s",what,code,k,desc(roi).c_str());
            VCHECK(has?(o.size()==want.size()&&o.type()==want.type()):o.size.empty(),"gt-info","%s map %d: declared ground truth size of frame %zu is wrong",what,code,k);
        }
    }
    l.stopPrecaching();});
}
static void load_gt() {
    for(size_t frames=1;frames<=(ctx().thorough?4u:3u);++frames) for(int sc=0;sc<3;++sc) for(int ty=0;ty<2;++ty) {
        fresh(); BatchSpec b; b.id=(int)frames+1; b.frames=frames; b.gts=2; b.scale=sc==0?1:sc==1?2:0.5; b.align4=ty; b.in={{cv::Size(4,3),ty?CV_8UC3:CV_8UC1}}; b.gt={{cv::Size(4,3),CV_8UC1}};
        b.roi={cv::Mat(delivered(cv::Mat(3,4,CV_8UC1,cv::Scalar(255)),b.scale,false))}; b.roi[0].at<uchar>(0,1)=0; writeBatch("g/",b);
        int tot=1; for(size_t i=0;i<frames;++i) tot*=4;
        for(int code=0;code<tot;++code) {
            if(out_of_time()) return;
            b.lut.clear(); for(size_t i=0,c=(size_t)code;i<frames;++i,c/=4) b.lut.push_back((int)(c%4)-1); g_spec["g/"]=b; // 2 is past the last ground truth file
            freshOut(); gtCase<DSSeg>(b,"video",code); freshOut(); gtCase<DSEdg>(b,"image",code);
        }
        sample(fmt("%zu frames: every frame-to-ground-truth map, scale %g",frames,b.scale));
    }
}
// ---- P25: arrays ----------------------------------------------------------------------------------------------
template<typename D> static void arrayHistories(const char* what) {
    const int alph=13; const int depth=ctx().thorough?4:3;
    for(size_t ns=1;ns<=3;++ns) for(size_t ng=1;ng<=2;++ng) {
        fresh(); BatchSpec b; b.id=3; b.frames=2; b.gts=2; b.align4=true; b.in.clear(); b.gt.clear();
        for(size_t s=0;s<ns;++s) b.in.push_back(s==0?StreamSpec{cv::Size(3,2),CV_8UC3}:s==1?StreamSpec{cv::Size(4,1),CV_16UC1}:StreamSpec{cv::Size(1,5),CV_8UC1});
        for(size_t s=0;s<ng;++s) b.gt.push_back(s==0?StreamSpec{cv::Size(3,2),CV_8UC1}:StreamSpec{cv::Size(2,2),CV_8UC1});
        b.lut={1,0}; b.roi.resize(ng); writeBatch("g/",b);
        auto p=make<D>({"g"},{},false,false,true,1); auto v=p->getBatches(false); auto& a=dynamic_cast<lv::IDataLoader_<lv::Array>&>(*v[0]); auto& l=loader(v[0]);
        VCHECK(a.getInputStreamCount()==ns && a.getGTStreamCount()==ng && v[0]->getInputCount()==2 && v[0]->getGTCount()==2,"arr-count","%s: wrong stream or packet counts",what);
        size_t load=0; for(auto& s : b.in) load+=2*(size_t)s.sz.area()*CV_ELEM_SIZE(lv::infoOf(s,b).type()); VCHECK(v[0]->getExpectedLoadSize()==load,"arr-load","%s %zu streams: load size %zu, expected %zu",what,ns,v[0]->getExpectedLoadSize(),load);
        std::vector<lv::MatInfo> pack; std::vector<cv::Mat> feat[2];
        for(int k=0;k<2;++k) {feat[k]={content(7,(size_t)k,0,StreamSpec{cv::Size(2,2),CV_8UC1},3),content(7,(size_t)k,1,StreamSpec{cv::Size(3,1),CV_16UC1},3)}; a.saveFeaturesArray((size_t)k,feat[k],&pack);}
        int tot=1; for(int i=0;i<depth;++i) tot*=alph;
        for(int code=0;code<tot;++code) {
            if(out_of_time()) return;
            ctx().evals++; ctx().nontriv++; std::string h; bool prec=false; for(int i=0,c=code;i<depth;++i,c/=alph) prec=prec || c%alph==11;
            auto run=[&]{for(int i=0,c=code;i<depth;++i,c/=alph) {
                const int op=c%alph; const size_t k=(size_t)(op%3); h+=fmt("%d ",op); mark("%s %zu/%zu streams history %s",what,ns,ng,h.c_str());
                bool t=false; std::vector<cv::Mat> got,want; const char* nm="";
                try {
                    if(op<3) {nm="input"; got=a.getInputArray(k); for(size_t s=0;s<ns;++s) want.push_back(k<2?delivered(content(3,k,s,b.in[s],0),1,true):cv::Mat());}
                    else if(op<6) {nm="ground truth"; got=a.getGTArray(k); for(size_t s=0;s<ng;++s) want.push_back(k<2?gtContent(3,(size_t)b.lut[k],s,b.gt[s]):cv::Mat());}
                    else if(op<9) {l.getInput(k); l.getGT(k); continue;}
                    else if(op<11) {nm="features"; const size_t q=(size_t)op-9; got=a.loadFeaturesArray(q,pack); want=feat[q];}
                    else if(op==11) {if(l.isPrecaching()) l.stopPrecaching(); else l.startPrecaching(false); continue;}
                    else {l.loadFeatures(0); continue;}
                } catch(const std::exception& e) {t=true; h+=e.what();} catch(...) {t=true;}
                if(t) {violation("arr-throw",fmt("%s %zu/%zu streams, requests %s: failed",what,ns,ng,h.substr(0,300).c_str())); break;}
                bool ok=got.size()==want.size(); for(size_t s=0;ok&&s<got.size();++s) ok=eq(got[s],want[s]);
                if(!ok) {violation("arr-stale",fmt("%s %zu/%zu streams, requests %s(0-2 inputs, 3-5 ground truth, 6-8 packed access, 9-10 features, 11 precaching toggled, 12 packed features): the last one delivers %s that differs from the stored packet (stream 0 is %s, expected %s)",what,ns,ng,h.c_str(),nm,got.empty()?"nothing":desc(got[0]).c_str(),desc(want[0]).c_str())); break;}
            } l.stopPrecaching();};
            if(prec) virt(run); else run();
        }
        sample(fmt("%s: %zu input and %zu ground truth streams, every request history of depth %d",what,ns,ng,depth));
    }
}
// ---- P25: archives --------------------------------------------------------------------------------------------
static cv::Mat mask2(int bits) {cv::Mat m(2,2,CV_8UC1); for(int i=0;i<4;++i) m.at<uchar>(i/2,i%2)=bits>>i&1?255:0; return m;}
static cv::Mat greyed(const cv::Mat& o, const cv::Mat& roi) {
    if(o.type()!=CV_8UC1 || roi.empty() || roi.size()!=o.size()) return o; for(int y=0;y<o.rows;++y) for(int x=0;x<o.cols;++x) if(o.at<uchar>(y,x)!=0 && o.at<uchar>(y,x)!=255) return o;
    cv::Mat r=o.clone(); for(int y=0;y<r.rows;++y) for(int x=0;x<r.cols;++x) if(!roi.at<uchar>(y,x)) r.at<uchar>(y,x)=127; return r;
}
static std::vector<cv::Mat> outCatalogue() {
    std::vector<cv::Mat> v; for(int i=0;i<16;++i) v.push_back(mask2(i));
    cv::Mat g=mask2(5); g.at<uchar>(1,1)=128; v.push_back(g); v.push_back(content(1,0,0,StreamSpec{cv::Size(2,2),CV_8UC3},4)); v.push_back(content(1,0,0,StreamSpec{cv::Size(2,2),CV_16UC1},4)); v.push_back(content(1,0,0,StreamSpec{cv::Size(3,1),CV_8UC1},4));
    cv::Mat big(4,5,CV_8UC1,cv::Scalar(255)); big(cv::Rect(2,1,2,2)).setTo(0); v.push_back(big(cv::Rect(2,1,2,2))); cv::Mat w=big(cv::Rect(1,1,2,2)); v.push_back(w); return v;
}
static void archive() {
    const auto outs=outCatalogue();
    for(int r=-1;r<16;++r) for(int hasgt=0;hasgt<2;++hasgt) for(int save=0;save<2;++save) {
        if(out_of_time()) return;
        fresh(); BatchSpec b; b.id=1; b.frames=outs.size(); b.gts=1; b.in={{cv::Size(2,2),CV_8UC1}}; b.gt=b.in; for(size_t k=0;k<b.frames;++k) b.lut.push_back(hasgt?0:-1); if(r>=0) b.roi={mask2(r)}; writeBatch("g/",b);
        auto p=make<DSSeg>({"g"},{},save,false); auto& w=leaf<DSSeg>(p->getBatches(false)[0]); w.startProcessing();
        for(size_t k=0;k<outs.size();++k) {
            ctx().evals++; ctx().nontriv++; mark("archive roi %d gt %d output %zu",r,hasgt,k); const cv::Mat keep=outs[k].clone();
            bool t=false; try {w.push(outs[k],k);} catch(...) {t=true;} VCHECK(!t,"arc-push","pushing output %zu failed",k); VCHECK(eq(keep,outs[k]),"arc-modified","archiving output %zu modified it",k);
            const std::string f=root+"/out/g/"+fmt("%06zu.png",k); VCHECK(exists(f)==(bool)save,"arc-file","output %zu %s",k,save?"was not archived":"was archived although saving is off");
            if(!save) continue;
            const cv::Mat want=greyed(keep,hasgt&&r>=0?b.roi[0]:cv::Mat()), got=w.loadOutput(k); VCHECK(eq(got,want),"arc-content","region %d: output %zu read back as %s, expected %s",r,k,desc(got).c_str(),desc(want).c_str());
            if(want.type()==CV_8UC1) {cv::Mat c=w.loadOutput(k,cv::IMREAD_COLOR); VCHECK(c.type()==CV_8UC3 && c.size()==want.size(),"arc-flags","reading flags are ignored");}
        }
        for(size_t k=0;save && k<outs.size();++k) {const cv::Mat want=greyed(outs[k],hasgt&&r>=0?b.roi[0]:cv::Mat()); VCHECK(eq(w.loadOutput(k),want),"arc-later","output %zu changed after later pushes",k);}
        VCHECK(w.loadOutput(outs.size()).empty(),"arc-missing","an output that was never pushed could be read");
        w.stopProcessing();
        if(save && r<0 && !hasgt) { // archive destination vanishes: the push must not pretend to have archived the output
            w.startProcessing(); rm(root+"/out/g"); bool t=false; try {w.push(outs[3],0);} catch(...) {t=true;} VCHECK(t || exists(root+"/out/g/000000.png"),"arc-lost","an output that could not be archived was dropped without an error"); w.stopProcessing();
        }
    }
    // arrays
    for(size_t ns=1;ns<=2;++ns) for(int r0=-1;r0<16;r0+=(ctx().thorough?1:3)) for(int kind=0;kind<2;++kind) {
        if(out_of_time()) return;
        fresh(); BatchSpec b; b.id=2; b.frames=outs.size(); b.gts=1; b.in={{cv::Size(2,2),CV_8UC1},{cv::Size(2,2),CV_8UC1}}; b.gt.assign(ns,StreamSpec{cv::Size(2,2),CV_8UC1}); for(size_t k=0;k<b.frames;++k) b.lut.push_back(0);
        b.roi.resize(ns); for(size_t s=0;s<ns;++s) if(r0>=0) b.roi[s]=mask2((r0+(int)s*5)%16); writeBatch("g/",b);
        auto run=[&](auto* tag) {
            typedef typename std::remove_pointer<decltype(tag)>::type D; auto p=make<D>({"g"},{},true,false); auto& w=leaf<D>(p->getBatches(false)[0]); w.startProcessing();
            for(int pass=0;pass<2;++pass) for(size_t k=0;k<outs.size();++k) {
                std::vector<cv::Mat> o; for(size_t s=0;s<ns;++s) o.push_back(outs[(k*(s+1)+s)%outs.size()]); mark("archive array streams %zu kind %d roi %d output %zu",ns,kind,r0,k);
                if(!pass) {ctx().evals++; ctx().nontriv++; w.push(o,k);}
                std::vector<cv::Mat> got=w.loadOutputArray(k); if(got.size()!=ns) {violation("arc-arr-count","wrong number of output streams"); continue;}
                for(size_t s=0;s<ns;++s) {const cv::Mat want=greyed(o[s],b.roi[s]); VCHECK(eq(got[s],want),b.roi[s].empty()?"arc-arr-content":"arc-arr-roi","%s, %zu streams, region %d: stream %zu of output %zu read back as %s, expected %s",kind?"image array":"video array",ns,r0,s,k,desc(got[s]).c_str(),desc(want).c_str());}
            }
            bool t=false; try {w.push(std::vector<cv::Mat>(ns+1,outs[0]),0);} catch(...) {t=true;} VCHECK(t,"arc-arr-size","an output array of the wrong size was accepted");
            w.stopProcessing();
        };
        if(kind) run((DSStr*)nullptr); else run((DSCos*)nullptr);
    }
    // features
    fresh(); {BatchSpec b; b.frames=3; b.id=1; writeBatch("g/",b);} auto p=make<DSSeg>({"g"}); auto& l=loader(p->getBatches(false)[0]);
    std::vector<cv::Mat> fs; for(int t : {CV_8UC1,CV_8UC3,CV_16UC1,CV_32FC1,CV_64FC2,CV_32SC1}) {cv::Mat m(3,4,t); for(int y=0;y<3;++y) for(size_t x=0;x<4*m.elemSize();++x) m.ptr(y)[x]=(uchar)(y*31+(int)x*7+t); fs.push_back(m); fs.push_back(m(cv::Rect(1,1,2,2)));}
    VCHECK(l.loadFeatures(0).empty(),"feat-none","features that were never saved could be loaded");
    for(size_t k=0;k<fs.size();++k) {ctx().evals++; ctx().nontriv++; mark("features %zu",k); l.saveFeatures(k+1,fs[k]);}
    virt([&]{for(int pass=0;pass<2;++pass) {
        if(pass) l.startPrecaching(false,1024);
        for(size_t k=0;k<fs.size();++k) {mark("features read %zu pass %d",k,pass); bool t=false; cv::Mat g; try {g=l.loadFeatures(k+1);} catch(...) {t=true;} VCHECK(!t && eq(g,fs[k]),"feat-content","features %zu (type %d) differ after reloading",k,fs[k].type());}
    }
    l.stopPrecaching();});
    // changing or correcting the packing information between two loads of the same packet
    fresh(); {BatchSpec b; b.frames=2; b.id=1; b.in={{cv::Size(2,2),CV_8UC1},{cv::Size(2,2),CV_8UC1}}; b.gt.assign(1,StreamSpec{cv::Size(2,2),CV_8UC1}); writeBatch("g/",b);} auto q=make<DSCos>({"g"}); auto& a=dynamic_cast<lv::IDataLoader_<lv::Array>&>(*q->getBatches(false)[0]);
    const std::vector<cv::Mat> A={content(1,0,0,StreamSpec{cv::Size(2,2),CV_8UC1},5),content(1,0,1,StreamSpec{cv::Size(4,1),CV_8UC1},5)}, B={content(1,1,0,StreamSpec{cv::Size(2,2),CV_8UC1},6),content(1,1,1,StreamSpec{cv::Size(4,1),CV_8UC1},6)};
    std::vector<lv::MatInfo> good; a.saveFeaturesArray(0,A,&good); a.saveFeaturesArray(1,B,&good); const std::vector<lv::MatInfo> swapped={good[1],good[0]}, wrong={good[0]};
    const std::vector<lv::MatInfo>* infos[3]={&good,&swapped,&wrong};
    for(int c=0;c<6*6*6;++c) {
        ctx().evals++; ctx().nontriv++; std::string h; int x=c;
        for(int i=0;i<3;++i,x/=6) {
            const int op=x%6; const size_t k=(size_t)op/3; const auto& info=*infos[op%3]; h+=fmt("packet %zu with %s layout; ",k,op%3==0?"its":op%3==1?"another":"an invalid"); mark("features layout %s",h.c_str()); const auto& src=k?B:A;
            bool t=false; std::vector<cv::Mat> g; try {g=a.loadFeaturesArray(k,info);} catch(...) {t=true;}
            if(op%3==2) {VCHECK(t,"feat-layout-invalid","%sa layout that does not fit was accepted",h.c_str()); continue;}
            if(t || g.size()!=2) {violation("feat-layout-throw",h+"failed"); continue;}
            cv::Mat all(1,8,CV_8UC1); memcpy(all.data,src[0].data,4); memcpy(all.data+4,src[1].data,4); bool ok=true; size_t off=0;
            for(size_t s=0;s<2;++s) {ok=ok && g[s].total()==4 && g[s].size()==cv::Size(info[s].size()) && g[s].isContinuous() && !memcmp(g[s].data,all.data+off,4); off+=4;}
            VCHECK(ok,"feat-layout","%sdelivers features of another packet or layout",h.c_str());
        }
    }
}

// ---- P23: hierarchical metrics and reports ------------------------------------------------------------------------
typedef std::vector<double> NV;
struct Cnt {double tp=0,tn=0,fp=0,fn=0,se=0,dc=0; std::vector<double> err;}; // counters (or disparity errors) of one stream
static void evalInto(Cnt& c, const cv::Mat& out, const cv::Mat& gt, const cv::Mat& roi) {
    for(int y=0;y<out.rows;++y) for(int x=0;x<out.cols;++x) {
        const int o=out.at<uchar>(y,x), g=gt.empty()?-1:gt.at<uchar>(y,x); const bool in=roi.empty()||roi.at<uchar>(y,x);
        if(g_stereo) {if(g<0||g==255||!in) c.dc++; else c.err.push_back(std::abs(o-g)); continue;}
        if(g<0||g==85||g==170||!in) {c.dc++; continue;}
        if(o==255) {if(g==255) c.tp++; else {c.fp++; if(g==50) c.se++;}} else if(g==255) c.fn++; else c.tn++;
    }
}
static void addCnt(Cnt& a, const Cnt& b) {a.tp+=b.tp; a.tn+=b.tn; a.fp+=b.fp; a.fn+=b.fn; a.se+=b.se; a.dc+=b.dc; a.err.insert(a.err.end(),b.err.begin(),b.err.end());}
static NV score(const Cnt& c) {
    if(g_stereo) {NV r; const double n=(double)c.err.size(); for(double t : {0.5,1.0,2.0,4.0}) {double k=0; for(double e : c.err) k+=e>t; r.push_back(n?k/n*100:0);} double s=0,q=0; for(double e : c.err) {s+=e; q+=e*e;} r.push_back(n?s/n:0); r.push_back(n?std::sqrt(q/n):0); return r;}
    auto d=[](double a, double b) {return b>0?a/b:0.0;}; const double R=d(c.tp,c.tp+c.fn), P=d(c.tp,c.tp+c.fp), m=(c.tp+c.fp)*(c.tp+c.fn)*(c.tn+c.fp)*(c.tn+c.fn);
    return NV{R,d(c.tn,c.tn+c.fp),d(c.fp,c.fp+c.tn),d(c.fn,c.tp+c.fn),100*d(c.fn+c.fp,c.tp+c.tn+c.fp+c.fn),P,d(2*R*P,R+P),m>0?(c.tp*c.tn-c.fp*c.fn)/std::sqrt(m):0.0};
}
struct LeafM {std::set<size_t> done; std::vector<Cnt> c;};
static NV num(const lv::BinClassifMetrics& m) {return NV{m.dRecall,m.dSpecificity,m.dFPR,m.dFNR,m.dPBC,m.dPrecision,m.dFMeasure,m.dMCC};}
static NV num(const lv::StereoDispErrorMetrics& m) {return NV{m.dBadPercent_05,m.dBadPercent_1,m.dBadPercent_2,m.dBadPercent_4,m.dAverageError,m.dRMS};}
static bool nearv(const NV& a, const NV& b, double tol) {if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(!(std::abs(a[i]-b[i])<=tol)) return false; return true;}
static std::string str(const NV& v) {std::string s; for(double x : v) s+=fmt("%.6g ",x); return s;}
// uniform access to the three evaluation kinds
static std::vector<Cnt> countersOf(const lv::IIMetricsAccumulator& m) {
    std::vector<Cnt> r; auto bin=[&](const lv::BinClassif& c) {Cnt k; k.tp=(double)c.nTP; k.tn=(double)c.nTN; k.fp=(double)c.nFP; k.fn=(double)c.nFN; k.se=(double)c.nSE; k.dc=(double)c.nDC; r.push_back(k);};
    if(auto p=dynamic_cast<const lv::BinClassifMetricsAccumulator*>(&m)) bin(p->m_oCounters);
    if(auto p=dynamic_cast<const lv::BinClassifMetricsArrayAccumulator*>(&m)) for(auto& c : p->m_vCounters) bin(c);
    if(auto p=dynamic_cast<const lv::StereoDispMetricsAccumulator*>(&m)) for(auto& c : p->m_vErrorLists) {Cnt k; k.dc=(double)c.nDC; k.err.assign(c.vErrors.begin(),c.vErrors.end()); r.push_back(k);}
    return r;
}
static std::vector<NV> scoresOf(const lv::IIMetricsCalculator& m, NV& reduced) {
    std::vector<NV> r;
    if(auto p=dynamic_cast<const lv::BinClassifMetricsCalculator*>(&m)) {r.push_back(num(p->m_oMetrics)); reduced=r[0];}
    if(auto p=dynamic_cast<const lv::BinClassifMetricsArrayCalculator*>(&m)) {for(auto& c : p->m_vMetrics) r.push_back(num(c)); reduced=num(p->reduce()->m_oMetrics);}
    if(auto p=dynamic_cast<const lv::StereoDispMetricsCalculator*>(&m)) {for(auto& c : p->m_vMetrics) r.push_back(num(c)); reduced=num(p->reduce());}
    return r;
}
static bool sameCnt(const Cnt& a, const Cnt& b) {auto x=a.err, y=b.err; std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); return a.tp==b.tp && a.tn==b.tn && a.fp==b.fp && a.fn==b.fn && a.se==b.se && a.dc==b.dc && nearv(x,y,1e-6);}
static std::string trim(const std::string& s) {size_t a=s.find_first_not_of(" \t\r"), b=s.find_last_not_of(" \t\r"); return a==std::string::npos?"":s.substr(a,b-a+1);}
struct Report {std::vector<std::string> cols; std::multimap<std::string,std::vector<std::string>> rows; double hz=-1; long count=-1; std::string text;};
static bool readReport(const std::string& f, Report& r) {
    std::ifstream in(f); if(!in) return false; std::string l; bool head=false;
    while(std::getline(in,l)) {
        r.text+=l+"\n"; if(l.find("---|")!=std::string::npos) continue;
        if(l.find('|')!=std::string::npos) {std::vector<std::string> c; std::string cur; for(char ch : l+"|") {if(ch=='|') {c.push_back(trim(cur)); cur.clear();} else cur+=ch;} if(!head) {r.cols=c; head=true;} else r.rows.emplace(c[0],c);}
        if(l.compare(0,4,"Hz: ")==0) r.hz=atof(l.c_str()+4); if(l.compare(0,7,"Count: ")==0) r.count=atol(l.c_str()+7);
    }
    return true;
}
static void txtFiles(const std::string& d, std::set<std::string>& o) {if(DIR* p=opendir(d.c_str())) {while(dirent* e=readdir(p)) {std::string n=e->d_name; if(n=="."||n=="..") continue; if(isdir(d+"/"+n)) txtFiles(d+"/"+n,o); else if(n.size()>4 && n.substr(n.size()-4)==".txt") o.insert(d+"/"+n);} closedir(p);}}
template<typename D> static void pushTo(typename D::WorkBatch& w, const std::vector<cv::Mat>& o, size_t k, std::integral_constant<int,0>) {w.push(o[0],k);}
template<typename D> static void pushTo(typename D::WorkBatch& w, const std::vector<cv::Mat>& o, size_t k, std::integral_constant<int,1>) {w.push(o,k);}
template<typename D> static void pushTo(typename D::WorkBatch& w, const std::vector<cv::Mat>&, size_t k, std::integral_constant<int,2>) {w.push(k);}
template<typename D> static std::vector<cv::Mat> colourOf(typename D::WorkBatch& w, const std::vector<cv::Mat>& o, size_t k, std::integral_constant<int,0>) {return {w.getColoredMask(o[0],k)};}
template<typename D> static std::vector<cv::Mat> colourOf(typename D::WorkBatch& w, const std::vector<cv::Mat>& o, size_t k, std::integral_constant<int,1>) {return w.getColoredMaskArray(o,k);}
template<typename D> static std::vector<cv::Mat> colourOf(typename D::WorkBatch&, const std::vector<cv::Mat>&, size_t, std::integral_constant<int,2>) {return {};}
static cv::Mat outFor(int leaf, int variant, size_t s, cv::Size z) {
    cv::Mat m(z,CV_8UC1); unsigned h=unsigned(leaf*13+variant*7+(int)s*5+3); for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols;++x) {h=h*1103515245u+12345u; m.at<uchar>(y,x)=g_stereo?(uchar)((h>>16)%20):((h>>16)&1?255:0);} return m;
}
// leaf scripts: 0 untouched, 1 started and stopped, 2-6 pushes of (frame, output variant)
static const std::vector<std::vector<std::pair<size_t,int>>> SCRIPT={{},{},{{0,1}},{{0,2}},{{0,1},{2,2}},{{1,1}},{{0,1},{0,2}}};
// K: 0 single outputs, 1 output arrays, 2 counting only
template<typename D, int K> static void reports(const char* what, bool eval, bool big=false) {
    const std::integral_constant<int,K> tag; const size_t NS=K==1?2:1; const SV rel={"g0/b0/","g0/b1/","g1/"}; const cv::Size z=big?cv::Size(44,30):cv::Size(4,3);
    std::vector<std::vector<std::pair<size_t,int>>> LONG(3); for(size_t k=0;k<300;++k) {LONG[1].push_back({k*37%300,(int)k}); if(k<130) LONG[2].push_back({k,(int)k%3});} // long sessions: every frame, in another order; a first part only
    const auto& SC=big?LONG:SCRIPT;
    fresh();
    for(int i=0;i<3;++i) {
        BatchSpec b; b.id=i+1; b.frames=3; b.gts=2; b.lut={0,-1,1}; if(big) {b.frames=300; b.gts=20; b.lut.clear(); for(int k=0;k<300;++k) b.lut.push_back(k%7==3?-1:k*11%20);} b.in.assign(NS,StreamSpec{z,CV_8UC1}); b.gt.assign(NS,StreamSpec{z,CV_8UC1});
        if(i==1) {b.roi.resize(NS); for(size_t s=0;s<NS;++s) {b.roi[s]=cv::Mat(z,CV_8UC1,cv::Scalar(255)); b.roi[s].at<uchar>(1,1+(int)s)=0; b.roi[s].at<uchar>(2,0)=0;}}
        writeBatch(rel[(size_t)i],b);
    }
    const bool scored=eval && K!=2; const double tol=g_stereo?1e-4:2e-6;
    const int ns=(int)SC.size();
    for(int code=0;code<ns*ns*ns;++code) for(int reset=0;reset<4;++reset) {
        if(out_of_time()) return;
        if(big && !(ctx().thorough || ((code==1+2*3 || code==1+3+9 || code==2+3+2*9) && reset<2))) continue;
        freshOut(); ctx().evals++; ctx().nontriv++; const int sc[3]={code%ns,code/ns%ns,code/ns/ns}; const std::string id=fmt("%s (evaluation %s), batch histories %d %d %d, %s",what,eval?"on":"off",sc[0],sc[1],sc[2],reset==0?"no reset":reset==1?"first batch reset":reset==2?"first group reset":"all reset"); mark("%s",id.c_str());
        auto p=make<D>({"g0","g1"},{},false,eval); auto v=p->getBatches(false); auto gs=p->getBatches(true); if(v.size()!=3 || gs.size()!=2 || !gs[1]->isBare()) {violation("rep-tree","unexpected batch structure"); return;}
        LeafM lm[3];
        for(int i=0;i<3;++i) {
            auto& w=leaf<D>(v[(size_t)i]); if(sc[i]==0) continue; w.startProcessing(); const BatchSpec& b=g_spec.at(rel[(size_t)i]);
            for(auto& pr : SC[(size_t)sc[i]]) {
                std::vector<cv::Mat> o; for(size_t s=0;s<NS;++s) o.push_back(outFor(i,pr.second,s,z));
                pushTo<D>(w,o,pr.first,tag); lm[i].done.insert(pr.first);
                if(scored) {
                    lm[i].c.resize(NS); const bool has=b.lut[pr.first]>=0; std::vector<cv::Mat> cm; if(reset==0) cm=colourOf<D>(w,o,pr.first,tag);
                    for(size_t s=0;s<NS;++s) {
                        const cv::Mat gt=has?gtFor(b,(size_t)b.lut[pr.first],s):cv::Mat(), roi=b.roi.empty()?cv::Mat():b.roi[s]; evalInto(lm[i].c[s],o[s],gt,roi);
                        if(reset==0) VCHECK(cm.size()==NS && eq(cm[s],g_stereo?lv::StereoDispErrors::getColoredMask(o[s],gt,20.f,roi):lv::BinClassif::getColoredMask(o[s],gt,roi)),"rep-colour","%s: coloured mask of frame %zu stream %zu differs from the one of its own ground truth",id.c_str(),pr.first,s);
                    }
                }
            }
            w.stopProcessing();
        }
        if(reset==1) v[0]->resetMetrics(); if(reset==2) gs[0]->resetMetrics(); if(reset==3) p->resetMetrics();
        for(int i=0;i<3;++i) if(reset==3 || (reset==2 && i<2) || (reset==1 && i==0)) lm[i]=LeafM();
        // handlers: leaves, groups, root
        struct H {lv::IDataHandlerPtr h; std::vector<int> l; std::string file; int depth; bool bare;};
        const std::vector<H> hs={{v[0],{0},root+"/out/g0/b0.txt",2,false},{v[1],{1},root+"/out/g0/b1.txt",2,false},{v[2],{2},root+"/out/g1.txt",2,false},{gs[0],{0,1},root+"/out/g0.txt",1,false},{gs[1],{2},"",1,true},{p,{0,1,2},root+"/out/DS.txt",0,false}};
        auto countOf=[&](const H& h) {size_t n=0; for(int i : h.l) n+=lm[i].done.size(); return n;};
        auto avgOf=[&](const H& h) {std::vector<NV> r(NS); double n=0; for(int i : h.l) if(!lm[i].done.empty()) {++n; for(size_t s=0;s<NS;++s) {const NV q=score(lm[i].c[s]); r[s].resize(q.size()); for(size_t j=0;j<q.size();++j) r[s][j]+=q[j];}} for(auto& q : r) for(auto& x : q) x/=n; return r;};
        auto redOf=[&](const std::vector<NV>& a) {NV r(a[0].size()); for(auto& q : a) for(size_t j=0;j<q.size();++j) r[j]+=q[j]/(double)a.size(); return r;};
        double lt[3]; for(int i=0;i<3;++i) lt[i]=v[(size_t)i]->getCurrentProcessTime();
        for(auto& h : hs) {
            VCHECK(h.h->getCurrentOutputCount()==countOf(h),"rep-count","%s: '%s' counts %zu outputs, expected %zu",id.c_str(),h.h->getName().c_str(),h.h->getCurrentOutputCount(),countOf(h));
            double t=0; for(int i : h.l) t+=lt[i]; VCHECK(std::abs(h.h->getCurrentProcessTime()-t)<=1e-9+1e-9*t,"rep-time","%s: processing time of '%s' is not the sum of its batches'",id.c_str(),h.h->getName().c_str());
            for(int i : h.l) VCHECK((lt[i]>0)==(sc[i]!=0),"rep-leaf-time","%s: processing time of batch %d is %g",id.c_str(),i,lt[i]);
            if(!scored) continue;
            const auto& r=dynamic_cast<const lv::IIMetricRetriever&>(*h.h); std::vector<Cnt> want; for(int i : h.l) for(size_t s=0;s<lm[i].c.size();++s) {if(want.size()<=s) want.resize(s+1); addCnt(want[s],lm[i].c[s]);}
            const std::vector<Cnt> got=countersOf(*r.getMetricsBase()); for(size_t s=0;s<std::max(NS,got.size());++s) VCHECK(sameCnt(s<got.size()?got[s]:Cnt(),s<want.size()?want[s]:Cnt()),"rep-base","%s: accumulated counts of '%s' (depth %d, stream %zu) differ from the sum over its batches",id.c_str(),h.h->getName().c_str(),h.depth,s);
            if(countOf(h)==0) continue;
            NV red; std::vector<NV> sg=scoresOf(*r.getMetrics(false),red); VCHECK(sg.size()==NS,"rep-streams","%s: %zu streams scored, expected %zu",id.c_str(),sg.size(),NS); if(sg.size()!=NS) continue;
            for(size_t s=0;s<NS;++s) VCHECK(nearv(sg[s],score(want[s]),tol),"rep-total-score","%s: scores of '%s' stream %zu computed from totals are %s, expected %s",id.c_str(),h.h->getName().c_str(),s,str(sg[s]).c_str(),str(score(want[s])).c_str());
            sg=scoresOf(*r.getMetrics(true),red); const auto av=avgOf(h); if(sg.size()!=NS) {violation("rep-streams",id+": wrong number of averaged streams"); continue;}
            for(size_t s=0;s<NS;++s) VCHECK(nearv(sg[s],av[s],tol),"rep-average","%s: scores of '%s' stream %zu averaged over its batches are %s, expected %s",id.c_str(),h.h->getName().c_str(),s,str(sg[s]).c_str(),str(av[s]).c_str());
            VCHECK(nearv(red,redOf(av),tol),"rep-reduced","%s: scores of '%s' averaged over streams are %s, expected %s",id.c_str(),h.h->getName().c_str(),str(red).c_str(),str(redOf(av)).c_str());
        }
        // reports written from every level
        for(int where=0;where<(int)hs.size();++where) {
            std::set<std::string> old; txtFiles(root+"/out",old); for(auto& f : old) unlink(f.c_str()); mark("%s, report of handler %d",id.c_str(),where);
            bool t=false; try {hs[(size_t)where].h->writeEvalReport();} catch(...) {t=true;} if(t) {violation("rep-throw",fmt("%s: writing the report of '%s' failed",id.c_str(),hs[(size_t)where].h->getName().c_str())); continue;}
            std::set<std::string> want,got; for(auto& h : hs) {bool sub=true; for(int i : h.l) sub=sub && std::find(hs[(size_t)where].l.begin(),hs[(size_t)where].l.end(),i)!=hs[(size_t)where].l.end(); if(sub && h.depth>=hs[(size_t)where].depth && !h.file.empty() && countOf(h)) want.insert(h.file);}
            txtFiles(root+"/out",got); if(got!=want) {std::string d; for(auto& f : want) if(!got.count(f)) d+=" missing "+f.substr(root.size()); for(auto& f : got) if(!want.count(f)) d+=" unexpected "+f.substr(root.size()); violation("rep-files",fmt("%s: report of '%s':%s",id.c_str(),hs[(size_t)where].h->getName().c_str(),d.c_str())); continue;}
            for(auto& h : hs) if(want.count(h.file)) {
                Report r; if(!readReport(h.file,r)) {violation("rep-read","report unreadable"); continue;}
                const size_t n=countOf(h); double tm=0; for(int i : h.l) tm+=lt[i];
                auto hzok=[](double g, double w) {return std::abs(g-w)<=1e-4*std::abs(w)+1e-4;};
                VCHECK(r.text.find("'"+h.h->getName()+"'")!=std::string::npos,"rep-title","%s: report of '%s' does not name it",id.c_str(),h.h->getName().c_str());
                std::map<std::string,size_t> seen; size_t rows=0;
                for(auto& q : hs) { // expected rows: q below h, with outputs, not the leaf of a bare group unless it is h itself
                    bool sub=true; for(int i : q.l) sub=sub && std::find(h.l.begin(),h.l.end(),i)!=h.l.end(); if(!sub || q.depth<h.depth || countOf(q)==0) continue; if(q.h==v[2] && h.h!=v[2]) continue;
                    const std::string name=trim(std::string((size_t)(q.depth-h.depth),'>')+" "+q.h->getName()); std::vector<std::pair<std::string,NV>> lines;
                    if(scored) {const auto av=avgOf(q); if(K==0) lines.push_back({"",av[0]}); else {for(size_t s=0;s<NS;++s) lines.push_back({fmt("s%zu",s),av[s]}); lines.push_back({"all:reduced",redOf(av)});}}
                    else {double qt=0; for(int i : q.l) qt+=lt[i]; lines.push_back({"",NV{(double)countOf(q),qt,(double)countOf(q)/qt}});}
                    for(auto& ln : lines) {
                        ++rows; size_t hit=0; auto rg=r.rows.equal_range(name);
                        for(auto it=rg.first;it!=rg.second;++it) {
                            const auto& c=it->second; size_t off=1; if(scored && K==1) {if(c.size()<3 || c[1]!=ln.first) continue; off=3;}
                            ++hit; NV g; for(size_t j=off;j<c.size();++j) g.push_back(atof(c[j].c_str()));
                            const bool ok=scored?nearv(g,ln.second,tol):g.size()==3 && g[0]==ln.second[0] && std::abs(g[1]-ln.second[1])<=2e-6 && hzok(g[2],ln.second[2]);
                            VCHECK(ok,"rep-row","%s: report of '%s', row '%s' %s reads %s, expected %s",id.c_str(),h.h->getName().c_str(),name.c_str(),ln.first.c_str(),str(g).c_str(),str(ln.second).c_str());
                        }
                        VCHECK(hit==1,"rep-row-count","%s: report of '%s' holds %zu rows '%s' %s, expected one",id.c_str(),h.h->getName().c_str(),hit,name.c_str(),ln.first.c_str());
                    }
                }
                VCHECK(r.rows.size()==rows,"rep-rows","%s: report of '%s' holds %zu rows, expected %zu",id.c_str(),h.h->getName().c_str(),r.rows.size(),rows);
                const SV cols=!scored?SV{"","Packets","Seconds","Hz"}:K==0?SV{"","Rcl","Spc","FPR","FNR","PBC","Prc","FM","MCC"}:g_stereo?SV{"","Stream","","% bad @0.5","% bad @1.0","% bad @2.0","% bad @4.0","average er","rms error"}:SV{"","Stream","","Rcl","Spc","FPR","FNR","PBC","Prc","FM","MCC"};
                VCHECK(r.cols==cols,"rep-columns","%s: columns of the report of '%s' differ",id.c_str(),h.h->getName().c_str());
                if(scored) VCHECK(r.count==(long)n && hzok(r.hz,(double)n/tm),"rep-footer","%s: report of '%s' states %ld outputs at %g Hz, expected %zu at %g",id.c_str(),h.h->getName().c_str(),r.count,r.hz,n,(double)n/tm);
            }
        }
        if(code%49==0) sample(id);
    }
}

// ---- P05: processing life cycle ------------------------------------------------------------------------------------
struct LifeM {bool proc=false,prec=false,final_=false; std::set<size_t> done; Cnt c; bool started=false;};
static const char* LOP[12]={"start first","stop first","push 0 to first","push 1 to first","reset first","precache first","start second","push 0 to second","stop second","reset all","stop precaching all","precache all"};
template<typename D, int K> static void life(const char* what) {
    const std::integral_constant<int,K> tag; const cv::Size z(3,2); fresh(); const SV rel={"g/b0/","g/b1/"};
    for(int i=0;i<2;++i) {BatchSpec b; b.id=i+1; b.frames=2; b.gts=2; b.lut={0,1}; b.in={{z,CV_8UC1}}; b.gt=b.in; writeBatch(rel[(size_t)i],b);}
    const int depth=ctx().thorough?5:4, A=12; int tot=1; for(int i=0;i<depth;++i) tot*=A;
    for(int code=0;code<tot;++code) {
        if(out_of_time()) return;
        ctx().evals++; ctx().nontriv++; bool prec=false; for(int i=0,c=code;i<depth;++i,c/=A) prec=prec || c%A==5 || c%A==11;
        auto run=[&]{
            auto p=make<D>({"g"},{},false,true); auto v=p->getBatches(false); auto g=p->getBatches(true)[0]; LifeM m[2]; std::string h;
            typename D::WorkBatch* w[2]={&leaf<D>(v[0]),&leaf<D>(v[1])};
            for(int i=0,c=code;i<depth;++i,c/=A) {
                const int op=c%A; h+=std::string(i?", ":"")+LOP[op]; mark("%s: %s",what,h.c_str()); bool t=false,et=false; const int l=op>=6&&op<=8?1:0;
                try {
                    if(op==0||op==6) w[l]->startProcessing(); else if(op==1||op==8) w[l]->stopProcessing(); else if(op==4) w[0]->resetMetrics(); else if(op==5) w[0]->startPrecaching(); else if(op==9) p->resetMetrics(); else if(op==10) p->stopPrecaching(); else if(op==11) p->startPrecaching(false);
                    else {const size_t k=op==3?1u:0u; pushTo<D>(*w[l],{outFor(l,(int)k+1,0,z)},k,tag);}
                } catch(...) {t=true;}
                if(op==0||op==6) {if(!m[l].proc) {m[l].proc=true; m[l].done.clear(); m[l].final_=false; m[l].started=true;}}
                else if(op==1||op==8) {if(m[l].proc) {m[l].proc=false; m[l].final_=true;} m[l].prec=false;}
                else if(op==4||op==9) {for(int q=0;q<(op==9?2:1);++q) {m[q].done.clear(); m[q].c=Cnt(); if(!m[q].proc) m[q].final_=false;}}
                else if(op==5) m[0].prec=true; else if(op==10) m[0].prec=m[1].prec=false; else if(op==11) m[0].prec=m[1].prec=true;
                else {const size_t k=op==3?1u:0u; et=!m[l].proc; if(m[l].proc) {m[l].done.insert(k); evalInto(m[l].c,outFor(l,(int)k+1,0,z),gtFor(g_spec.at(rel[(size_t)l]),k,0),cv::Mat());}}
                if(t!=et) {violation(t?"life-throw":"life-accepted",fmt("%s: %s: the last step %s",what,h.c_str(),t?"failed":"was accepted although the batch is not being processed")); return;}
                for(int q=0;q<2;++q) {
                    VCHECK(w[q]->isProcessing()==m[q].proc,"life-processing","%s: %s: batch %d reports processing=%d",what,h.c_str(),q,(int)w[q]->isProcessing());
                    VCHECK(w[q]->isPrecaching()==m[q].prec,"life-precaching","%s: %s: batch %d reports precaching=%d",what,h.c_str(),q,(int)w[q]->isPrecaching());
                    VCHECK(w[q]->getCurrentOutputCount()==m[q].done.size(),"life-count","%s: %s: batch %d counts %zu outputs, expected %zu",what,h.c_str(),q,w[q]->getCurrentOutputCount(),m[q].done.size());
                    const auto got=countersOf(*dynamic_cast<const lv::IIMetricRetriever&>(*v[(size_t)q]).getMetricsBase()); VCHECK(sameCnt(got.empty()?Cnt():got[0],m[q].c),"life-metrics","%s: %s: evaluation of batch %d does not match the outputs pushed since the last reset",what,h.c_str(),q);
                    const double now=w[q]->getCurrentProcessTime(); VCHECK(m[q].started?now>=0:now==0,"life-time","%s: %s: batch %d processing time %g",what,h.c_str(),q,now);
                    if(m[q].final_) {
                        for(int rep=0;rep<2;++rep) VCHECK(w[q]->getFinalOutputCount()==m[q].done.size(),"life-final","%s: %s: final count of batch %d is %zu, expected %zu",what,h.c_str(),q,w[q]->getFinalOutputCount(),m[q].done.size());
                        VCHECK(w[q]->getFinalProcessTime()==now && w[q]->getFinalProcessTime()==now && w[q]->getCurrentProcessTime()==now,"life-final-time","%s: %s: final time of batch %d changes",what,h.c_str(),q);
                    }
                }
                for(const lv::IDataHandler* x : {(const lv::IDataHandler*)g.get(),(const lv::IDataHandler*)p.get()}) {
                    VCHECK(x->isProcessing()==(m[0].proc||m[1].proc) && x->isPrecaching()==(m[0].prec||m[1].prec) && x->getCurrentOutputCount()==m[0].done.size()+m[1].done.size(),"life-group","%s: %s: '%s' reports processing=%d precaching=%d count=%zu",what,h.c_str(),x->getName().c_str(),(int)x->isProcessing(),(int)x->isPrecaching(),x->getCurrentOutputCount());
                    Cnt sum=m[0].c; addCnt(sum,m[1].c); const auto got=countersOf(*dynamic_cast<const lv::IIMetricRetriever&>(*x).getMetricsBase()); VCHECK(sameCnt(got.empty()?Cnt():got[0],sum),"life-group-metrics","%s: %s: evaluation of '%s' does not match its batches",what,h.c_str(),x->getName().c_str());
                }
                if(m[0].final_ && m[1].final_) VCHECK(p->getFinalOutputCount()==m[0].done.size()+m[1].done.size() && g->getFinalProcessTime()==w[0]->getFinalProcessTime()+w[1]->getFinalProcessTime(),"life-group-final","%s: %s: final count of the data set is %zu",what,h.c_str(),p->getFinalOutputCount());
            }
            for(auto* x : w) x->stopProcessing();
        };
        if(prec) virt(run); else run();
        if(code%997==0) {std::string h; for(int i=0,c=code;i<depth;++i,c/=A) h+=std::string(i?", ":"")+LOP[c%A]; sample(h);}
    }
}
struct LifeArg {std::shared_ptr<DSSeg> p; DSSeg::WorkBatch* w[2]; cv::Mat out;};
template<int NC, int NT> static void life_wait(void* a) { // NC threads await the final count and NT the final time of a batch that another thread processes
    auto& x=*(LifeArg*)a; auto& w=*x.w[0]; w.startProcessing(); std::vector<std::thread> v; std::vector<size_t> c(NC,99); std::vector<double> d(NT,-1);
    for(int i=0;i<NC;++i) v.emplace_back([&,i]{c[(size_t)i]=w.getFinalOutputCount();});
    for(int i=0;i<NT;++i) v.emplace_back([&,i]{d[(size_t)i]=w.getFinalProcessTime();});
    w.push(x.out,0); mc::point("between pushes"); w.push(x.out,1); w.push(x.out,0); w.stopProcessing();
    for(auto& t : v) t.join();
    for(size_t n : c) if(n!=2) mc::fail("wait-count","a waiter got %zu outputs instead of 2",n);
    for(double t : d) if(t!=w.getCurrentProcessTime()) mc::fail("wait-time","a waiter got %g s instead of %g s",t,w.getCurrentProcessTime());
    if(w.getFinalOutputCount()!=2 || w.getFinalProcessTime()!=w.getCurrentProcessTime()) mc::fail("wait-after","final values differ after the waiters");
}
template<bool RESET> static void life_group(void* a) { // two batches processed by two threads, a third one awaits the whole data set
    auto& x=*(LifeArg*)a; for(auto* w : x.w) {w->startProcessing(); if(RESET) {w->push(x.out,1); w->resetMetrics();}} size_t n=99; double d=-1; std::vector<std::thread> v;
    v.emplace_back([&]{n=x.p->getFinalOutputCount(); d=x.p->getFinalProcessTime();});
    v.emplace_back([&]{x.w[1]->push(x.out,0); x.w[1]->stopProcessing();});
    x.w[0]->push(x.out,0); x.w[0]->push(x.out,1); x.w[0]->stopProcessing();
    for(auto& t : v) t.join();
    if(n!=3) mc::fail("group-count","%zu outputs awaited instead of 3",n); if(d!=x.w[0]->getCurrentProcessTime()+x.w[1]->getCurrentProcessTime()) mc::fail("group-time","awaited time is not the sum of both batches");
}
static void life_restart(void* a) { // the same batch processed twice; each round's waiter gets its own round's values
    auto& x=*(LifeArg*)a; auto& w=*x.w[0];
    for(size_t r=1;r<=2;++r) {w.startProcessing(); size_t n=99; std::thread t([&]{n=w.getFinalOutputCount();}); for(size_t k=0;k<r;++k) w.push(x.out,k); w.stopProcessing(); t.join(); if(n!=r) mc::fail("restart-count","round %zu: waiter got %zu outputs",r,n);}
}
static void lifeSched() {
    fresh(); const cv::Size z(3,2); for(auto rel : {"g/b0/","g/b1/"}) {BatchSpec b; b.frames=2; b.in={{z,CV_8UC1}}; b.gt=b.in; writeBatch(rel,b);}
    LifeArg a; a.p=make<DSSeg>({"g"}); auto v=a.p->getBatches(false); a.w[0]=&leaf<DSSeg>(v[0]); a.w[1]=&leaf<DSSeg>(v[1]); a.out=outFor(0,1,0,z); const bool th=ctx().thorough;
    for(auto* w : a.w) {w->startProcessing(); w->push(a.out,0); w->stopProcessing(); w->getFinalOutputCount(); w->getFinalProcessTime();}
#define S(n,qb,tb,...) {const char* nm=n; if((ctx().part.empty()||std::string(nm).compare(0,ctx().part.size(),ctx().part)==0) && !out_of_time()) {mc::Config c; c.bound=th?tb:qb; c.unlock_points=th; mc::Stats st; mc::explore(nm,c,__VA_ARGS__,&a,st); if(ctx().replay.empty()) sample(fmt("%s: bound %d, %llu schedules, %llu choice states%s",nm,c.bound,(unsigned long long)st.executions,(unsigned long long)st.nodes,st.complete?"":" (budget reached)")); nontrivial(nm); ctx().evals+=st.executions;}}
    S("wait-count",3,4,(life_wait<1,0>)) S("wait-time",3,4,(life_wait<0,1>)) S("wait-both",2,3,(life_wait<1,1>)) S("wait-2counts",2,3,(life_wait<2,0>)) S("wait-2times",2,3,(life_wait<0,2>)) S("wait-group",2,3,life_group<false>) S("wait-regroup",2,2,life_group<true>) S("wait-restart",2,3,life_restart)
}

int main(int argc, char** argv) {
    if(!getenv("OPENCV_VIDEOIO_PRIORITY_LIST")) {setenv("OPENCV_LOG_LEVEL","SILENT",1); setenv("OPENCV_VIDEOIO_PRIORITY_LIST","FFMPEG",1); execv("/proc/self/exe",argv);} // read by OpenCV before main
    init(argc,argv); root=ctx().scratch+"/ds"; if(!freopen("/dev/null","w",stdout)) return 2; cv::setNumThreads(1);
    if(is_part("load-images")) load_images();
    if(is_part("load-large")) load_large();
    if(is_part("load-video")) load_video();
    if(is_part("load-tree")) load_tree();
    if(is_part("load-gt")) load_gt();
    if(is_part("load-varray")) arrayHistories<DSCos>("video array");
    if(is_part("load-iarray")) arrayHistories<DSStr>("image array");
    if(is_part("archive")) archive();
    if(is_part("report-single")) reports<DSSeg,0>("single outputs",true);
    if(is_part("report-array")) reports<DSCos,1>("output arrays",true);
    if(is_part("report-stereo")) {g_stereo=true; reports<DSStr,1>("disparity arrays",true); g_stereo=false;}
    if(is_part("report-off")) {reports<DSSeg,0>("single outputs",false); reports<DSCos,1>("output arrays",false);}
    if(is_part("report-none")) reports<DSNon,2>("counting only",false);
    if(is_part("report-long")) {reports<DSSeg,0>("long sessions",true,true); reports<DSCos,1>("long array sessions",true,true); g_stereo=true; reports<DSStr,1>("long disparity sessions",true,true); g_stereo=false; reports<DSNon,2>("long counting sessions",false,true);}
    if(is_part("life-single")) life<DSSeg,0>("single outputs");
    if(is_part("life-array")) life<DSCos,1>("output arrays");
    if(ctx().part.empty() || ctx().part.compare(0,4,"wait")==0) lifeSched();
    rm(root); return finish();
}
