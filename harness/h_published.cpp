// P30: the layouts of the published data sets (CDnet 2012/2014, Wallflower, PETS2001, BSDS500) are read as they are documented.
#include "litiv/datasets.hpp"
#include "../mc/report.hpp"
#include "../mc/sched.hpp"
#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>
#include <opencv2/videoio.hpp>
#include <sys/stat.h>
#include <dirent.h>
#include <functional>
using namespace vr;
static std::string root;
static void rm(const std::string& p) {
    DIR* d=opendir(p.c_str()); if(d) {while(dirent* e=readdir(d)) {std::string n=e->d_name; if(n!="."&&n!="..") {std::string q=p+"/"+n; struct stat s; if(lstat(q.c_str(),&s)==0 && S_ISDIR(s.st_mode)) rm(q); else unlink(q.c_str());}} closedir(d);}
    rmdir(p.c_str());
}
static void mk(const std::string& p) {for(size_t i=1;i<=p.size();++i) if(i==p.size()||p[i]=='/') mkdir(p.substr(0,i).c_str(),0777);}
static bool exists(const std::string& p) {struct stat s; return ::stat(p.c_str(),&s)==0;}
static void text(const std::string& p, const char* t) {FILE* f=fopen(p.c_str(),"wb"); if(f) {fputs(t,f); fclose(f);}}
static void fresh() {rm(root); mk(root);}
static cv::Mat img(cv::Size z, int type, int salt) {cv::Mat m(z,type); const int n=m.channels(); for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols*n;++x) m.ptr<uchar>(y)[x]=(uchar)(salt*37+y*61+x*23+(x*y)%7*11); return m;}
static cv::Mat gtimg(cv::Size z, int salt) {static const uchar v[5]={0,255,85,170,50}; cv::Mat m(z,CV_8UC1); size_t h=(size_t)salt*7919+1; for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols;++x) {h=h*1103515245u+12345u; m.at<uchar>(y,x)=v[(h>>16)%5];} return m;}
static bool eq(const cv::Mat& a, const cv::Mat& b) {
    if(a.empty()||b.empty()) return a.empty()&&b.empty();
    if(a.type()!=b.type() || a.dims!=2 || b.dims!=2 || a.rows!=b.rows || a.cols!=b.cols) return false;
    for(int y=0;y<a.rows;++y) if(memcmp(a.ptr(y),b.ptr(y),a.elemSize()*(size_t)a.cols)) return false;
    return true;
}
static std::string desc(const cv::Mat& m) {
    if(m.empty()) return "an empty matrix"; std::string s=fmt("%dx%d type %d [",m.cols,m.rows,m.type());
    for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols*m.channels();++x) {if(s.size()>90) return s+"..]"; s+=fmt("%d ",(int)m.ptr<uchar>(y)[x]);} return s+"]";
}
// nearest-neighbour resampling to an exact size
static cv::Mat nearest(const cv::Mat& m, int w, int h) {
    if(m.cols==w && m.rows==h) return m.clone(); cv::Mat r(h,w,m.type());
    for(int y=0;y<h;++y) for(int x=0;x<w;++x) {const int sy=std::min(m.rows-1,(int)std::floor((double)y*m.rows/h)), sx=std::min(m.cols-1,(int)std::floor((double)x*m.cols/w)); memcpy(r.ptr(y,x),m.ptr(sy,sx),m.elemSize());}
    return r;
}
// the same, sampled at the reciprocal of the scale factor (differs where the scaled size had to be rounded)
static cv::Mat nearestF(const cv::Mat& m, double sc) {cv::Mat r(cvRound(m.rows*sc),cvRound(m.cols*sc),m.type()); for(int y=0;y<r.rows;++y) for(int x=0;x<r.cols;++x) memcpy(r.ptr(y,x),m.ptr(std::min(m.rows-1,(int)std::floor(y/sc)),std::min(m.cols-1,(int)std::floor(x/sc))),m.elemSize()); return r;}
static cv::Mat asChannels(const cv::Mat& m, int cn) {cv::Mat r; if(m.channels()==cn) return m.clone(); if(cn==4) cv::cvtColor(m,r,m.channels()==3?cv::COLOR_BGR2BGRA:cv::COLOR_GRAY2BGRA); else if(cn==1) cv::cvtColor(m,r,cv::COLOR_BGR2GRAY); else cv::cvtColor(m,r,cv::COLOR_GRAY2BGR); return r;}
static void virt(std::function<void()> f) {mc::Config c; c.single=true; c.bound=0; c.races=false; c.max_steps=3000000; mc::Stats st; mc::explore("virtual",c,[](void* a){(*(std::function<void()>*)a)();},&f,st);}
template<typename D> static typename D::element_type::WorkBatch& leaf(const lv::IDataHandlerPtr& p) {return dynamic_cast<typename D::element_type::WorkBatch&>(*p);}

struct Seq {std::string rel,name; std::vector<cv::Mat> in; std::map<size_t,cv::Mat> gt; cv::Mat roi,roi2; bool names_cd=false;}; // what has to be delivered
template<typename D> static void deliver(const char* ctxt, const D& p, const std::vector<Seq>& exp, bool precache, bool reverse) {
    auto v=p->getBatches(false); if(v.size()!=exp.size()) {violation("count",fmt("%s: %zu sequences found, expected %zu",ctxt,v.size(),exp.size())); return;}
    size_t tot=0; for(auto& e : exp) tot+=e.in.size(); VCHECK(p->getInputCount()==tot,"total","%s: %zu frames in total, expected %zu",ctxt,p->getInputCount(),tot);
    for(size_t q=0;q<exp.size();++q) {
        const Seq& e=exp[q]; auto& b=leaf<D>(v[q]); auto& l=dynamic_cast<lv::IIDataLoader&>(*v[q]);
        VCHECK(b.getRelativePath()==e.rel && b.getName()==e.name,"order","%s: sequence %zu is '%s' (%s), expected '%s' (%s)",ctxt,q,b.getName().c_str(),b.getRelativePath().c_str(),e.name.c_str(),e.rel.c_str());
        if(b.getInputCount()!=e.in.size()) {violation("frames",fmt("%s: '%s' has %zu frames, expected %zu",ctxt,e.rel.c_str(),b.getInputCount(),e.in.size())); continue;}
        VCHECK(b.getGTCount()==e.gt.size(),"gtcount","%s: '%s' counts %zu ground truth images, expected %zu",ctxt,e.rel.c_str(),b.getGTCount(),e.gt.size());
        ctx().evals++; ctx().nontriv++; bool t=false;
        const auto body=[&]{ try {
            if(precache) b.startPrecaching();
            for(size_t i=0;i<=e.in.size();++i) {
                const size_t k=reverse?e.in.size()-1-i:i; if(reverse && i==e.in.size()) break;
                if(!precache || k<e.in.size()) {
                    if(k<e.in.size()) {const cv::Mat& g=b.getInput(k); if(!eq(g,e.in[k])) violation("input",fmt("%s: '%s' frame %zu is %s, expected %s",ctxt,e.rel.c_str(),k,desc(g).c_str(),desc(e.in[k]).c_str()));}
                    if(k<e.in.size()) {const cv::Mat& g=b.getGT(k); const cv::Mat w=e.gt.count(k)?e.gt.at(k):cv::Mat(); if(!eq(g,w)) violation("gt",fmt("%s: '%s' ground truth of frame %zu is %s, expected %s",ctxt,e.rel.c_str(),k,desc(g).c_str(),desc(w).c_str()));}
                }
                if(k<e.in.size()) {
                    const lv::MatInfo o=l.getInputInfo(k); VCHECK(o.size()==e.in[k].size() && o.type()==e.in[k].type(),"info","%s: '%s' declared size or type of frame %zu differs from the delivered one",ctxt,e.rel.c_str(),k);
                    if(!e.roi.empty()) {VCHECK(eq(l.getInputROI(k),e.roi)||(!e.roi2.empty()&&eq(l.getInputROI(k),e.roi2)),"roi","%s: '%s' region of frame %zu is %s, expected %s",ctxt,e.rel.c_str(),k,desc(l.getInputROI(k)).c_str(),desc(e.roi).c_str());
                    if(e.gt.count(k)) VCHECK(eq(l.getGTROI(k),e.roi)||(!e.roi2.empty()&&eq(l.getGTROI(k),e.roi2)),"gtroi","%s: '%s' ground truth region of frame %zu is %s, expected %s",ctxt,e.rel.c_str(),k,desc(l.getGTROI(k)).c_str(),desc(e.roi).c_str());}
                    if(e.names_cd) VCHECK(b.getOutputName(k)==fmt("bin%06zu",k+1),"outname","%s: output %zu is named '%s'",ctxt,k,b.getOutputName(k).c_str());
                }
            }
            if(precache) b.stopPrecaching();
        } catch(...) {t=true;} };
        if(precache) virt(body); else body();
        if(t) violation("throw",fmt("%s: '%s' could not be read",ctxt,e.rel.c_str()));
    }
    sample(ctxt);
}

// ---- CDnet ---------------------------------------------------------------------------------------------------
static const char* G12[]={"baseline","cameraJitter","dynamicBackground","intermittentObjectMotion","shadow","thermal"};
static const char* G14[]={"badWeather","baseline","cameraJitter","dynamicBackground","intermittentObjectMotion","lowFramerate","nightVideos","PTZ","shadow","thermal","turbulence"};
static void cdnet() {
    typedef lv::DatasetPtr_<lv::DatasetTask_Segm,lv::Dataset_CDnet,lv::NonParallel> P;
    const std::vector<std::pair<cv::Size,cv::Size>> rois={{cv::Size(4,3),cv::Size(4,3)},{cv::Size(4,3),cv::Size(3,5)},{cv::Size(5,2),cv::Size(4,4)},{cv::Size(4,4),cv::Size(4,2)}};
    const std::vector<double> scales=ctx().thorough?std::vector<double>{1,0.5,2,1.5,0.75}:std::vector<double>{1,0.5,2};
    for(int v14=0;v14<2;++v14) for(size_t rz=0;rz<rois.size();++rz) for(double sc : scales) for(int a4=0;a4<2;++a4) for(int gray=0;gray<2;++gray) for(int mode=0;mode<3;++mode) {
        if(out_of_time()) return;
        fresh(); const std::string base=root+(v14?"/CDNet2014/dataset/":"/CDNet/dataset/"); std::vector<Seq> exp; int id=0;
        const size_t ng=v14?11:6; const cv::Size fz(std::min(rois[rz].first.width,rois[rz].second.width),std::min(rois[rz].first.height,rois[rz].second.height));
        const int w=cvRound(fz.width*sc), h=cvRound(fz.height*sc);
        for(size_t g=0;g<ng;++g) for(size_t s=0;s<1+(g%3==0);++s,++id) {
            const std::string grp=v14?G14[g]:G12[g], name=s?"walk":"seq_"+grp, rel=grp+"/"+(s?"walk":"seq_"+grp)+"/", d=base+rel; mk(d+"input"); mk(d+"groundtruth"); mk(d+"unused"); text(d+"temporalROI.txt","1 3\n");
            Seq e; e.rel=rel; e.name=name; e.names_cd=true; const bool th=grp=="thermal"||grp=="turbulence"; const size_t n=1+(size_t)(id+mode)%3;
            cv::Mat R=img(rois[rz].first,CV_8UC1,id); for(int y=0;y<R.rows;++y) for(int x=0;x<R.cols;++x) {const int k=(x*3+y*5+id)%4; R.at<uchar>(y,x)=(uchar)(k==0?0:k==1?255:k==2?1:128);}
            cv::imwrite(d+"ROI.bmp",R); cv::imwrite(d+"ROI.jpg",img(rois[rz].second,CV_8UC3,id));
            cv::Mat roi(fz,CV_8UC1); for(int y=0;y<fz.height;++y) for(int x=0;x<fz.width;++x) roi.at<uchar>(y,x)=R.at<uchar>(y,x)?255:0; e.roi=nearest(roi,w,h); e.roi2=nearestF(roi,sc);
            for(size_t k=0;k<n;++k) {
                const cv::Mat m=img(fz,th&&gray?CV_8UC1:CV_8UC3,id*5+(int)k), gt=gtimg(fz,id*9+(int)k);
                cv::imwrite(d+fmt("input/in%06zu.png",k+1),m); cv::imwrite(d+fmt("groundtruth/gt%06zu.png",k+1),gt);
                e.in.push_back(nearest(asChannels(m,th?1:a4?4:3),w,h)); e.gt[k]=nearest(gt,w,h);
            }
            exp.push_back(e);
        }
        const std::string c=fmt("CDnet %d, ROI images %dx%d/%dx%d, scale %g, alignment %d, grayscale files %d, access %d",v14?2014:2012,rois[rz].first.width,rois[rz].first.height,rois[rz].second.width,rois[rz].second.height,sc,a4,gray,mode); mark("%s",c.c_str());
        lv::datasets::setRootPath(root); P p; bool t=false; try {p=lv::datasets::create<lv::DatasetTask_Segm,lv::Dataset_CDnet,lv::NonParallel>("res",mode==2,false,(bool)a4,sc,(bool)v14);} catch(...) {t=true;}
        if(t) {violation("cdnet-refused",c+": a complete data set was refused"); continue;}
        deliver(c.c_str(),p,exp,mode==1,mode==2);
        // results keep the layout of the data set
        if(mode==2) {
            auto v=p->getBatches(false);
            for(size_t q=0;q<v.size();++q) {auto& b=leaf<P>(v[q]); b.startProcessing(); for(size_t k=0;k<exp[q].in.size();++k) {bool f=false; try {b.push(gtimg(cv::Size(w,h),(int)(q*7+k)),k);} catch(...) {f=true;} VCHECK(!f,"cdnet-push","%s: pushing a result failed",c.c_str()); const std::string o=root+(v14?"/CDNet2014":"/CDNet")+"/results/res/"+exp[q].rel+fmt("bin%06zu.png",k+1); VCHECK(exists(o),"cdnet-archive","%s: result %zu of '%s' was not archived as 'bin%06zu.png'",c.c_str(),k,exp[q].rel.c_str(),k+1);} b.stopProcessing();}
        }
    }
    // incomplete data sets: each defect in each kind of sequence is refused
    for(int v14=0;v14<2;++v14) for(int def=0;def<11;++def) for(size_t at=0;at<(size_t)(v14?11:6);++at) {
        if(out_of_time()) return;
        fresh(); const std::string base=root+(v14?"/CDNet2014/dataset/":"/CDNet/dataset/");
        for(size_t g=0;g<(size_t)(v14?11:6);++g) {
            const bool bad=g==at; const std::string d=base+(v14?G14[g]:G12[g])+"/s/"; mk(d); const cv::Size z(3,2);
            if(!(bad && def==1)) mk(d+"input"); if(!(bad && def==2)) mk(d+"groundtruth");
            const size_t ni=bad&&def==3?0:bad&&def==4?1:2, nt=bad&&def==3?0:bad&&def==5?1:bad&&def==6?3:2;
            for(size_t k=0;k<ni && !(bad&&def==1);++k) cv::imwrite(d+fmt("input/in%06zu.png",k+1),img(z,CV_8UC3,(int)k));
            for(size_t k=0;k<nt && !(bad&&def==2);++k) cv::imwrite(d+fmt("groundtruth/gt%06zu.png",k+1),gtimg(z,(int)k));
            if(!(bad && (def==7||def==9))) cv::imwrite(d+"ROI.bmp",img(z,CV_8UC1,1)); if(!(bad && def==8)) cv::imwrite(d+"ROI.jpg",img(z,CV_8UC3,1)); if(bad && def==9) text(d+"ROI.bmp","no image"); if(bad && def==10) {unlink((d+"input/in000002.png").c_str()); unlink((d+"input/in000001.png").c_str()); rmdir((d+"input").c_str()); mk(d+"Input"); for(size_t k=0;k<2;++k) cv::imwrite(d+fmt("Input/in%06zu.png",k+1),img(z,CV_8UC3,(int)k));}
        }
        mark("CDnet %d defect %d in group %zu",v14?2014:2012,def,at); ctx().evals++; ctx().nontriv++; bool t=false;
        lv::datasets::setRootPath(root); try {auto p=lv::datasets::create<lv::DatasetTask_Segm,lv::Dataset_CDnet,lv::NonParallel>("res",false,false,false,1.0,(bool)v14);} catch(...) {t=true;}
        VCHECK(t==(def!=0),def?"cdnet-accepted":"cdnet-refused","CDnet %d: defect %d in group %zu: %s",v14?2014:2012,def,at,t?"refused":"accepted");
    }
}

// ---- Wallflower ----------------------------------------------------------------------------------------------
static void wallflower() {
    typedef lv::DatasetPtr_<lv::DatasetTask_Segm,lv::Dataset_Wallflower,lv::NonParallel> P;
    const char* S[3]={"Bootstrap","Camouflage","WavingTrees"};
    for(int nseq=1;nseq<=3;++nseq) for(int n=1;n<=4;++n) for(int at=0;at<=n;++at) for(double sc : {1.0,0.5,2.0}) for(int a4=0;a4<2;++a4) for(int g3=0;g3<2;++g3) for(int pre=0;pre<2;++pre) {
        if(out_of_time()) return;
        fresh(); std::vector<Seq> exp;
        for(int q=0;q<nseq;++q) {
            const int f=1+(n+q-1)%4, k0=(at+q)%(f+1); Seq e; e.name=S[q]; e.rel=std::string(S[q])+"/"; const std::string d=root+"/Wallflower/dataset/"+e.rel; mk(d); text(d+"script.txt","x"); const cv::Size z(4,3); const int w=cvRound(4*sc), h=cvRound(3*sc);
            for(int k=0;k<f;++k) {const cv::Mat m=img(z,CV_8UC3,q*11+k); cv::imwrite(d+fmt("b%05d.bmp",k),m); e.in.push_back(nearest(asChannels(m,a4?4:3),w,h));}
            const cv::Mat gt=gtimg(z,q*13+n), st=g3?asChannels(gt,3):gt; cv::imwrite(d+fmt("hand_segmented_%05d.BMP",k0),st);
            e.gt[(size_t)k0]=nearest(g3?asChannels(st,1):gt,w,h); e.roi=cv::Mat(h,w,CV_8UC1); e.roi=255; exp.push_back(e);
        }
        const std::string c=fmt("Wallflower, %d sequences, first with %d frames and ground truth at %d, scale %g, alignment %d, colour ground truth %d, precaching %d",nseq,n,at,sc,a4,g3,pre); mark("%s",c.c_str());
        lv::datasets::setRootPath(root+"/"); P p; bool t=false; try {p=lv::datasets::create<lv::DatasetTask_Segm,lv::Dataset_Wallflower,lv::NonParallel>("res",false,false,(bool)a4,sc);} catch(...) {t=true;}
        if(t) {violation("wf-refused",c+": a complete data set was refused"); continue;}
        deliver(c.c_str(),p,exp,pre,false);
    }
    for(int def=0;def<9;++def) for(int at=0;at<3;++at) {
        fresh(); for(int q=0;q<3;++q) {const bool bad=q==at; const std::string d=root+"/Wallflower/dataset/"+S[q]+"/"; mk(d); const cv::Size z(3,2);
            if(!(bad&&def==1)) text(d+"script.txt","x"); for(int k=0;k<2 && !(bad&&def==2);++k) cv::imwrite(d+fmt("b%05d.bmp",k),img(z,CV_8UC3,k));
            if(!(bad&&(def==3||def==8))) cv::imwrite(d+"hand_segmented_00001.bmp",gtimg(z,1)); if(bad&&def==4) cv::imwrite(d+"hand_segmented_00000.bmp",gtimg(z,2)); if(bad&&def==5) text(d+"readme.txt","x"); if(bad&&def==6) cv::imwrite(d+"b00002.png",img(z,CV_8UC3,2)); if(bad&&def==7) text(d+"b00002.bmp.old","x"); if(bad&&def==8) text(d+"hand_segmented_00001.bmp","x");}
        mark("Wallflower defect %d in sequence %d",def,at); ctx().evals++; ctx().nontriv++; bool t=false; lv::datasets::setRootPath(root);
        try {auto p=lv::datasets::create<lv::DatasetTask_Segm,lv::Dataset_Wallflower,lv::NonParallel>("res");} catch(...) {t=true;}
        VCHECK(t==(def!=0),def?"wf-accepted":"wf-refused","Wallflower: defect %d in sequence %d: %s",def,at,t?"refused":"accepted");
    }
}

// ---- PETS2001 ------------------------------------------------------------------------------------------------
static void pets() {
    typedef lv::DatasetPtr_<lv::DatasetTask_Segm,lv::Dataset_PETS2001D3TC1,lv::NonParallel> P; const cv::Size z(16,16);
    auto video=[&](const std::string& p, int n, int salt) {cv::VideoWriter w(p,cv::VideoWriter::fourcc('M','J','P','G'),10,z); for(int k=0;k<n;++k) w.write(img(z,CV_8UC3,salt+k*3)); w.release(); std::vector<cv::Mat> r; cv::VideoCapture c(p); cv::Mat f; while(c.read(f)) r.push_back(f.clone()); return r;};
    // all subsets of annotated frames, and all orders in which the frames of a short video may be requested
    for(int n=1;n<=4;++n) for(int sub=1;sub<(2<<n);++sub) for(double sc : {1.0,0.5}) for(int a4=0;a4<2;++a4) {
        if(out_of_time()) return;
        fresh(); const std::string base=root+"/PETS2001/DATASET3/", d=base+"TESTING/CAMERA1/"; mk(d+"GT"); Seq e; e.name="CAMERA1"; e.rel="TESTING/CAMERA1/"; const int w=cvRound(16*sc);
        const std::vector<cv::Mat> fr=video(d+"v.avi",n,sub); if(fr.size()!=(size_t)n) {violation("harness","the test video could not be written"); return;}
        for(auto& f : fr) e.in.push_back(nearest(asChannels(f,a4?4:3),w,w));
        for(int k=0;k<=n;++k) if(sub>>k&1) {const cv::Mat g=gtimg(z,k*3+sub); cv::imwrite(d+fmt("GT/image_%04d.png",k),g); e.gt[(size_t)k]=nearest(g,w,w);}
        e.roi=cv::Mat(w,w,CV_8UC1); e.roi=255;
        const std::string c=fmt("PETS2001, %d frames, annotated subset %d, scale %g, alignment %d",n,sub,sc,a4); mark("%s",c.c_str());
        lv::datasets::setRootPath(root); P p; bool t=false; try {p=lv::datasets::create<lv::DatasetTask_Segm,lv::Dataset_PETS2001D3TC1,lv::NonParallel>("res",false,false,(bool)a4,sc);} catch(...) {t=true;}
        if(t) {violation("pets-refused",c+": a complete data set was refused"); continue;}
        deliver(c.c_str(),p,{e},false,sub&1);
        if(sub%5==0 && sc==1.0) {
            auto v=p->getBatches(false); auto& b=leaf<P>(v[0]); int tot=1; const int len=3; for(int i=0;i<len;++i) tot*=n;
            for(int code=0;code<tot;++code) {ctx().evals++; ctx().nontriv++; std::string hist; for(int i=0,q=code;i<len;++i,q/=n) {const size_t k=(size_t)(q%n); hist+=fmt("%zu ",k); bool t2=false; cv::Mat g; try {g=b.getInput(k).clone();} catch(...) {t2=true;} if(t2 || !eq(g,e.in[k])) {violation("pets-seek",fmt("%s: after requests %s frame %zu is %s",c.c_str(),hist.c_str(),k,t2?"not readable":"another one")); break;}}}
        }
    }
    for(int def=0;def<8;++def) {
        fresh(); const std::string d=root+"/PETS2001/DATASET3/TESTING/CAMERA1/"; mk(d); if(def!=1) {mk(d+"GT"); if(def!=2) cv::imwrite(d+"GT/image_0000.png",gtimg(z,1)); if(def==3) text(d+"GT/image_0000.png","x");}
        if(def!=4) video(d+"v.avi",2,1); if(def==5) video(d+"w.avi",2,1); if(def==6) {mk(d+"GT2"); cv::imwrite(d+"GT2/image_0001.png",gtimg(z,1));} if(def==7) text(d+"v.avi","x");
        mark("PETS2001 defect %d",def); ctx().evals++; ctx().nontriv++; bool t=false; lv::datasets::setRootPath(root);
        try {auto p=lv::datasets::create<lv::DatasetTask_Segm,lv::Dataset_PETS2001D3TC1,lv::NonParallel>("res");} catch(...) {t=true;}
        VCHECK(t==(def!=0),def?"pets-accepted":"pets-refused","PETS2001: defect %d: %s",def,t?"refused":"accepted");
    }
}

// ---- BSDS500 -------------------------------------------------------------------------------------------------
static void bsds() {
    typedef lv::DatasetPtr_<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel> P; const char* G[3]={"train","val","test"}; const char* N[3]={"100007","100039","8023"}; const char* E[3]={".jpg",".png",".bmp"};
    const cv::Size Z[2]={cv::Size(481,321),cv::Size(321,481)};
    for(int grp=0;grp<3;++grp) for(int ni=1;ni<=2;++ni) for(int orient=0;orient<4;++orient) for(int gts=0;gts<4;++gts) for(double sc : {1.0,0.5,0.25,0.3}) {
        if(out_of_time()) return; if(!ctx().thorough && (grp+ni+orient+gts)%2) continue;
        fresh(); std::vector<Seq> exp; const std::string data=root+"/BSDS500/data/";
        for(int g=0;g<3;++g) {
            Seq e; e.name=G[g]; e.rel=std::string(G[g])+"/"; mk(data+"images/"+G[g]); text(data+"images/"+G[g]+"/Thumbs.db","x");
            for(int k=0;k<ni;++k) {
                const cv::Size z=Z[orient>>k&1]; const cv::Mat m=img(z,CV_8UC3,g*7+k); const std::string f=data+"images/"+G[g]+"/"+N[k]+E[(g+k)%3]; cv::imwrite(f,m); const cv::Mat in=cv::imread(f);
                const int w=int(z.width*sc), h=int(z.height*sc), ng=1+(gts+k)%4; const std::string gd=data+"groundTruth_bdry_images/"+G[g]+"/"+N[k]; mk(gd); cv::Mat st(h*ng,w,CV_8UC1);
                for(int j=0;j<ng;++j) {const cv::Mat t=gtimg(z,g*31+k*5+j); cv::imwrite(gd+fmt("/bdry_%d.png",j),t); nearest(t,w,h).copyTo(st.rowRange(j*h,j*h+h));}
                e.in.push_back(nearest(in,w,h)); e.gt[(size_t)k]=st;
            }
            if(g<=grp) exp.push_back(e);
        }
        const std::string c=fmt("BSDS500, groups up to '%s', %d images per group, orientations %d, ground truth counts from %d, scale %g",G[grp],ni,orient,gts+1,sc); mark("%s",c.c_str());
        lv::datasets::setRootPath(root); P p; bool t=false; try {p=lv::datasets::create<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel>("res",false,false,sc,grp==0?lv::BSDS500Dataset_Training:grp==1?lv::BSDS500Dataset_Training_Validation:lv::BSDS500Dataset_Training_Validation_Test);} catch(...) {t=true;}
        if(t) {violation("bsds-refused",c+": a complete data set was refused"); continue;}
        deliver(c.c_str(),p,exp,false,ni==2&&(gts&1));
    }
    for(int def=0;def<7;++def) {
        fresh(); const std::string data=root+"/BSDS500/data/"; const cv::Size z=Z[0];
        for(int g=0;g<1;++g) {mk(data+"images/train"); for(int k=0;k<2;++k) {if(def!=1) cv::imwrite(data+"images/train/"+N[k]+".png",img(def==5&&k?cv::Size(480,321):z,CV_8UC3,k)); const std::string gd=data+"groundTruth_bdry_images/train/"+(def==4&&k?"100099":N[k]); if(def==2 || (def==3&&k)) continue; mk(gd); if(!(def==6&&k)) cv::imwrite(gd+"/b.png",gtimg(z,k));}}
        mark("BSDS500 defect %d",def); ctx().evals++; ctx().nontriv++; bool t=false; lv::datasets::setRootPath(root);
        try {auto p=lv::datasets::create<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel>("res",false,false);} catch(...) {t=true;}
        VCHECK(t==(def!=0),def?"bsds-accepted":"bsds-refused","BSDS500: defect %d: %s",def,t?"refused":"accepted");
    }
}
int main(int argc, char** argv) {
    init(argc,argv); root=ctx().scratch+"/pub"; if(!freopen("/dev/null","w",stdout)) return 2; cv::setNumThreads(1);
    if(is_part("cdnet")) cdnet();
    if(is_part("wallflower")) wallflower();
    if(is_part("pets")) pets();
    if(is_part("bsds")) bsds();
    rm(root); return finish();
}
