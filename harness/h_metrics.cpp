// P22: classification counting, derived metrics, disparity errors, coloured masks, accumulators and calculators.
#include "litiv/datasets/metrics.hpp"
#include "../mc/report.hpp"
#include <opencv2/imgproc.hpp>
#include <cmath>
using namespace vr;
typedef long double ld;
typedef lv::BinClassif BC;

static bool near_(ld a, ld b, ld rel=1e-9L) {return std::abs(a-b)<=rel*std::max((ld)1,std::max(std::abs(a),std::abs(b)));}
static std::string str(const BC& c) {return fmt("TP=%llu TN=%llu FP=%llu FN=%llu SE=%llu DC=%llu",(unsigned long long)c.nTP,(unsigned long long)c.nTN,(unsigned long long)c.nFP,(unsigned long long)c.nFN,(unsigned long long)c.nSE,(unsigned long long)c.nDC);}
static bool same(const BC& a, const BC& b) {return a.nTP==b.nTP && a.nTN==b.nTN && a.nFP==b.nFP && a.nFN==b.nFN && a.nSE==b.nSE && a.nDC==b.nDC;}
// reference: one pixel
static void refPixel(BC& c, int in, int gt, int roi /*-1: none*/) {
    if(roi==0 || gt==85 || gt==170) {c.nDC++; return;}
    bool p=in==255, g=gt==255; if(p&&g) c.nTP++; else if(p) c.nFP++; else if(g) c.nFN++; else c.nTN++;
    if(gt==50 && p) c.nSE++;
}
static cv::Vec3b refColour(int in, int gt, int roi) {
    if(roi==0) return cv::Vec3b(127,127,127);
    if(gt==85 || gt==170) return cv::Vec3b((uchar)in,(uchar)in,(uchar)in);
    if(in==255) return gt==255?cv::Vec3b(0,255,0):gt==0?cv::Vec3b(0,0,255):gt==50?cv::Vec3b(0,127,255):cv::Vec3b(85,85,85);
    return gt==255?cv::Vec3b(127,0,255):cv::Vec3b(0,0,0);
}
// returns a copy of m stored in the given layout: 0 continuous, 1 view into the left of a wider matrix, 2 view into the middle
static cv::Mat layout(const cv::Mat& m, int kind) {
    if(kind==0) return m.clone();
    cv::Mat big(m.rows+2,m.cols+3,m.type(),cv::Scalar::all(255)); cv::Mat v=big(kind==1?cv::Rect(0,0,m.cols,m.rows):cv::Rect(2,1,m.cols,m.rows)); m.copyTo(v); return v;
}
static void binCase(const cv::Mat& in, const cv::Mat& gt, const cv::Mat& roi, const char* what) {
    ctx().evals++; ctx().nontriv++;
    BC ref; ref.nTP=1; ref.nTN=2; ref.nFP=3; ref.nFN=4; ref.nSE=5; ref.nDC=6; BC got=ref;
    for(int y=0;y<in.rows;++y) for(int x=0;x<in.cols;++x) {if(gt.empty()) ref.nDC++; else refPixel(ref,in.at<uchar>(y,x),gt.at<uchar>(y,x),roi.empty()?-1:roi.at<uchar>(y,x));}
    const bool cont=in.isContinuous() && (gt.empty()||gt.isContinuous()) && (roi.empty()||roi.isContinuous());
    bool threw=false; try {got.accumulate(in,gt,roi);} catch(...) {threw=true;}
    if(threw && cont) violation("bin-refused",fmt("%s: evaluation of a valid output was refused",what));
    if(!threw && !same(ref,got)) violation(cont?"bin-count":"bin-count-view",fmt("%s (%dx%d): counted %s, expected %s",what,in.cols,in.rows,str(got).c_str(),str(ref).c_str()));
    cv::Mat col; threw=false; try {col=BC::getColoredMask(in,gt,roi);} catch(...) {threw=true;}
    if(threw && cont) violation("bin-colour-refused",fmt("%s: coloured mask of a valid output was refused",what));
    if(!threw) {
        if(col.type()!=CV_8UC3 || col.size()!=in.size()) {violation("bin-colour-shape",fmt("%s: coloured mask has the wrong size or type",what)); return;}
        for(int y=0;y<in.rows;++y) for(int x=0;x<in.cols;++x) {
            int v=in.at<uchar>(y,x); cv::Vec3b e=gt.empty()?cv::Vec3b(v,v,v):refColour(v,gt.at<uchar>(y,x),roi.empty()?-1:roi.at<uchar>(y,x)), g=col.at<cv::Vec3b>(y,x);
            int d=0; for(int c=0;c<3;++c) d=std::max(d,std::abs(int(e[c])-int(g[c]))); // halved and third intensities may be rounded either way
            if(d>1) violation(cont?"bin-colour":"bin-colour-view",fmt("%s: colour at (%d,%d) is %d,%d,%d expected %d,%d,%d (output %d, gt %d, roi %d)",what,x,y,g[0],g[1],g[2],e[0],e[1],e[2],v,gt.empty()?-1:gt.at<uchar>(y,x),roi.empty()?-1:roi.at<uchar>(y,x)));
        }
    }
}
static void binPixels() {
    std::vector<int> rois={-1,0,1,50,85,127,128,170,254,255}; if(ctx().thorough) {rois.clear(); for(int r=-1;r<256;++r) rois.push_back(r);}
    cv::Mat in(1,1,CV_8UC1),gt(1,1,CV_8UC1),roi(1,1,CV_8UC1);
    for(int a=0;a<256;++a) for(int b=0;b<256;++b) {
        mark("pixel out=%d gt=%d",a,b);
        for(int r : rois) { // inlined for speed: single pixel
            in.at<uchar>(0,0)=(uchar)a; gt.at<uchar>(0,0)=(uchar)b; roi.at<uchar>(0,0)=(uchar)std::max(r,0);
            ctx().evals++; ctx().nontriv++; BC got,ref; refPixel(ref,a,b,r); got.accumulate(in,gt,r<0?cv::Mat():roi);
            if(!same(got,ref)) violation("bin-pixel",fmt("output %d gt %d roi %d: counted %s, expected %s",a,b,r,str(got).c_str(),str(ref).c_str()));
            if(got.total()!=got.nTP+got.nTN+got.nFP+got.nFN || got.total(true)!=1) violation("bin-total",fmt("output %d gt %d roi %d: totals do not add up",a,b,r));
        }
    }
    // whole rows (all outputs) x all ground truth values x roi
    cv::Mat row(256,256,CV_8UC1),g2(256,256,CV_8UC1),r2(256,256,CV_8UC1); for(int y=0;y<256;++y) for(int x=0;x<256;++x) {row.at<uchar>(y,x)=(uchar)x; g2.at<uchar>(y,x)=(uchar)y; r2.at<uchar>(y,x)=(uchar)(((x*7+y*13)%3)?((x+y)%256):0);}
    mark("full value square"); binCase(row,g2,cv::Mat(),"full value square"); binCase(row,g2,r2,"full value square with region"); binCase(row,cv::Mat(),r2,"no ground truth"); binCase(row,cv::Mat(),cv::Mat(),"no ground truth");
    // every small shape x every single special pixel x every layout of the three matrices
    const int vals[6]={0,255,85,170,50,128};
    for(int h=1;h<=4;++h) for(int w=1;w<=4;++w) for(int p=0;p<h*w;++p) for(int a : {0,255}) for(int b : vals) for(int r : {-1,0,255}) for(int bg=0;bg<3;++bg) {
        if(out_of_time()) return;
        cv::Mat i(h,w,CV_8UC1,cv::Scalar(bg==1?255:0)),g(h,w,CV_8UC1,cv::Scalar(bg==2?255:0)),o=r<0?cv::Mat():cv::Mat(h,w,CV_8UC1,cv::Scalar(r?0:255));
        i.at<uchar>(p/w,p%w)=(uchar)a; g.at<uchar>(p/w,p%w)=(uchar)b; if(r>=0) o.at<uchar>(p/w,p%w)=(uchar)r;
        for(int l=0;l<27;++l) { if(r<0 && l>=9) break;
            mark("shape %dx%d pixel %d out=%d gt=%d roi=%d layout %d",w,h,p,a,b,r,l);
            cv::Mat I=layout(i,l%3),G=layout(g,l/3%3),O=o.empty()?o:layout(o,l/9); cv::Mat ic=i.clone(),gc=g.clone();
            binCase(I,G,O,"single special pixel");
            if(cv::norm(I,ic,cv::NORM_INF)!=0 || cv::norm(G,gc,cv::NORM_INF)!=0) violation("bin-modified","evaluation changed its inputs");
        }
    }
    // misuse
    auto refused=[&](const cv::Mat& i, const cv::Mat& g, const cv::Mat& r, const char* w) {ctx().evals++; BC c; bool t=false; try {c.accumulate(i,g,r);} catch(...) {t=true;} if(!t || c.total(true)) violation("bin-misuse",fmt("%s was accepted",w)); t=false; try {BC::getColoredMask(i,g,r);} catch(...) {t=true;} if(!t) violation("bin-colour-misuse",fmt("%s was accepted",w));};
    cv::Mat a=cv::Mat::zeros(3,4,CV_8UC1),b=cv::Mat::zeros(4,3,CV_8UC1),c=cv::Mat::zeros(3,4,CV_8UC3),d=cv::Mat::zeros(3,4,CV_32FC1);
    refused(cv::Mat(),a,cv::Mat(),"empty output"); refused(a,b,cv::Mat(),"size mismatch"); refused(a,a,b,"region size mismatch"); refused(c,a,cv::Mat(),"colour output"); refused(a,c,cv::Mat(),"colour ground truth"); refused(a,a,c,"colour region"); refused(d,a,cv::Mat(),"float output"); refused(a,d,cv::Mat(),"float ground truth"); refused(a,a,d,"float region");
    sample("every (output, ground truth, region) byte triple; every single-pixel difference in shapes up to 4x4 in every memory layout");
}

static ld ratio(ld a, ld b) {return b>0?a/b:0;}
static void chkMetrics(const lv::BinClassifMetrics& m, const BC& c, const char* w) {
    ld TP=c.nTP,TN=c.nTN,FP=c.nFP,FN=c.nFN, rc=ratio(TP,TP+FN), pr=ratio(TP,TP+FP), den=std::sqrt(TP+FP)*std::sqrt(TP+FN)*std::sqrt(TN+FP)*std::sqrt(TN+FN);
    struct {const char* n; ld g,e,lo,hi;} t[]={{"recall",m.dRecall,rc,0,1},{"specificity",m.dSpecificity,ratio(TN,TN+FP),0,1},{"FPR",m.dFPR,ratio(FP,FP+TN),0,1},{"FNR",m.dFNR,ratio(FN,TP+FN),0,1},{"PBC",m.dPBC,100*ratio(FN+FP,TP+TN+FP+FN),0,100},{"precision",m.dPrecision,pr,0,1},{"F-measure",m.dFMeasure,rc+pr>0?2*rc*pr/(rc+pr):0,0,1},{"MCC",m.dMCC,den>0?(TP*TN-FP*FN)/den:0,-1,1}};
    for(auto& x : t) if(!near_(x.g,x.e) || !(x.g>=x.lo-1e-9L && x.g<=x.hi+1e-9L)) violation(fmt("metric-%s",x.n),fmt("%s: %s of %s is %Lg, expected %Lg",w,x.n,str(c).c_str(),x.g,x.e));
}
static void metrics() {
    std::vector<uint64_t> v={0,1,2,3,5,16,1000,1ull<<20,(1ull<<31)-1,1ull<<32,(1ull<<33)+7,1ull<<40}; if(ctx().thorough) {v.push_back(4); v.push_back(7); v.push_back(255); v.push_back(1ull<<24); v.push_back((1ull<<24)+1); v.push_back(1ull<<36); v.push_back(1ull<<45);}
    for(uint64_t a : v) for(uint64_t b : v) for(uint64_t c : v) for(uint64_t d : v) {
        ctx().evals++; ctx().nontriv++; BC m; m.nTP=a; m.nTN=b; m.nFP=c; m.nFN=d; m.nSE=c/2; m.nDC=17; if((ctx().evals&1023)==0) mark("%s",str(m).c_str());
        chkMetrics(lv::BinClassifMetrics(m),m,"metrics");
        auto B=[&](double g, double e, const char* n){if(!near_(g,e)) violation(fmt("metric-fn-%s",n),fmt("%s of %s is %g, expected %g",n,str(m).c_str(),g,e));};
        lv::BinClassifMetrics r(m);
        B(lv::BinClassifMetrics::CalcRecall(a,a+d),r.dRecall,"recall"); B(lv::BinClassifMetrics::CalcPrecision(a,a+c),r.dPrecision,"precision"); B(lv::BinClassifMetrics::CalcFMeasure(r.dRecall,r.dPrecision),r.dFMeasure,"fmeasure");
        if(m.total()!=a+b+c+d || m.total(true)!=a+b+c+d+17) violation("total",fmt("total of %s",str(m).c_str()));
        BC s=m; s.accumulate(m); BC e; e.nTP=2*a; e.nTN=2*b; e.nFP=2*c; e.nFN=2*d; e.nSE=2*(c/2); e.nDC=34; if(!same(s,e)) violation("sum",fmt("sum of %s with itself is %s",str(m).c_str(),str(s).c_str()));
    }
    // equality: differs iff any counter differs
    BC z; uint64_t BC::* f[6]={&BC::nTP,&BC::nTN,&BC::nFP,&BC::nFN,&BC::nSE,&BC::nDC};
    for(int i=0;i<6;++i) for(int j=0;j<6;++j) for(uint64_t x : {0,1,2}) for(uint64_t y : {0,1,2}) {ctx().evals++; BC a=z,b=z; a.*f[i]=x; b.*f[j]=y; if(a.isEqual(b)!=same(a,b)) violation("equal",fmt("%s and %s compare %d",str(a).c_str(),str(b).c_str(),(int)a.isEqual(b)));}
    // disparity error statistics: all error lists over boundary values
    const float ev[]={0.f,0.25f,0.5f,0.75f,1.f,1.5f,2.f,2.5f,4.f,4.5f,100.f}; const int E=11;
    for(int n=0;n<=(ctx().thorough?5:4);++n) {long tot=1; for(int i=0;i<n;++i) tot*=E; for(long k=0;k<tot;++k) {
        lv::StereoDispErrors s; long q=k; for(int i=0;i<n;++i) {s.vErrors.push_back(ev[q%E]); q/=E;} s.nDC=3; ctx().evals++; ctx().nontriv++; if((k&255)==0) mark("error list n=%d k=%ld",n,k);
        lv::StereoDispErrorMetrics m(s); ld sum=0,sq=0,b5=0,b1=0,b2=0,b4=0; for(float x : s.vErrors) {sum+=x; sq+=(ld)x*x; b5+=x>0.5f; b1+=x>1; b2+=x>2; b4+=x>4;}
        struct {const char* n; ld g,e;} t[]={{"bad0.5",m.dBadPercent_05,n?100*b5/n:0},{"bad1",m.dBadPercent_1,n?100*b1/n:0},{"bad2",m.dBadPercent_2,n?100*b2/n:0},{"bad4",m.dBadPercent_4,n?100*b4/n:0},{"avg",m.dAverageError,n?sum/n:0},{"rms",m.dRMS,n?std::sqrt(sq/n):0}};
        for(auto& x : t) if(!near_(x.g,x.e,1e-5L)) violation(fmt("disp-%s",x.n),fmt("%s of %d errors is %Lg, expected %Lg",x.n,n,x.g,x.e));
        if(s.total()!=(uint64_t)n || s.total(true)!=(uint64_t)n+3) violation("disp-total","error totals do not add up");
        lv::StereoDispErrors s2=s; if(!s2.isEqual(s)) violation("disp-equal","a copy compares different"); s2.nDC++; if(s2.isEqual(s)) violation("disp-equal","different don't-care counts compare equal"); s2.nDC--; if(n) {s2.vErrors[n-1]+=1; if(s2.isEqual(s)) violation("disp-equal","different errors compare equal"); s2=s; s2.vErrors.pop_back(); if(s2.isEqual(s) || s.isEqual(s2)) violation("disp-equal","lists of different lengths compare equal");}
    }}
    sample("all counter quadruples over {0,1,2,3,5,...,2^40}; all error lists up to 4 entries over threshold values");
}

// ---- disparity errors ----
static const int TY[6]={CV_8UC1,CV_8SC1,CV_16UC1,CV_16SC1,CV_32SC1,CV_32FC1}; static const char* TN[6]={"8U","8S","16U","16S","32S","32F"};
static double tmax(int t) {switch(TY[t]) {case CV_8UC1: return 255; case CV_8SC1: return 127; case CV_16UC1: return 65535; case CV_16SC1: return 32767; case CV_32SC1: return 2147483647.0; default: return FLT_MAX;}}
static double tmin(int t) {switch(TY[t]) {case CV_8UC1: case CV_16UC1: return 0; case CV_8SC1: return -128; case CV_16SC1: return -32768; case CV_32SC1: return -2147483648.0; default: return -FLT_MAX;}}
static std::vector<double> tvals(int t) {std::vector<double> v={0,1,2,7,100}; if(tmin(t)<0) {v.push_back(-1); v.push_back(-2); v.push_back(tmin(t)); v.push_back(-100);} v.push_back(tmax(t)); if(t!=5) {v.push_back(tmax(t)-1); v.push_back(126); if(tmax(t)>=255) {v.push_back(127); v.push_back(128); v.push_back(200);} if(tmax(t)>255) v.push_back(255); if(tmax(t)>=65535) {v.push_back(32767); v.push_back(32768);} if(tmax(t)>65535) v.push_back(65535);} else for(double x : {0.5,1.25,-0.5,127.0,255.0,32767.0,65535.0}) v.push_back(x); return v;}
static void put(cv::Mat& m, int y, int x, double v) {switch(m.type()) {case CV_8UC1: m.at<uchar>(y,x)=(uchar)v; break; case CV_8SC1: m.at<schar>(y,x)=(schar)v; break; case CV_16UC1: m.at<ushort>(y,x)=(ushort)v; break; case CV_16SC1: m.at<short>(y,x)=(short)v; break; case CV_32SC1: m.at<int>(y,x)=(int)v; break; default: m.at<float>(y,x)=(float)v;}}
static bool valid(int t, double v) {return v!=tmax(t) && v>=0;}
static void stereo() {
    for(int td=0;td<6;++td) for(int tg=0;tg<6;++tg) for(double dv : tvals(td)) for(double gv : tvals(tg)) for(int r : {-1,0,1,128,255}) {
        if(td==5 && std::abs(dv)>1e30) continue;
        ctx().evals++; ctx().nontriv++; mark("disparity %s=%g gt %s=%g roi=%d",TN[td],dv,TN[tg],gv,r);
        cv::Mat d(1,1,TY[td]),g(1,1,TY[tg]),o(1,1,CV_8UC1,cv::Scalar(std::max(r,0))); put(d,0,0,dv); put(g,0,0,gv);
        lv::StereoDispErrors s; s.accumulate(d,g,r<0?cv::Mat():o); const bool use=valid(tg,gv) && r!=0;
        if(s.vErrors.size()!=(use?1:0) || s.nDC!=(use?0u:1u)) violation("stereo-valid",fmt("estimate %g (%s), ground truth %g (%s), roi %d: %zu errors, %llu ignored",dv,TN[td],gv,TN[tg],r,s.vErrors.size(),(unsigned long long)s.nDC));
        else if(use && !near_(s.vErrors[0],std::abs((ld)dv-(ld)gv),1e-6L*std::max((ld)1,(ld)std::max(std::abs(dv),std::abs(gv))/std::max((ld)1,std::abs((ld)dv-(ld)gv)))+1e-6L)) violation("stereo-error",fmt("error between %g (%s) and %g (%s) is %g",dv,TN[td],gv,TN[tg],s.vErrors[0]));
    }
    // shapes, order, layouts, repeated accumulation
    for(int h=1;h<=4;++h) for(int w=1;w<=4;++w) for(int t=0;t<6;++t) for(int p=0;p<h*w;++p) for(int kind=0;kind<4;++kind) for(int l=0;l<27;++l) {
        if(out_of_time()) return; ctx().evals++; ctx().nontriv++; mark("shape %dx%d type %s pixel %d kind %d layout %d",w,h,TN[t],p,kind,l);
        cv::Mat d(h,w,TY[t]),g(h,w,TY[(t+p)%6]),o(h,w,CV_8UC1,cv::Scalar(1)); std::vector<double> e; uint64_t dc=0;
        for(int y=0;y<h;++y) for(int x=0;x<w;++x) {
            double dv=(y*w+x)%5*3, gv=(y*2+x*5)%7; bool skip=false;
            if(y*w+x==p) {if(kind==1) {gv=tmax((t+p)%6); skip=true;} else if(kind==2) {o.at<uchar>(y,x)=0; skip=true;} else if(kind==3) dv+=20;}
            put(d,y,x,dv); put(g,y,x,gv); if(skip) ++dc; else e.push_back(std::abs(dv-gv));
        }
        cv::Mat D=layout(d,l%3),G=layout(g,l/3%3),O=kind==2||(p&1)?layout(o,l/9):cv::Mat(); if(O.empty() && l>=9) continue;
        const bool cont=D.isContinuous()&&G.isContinuous()&&(O.empty()||O.isContinuous());
        lv::StereoDispErrors s; bool t1=false; try {s.accumulate(D,G,O); s.accumulate(D,G,O); s.accumulate(D,cv::Mat(),O);} catch(...) {t1=true;}
        if(t1) {if(cont) violation("stereo-refused","evaluation of a valid disparity map was refused"); continue;}
        bool ok=s.vErrors.size()==2*e.size() && s.nDC==2*dc+size_t(h*w); for(size_t i=0;ok && i<s.vErrors.size();++i) ok=near_(s.vErrors[i],e[i%e.size()],1e-5L);
        if(!ok) violation(cont?"stereo-map":"stereo-map-view",fmt("%dx%d %s map, pixel %d kind %d: wrong errors or ignored count (%zu errors, %llu ignored)",w,h,TN[t],p,kind,s.vErrors.size(),(unsigned long long)s.nDC));
    }
    auto refused=[&](const cv::Mat& i, const cv::Mat& g, const cv::Mat& r, const char* w) {ctx().evals++; lv::StereoDispErrors c; bool t=false; try {c.accumulate(i,g,r);} catch(...) {t=true;} if(!t || c.total(true)) violation("stereo-misuse",fmt("%s was accepted",w)); t=false; try {lv::StereoDispErrors::getColoredMask(i,g,4.f,r);} catch(...) {t=true;} if(!t) violation("stereo-colour-misuse",fmt("%s was accepted",w));};
    cv::Mat a=cv::Mat::zeros(3,4,CV_8UC1),b=cv::Mat::zeros(4,3,CV_8UC1),c=cv::Mat::zeros(3,4,CV_8UC3),d=cv::Mat::zeros(3,4,CV_64FC1);
    refused(cv::Mat(),a,cv::Mat(),"empty map"); refused(a,b,cv::Mat(),"size mismatch"); refused(a,a,b,"region size mismatch"); refused(c,a,cv::Mat(),"colour map"); refused(a,c,cv::Mat(),"colour ground truth"); refused(a,a,c,"colour region"); refused(d,a,cv::Mat(),"double map");
    sample("every pair of boundary values of every pair of the six map types x region values; every shape up to 4x4 with one special pixel in every layout");
}
static void stereoColour() {
    cv::Mat lut(1,256,CV_8UC1); for(int i=0;i<256;++i) lut.at<uchar>(0,i)=(uchar)i; cv::Mat hot; cv::applyColorMap(lut,hot,cv::COLORMAP_HOT);
    for(int h=1;h<=6;++h) for(int w=1;w<=6;++w) for(float mx : {0.5f,1.f,4.f,20.f,255.f}) for(int base=0;base<4;++base) for(int p=0;p<h*w;++p) for(int kind=0;kind<6;++kind) for(int t : {0,5}) {
        if(out_of_time()) return; ctx().evals++; ctx().nontriv++; mark("colour %dx%d max %g base %d pixel %d kind %d type %s",w,h,mx,base,p,kind,TN[t]);
        cv::Mat d(h,w,TY[t]),g=cv::Mat::zeros(h,w,TY[t]),o(h,w,CV_8UC1,cv::Scalar(255)); cv::Mat_<float> e(h,w);
        for(int y=0;y<h;++y) for(int x=0;x<w;++x) {
            double v=base==0?0:base==1?1:base==2?mx:2; if(t==0) v=std::min(254.0,std::ceil(v)); bool skip=false,at=y*w+x==p;
            if(at && kind==1) v=t==0?std::ceil(mx*2)>254?254:std::ceil(mx*2):mx*2; if(at && kind==2) v=0; if(at && kind==3) {o.at<uchar>(y,x)=0; skip=true;} if(at && kind==4) {put(g,y,x,tmax(t)); skip=true;} if(at && kind==5) v=t==0?1:mx/3;
            put(d,y,x,v); e(y,x)=skip?0.f:std::min((float)v,mx);
        }
        cv::Mat O=kind==3||(p&1)?o:cv::Mat(); cv::Mat c; try {c=lv::StereoDispErrors::getColoredMask(d,g,mx,O);} catch(...) {violation("stereo-colour-refused","coloured mask of a valid map was refused"); continue;}
        if(c.type()!=CV_8UC3 || c.size()!=d.size()) {violation("stereo-colour-shape","coloured error mask has the wrong size or type"); continue;}
        for(int y=0;y<h;++y) for(int x=0;x<w;++x) {
            cv::Vec3b got=c.at<cv::Vec3b>(y,x); if(!O.empty() && O.at<uchar>(y,x)==0) {if(got!=cv::Vec3b(92,92,92)) violation("stereo-colour-roi","pixel outside the region is not grey"); continue;}
            float m=0; for(int yy=std::max(0,y-2);yy<=std::min(h-1,y+2);++yy) for(int xx=std::max(0,x-2);xx<=std::min(w-1,x+2);++xx) m=std::max(m,e(yy,xx));
            int q=(int)std::floor(m/mx*255); bool ok=false; for(int k=std::max(0,q-1);k<=std::min(255,q+2);++k) ok|=hot.at<cv::Vec3b>(0,k)==got;
            if(!ok) violation("stereo-colour",fmt("%dx%d map, scale %g, base %d kind %d pixel %d: colour at (%d,%d) is %d,%d,%d although the largest error around is %g",w,h,mx,base,kind,p,x,y,got[0],got[1],got[2],m));
        }
    }
    ctx().evals++; cv::Mat a=cv::Mat::ones(2,3,CV_8UC1); cv::Mat c=lv::StereoDispErrors::getColoredMask(a,cv::Mat(),3.f); if(c.size()!=a.size() || c.type()!=CV_8UC3) violation("stereo-colour-nogt","mask without ground truth has the wrong shape");
    for(float bad : {0.f,-1.f}) {bool t=false; try {lv::StereoDispErrors::getColoredMask(a,a,bad);} catch(...) {t=true;} if(!t) violation("stereo-colour-misuse","a non-positive error scale was accepted");}
    sample("every map up to 6x6 with one special pixel over 4 uniform error levels, 5 scales, 2 types");
}

// ---- accumulators and calculators ----
typedef lv::BinClassifMetricsAccumulator A1; typedef lv::BinClassifMetricsArrayAccumulator AN; typedef lv::StereoDispMetricsAccumulator AS;
typedef lv::BinClassifMetricsCalculator C1; typedef lv::BinClassifMetricsArrayCalculator CN; typedef lv::StereoDispMetricsCalculator CS;
static BC mk(int k) {BC c; c.nTP=k*3+1; c.nTN=k*k+2; c.nFP=(k*5)%7; c.nFN=k%3; c.nSE=k%2; c.nDC=k; return c;}
static void accumulators() {
    // a pool of accumulators of each kind; all sequences of up to 4 additions into one, sums compared with a model
    const int D=ctx().thorough?5:4;
    { const int N=4; long tot=1; for(int i=0;i<D;++i) tot*=N; for(long k=0;k<tot;++k) {
        ctx().evals++; ctx().nontriv++; mark("bin accumulate sequence %ld",k); std::vector<std::shared_ptr<A1>> p; std::vector<BC> m; for(int i=0;i<N;++i) {p.push_back(lv::IIMetricsAccumulator::create<A1>()); p[i]->m_oCounters=i?mk(i):BC(); m.push_back(i?mk(i):BC());}
        auto acc=lv::IIMetricsAccumulator::create<A1>(); BC ref; long q=k; for(int i=0;i<D;++i) {int j=q%N; q/=N; if(i&1) *acc+=*p[j]; else if(acc->accumulate(p[j]).get()!=acc.get()) violation("acc-return","accumulate does not return its own object"); ref.nTP+=m[j].nTP; ref.nTN+=m[j].nTN; ref.nFP+=m[j].nFP; ref.nFN+=m[j].nFN; ref.nSE+=m[j].nSE; ref.nDC+=m[j].nDC;}
        if(!same(acc->m_oCounters,ref)) violation("acc-sum",fmt("accumulated %s, expected %s",str(acc->m_oCounters).c_str(),str(ref).c_str())); for(int i=0;i<N;++i) if(!same(p[i]->m_oCounters,m[i])) violation("acc-arg","accumulating changed the operand");
        for(int i=0;i<N;++i) for(int j=0;j<N;++j) if((*p[i]==*p[j])!=(i==j) || (*p[i]!=*p[j])==(i==j)) violation("acc-equal",fmt("accumulators %d and %d compare wrongly",i,j));
        auto c=lv::IIMetricsCalculator::create<C1>(lv::IIMetricsAccumulatorConstPtr(acc)); chkMetrics(c->m_oMetrics,ref,"calculator"); chkMetrics(lv::IIMetricsCalculator::create<C1>(ref)->m_oMetrics,ref,"calculator(counters)"); chkMetrics(lv::IIMetricsCalculator::create<C1>(lv::BinClassifMetrics(ref))->m_oMetrics,ref,"calculator(metrics)");
    }}
    // arrays of streams: sizes 0..3; empty operands contribute nothing, different non-zero sizes are refused
    for(int s0=0;s0<=3;++s0) for(int s1=0;s1<=3;++s1) for(int s2=0;s2<=3;++s2) for(int names=0;names<4;++names) {
        ctx().evals++; ctx().nontriv++; mark("array accumulate sizes %d %d %d names %d",s0,s1,s2,names); int sz[3]={s0,s1,s2}; std::vector<std::shared_ptr<AN>> p; std::vector<std::shared_ptr<AS>> ps;
        for(int i=0;i<3;++i) {p.push_back(lv::IIMetricsAccumulator::create<AN>((size_t)sz[i])); ps.push_back(lv::IIMetricsAccumulator::create<AS>((size_t)sz[i])); if((int)p[i]->m_vCounters.size()!=sz[i] || (int)p[i]->m_vsStreamNames.size()!=sz[i] || (int)ps[i]->m_vErrorLists.size()!=sz[i]) violation("arr-size","array accumulator has the wrong size");
            for(int k=0;k<sz[i];++k) {p[i]->m_vCounters[k]=mk(i*4+k); if(names>>(i&1)&1) p[i]->m_vsStreamNames[k]=ps[i]->m_vsStreamNames[k]=fmt("n%d.%d",i,k); for(int e=0;e<=k+i;++e) ps[i]->m_vErrorLists[k].vErrors.push_back(float(e+i*10)); ps[i]->m_vErrorLists[k].nDC=i+k;}}
        auto acc=lv::IIMetricsAccumulator::create<AN>(); auto sac=lv::IIMetricsAccumulator::create<AS>(); std::vector<BC> ref; std::vector<std::vector<float>> re; std::vector<uint64_t> rd; std::vector<std::string> rn; bool stop=false;
        for(int i=0;i<3 && !stop;++i) {
            const bool bad=!ref.empty() && sz[i] && (int)ref.size()!=sz[i]; bool t1=false,t2=false; try {acc->accumulate(p[i]);} catch(...) {t1=true;} try {sac->accumulate(ps[i]);} catch(...) {t2=true;}
            if(t1!=bad || t2!=bad) {violation(bad?"arr-mismatch-accepted":sz[i]?"arr-refused":"arr-empty-refused",fmt("adding an array of %d streams to one of %zu: %s",sz[i],ref.size(),bad?"accepted":"refused")); stop=true; break;}
            if(bad) {stop=true; break;} if(ref.empty()) {ref.resize(sz[i]); re.resize(sz[i]); rd.resize(sz[i]); rn.resize(sz[i]);}
            for(int k=0;k<sz[i];++k) {BC& r=ref[k]; const BC m=mk(i*4+k); r.nTP+=m.nTP; r.nTN+=m.nTN; r.nFP+=m.nFP; r.nFN+=m.nFN; r.nSE+=m.nSE; r.nDC+=m.nDC; re[k].insert(re[k].end(),ps[i]->m_vErrorLists[k].vErrors.begin(),ps[i]->m_vErrorLists[k].vErrors.end()); rd[k]+=ps[i]->m_vErrorLists[k].nDC; if(rn[k].empty()) rn[k]=p[i]->m_vsStreamNames[k];}
        }
        if(acc->m_vCounters.size()!=ref.size() || sac->m_vErrorLists.size()!=ref.size()) {violation("arr-size","accumulated array has the wrong size"); continue;}
        BC tot; size_t te=0; uint64_t td=0; for(size_t k=0;k<ref.size();++k) {if(!same(acc->m_vCounters[k],ref[k])) violation("arr-sum",fmt("stream %zu accumulated %s, expected %s",k,str(acc->m_vCounters[k]).c_str(),str(ref[k]).c_str())); if(sac->m_vErrorLists[k].vErrors!=re[k] || sac->m_vErrorLists[k].nDC!=rd[k]) violation("arr-errors",fmt("stream %zu accumulated the wrong errors",k)); if(acc->m_vsStreamNames[k]!=rn[k] || sac->m_vsStreamNames[k]!=rn[k]) violation("arr-names",fmt("stream %zu is named '%s', expected '%s'",k,acc->m_vsStreamNames[k].c_str(),rn[k].c_str())); tot.accumulate(ref[k]); te+=re[k].size(); td+=rd[k];}
        if(!same(acc->reduce()->m_oCounters,tot)) violation("arr-reduce",fmt("reduced counters are %s, expected %s",str(acc->reduce()->m_oCounters).c_str(),str(tot).c_str()));
        lv::StereoDispErrors sr=sac->reduce(); if(sr.vErrors.size()!=te || sr.nDC!=td) violation("arr-reduce-errors","reduced error list has the wrong size");
        for(int i=0;i<3;++i) for(int j=0;j<3;++j) {bool eq=i==j || (sz[i]==0 && sz[j]==0); if((*p[i]==*p[j])!=eq || (*ps[i]==*ps[j])!=eq) violation("arr-equal",fmt("array accumulators %d and %d (sizes %d,%d) compare wrongly",i,j,sz[i],sz[j]));}
        // calculators
        if(!ref.empty()) {
            auto cn=lv::IIMetricsCalculator::create<CN>(lv::IIMetricsAccumulatorConstPtr(acc)); if(cn->m_vMetrics.size()!=ref.size() || cn->m_vsStreamNames!=rn) violation("calc-arr","array calculator has the wrong streams"); else for(size_t k=0;k<ref.size();++k) chkMetrics(cn->m_vMetrics[k],ref[k],"array calculator");
            ld mean[8]={0}; for(size_t k=0;k<ref.size();++k) {lv::BinClassifMetrics b(ref[k]); double x[8]={b.dRecall,b.dSpecificity,b.dFPR,b.dFNR,b.dPBC,b.dPrecision,b.dFMeasure,b.dMCC}; for(int i=0;i<8;++i) mean[i]+=x[i]/(ld)ref.size();}
            auto red=cn->reduce()->m_oMetrics; double x[8]={red.dRecall,red.dSpecificity,red.dFPR,red.dFNR,red.dPBC,red.dPrecision,red.dFMeasure,red.dMCC}; for(int i=0;i<8;++i) if(!near_(x[i],mean[i])) violation("calc-reduce",fmt("reduced metric %d is %g, expected the mean %Lg",i,x[i],mean[i]));
            auto cs=lv::IIMetricsCalculator::create<CS>(lv::IIMetricsAccumulatorConstPtr(sac)); ld sm[6]={0}; for(size_t k=0;k<ref.size();++k) {lv::StereoDispErrors e; e.vErrors=re[k]; lv::StereoDispErrorMetrics b(e); double y[6]={b.dBadPercent_05,b.dBadPercent_1,b.dBadPercent_2,b.dBadPercent_4,b.dAverageError,b.dRMS}; double z[6]={cs->m_vMetrics[k].dBadPercent_05,cs->m_vMetrics[k].dBadPercent_1,cs->m_vMetrics[k].dBadPercent_2,cs->m_vMetrics[k].dBadPercent_4,cs->m_vMetrics[k].dAverageError,cs->m_vMetrics[k].dRMS}; for(int i=0;i<6;++i) {sm[i]+=y[i]/(ld)ref.size(); if(!near_(y[i],z[i])) violation("calc-stereo",fmt("stereo metric %d of stream %zu is %g, expected %g",i,k,z[i],y[i]));}}
            auto sred=cs->reduce(); double y[6]={sred.dBadPercent_05,sred.dBadPercent_1,sred.dBadPercent_2,sred.dBadPercent_4,sred.dAverageError,sred.dRMS}; for(int i=0;i<6;++i) if(!near_(y[i],sm[i],1e-6L)) violation("calc-stereo-reduce",fmt("reduced stereo metric %d is %g, expected the mean %Lg",i,y[i],sm[i]));
        }
    }
    // averages over every binary tree of up to 5 leaves: the result is the plain mean over the leaves
    struct T {std::shared_ptr<C1> c; std::shared_ptr<CN> n; std::shared_ptr<CS> s; ld m[8],v[6]; int w;};
    auto leaf=[&](int k) {T t; BC b=mk(k); t.c=lv::IIMetricsCalculator::create<C1>(b); std::vector<lv::BinClassifMetrics> vm={lv::BinClassifMetrics(b),lv::BinClassifMetrics(mk(k+9))}; t.n=lv::IIMetricsCalculator::create<CN>(vm,std::vector<std::string>{"a","b"}); lv::StereoDispErrors e; for(int i=0;i<=k;++i) e.vErrors.push_back(float(i*k%5)); std::vector<lv::StereoDispErrorMetrics> vs={lv::StereoDispErrorMetrics(e)}; t.s=lv::IIMetricsCalculator::create<CS>(vs,std::vector<std::string>{"a"}); const auto& x=t.c->m_oMetrics; ld m[8]={x.dRecall,x.dSpecificity,x.dFPR,x.dFNR,x.dPBC,x.dPrecision,x.dFMeasure,x.dMCC}; std::copy(m,m+8,t.m); const auto& y=vs[0]; ld v[6]={y.dBadPercent_05,y.dBadPercent_1,y.dBadPercent_2,y.dBadPercent_4,y.dAverageError,y.dRMS}; std::copy(v,v+6,t.v); t.w=1; return t;};
    std::function<void(std::vector<T>&,int,int,std::function<void(const T&)>)> trees=[&](std::vector<T>&, int lo, int hi, std::function<void(const T&)> f) {
        if(hi-lo==1) {f(leaf(lo)); return;}
        for(int mid=lo+1;mid<hi;++mid) {std::vector<T> d; trees(d,lo,mid,[&](const T&) {}); // enumerate shapes recursively, rebuilding operands for each combination
            int nl=0,nr=0; trees(d,lo,mid,[&](const T&){++nl;}); trees(d,mid,hi,[&](const T&){++nr;});
            for(int i=0;i<nl;++i) for(int j=0;j<nr;++j) {T l,r; int c=0; trees(d,lo,mid,[&](const T& t){if(c++==i) l=t;}); c=0; trees(d,mid,hi,[&](const T& t){if(c++==j) r=t;});
                if((i+j)&1) *l.c+=*r.c; else l.c->accumulate(r.c); l.n->accumulate(r.n); l.s->accumulate(r.s); for(int k=0;k<8;++k) l.m[k]+=r.m[k]; for(int k=0;k<6;++k) l.v[k]+=r.v[k]; l.w+=r.w; f(l);}}
    };
    for(int n=1;n<=(ctx().thorough?6:5);++n) {std::vector<T> d; trees(d,0,n,[&](const T& t) {
        ctx().evals++; ctx().nontriv++; mark("average tree over %d leaves",n); const auto& x=t.c->m_oMetrics; double g[8]={x.dRecall,x.dSpecificity,x.dFPR,x.dFNR,x.dPBC,x.dPrecision,x.dFMeasure,x.dMCC}; const auto& z=t.n->m_vMetrics[0]; double h[8]={z.dRecall,z.dSpecificity,z.dFPR,z.dFNR,z.dPBC,z.dPrecision,z.dFMeasure,z.dMCC}; const auto& y=t.s->m_vMetrics[0]; double s[6]={y.dBadPercent_05,y.dBadPercent_1,y.dBadPercent_2,y.dBadPercent_4,y.dAverageError,y.dRMS};
        for(int k=0;k<8;++k) {if(!near_(g[k],t.m[k]/t.w)) violation("avg",fmt("metric %d averaged over %d results is %g, expected %Lg",k,t.w,g[k],t.m[k]/t.w)); if(!near_(h[k],t.m[k]/t.w)) violation("avg-array",fmt("array metric %d averaged over %d results is %g, expected %Lg",k,t.w,h[k],t.m[k]/t.w));}
        for(int k=0;k<6;++k) if(!near_(s[k],t.v[k]/t.w)) violation("avg-stereo",fmt("stereo metric %d averaged over %d results is %g, expected %Lg",k,t.w,s[k],t.v[k]/t.w));
    });}
    sample("all accumulation sequences of 4 over 4 operands; all stream-count triples 0..3; all averaging trees up to 5 leaves");
}
static void largeMaps() {
    struct S {int h,w;}; const S sizes[]={{37,53},{5,300},{200,3},{1,1000},{1000,1},{64,64},{65,63},{255,257},{480,640}};
    for(auto& z : sizes) for(int s=0;s<4;++s) for(int l : {0,1,2}) for(int roi=0;roi<2;++roi) {
        mark("large output %dx%d seed %d layout %d",z.w,z.h,s,l); auto H=[&](int y,int x,int k){unsigned h=(unsigned)(y*7919+x*104729+k*977+s*31337)*2654435761u; return (int)(h>>12);}; const int gvals[6]={0,255,85,170,50,128};
        cv::Mat i(z.h,z.w,CV_8UC1),g(z.h,z.w,CV_8UC1),o(z.h,z.w,CV_8UC1); for(int y=0;y<z.h;++y) for(int x=0;x<z.w;++x) {i.at<uchar>(y,x)=(uchar)(s==3?H(y,x,1)&255:H(y,x,1)&1?255:0); g.at<uchar>(y,x)=(uchar)(s==3?H(y,x,2)&255:gvals[H(y,x,2)%6]); o.at<uchar>(y,x)=(uchar)(H(y,x,3)%4?255:0);}
        binCase(layout(i,l),layout(g,l),roi?layout(o,l):cv::Mat(),"large map");
        for(int t=0;t<6;++t) { if(z.h*z.w>100000 && t!=s) continue;
            cv::Mat d(z.h,z.w,TY[t]),e(z.h,z.w,TY[(t+s)%6]); std::vector<double> er; uint64_t dc=0; for(int y=0;y<z.h;++y) for(int x=0;x<z.w;++x) {double dv=H(y,x,4)%100,gv=H(y,x,5)%100; bool bad=H(y,x,6)%7==0; if(bad) gv=tmax((t+s)%6); put(d,y,x,dv); put(e,y,x,gv); if(bad || (roi && !o.at<uchar>(y,x))) ++dc; else er.push_back(std::abs(dv-gv));}
            cv::Mat D=layout(d,l),E=layout(e,l),O=roi?layout(o,l):cv::Mat(); lv::StereoDispErrors r; bool thr=false; ctx().evals++; ctx().nontriv++; try {r.accumulate(D,E,O);} catch(...) {thr=true;} const bool cont=D.isContinuous()&&E.isContinuous()&&(O.empty()||O.isContinuous());
            if(thr) {if(cont) violation("stereo-refused",fmt("%dx%d maps refused",z.w,z.h)); continue;}
            bool ok=r.nDC==dc && r.vErrors.size()==er.size(); for(size_t k=0;k<er.size() && ok;++k) ok=near_(r.vErrors[k],er[k],1e-5L); if(!ok) violation("stereo-list",fmt("%dx%d maps of type %s: %zu errors and %llu ignored, expected %zu and %llu (or the values differ)",z.w,z.h,TN[t],r.vErrors.size(),(unsigned long long)r.nDC,er.size(),(unsigned long long)dc));
            if(!er.empty()) {lv::StereoDispErrorMetrics m(r); ld sum=0,sq=0,b[4]={0,0,0,0}; for(double v : er) {sum+=v; sq+=(ld)v*v; b[0]+=v>0.5; b[1]+=v>1; b[2]+=v>2; b[3]+=v>4;} ld n=er.size(); double q[6]={m.dBadPercent_05,m.dBadPercent_1,m.dBadPercent_2,m.dBadPercent_4,m.dAverageError,m.dRMS}; ld w[6]={100*b[0]/n,100*b[1]/n,100*b[2]/n,100*b[3]/n,sum/n,std::sqrt(sq/n)}; for(int k=0;k<6;++k) if(!near_(q[k],w[k],1e-4L)) violation("disp-large",fmt("statistic %d over %zu errors is %g, expected %Lg",k,er.size(),q[k],w[k]));}
        }
    }
    sample("maps up to 640x480 in every type and layout");
}
int main(int argc, char** argv) {
    init(argc,argv); lv::setVerbosity(0);
    try {
        if(is_part("bin-pixels")) binPixels();
        if(is_part("bin-metrics")) {metrics(); largeMaps();}
        if(is_part("stereo")) stereo();
        if(is_part("stereo-colour")) stereoColour();
        if(is_part("accumulators")) accumulators();
    } catch(const std::exception& e) {violation("exception",fmt("unexpected exception: %s",e.what()));}
    return finish();
}
