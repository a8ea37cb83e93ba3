// P21: image operations (thinning, histograms, medians, consensus, integrals, non-maximum suppression, affinities, warps, mixtures).
#include "litiv/imgproc.hpp"
#include "litiv/imgproc/imwarp.hpp"
#include "../mc/report.hpp"
#include <cmath>
#include <complex>
#include <omp.h>
using namespace vr;
typedef std::vector<int> VI;

template<typename F> static bool refused(F f) {try {f();} catch(const std::exception&) {return true;} return false;}
template<typename F> static cv::Mat mk8(int r, int c, F f) {cv::Mat m(r,c,CV_8UC1); for(int y=0;y<r;++y) for(int x=0;x<c;++x) m.at<uchar>(y,x)=(uchar)f(y,x); return m;}
static bool same(const cv::Mat& a, const cv::Mat& b) {if(a.type()!=b.type() || a.dims!=b.dims || a.size!=b.size) return false; if(a.empty()) return true; cv::Mat x=a.isContinuous()?a:a.clone(), y=b.isContinuous()?b:b.clone(); return memcmp(x.data,y.data,x.total()*x.elemSize())==0;}
static std::string str(const cv::Mat& m) {std::string s=fmt("%dx%d[",m.rows,m.cols); for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols;++x) s+=fmt(x?" %d":y?"; %d":"%d",m.depth()==CV_8U?m.at<uchar>(y,x):m.depth()==CV_16U?m.at<ushort>(y,x):(int)m.at<int>(y,x)); return s+"]";}
// odometer over `n` digits in base `b`
struct Odo {VI d; int b; Odo(int n,int b):d(n,0),b(b){} bool next() {for(size_t i=0;i<d.size();++i) {if(++d[i]<b) return true; d[i]=0;} return false;}};

// ---------------------------------------------------------------- thinning
static cv::Mat ref_zs(const cv::Mat& in) {
    cv::Mat a=in.clone(), prev;
    do { prev=a.clone();
        for(int it=0;it<2;++it) {cv::Mat s=a.clone(); for(int y=1;y<a.rows-1;++y) for(int x=1;x<a.cols-1;++x) {
            static const int DY[]={-1,-1,0,1,1,1,0,-1}, DX[]={0,1,1,1,0,-1,-1,-1}; bool p[8]; int B=0,A=0; for(int i=0;i<8;++i) {p[i]=s.at<uchar>(y+DY[i],x+DX[i])!=0; B+=p[i];} for(int i=0;i<8;++i) A+=!p[i] && p[(i+1)%8];
            bool N=p[0],E=p[2],S=p[4],W=p[6]; if(A==1 && B>=2 && B<=6 && (it==0?(!(N&&E&&S) && !(E&&S&&W)):(!(N&&E&&W) && !(N&&S&&W)))) a.at<uchar>(y,x)=0;}}
    } while(!same(a,prev));
    return a;
}
static cv::Mat ref_lls(const cv::Mat& in) {
    cv::Mat a=in.clone(), prev;
    do { prev=a.clone();
        for(int it=0;it<2;++it) for(int y=1;y<a.rows-1;++y) for(int x=1;x<a.cols-1;++x) { if(!a.at<uchar>(y,x)) continue;
            static const int DY[]={1,1,0,-1,-1,-1,0,1}, DX[]={0,-1,-1,-1,0,1,1,1}; bool p[9]; for(int i=0;i<9;++i) p[i]=a.at<uchar>(y+DY[i%8],x+DX[i%8])!=0;
            int c=0,n1=0,n2=0; for(int k=0;k<4;++k) {c+=!p[2*k] && (p[2*k+1] || p[2*k+2]); n1+=p[2*k] || p[2*k+1]; n2+=p[2*k+1] || p[2*k+2];}
            int n=std::min(n1,n2); if(c==1 && n>=2 && n<=3 && (it==0?!((p[1] || p[2] || !p[7]) && p[0]):!((p[5] || p[6] || !p[3]) && p[4]))) a.at<uchar>(y,x)=0;}
    } while(!same(a,prev));
    return a;
}
static int components(const cv::Mat& m, bool fg) { // 8-connected foreground / 4-connected background (outside counts as one)
    cv::Mat b(m.rows+2,m.cols+2,CV_8UC1,cv::Scalar(0)); m.copyTo(b(cv::Rect(1,1,m.cols,m.rows))); cv::Mat seen(b.size(),CV_8UC1,cv::Scalar(0)); int n=0;
    for(int y=0;y<b.rows;++y) for(int x=0;x<b.cols;++x) if((b.at<uchar>(y,x)!=0)==fg && !seen.at<uchar>(y,x)) {++n; std::vector<cv::Point> st(1,cv::Point(x,y)); seen.at<uchar>(y,x)=1; while(!st.empty()) {cv::Point p=st.back(); st.pop_back();
        for(int dy=-1;dy<=1;++dy) for(int dx=-1;dx<=1;++dx) {if(!fg && dx && dy) continue; int v=p.y+dy,u=p.x+dx; if(v<0 || u<0 || v>=b.rows || u>=b.cols || seen.at<uchar>(v,u) || (b.at<uchar>(v,u)!=0)!=fg) continue; seen.at<uchar>(v,u)=1; st.push_back(cv::Point(u,v));}}}
    return n;
}
static void thin_case(const cv::Mat& in) {
    cv::Mat keep=in.clone();
    for(int mode=0;mode<2;++mode) {
        lv::ThinningMode e=mode?lv::ThinningMode_LamLeeSuen:lv::ThinningMode_ZhangSuen; cv::Mat out; if(mode && (ctx().evals&4)) lv::thinning(in,out); else lv::thinning(in,out,e); ctx().evals++; ctx().nontriv++;
        cv::Mat ref=mode?ref_lls(in):ref_zs(in); const char* n=mode?"Lam-Lee-Suen":"Zhang-Suen";
        if(!same(out,ref)) violation("thinning",fmt("%s thinning of %s gives %s, expected %s",n,str(in).c_str(),str(out).c_str(),str(ref).c_str()));
        if(mode && (components(in,true)!=components(out,true) || components(in,false)!=components(out,false))) violation("thinning-topology",fmt("%s thinning of %s gives %s: regions merged, split, lost or opened",n,str(in).c_str(),str(out).c_str()));
    }
    if(!same(in,keep)) violation("thinning-input","input changed");
}
static void thin() {
    for(int v=0;v<65536;++v) {if((v&255)==0) mark("thin 4x4 pattern %d",v); thin_case(mk8(4,4,[&](int y,int x){return (v>>(y*4+x))&1?255:0;}));}
    for(int v=0;v<65536;v+=ctx().thorough?1:3) {if((v&255)==0) mark("thin 6x6 interior pattern %d",v); thin_case(mk8(6,6,[&](int y,int x){return y>0 && y<5 && x>0 && x<5 && ((v>>((y-1)*4+x-1))&1)?1:0;}));}
    if(ctx().thorough) for(int v=0;v<(1<<20);++v) {if((v&255)==0) {mark("thin 4x5 pattern %d",v); if(out_of_time()) break;} thin_case(mk8(v&1?4:5,v&1?5:4,[&](int y,int x){return (v>>(y*(v&1?5:4)+x))&1?200:0;}));}
    for(int p=0;p<40;++p) for(int r : {4,5,9,17}) for(int c : {4,7,12}) {mark("thin shape %d %dx%d",p,r,c); thin_case(mk8(r,c,[&](int y,int x){int k=p%5; bool b=k==0?true:k==1?(x*7+y*13+p)%(3+p/5)!=0:k==2?std::abs(x-y)<=p/5:k==3?(x/(1+p/5)+y/2)%2==0:(x-c/2)*(x-c/2)+(y-r/2)*(y-r/2)<=p; return b?1+(p*37+x)%255:0;}));}
    for(int r=1;r<=5;++r) for(int c=1;c<=5;++c) if((r<=3 || c<=3)) {cv::Mat o; cv::Mat i(r,c,CV_8UC1,cv::Scalar(1)); if(!refused([&]{lv::thinning(i,o);})) violation("thinning-small",fmt("%dx%d accepted",r,c));}
    for(int t : {CV_8UC3,CV_32FC1,CV_16UC1}) {cv::Mat o,i(6,6,t,cv::Scalar::all(1)); if(!refused([&]{lv::thinning(i,o);})) violation("thinning-type",fmt("type %d accepted",t));}
    {cv::Mat big(8,8,CV_8UC1,cv::Scalar(7)),o; if(!refused([&]{lv::thinning(big(cv::Rect(1,1,5,5)),o);}) && !same(o,ref_lls(big(cv::Rect(1,1,5,5)).clone()))) violation("thinning-view","");}
    sample("all 4x4 images, 6x6 images with every (or every third) interior pattern, 480 shapes; both modes; topology of Lam-Lee-Suen");
}

// ---------------------------------------------------------------- histograms and medians
template<typename T> static void hist_(const VI& vals, int type) {
    int maxn=sizeof(T)==2?5-!ctx().thorough:ctx().thorough?6:5;
    for(int n=1;n<=maxn;++n) {Odo o(n,(int)vals.size()); do {
        for(int m=-1;m<(1<<n);++m) for(int sh=0;sh<3;++sh) { if(sh && n%2) continue; if(sizeof(T)==2 && n>3 && m>=0 && (m%5) && !ctx().thorough) continue;
            std::vector<int> sz=sh==0?VI{1,n}:sh==1?VI{n/2,2}:VI{2,n/2,1}; cv::Mat in((int)sz.size(),sz.data(),type); VI ok; cv::Mat_<uchar> mask; if(m>=0) {mask.create((int)sz.size(),sz.data());}
            for(int i=0;i<n;++i) {((T*)in.data)[i]=(T)vals[o.d[i]]; if(m>=0) mask.data[i]=(m>>i)&1?(i%2?255:1):0; if(m<0 || ((m>>i)&1)) ok.push_back(vals[o.d[i]]);}
            mark("hist type %d n=%d mask %d",type,n,m); ctx().evals++; ctx().nontriv++; int tot=-5; auto h=lv::calcHistCounts(in,mask,&tot);
            std::vector<int> e(sizeof(T)==1?256:65536,0); for(int v : ok) e[v]++;
            if(h!=e || tot!=(int)ok.size()) violation("hist-counts",fmt("type %d, %d values, mask %d",type,n,m));
            if(ok.empty()) {std::vector<int> hc; int r=0; if(!refused([&]{r=lv::calcMedianValue(in,mask,&hc);})) violation("median-none",fmt("median of no pixel at all gives %d",r)); continue;}
            std::sort(ok.begin(),ok.end()); std::vector<int> hc; int md=lv::calcMedianValue(in,mask,(n&1)?&hc:nullptr); if(md!=ok[ok.size()/2] || ((n&1) && hc!=e)) violation("median",fmt("type %d, %d values, mask %d: median %d, expected %d",type,n,m,md,ok[ok.size()/2]));
        }
    } while(o.next());}
}
static void hist() {
    hist_<uchar>({0,1,7,254,255},CV_8UC1); hist_<ushort>({0,1,65535,300},CV_16UC1);
    {cv::Mat i(3,3,CV_8UC1,cv::Scalar(4)); cv::Mat_<uchar> m(2,3); m=1; if(!refused([&]{lv::calcHistCounts(i,m);}) || !refused([&]{lv::calcMedianValue(i,m);})) violation("hist-mask-size","");}
    for(int t : {CV_8UC3,CV_32SC1,CV_32FC1,CV_8SC1}) {cv::Mat i(3,3,t,cv::Scalar::all(1)); if(!refused([&]{lv::calcHistCounts(i);}) || !refused([&]{lv::calcMedianValue(i);})) violation("hist-type","");}
    if(!refused([&]{lv::calcHistCounts(cv::Mat());}) || !refused([&]{lv::calcMedianValue(cv::Mat());})) violation("hist-empty","");
    sample("all 8- and 16-bit images of up to 5-6 values over boundary values x all masks x shapes");
}

// ---------------------------------------------------------------- median filters, consensus
static void blur_case(const cv::Mat& in, const cv::Mat_<uchar>& mask, int k, int def, int outmode) {
    int r=in.rows,c=in.cols,o=k/2; cv::Mat keep=in.clone(); cv::Mat_<uchar> mkeep=mask.clone(); auto prep=[&](){return outmode==0?cv::Mat():outmode==1?cv::Mat(r,c,CV_8UC1,cv::Scalar(77)):cv::Mat(r,c,CV_8UC1,cv::Scalar(255));};
    ctx().evals++; ctx().nontriv++; cv::Mat a=prep(); lv::medianBlur(in,a,mask,k,(uchar)def); cv::Mat b=prep(); lv::binaryMedianBlur(in,b,mask,k,true,(uchar)def); cv::Mat b1=prep(),c1=prep(); cv::Mat one=in.clone(); for(int i=0;i<r*c;++i) one.data[i]=one.data[i]?1:0; lv::binaryMedianBlur(one,b1,mask,k,false,(uchar)def);
    cv::Mat cs; if(mask.empty()) {cs=prep(); lv::binaryConsensus(in,cs,cv::Mat(),k);} cv::Mat_<int> thr(r,c); cv::Mat ct=prep(), ct1=prep(); for(int i=0;i<r*c;++i) ((int*)thr.data)[i]=(i*5+k+def)%(std::min(k,r)*std::min(k,c)+3)-1; lv::binaryConsensus(in,ct,thr,k); lv::binaryConsensus(one,ct1,thr,k,false);
    auto id=[&](){return fmt("%s, mask %s, kernel %d, default %d",str(in).c_str(),mask.empty()?"none":str(mask).c_str(),k,def);};
    if(a.size()!=in.size() || b.size()!=in.size() || a.type()!=CV_8UC1 || b.type()!=CV_8UC1 || ct.size()!=in.size()) {violation("blur-shape",id()); return;}
    for(int y=0;y<r;++y) for(int x=0;x<c;++x) {
        VI v,rep; int pos=0,hits=0,all=0; for(int dy=-o;dy<=o;++dy) for(int dx=-o;dx<=o;++dx) {int yy=y+dy,xx=x+dx; rep.push_back(in.at<uchar>(std::min(std::max(yy,0),r-1),std::min(std::max(xx,0),c-1))); if(yy<0 || xx<0 || yy>=r || xx>=c) continue; all+=in.at<uchar>(yy,xx)!=0; if(mask.empty() || mask(yy,xx)) {v.push_back(in.at<uchar>(yy,xx)); ++hits; pos+=in.at<uchar>(yy,xx)!=0;}}
        std::sort(v.begin(),v.end()); std::sort(rep.begin(),rep.end()); int em=mask.empty()?rep[rep.size()/2]:v.empty()?def:v[(v.size()-1)/2]; int eb=hits==0?def:pos>hits/2?255:0;
        if(a.at<uchar>(y,x)!=em) {violation("median-blur",fmt("%s: pixel (%d,%d) is %d, expected %d",id().c_str(),x,y,a.at<uchar>(y,x),em)); return;}
        if(b.at<uchar>(y,x)!=eb || b1.at<uchar>(y,x)!=eb) {violation("binary-median-blur",fmt("%s: pixel (%d,%d) is %d/%d, expected %d",id().c_str(),x,y,b.at<uchar>(y,x),b1.at<uchar>(y,x),eb)); return;}
        if(!cs.empty() && cs.at<uchar>(y,x)!=eb) {violation("consensus-majority",id()); return;}
        int ec=all>=thr(y,x)?255:0; if(ct.at<uchar>(y,x)!=ec || ct1.at<uchar>(y,x)!=ec) {violation("consensus",fmt("%s: pixel (%d,%d) is %d/%d with %d of %d votes",id().c_str(),x,y,ct.at<uchar>(y,x),ct1.at<uchar>(y,x),all,thr(y,x))); return;}
    }
    if(!same(in,keep) || !same(mask,mkeep)) violation("blur-input",id());
}
static void blur() {
    static const int V3[]={0,90,255};
    {Odo o(6,3); int q=0; do {++q; mark("blur 2x3 image %d",q); cv::Mat in=mk8(2,3,[&](int y,int x){return V3[o.d[y*3+x]];}); for(int m=-1;m<64;++m) {if(!ctx().thorough && m>=0 && (m+q)%4) continue; cv::Mat_<uchar> mask; if(m>=0) mask=mk8(2,3,[&](int y,int x){return (m>>(y*3+x))&1?1+m%255:0;}); blur_case(in,mask,3,m&1?9:0,q%3);}} while(o.next());}
    for(int p=0;p<512;++p) {mark("blur 3x3 pattern %d",p); cv::Mat in=mk8(3,3,[&](int y,int x){return (p>>(y*3+x))&1?(p&7?255:3):0;}); for(int k : {3,5}) {blur_case(in,cv::Mat(),k,0,p%3); for(int m=0;m<512;m+=ctx().thorough?1:11) blur_case(in,mk8(3,3,[&](int y,int x){return (m>>(y*3+x))&1?255:0;}),k,m%256,m%3);}}
    for(int r=1;r<=9;++r) for(int c=1;c<=12;++c) for(int k : {3,5,7,9}) for(int s=0;s<(ctx().thorough?12:4);++s) {mark("blur %dx%d kernel %d",r,c,k); cv::Mat in=mk8(r,c,[&](int y,int x){int h=(y*31+x*17+s*7)*2654435761u>>24; return h%3?h&255:0;}); cv::Mat_<uchar> mask; if(s%4) mask=mk8(r,c,[&](int y,int x){return ((y*13+x*29+s*5)*2654435761u>>20)%(1+s%4+1)?255:0;}); blur_case(in,mask,k,s*11,s%3);}
    cv::Mat in(5,5,CV_8UC1,cv::Scalar(3)), o; cv::Mat_<uchar> msk(5,5); msk=1; cv::Mat_<int> thr(5,5); thr=1; cv::Mat_<uchar> bad(4,5); bad=1; cv::Mat_<int> badt(5,4); badt=1;
    for(int k : {-3,0,1,2,4,6}) {cv::Mat o; if(!refused([&]{lv::medianBlur(in,o,msk,k);}) || !refused([&]{lv::binaryMedianBlur(in,o,msk,k);}) || !refused([&]{lv::binaryMedianBlur(in,o,cv::Mat(),k);}) || !refused([&]{lv::binaryConsensus(in,o,thr,k);})) violation("blur-kernel",fmt("kernel size %d accepted",k));}
    {cv::Mat o1,o2,o3; if(!refused([&]{lv::medianBlur(in,o1,bad,3);}) || !refused([&]{lv::binaryMedianBlur(in,o2,bad,3);}) || !refused([&]{lv::binaryConsensus(in,o3,badt,3);})) violation("blur-mask-size","");}
    for(int t : {CV_8UC3,CV_16UC1,CV_32FC1}) {cv::Mat o1,i(5,5,t,cv::Scalar::all(1)); if(!refused([&]{lv::medianBlur(i,o1,msk,3);}) || !refused([&]{lv::binaryMedianBlur(i,o1,msk,3);}) || !refused([&]{lv::binaryConsensus(i,o1,thr,3);})) violation("blur-type","");}
    {cv::Mat o1(4,4,CV_8UC1), o2(5,5,CV_32FC1); if(!refused([&]{lv::medianBlur(in,o1,msk,3);}) || !refused([&]{lv::binaryMedianBlur(in,o2,msk,3);}) || !refused([&]{lv::binaryConsensus(in,o1,thr,3);})) violation("blur-output","");}
    sample("all 2x3 images over 3 values x masks, all binary 3x3 images x masks x kernels 3 and 5, patterned images up to 9x12 with kernels up to 9; medians, binary medians and consensus maps");
}

// ---------------------------------------------------------------- integral images
static void integral_case(const cv::Mat& in, const cv::Mat_<uchar>& mask, int depth, cv::Mat out, bool bin, bool force) {
    int cn=in.channels(), r=in.rows, c=in.cols; cv::Mat keep=in.clone(); ctx().evals++; ctx().nontriv++; int ed=depth<0?CV_32S:depth;
    if(bin) {if(depth<0) lv::binaryIntegral(in,out,mask); else lv::binaryIntegral(in,out,mask,depth,force);} else if(mask.empty() && (ctx().evals&1)) {if(depth<0) lv::integral(in,out); else lv::integral(in,out,depth);} else {if(depth<0) lv::integral(in,out,mask); else lv::integral(in,out,mask,depth);}
    auto id=[&](){return fmt("%dx%d image of %d channels, %s mask, depth %d%s",c,r,cn,mask.empty()?"no":"a",depth,bin?", binary":"");};
    if(out.rows!=r+1 || out.cols!=c+1 || out.depth()!=ed || out.channels()!=cn) {violation("integral-shape",id()); return;}
    for(int k=0;k<cn;++k) for(int y=0;y<=r;++y) for(int x=0;x<=c;++x) {double s=0; for(int v=0;v<y;++v) for(int u=0;u<x;++u) if(mask.empty() || mask(v,u)) {int q=in.ptr(v)[u*cn+k]; s+=bin && force?q!=0:q;}
        double g=ed==CV_32S?out.ptr<int>(y)[x*cn+k]:out.ptr<float>(y)[x*cn+k]; if(g!=s) {violation("integral",fmt("%s: sum up to (%d,%d) is %g, expected %g",id().c_str(),x,y,g,s)); return;}}
    if(!same(in,keep)) violation("integral-input",id());
}
static void integrals() {
    static const int V[]={0,1,128,255}; Odo o(4,4); cv::Mat reuse;
    do {for(int m=-1;m<16;++m) {cv::Mat in=mk8(2,2,[&](int y,int x){return V[o.d[y*2+x]];}); cv::Mat_<uchar> mask; if(m>=0) mask=mk8(2,2,[&](int y,int x){return (m>>(y*2+x))&1?3:0;}); mark("integral 2x2 mask %d",m); for(int d : {CV_32S,CV_32F,-1}) {integral_case(in,mask,d,m%2?reuse:cv::Mat(),false,false); integral_case(in,mask,d,m%3?reuse:cv::Mat(),true,true); if(d>=0) integral_case(in,mask,d,cv::Mat(),true,false);}}} while(o.next());
    for(int r=1;r<=5;++r) for(int c=1;c<=40;c+=c<20?1:7) for(int cn=1;cn<=4;++cn) for(int s=0;s<3;++s) {mark("integral %dx%d",r,c); cv::Mat in(r,c,CV_8UC(cn)); for(size_t i=0;i<in.total()*cn;++i) in.data[i]=s==0?255:(i*73+s*31)&255; cv::Mat_<uchar> mask; if(s==2) mask=mk8(r,c,[&](int y,int x){return (x+y)%3?1:0;}); cv::Mat big(r+3,c+3,CV_32SC(cn)); integral_case(in,mask,s%2?CV_32F:CV_32S,s==1?cv::Mat(big(cv::Rect(1,1,c+1,r+1))):cv::Mat(),false,false); if(cn==1) {integral_case(in,mask,CV_32S,cv::Mat(),true,true); integral_case(in,mask,CV_32F,cv::Mat(),true,false);}}
    cv::Mat in(3,3,CV_8UC1,cv::Scalar(3)),out; cv::Mat_<uchar> bad(2,3); bad=1; for(int d : {CV_8U,CV_16S,77}) if(!refused([&]{lv::integral(in,out,d);})) violation("integral-depth",fmt("depth %d accepted",d));
    if(!refused([&]{lv::integral(in,out,bad,CV_32S);}) || !refused([&]{lv::binaryIntegral(in,out,bad,CV_32S);}) || !refused([&]{lv::integral(cv::Mat(),out,CV_32S);}) || !refused([&]{lv::integral(cv::Mat(3,3,CV_32FC1),out,CV_32S);}) || !refused([&]{lv::binaryIntegral(cv::Mat(3,3,CV_8UC3),out,cv::Mat(),CV_32S);})) violation("integral-refuse","");
    sample("all 2x2 images over 4 values x all masks x output depths; images up to 5x40 of 1-4 channels; outputs fresh, reused and views");
}

// ---------------------------------------------------------------- non-maximum suppression
template<int W, typename T> static void nms_case(const cv::Mat_<T>& in, const cv::Mat& mask) {
    cv::Mat out; lv::nonMaxSuppression<W>(in,out,mask); ctx().evals++; ctx().nontriv++; int r=in.rows,c=in.cols; auto ok=[&](int y,int x){return mask.empty() || mask.at<uchar>(y,x);};
    auto id=[&](){std::string s=fmt("window %d, %dx%d [",W,c,r); for(int y=0;y<r;++y) for(int x=0;x<c;++x) s+=fmt(" %g%s",(double)in(y,x),ok(y,x)?"":"(masked)"); return s+" ]";};
    if(out.size()!=in.size() || out.type()!=CV_8UC1) {violation("nms-shape",id()); return;}
    for(int y=0;y<r;++y) for(int x=0;x<c;++x) {int v=out.at<uchar>(y,x); if(v!=0 && v!=255) {violation("nms-value",id()); return;}
        bool ge=true,gt=true,nb=false,close=false; const int by=y/(W+1),bx=x/(W+1); /* nb: a neighbour outside the pixel's own block */ for(int dy=-W;dy<=W;++dy) for(int dx=-W;dx<=W;++dx) {if(!dx && !dy) continue; int q=y+dy,p=x+dx; if(q<0 || p<0 || q>=r || p>=c) continue; if(out.at<uchar>(q,p)) close=true; if(!ok(q,p)) continue; nb|=q/(W+1)!=by || p/(W+1)!=bx; if(in(q,p)>in(y,x)) ge=false; if(in(q,p)>=in(y,x)) gt=false;}
        if(v && (!ok(y,x) || !ge)) {violation("nms-false",fmt("%s: (%d,%d) is marked",id().c_str(),x,y)); return;}
        if(v && close) {violation("nms-close",fmt("%s: (%d,%d) is marked next to another mark",id().c_str(),x,y)); return;}
        if(!v && ok(y,x) && gt && (in(y,x)>0 || nb)) {violation("nms-missed",fmt("%s: (%d,%d) is not marked",id().c_str(),x,y)); return;}}
}
template<int W> static void nms_w() {
    static const int V[]={0,5,9,200};
    for(int n=1;n<=(ctx().thorough?7:6);++n) {Odo o(n,4); do {mark("nms window %d line of %d",W,n); cv::Mat_<uchar> a(1,n),b(n,1); cv::Mat_<float> f(1,n); for(int i=0;i<n;++i) {a(0,i)=b(i,0)=(uchar)V[o.d[i]]; f(0,i)=V[o.d[i]]-7.f;} nms_case<W>(a,cv::Mat()); nms_case<W>(b,cv::Mat()); nms_case<W>(f,cv::Mat()); if(n<=5) for(int m=0;m<(1<<n);++m) {cv::Mat_<uchar> k(1,n); for(int i=0;i<n;++i) k(0,i)=(m>>i)&1?(m%3?255:1):0; nms_case<W>(a,k); nms_case<W>(f,k);}} while(o.next());}
    {Odo o(9,3); int q=0; do {if(++q%(ctx().thorough?1:3)) continue; mark("nms window %d 3x3 image %d",W,q); cv::Mat_<uchar> a(3,3); cv::Mat_<float> f(3,3); cv::Mat_<uchar> k(3,3); for(int i=0;i<9;++i) {a(i/3,i%3)=(uchar)V[o.d[i]]; f(i/3,i%3)=V[o.d[i]]-6.5f; k(i/3,i%3)=((q*2654435761u)>>(10+i))&1;} nms_case<W>(a,cv::Mat()); nms_case<W>(f,cv::Mat()); nms_case<W>(f,k);} while(o.next());}
    for(int r=1;r<=10;++r) for(int c=1;c<=11;++c) for(int s=0;s<8;++s) {mark("nms window %d %dx%d",W,r,c); cv::Mat_<float> f(r,c); cv::Mat_<uchar> k(r,c); for(int y=0;y<r;++y) for(int x=0;x<c;++x) {unsigned h=(y*131u+x*71u+s*977u)*2654435761u; f(y,x)=int(h>>20)%(5+s*9)-(s%2?3.f:0.f); k(y,x)=(h>>9)%(1+s%4)==0;} nms_case<W>(f,cv::Mat()); nms_case<W>(f,k);}
}
static void nms() {nms_w<1>(); nms_w<2>(); nms_w<3>(); cv::Mat o; if(!refused([&]{lv::nonMaxSuppression<1>(cv::Mat(3,3,CV_8UC3),o);})) violation("nms-type",""); sample("all lines of up to 6 values over 4 x masks, 3x3 images over 3 values, patterned images up to 10x11; windows 1-3; positive and negative values");}
template<int H> static void localmax_h() {
    const int N=2*H+1; Odo o(2*H+1,3); int q=0; do {++q; if((q&255)==0) mark("local maximum %d/%d",H,q);
        for(int dir=0;dir<4;++dir) for(int cs : {1,3}) {int rs=N*cs+2; std::vector<int> a(N*rs+4,1); int org=H*rs+H*cs; int dx=dir==1?0:1, dy=dir==0?0:dir==3?-1:1; // horizontal, vertical, diagonal, inverse diagonal
            if(dir==3) {dx=-1;dy=1;} bool e=true; for(int k=-H;k<=H;++k) {a[org+k*(dx*cs+dy*rs)]=o.d[k+H]; if(k<0) e&=o.d[H]>o.d[k+H]; if(k>0) e&=o.d[H]>=o.d[k+H];}
            bool g=dir==0?lv::isLocalMaximum_Horizontal<H>(a.data()+org,(size_t)cs,(size_t)rs):dir==1?lv::isLocalMaximum_Vertical<H>(a.data()+org,(size_t)cs,(size_t)rs):dir==2?lv::isLocalMaximum_Diagonal<H,false>(a.data()+org,(size_t)cs,(size_t)rs):lv::isLocalMaximum_Diagonal<H,true>(a.data()+org,(size_t)cs,(size_t)rs);
            bool g2=dir<2?g:lv::isLocalMaximum_Diagonal<H>(a.data()+org,(size_t)cs,(size_t)rs,dir==3); ctx().evals++; ctx().nontriv++;
            if(g!=e || g2!=e) violation("local-maximum",fmt("direction %d, half window %d, pattern %d: %d/%d expected %d",dir,H,q,g,g2,e));}
    } while(o.next());
}
static void localmax() {localmax_h<1>(); localmax_h<2>(); localmax_h<3>(); sample("all profiles over 3 values for half windows 1-3, four directions, two strides");}

// ---------------------------------------------------------------- affinity maps
static double ref_mi(const VI& a, const VI& b) {
    double n=a.size(); std::map<int,double> pa,pb; std::map<std::pair<int,int>,double> pj; for(size_t i=0;i<a.size();++i) {pa[a[i]]+=1/n; pb[b[i]]+=1/n; pj[{a[i],b[i]}]+=1/n;}
    double mi=0,ha=0,hb=0; for(auto& e : pj) mi+=e.second*std::log2(e.second/pa[e.first.first]/pb[e.first.second]); for(auto& e : pa) ha-=e.second*std::log2(e.second); for(auto& e : pb) hb-=e.second*std::log2(e.second);
    return pa.size()>1 && pb.size()>1?mi/std::sqrt(ha*hb):mi;
}
static void aff_case(const std::string& id, const cv::Mat& i1, const cv::Mat& i2, int P, const VI& disp, bool mi, const cv::Mat_<uchar>& r1, const cv::Mat_<uchar>& r2) {
    cv::Mat_<float> map; lv::computeImageAffinity(i1,i2,P,map,disp,mi?lv::AffinityDist_MI:lv::AffinityDist_SSD,r1,r2); ctx().evals++; ctx().nontriv++; int R=P/2, rows=i1.rows, cols=i1.cols;
    if(map.dims!=3 || map.size[0]!=rows-2*R || map.size[1]!=cols-2*R || map.size[2]!=(int)disp.size()) {violation("affinity-shape",id); return;}
    auto get=[](const cv::Mat& m,int y,int x)->double{return m.depth()==CV_8U?m.at<uchar>(y,x):m.depth()==CV_16U?m.at<ushort>(y,x):m.at<float>(y,x);};
    for(int y=R;y<rows-R;++y) for(int x=R;x<cols-R;++x) for(size_t d=0;d<disp.size();++d) {int ox=x+disp[d]; double e; if((!r1.empty() && !r1(y,x)) || ox<R || ox>=cols-R || (!r2.empty() && !r2(y,ox))) e=-1; else {VI a,b; double s=0; for(int v=-R;v<=R;++v) for(int u=-R;u<=R;++u) {double p=get(i1,y+v,x+u),q=get(i2,y+v,ox+u); a.push_back((int)p); b.push_back((int)q); s+=(p-q)*(p-q);} e=mi?std::max(1-ref_mi(a,b),0.0):std::sqrt(s);}
        float g=map.at<float>(y-R,x-R,(int)d); if(!(std::abs(g-e)<=1e-5*(1+std::abs(e)))) {violation(mi?"affinity-mi":"affinity-ssd",fmt("%s: (%d,%d) disparity %d: %g, expected %g",id.c_str(),x,y,disp[d],g,e)); return;}}
}
static void affinity() {
    std::vector<VI> DR={{0},{-1,0,1},{2,-3,1},{-9,9,0}}; if(ctx().thorough) DR.push_back({-4,-3,-2,-1,0,1,2,3,4});
    auto im=[](int r,int c,int t,int s,int levels){cv::Mat m(r,c,t); for(int y=0;y<r;++y) for(int x=0;x<c;++x) {int v=((y*37+x*101+s*53+y*x*7)%251)%levels*(256/levels); if(t==CV_8UC1) m.at<uchar>(y,x)=(uchar)v; else if(t==CV_16UC1) m.at<ushort>(y,x)=(ushort)(v*200); else m.at<float>(y,x)=v*1.25f-40;} return m;};
    for(size_t k=0;k<DR.size();++k) for(int m1=-1;m1<16;++m1) for(int m2=-1;m2<16;++m2) {mark("affinity 1x4 regions %d/%d",m1,m2); auto roi=[](int m){cv::Mat_<uchar> r; if(m>=0) {r.create(1,4); for(int i=0;i<4;++i) r(0,i)=(m>>i)&1?200:0;} return r;}; for(int mi=0;mi<2;++mi) aff_case(fmt("1x4 images, regions %d/%d, range %zu",m1,m2,k),im(1,4,CV_8UC1,1,16),im(1,4,CV_8UC1,3,16),1,DR[k],mi,roi(m1),roi(m2));}
    for(int r=3;r<=5;++r) for(int c=3;c<=7;++c) for(int P : {1,3,5}) if(P<=r && P<=c) for(size_t k=0;k<DR.size();++k) for(int t : {CV_8UC1,CV_16UC1,CV_32FC1}) for(int lv_ : {1,2,4,64}) for(int ro=0;ro<4;++ro) {
        mark("affinity %dx%d patch %d",c,r,P); cv::Mat a=im(r,c,t,r,lv_),b=im(r,c,t,c,lv_>1?lv_:2); cv::Mat_<uchar> r1,r2; if(ro&1) {r1.create(r,c); for(int i=0;i<r*c;++i) r1.data[i]=i%3!=0;} if(ro&2) {r2.create(r,c); for(int i=0;i<r*c;++i) r2.data[i]=(i*i)%5!=1;}
        std::string id=fmt("%dx%d images of type %d and %d levels, patch %d, range %zu, regions %d",c,r,t,lv_,P,k,ro); aff_case(id,a,b,P,DR[k],false,r1,r2); if(t==CV_8UC1) aff_case(id,a,b,P,DR[k],true,r1,r2);
        cv::Mat A(r+2,c+3,t,cv::Scalar(99)), B(r+1,c+2,t,cv::Scalar(3)); cv::Mat va=A(cv::Rect(1,1,c,r)), vb=B(cv::Rect(2,0,c,r)); a.copyTo(va); b.copyTo(vb); aff_case("views of "+id,va,vb,P,DR[k],false,r1,r2); if(t==CV_8UC1) aff_case("views of "+id,va,vb,P,DR[k],true,r1,r2);
    }
    cv::Mat a(4,4,CV_8UC1,cv::Scalar(1)),b(4,5,CV_8UC1,cv::Scalar(1)),f(4,4,CV_32FC1,cv::Scalar(1)); cv::Mat_<float> o; cv::Mat_<uchar> br(3,4); br=1;
    if(!refused([&]{lv::computeImageAffinity(a,b,1,o,{0},lv::AffinityDist_SSD);}) || !refused([&]{lv::computeImageAffinity(a,a,2,o,{0},lv::AffinityDist_SSD);}) || !refused([&]{lv::computeImageAffinity(a,a,5,o,{0},lv::AffinityDist_SSD);}) || !refused([&]{lv::computeImageAffinity(a,a,1,o,{},lv::AffinityDist_SSD);}) || !refused([&]{lv::computeImageAffinity(a,a,1,o,{0},lv::AffinityDist_L2);}) || !refused([&]{lv::computeImageAffinity(f,f,1,o,{0},lv::AffinityDist_MI);}) || !refused([&]{lv::computeImageAffinity(a,f,1,o,{0},lv::AffinityDist_SSD);}) || !refused([&]{lv::computeImageAffinity(a,a,1,o,{0},lv::AffinityDist_SSD,br);}) || !refused([&]{lv::computeImageAffinity(a,a,1,o,{0},lv::AffinityDist_SSD,cv::Mat(),br);})) violation("affinity-refuse","");
    // descriptor maps
    for(int emd=0;emd<2;++emd) for(int r=1;r<=4;++r) for(int c=1;c<=5;++c) for(int D : {2,3,5}) for(int P : {1,3,5}) for(size_t k=0;k<DR.size();++k) for(int ro=0;ro<4;++ro) for(int s=0;s<2;++s) {
        mark("descriptor affinity %dx%dx%d patch %d",c,r,D,P); int sz[3]={r,c,D}; cv::Mat_<float> d1(3,sz),d2(3,sz); for(int w=0;w<2;++w) {cv::Mat_<float>& d=w?d2:d1; for(int i=0;i<r*c;++i) {float t=0; float* p=(float*)d.data+i*D; for(int q=0;q<D;++q) {p[q]=(float)((i*7+q*5+w*3+s*11)%6+(q==i%D)); t+=p[q];} for(int q=0;q<D;++q) p[q]/=t;}}
        cv::Mat_<uchar> r1,r2; if(ro&1) {r1.create(r,c); for(int i=0;i<r*c;++i) r1.data[i]=(i+s)%3!=0;} if(ro&2) {r2.create(r,c); for(int i=0;i<r*c;++i) r2.data[i]=(i*i+s)%5!=1;} cv::Mat_<float> cost(D,D); for(int i=0;i<D;++i) for(int j=0;j<D;++j) cost(i,j)=(float)std::abs(i-j);
        cv::Mat_<float> map; lv::computeDescriptorAffinity(d1,d2,P,map,DR[k],emd?lv::AffinityDist_EMD:lv::AffinityDist_L2,r1,r2,emd?cost:cv::Mat_<float>()); ctx().evals++; ctx().nontriv++; int n=(int)DR[k].size(), R=P/2;
        std::string id=fmt("%dx%d map of %d-value descriptors, patch %d, range %zu, regions %d",c,r,D,P,k,ro); if(map.dims!=3 || map.size[0]!=r || map.size[1]!=c || map.size[2]!=n) {violation("desc-affinity-shape",id); continue;}
        auto raw=[&](int y,int x,int q)->double {int ox=x+DR[k][q]; if((!r1.empty() && !r1(y,x)) || ox<0 || ox>=c || (!r2.empty() && !r2(y,ox))) return -1; const float* A=d1.ptr<float>(y,x), *B=d2.ptr<float>(y,ox); double t=0; if(!emd) {for(int i=0;i<D;++i) t+=(A[i]-B[i])*(double)(A[i]-B[i]); return std::sqrt(t);} double cum=0; for(int i=0;i<D;++i) {cum+=A[i]-B[i]; t+=std::abs(cum);} return t;};
        bool bad=false; for(int y=0;y<r && !bad;++y) for(int x=0;x<c && !bad;++x) for(int q=0;q<n && !bad;++q) {double e; if(P==1) e=raw(y,x,q); else {double t=0; int m=0; for(int v=-R;v<=R;++v) for(int u=-R;u<=R;++u) {if(y+v<0 || y+v>=r || x+u<0 || x+u>=c) continue; double z=raw(y+v,x+u,q); if(z>=0) {t+=z; ++m;}} e=m?t/m:-1;}
            float g=map.at<float>(y,x,q); if(!(std::abs(g-e)<=1e-4)) {violation(emd?"desc-affinity-emd":"desc-affinity-l2",fmt("%s: (%d,%d) disparity %d: %g, expected %g",id.c_str(),x,y,DR[k][q],g,e)); bad=true;}}
    }
    sample("image affinities of 1x4 images for all region pairs and 3x3-5x7 images of 3 types with 1-64 levels (patches, views); descriptor affinities (L2, EMD) of maps up to 4x5");
}

// ---------------------------------------------------------------- motion helpers
static void warp() {
    auto pat=[](int r,int c,int t,int s){cv::Mat m(r,c,t); int cn=m.channels(); for(int y=0;y<r;++y) for(int i=0;i<c*cn;++i) m.ptr(y)[i]=(uchar)(y*61+i*37+s*91); return m;};
    for(int r=1;r<=4;++r) for(int c=1;c<=5;++c) for(int cn : {1,3}) for(int fy=-10;fy<=10;fy+=ctx().thorough?1:2) for(int fx=-10;fx<=10;++fx) for(int vary=0;vary<2;++vary) {
        mark("temporal difference %dx%d flow %d/%d",c,r,fx,fy); cv::Mat a=pat(r,c,CV_8UC(cn),1),b=pat(r,c,CV_8UC(cn),2); cv::Mat_<cv::Vec2f> fl(r,c); for(int y=0;y<r;++y) for(int x=0;x<c;++x) fl(y,x)=cv::Vec2f((fx+(vary?x:0))*0.25f,(fy-(vary?y:0))*0.25f);
        cv::Mat o; lv::computeTemporalAbsDiff(a,b,fl,o,vary?0:1); ctx().evals++; ctx().nontriv++; if(o.size()!=a.size() || o.type()!=CV_32FC(cn)) {violation("tempdiff-shape",""); continue;}
        bool bad=false; for(int y=0;y<r && !bad;++y) for(int x=0;x<c && !bad;++x) for(int k=0;k<cn && !bad;++k) {double px=x+fl(y,x)[0],py=y+fl(y,x)[1]; int x0=(int)std::floor(px),y0=(int)std::floor(py); double u=px-x0,v=py-y0; auto at=[&](int yy,int xx){return (double)b.ptr(std::min(std::max(yy,0),r-1))[std::min(std::max(xx,0),c-1)*cn+k];};
            double e=std::abs(a.ptr(y)[x*cn+k]-((at(y0,x0)*(1-u)+at(y0,x0+1)*u)*(1-v)+(at(y0+1,x0)*(1-u)+at(y0+1,x0+1)*u)*v)); float g=o.ptr<float>(y)[x*cn+k];
            if(x0<0 || y0<0 || x0+1>=c || y0+1>=r) {if(x0<-c || y0<-r || x0>=2*c-1 || y0>=2*r-1) continue; /* border extrapolation: mirrored positions */ auto rf=[](int p,int n){return n==1?0:cv::borderInterpolate(p,n,cv::BORDER_REFLECT_101);}; auto at2=[&](int yy,int xx){return (double)b.ptr(rf(yy,r))[rf(xx,c)*cn+k];}; double e2=std::abs(a.ptr(y)[x*cn+k]-((at2(y0,x0)*(1-u)+at2(y0,x0+1)*u)*(1-v)+(at2(y0+1,x0)*(1-u)+at2(y0+1,x0+1)*u)*v)); if(std::abs(g-e2)<=1e-3) continue;}
            if(std::abs(g-e)>1e-3) {violation("tempdiff",fmt("%dx%d, %d channels, flow (%g,%g) at (%d,%d): %g, expected %g",c,r,cn,fl(y,x)[0],fl(y,x)[1],x,y,g,e)); bad=true;}}
    }
    for(int r=1;r<=4;++r) for(int c=1;c<=5;++c) for(int t : {CV_8UC1,CV_8UC3,CV_32FC1}) for(int oy=-5;oy<=5;++oy) for(int ox=-6;ox<=6;++ox) for(int vary=0;vary<2;++vary) for(int lin=0;lin<2;++lin) for(int rep=0;rep<2;++rep) {
        mark("remap %dx%d offset %d/%d",c,r,ox,oy); cv::Mat src; if(t==CV_32FC1) {cv::Mat p=pat(r,c,CV_8UC1,3); p.convertTo(src,CV_32F,0.5);} else src=pat(r,c,t,3); cv::Mat_<cv::Vec2f> off(r,c); for(int y=0;y<r;++y) for(int x=0;x<c;++x) off(y,x)=cv::Vec2f((float)(ox+(vary?y:0)),(float)(oy+(vary?x:0)));
        cv::Mat o; if(rep==0 && (ox&1)) lv::remap_offset(src,o,off,lin?cv::INTER_LINEAR:cv::INTER_NEAREST); else lv::remap_offset(src,o,off,lin?cv::INTER_LINEAR:cv::INTER_NEAREST,rep?cv::BORDER_REPLICATE:cv::BORDER_CONSTANT,rep?cv::Scalar():cv::Scalar::all(ox&1?0:9)); ctx().evals++; ctx().nontriv++; if(o.size()!=src.size() || o.type()!=t) {violation("remap-shape",""); continue;}
        int cn=src.channels(); bool bad=false; for(int y=0;y<r && !bad;++y) for(int x=0;x<c && !bad;++x) for(int k=0;k<cn;++k) {int sx=x-(int)off(y,x)[0],sy=y-(int)off(y,x)[1]; bool in=sx>=0 && sy>=0 && sx<c && sy<r; int qx=std::min(std::max(sx,0),c-1),qy=std::min(std::max(sy,0),r-1); double e=t==CV_32FC1?src.at<float>(qy,qx):src.ptr(qy)[qx*cn+k]; if(!in && !rep) e=ox&1?0:9; double g=t==CV_32FC1?o.at<float>(y,x):o.ptr(y)[x*cn+k]; if(std::abs(e-g)>1e-3) {violation("remap-offset",fmt("%dx%d type %d offset (%g,%g) at (%d,%d): %g, expected %g",c,r,t,off(y,x)[0],off(y,x)[1],x,y,g,e)); bad=true; break;}}
    }
    cv::Mat a(3,3,CV_8UC1,cv::Scalar(1)),o; cv::Mat_<cv::Vec2f> fl(3,3,cv::Vec2f(0,0)),fb(2,3,cv::Vec2f(0,0)); if(!refused([&]{lv::computeTemporalAbsDiff(a,a,fb,o);}) || !refused([&]{lv::computeTemporalAbsDiff(a,cv::Mat(3,4,CV_8UC1),fl,o);}) || !refused([&]{lv::computeTemporalAbsDiff(a,a,fl,o,2);}) || !refused([&]{lv::computeTemporalAbsDiff(a,a,cv::Mat(3,3,CV_32FC1),o);}) || !refused([&]{lv::remap_offset(a,o,fb,cv::INTER_LINEAR);}) || !refused([&]{lv::remap_offset(a,o,cv::Mat(3,3,CV_32FC1),cv::INTER_LINEAR);})) violation("warp-refuse","");
    sample("temporal differences for all quarter-pixel flows in +-2.5 and remaps for all integer offsets, on images up to 4x5");
}

// ---------------------------------------------------------------- mixtures over images
template<size_t K, size_t D> static std::vector<double> probe(lv::GMM<K,D>& g) {std::vector<double> o; for(int a=0;a<256;a+=51) for(int b=0;b<(D>1?256:1);b+=85) {std::array<double,D> s; for(size_t i=0;i<D;++i) s[i]=i?b:a; o.push_back(g(s)); } return o;}
static bool near(const std::vector<double>& a, const std::vector<double>& b) {if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(!(std::abs(a[i]-b[i])<=1e-9+1e-6*std::abs(a[i]))) return false; return true;}
template<size_t K1, size_t K2, size_t D> static void gmm_() {
    static lv::GMM<K1,D> bg,rb; static lv::GMM<K2,D> fg,rf; const int n=6; static const int V[]={10,60,130,240};
    Odo o(n,4); int q=0; do {if(++q%(ctx().thorough?1:7)) continue; cv::Mat in(2,3,CV_8UC((int)D)); for(int i=0;i<n;++i) for(size_t k=0;k<D;++k) in.data[i*D+k]=(uchar)(V[o.d[i]]+(k?(o.d[i]*37+(int)k*11)%50:0)); auto px=[&](int i){std::array<double,D> s; for(size_t k=0;k<D;++k) s[k]=in.data[i*D+k]; return s;};
        for(int m=0;m<64;++m) for(int ro=0;ro<3;++ro) { mark("mixtures %zu/%zu components, %zu dims, image %d mask %d region %d",K1,K2,D,q,m,ro); ctx().evals++; ctx().nontriv++; cv::Mat mask(2,3,CV_8UC1),roi; for(int i=0;i<n;++i) mask.data[i]=(m>>i)&1?(m%2?255:1):0; if(ro) {roi.create(2,3,CV_8UC1); for(int i=0;i<n;++i) roi.data[i]=ro==1?i!=m%n:(i+m)%2;}
            auto in_=[&](int i){return roi.empty() || roi.data[i];};
            // learning from given labels (labels outside the component range are ignored)
            cv::Mat lab(2,3,CV_32SC1); for(int i=0;i<n;++i) ((int*)lab.data)[i]=(i*3+m+q)%5-1; lv::learnGaussianMixtureParams(in,mask,lab,bg,fg,roi); rb.initLearning(); rf.initLearning(); for(int i=0;i<n;++i) {int l=((int*)lab.data)[i]; bool f=mask.data[i]!=0; if(!in_(i) || l<0 || l>=(int)(f?K2:K1)) continue; if(f) rf.addSample((size_t)l,px(i)); else rb.addSample((size_t)l,px(i));} rb.endLearning(); rf.endLearning();
            if(!near(probe(bg),probe(rb)) || !near(probe(fg),probe(rf))) violation("gmm-learn",fmt("%zu/%zu components, image %d, mask %d, region %d",K1,K2,q,m,ro));
            // assignment
            cv::Mat as(2,3,CV_32SC1,cv::Scalar(77)); if(m%2) as=cv::Mat(); lv::assignGaussianMixtureComponents(in,mask,as,bg,fg,roi); if(as.type()!=CV_32SC1 || as.size()!=in.size()) violation("gmm-assign-shape",""); else for(int i=0;i<n;++i) {if(!in_(i)) continue; auto s=px(i); int e=mask.data[i]?(int)fg.getBestComponent(s):(int)bg.getBestComponent(s); if(((int*)as.data)[i]!=e) {violation("gmm-assign",fmt("image %d, mask %d, region %d, pixel %d",q,m,ro,i)); break;}}
        }
    } while(o.next());
}
static void gmm_init() { // two colours on each side and two components: the clusters are the colours
    static lv::GMM<2,3> bg,fg,rb,rf; static const int C[4][3]={{10,20,30},{200,40,60},{90,220,15},{120,130,250}};
    for(int r=3;r<=5;++r) for(int c=4;c<=6;++c) for(int s=0;s<12;++s) for(int ro=0;ro<2;++ro) {
        cv::Mat in(r,c,CV_8UC3),mask(r,c,CV_8UC1),roi; if(ro) roi.create(r,c,CV_8UC1); rb.initLearning(); rf.initLearning(); int cnt[4]={0,0,0,0}; mark("mixture initialisation %dx%d case %d region %d",c,r,s,ro);
        for(int i=0;i<r*c;++i) {bool f=((i+s)/3)%2; int w=((i*5+s)%(2+s%3))!=0, id=f*2+w; for(int k=0;k<3;++k) in.data[i*3+k]=(uchar)C[id][k]; mask.data[i]=f?1+s:0; if(ro) roi.data[i]=i%4!=s%4; if(ro && !roi.data[i]) continue; cnt[id]++; std::array<double,3> p{{(double)C[id][0],(double)C[id][1],(double)C[id][2]}}; if(f) rf.addSample((size_t)w,p); else rb.addSample((size_t)w,p);}
        rb.endLearning(); rf.endLearning(); bool ok=true; for(int k : cnt) ok&=k>0; ok&=cnt[0]+cnt[1]>3 && cnt[2]+cnt[3]>3; if(!ok) continue; cv::theRNG().state=(uint64_t)(s+1)*7919; lv::initGaussianMixtureParams(in,mask,bg,fg,roi); ctx().evals++; ctx().nontriv++;
        for(int id=0;id<4;++id) {std::array<double,3> p{{(double)C[id][0],(double)C[id][1],(double)C[id][2]}}; if(std::abs(bg(p)-rb(p))>1e-6*(1+rb(p)) || std::abs(fg(p)-rf(p))>1e-6*(1+rf(p))) {violation("gmm-init",fmt("%dx%d image, case %d, region %d: density at colour %d is %g/%g, expected %g/%g",c,r,s,ro,id,bg(p),fg(p),rb(p),rf(p))); break;}}
    }
}
static void gmms() {gmm_<2,3,1>(); gmm_<3,2,3>(); gmm_init(); sample("mixtures: all 2x3 images over 4 colours (every 7th in the quick tier) x all masks x 3 regions, two component layouts; initialisation on two-colour sides");}

// ---------------------------------------------------------------- point-based image warping (moving least squares)
typedef std::complex<double> Cx;
static bool mls(const std::vector<cv::Point2d>& src, const std::vector<cv::Point2d>& dst, bool rigid, double x, double y, Cx& out) { // false: the rotation is undefined there
    Cx p(x,y); size_t n=dst.size(); if(n<2) {out=p; return true;} std::vector<double> w(n); double W=0; Cx ps=0,qs=0;
    for(size_t i=0;i<n;++i) {Cx d(dst[i].x,dst[i].y); if(d==p) {out=Cx(src[i].x,src[i].y); return true;} w[i]=1/std::norm(p-d); W+=w[i]; ps+=w[i]*d; qs+=w[i]*Cx(src[i].x,src[i].y);}
    ps/=W; qs/=W; Cx a=0; double m=0; for(size_t i=0;i<n;++i) {Cx d=Cx(dst[i].x,dst[i].y)-ps,s=Cx(src[i].x,src[i].y)-qs; a+=w[i]*std::conj(d)*s; m+=w[i]*std::norm(d);}
    if(m<1e-12) return false; if(rigid) {if(std::abs(a)<1e-9*m) return false; a/=std::abs(a);} else a/=m; out=a*(p-ps)+qs; return true;
}
static void imwarp_case(const std::vector<cv::Point2d>& src, const std::vector<cv::Point2d>& dst, cv::Size ss, cv::Size ds, int grid, bool rigid, double ratio, bool late) {
    cv::Mat in(ss,CV_8UC3); for(int y=0;y<ss.height;++y) for(int x=0;x<ss.width;++x) in.at<cv::Vec3b>(y,x)=cv::Vec3b((uchar)(x*16),(uchar)(y*16),(uchar)(x*37+y*91)); cv::Mat keep=in.clone(),out;
    auto id=[&](){std::string s=fmt("%s, grid %d, %dx%d to %dx%d, ratio %g:",rigid?"rigid":"similarity",grid,ss.width,ss.height,ds.width,ds.height,ratio); for(size_t i=0;i<src.size();++i) s+=fmt(" (%g,%g)<-(%g,%g)",dst[i].x,dst[i].y,src[i].x,src[i].y); return s;};
    auto mode=rigid?ImageWarper::RIGID:ImageWarper::SIMILARITY; ImageWarper w; if(late) {w.initialize({{1,1},{2,0}},cv::Size(5,4),{{0,0},{3,2}},cv::Size(9,9),3,ImageWarper::SIMILARITY); w.initialize(src,ss,dst,ds,grid,mode);} else w=ImageWarper(src,ss,dst,ds,grid,mode);
    if(!w.isInitialized()) {violation("imwarp-init",id()); return;} w.warp(in,out,ratio); ctx().evals++; ctx().nontriv++;
    if(out.size()!=ds || out.type()!=CV_8UC3) {violation("imwarp-shape",id()); return;} if(!same(in,keep)) violation("imwarp-input",id());
    auto lim=[](double v,int n){return std::max(0.0,std::min(v,n-1.0));};
    for(int y=0;y<ds.height;++y) for(int x=0;x<ds.width;++x) {cv::Vec3b g=out.at<cv::Vec3b>(y,x); int gx=x/grid*grid,gy=y/grid*grid; bool node=(x==gx && y==gy); double lx=1e9,hx=-1e9,ly=1e9,hy=-1e9; bool undef=false; // the displacement lies between those of the surrounding grid nodes
        for(int k=0;k<(node?1:4);++k) {int nx=std::min(gx+(k&1)*grid,ds.width-1),ny=std::min(gy+(k>>1)*grid,ds.height-1); Cx q; if(!mls(src,dst,rigid,nx,ny,q)) {undef=true; break;} lx=std::min(lx,q.real()-nx); hx=std::max(hx,q.real()-nx); ly=std::min(ly,q.imag()-ny); hy=std::max(hy,q.imag()-ny);}
        if(undef) continue; double e=1e-6, x0=lim(x+std::min(lx*ratio,hx*ratio),ss.width),x1=lim(x+std::max(lx*ratio,hx*ratio),ss.width),y0=lim(y+std::min(ly*ratio,hy*ratio),ss.height),y1=lim(y+std::max(ly*ratio,hy*ratio),ss.height);
        if(g[0]<std::floor(x0*16-e) || g[0]>std::floor(x1*16+e) || g[1]<std::floor(y0*16-e) || g[1]>std::floor(y1*16+e)) {violation("imwarp",fmt("%s: pixel (%d,%d) comes from (%g,%g), expected x in [%g,%g], y in [%g,%g]",id().c_str(),x,y,g[0]/16.,g[1]/16.,x0,x1,y0,y1)); return;}
        if(node) {int ix=(int)x0,iy=(int)y0,jx=std::min(ix+1,ss.width-1),jy=std::min(iy+1,ss.height-1); double fx=x0-ix,fy=y0-iy; auto at=[&](int v,int u){return (double)in.at<cv::Vec3b>(v,u)[2];}; double v=(at(iy,ix)*(1-fx)+at(iy,jx)*fx)*(1-fy)+(at(jy,ix)*(1-fx)+at(jy,jx)*fx)*fy; if(std::abs(g[2]-v)>1.001) {violation("imwarp-interp",fmt("%s: pixel (%d,%d) is %d, expected %g",id().c_str(),x,y,g[2],v)); return;}}}
}
static void imwarp() {
    static const double L[]={0,3,6}; auto P=[](int k){return cv::Point2d(L[k%3],L[k/3]);}; int q=0;
    for(int a=0;a<9;++a) for(int b=a+1;b<9;++b) for(int c=0;c<9;++c) for(int d=0;d<9;++d) {mark("warp %d %d %d %d",a,b,c,d); for(int rigid=0;rigid<2;++rigid) for(int grid : {1,2,3,5,9}) {if(++q%(ctx().thorough?1:3)) continue; imwarp_case({P(c),P(d)},{P(a),P(b)},cv::Size(8,8),cv::Size(7,7),grid,rigid,1,q%2); if(q%5==0) imwarp_case({P(c),P(d)},{P(a),P(b)},cv::Size(5,7),cv::Size(8,4),grid,rigid,q%2?0.5:0,q%2);}}
    for(int w=1;w<=8;++w) for(int h=1;h<=8;++h) for(int grid=1;grid<=9;++grid) for(int rigid=0;rigid<2;++rigid) {mark("warp size %dx%d",w,h); std::vector<cv::Point2d> c={{0,0},{w-1.0,0},{0,h-1.0},{w-1.0,h-1.0}}; if(w==1 || h==1) c.resize(1); auto m=c; for(auto& p : m) p.x=w-1-p.x; cv::Size s(w,h);
        for(double ratio : {0.,0.5,1.}) {imwarp_case(c,c,s,s,grid,rigid,ratio,w%2); imwarp_case(m,c,s,s,grid,rigid,ratio,h%2); imwarp_case({{1,1}},{{0,0}},s,s,grid,rigid,ratio,0); imwarp_case({{-2,-3},{9,4},{2.5,3.25}},{{0.5,0},{6,1},{3,3}},s,cv::Size(h,w),grid,rigid,ratio,1);}}
    for(int n=1;n<=9;++n) for(int k=0;k<3;++k) {std::vector<cv::Point2d> d,s; for(int i=0;i<n;++i) {d.push_back(P(i)); s.push_back(P((i*(k+1)*2+k)%9));} for(int grid : {1,4}) for(int rigid=0;rigid<2;++rigid) imwarp_case(s,d,cv::Size(9,9),cv::Size(8,8),grid,rigid,1,k%2);}
    ImageWarper w; cv::Mat o; std::vector<cv::Point2d> p={{0,0},{1,1}},one={{0,0}}; cv::Size s(4,4);
    if(w.isInitialized() || !refused([&]{w.warp(cv::Mat(4,4,CV_8UC1,cv::Scalar(0)),o);}) || !refused([&]{w.initialize(p,s,one,s);}) || !refused([&]{w.initialize({},s,{},s);}) || !refused([&]{w.initialize(p,s,p,s,0);}) || !refused([&]{w.initialize(p,s,p,cv::Size());}) || w.isInitialized()) violation("imwarp-refuse","");
    w.initialize(p,s,p,s); if(!refused([&]{w.warp(cv::Mat(4,5,CV_8UC1,cv::Scalar(0)),o);}) || !refused([&]{w.warp(cv::Mat(4,4,CV_16UC1,cv::Scalar(0)),o);}) || !refused([&]{w.warp(cv::Mat(),o);})) violation("imwarp-refuse","");
    sample("all pairs of target points x all source pairs on a 3x3 lattice x grids x modes (every 3rd in the quick tier); identity, mirrored, single and outside points for all sizes up to 8x8 and grids up to 9; strengths 0, 0.5, 1");
}

// ---------------------------------------------------------------- the same operations on larger images (row and column counts around vector widths)
static unsigned hs(int y,int x,int s) {unsigned h=(unsigned)(y*131+x*71+s*977+1)*2654435761u; h^=h>>15; return h*2246822519u>>8;}
static void large() {
    static const int SZ[][2]={{1,16},{1,33},{2,64},{16,16},{17,31},{33,17},{40,64},{64,65},{30,129}};
    for(auto& z : SZ) { const int r=z[0],c=z[1];
        // thinning
        if(r>3 && c>3) for(int p=0;p<(ctx().thorough?20:6);++p) {mark("thin %dx%d shape %d",c,r,p); thin_case(mk8(r,c,[&](int y,int x){bool b=p==0?true:p==1?hs(y,x,1)%5!=0:p==2?((x/7+y/5)&1)==0:p==3?hs(y/3,x/4,2)%2:p==4?std::abs((x*3+y*2)%23-11)<6:hs(y/(p-3),x/2,p)%3!=0; return b?1+(x*7+y)%255:0;}));}
        // histograms and medians
        for(int t=0;t<2;++t) for(int s=0;s<6;++s) {mark("histogram %dx%d",c,r); cv::Mat in(r,c,t?CV_16UC1:CV_8UC1); cv::Mat_<uchar> mask; if(s%2) mask=mk8(r,c,[&](int y,int x){return hs(y,x,50+s)%3?(s==3?1:255):0;}); std::vector<int> e(t?65536:256,0); VI ok; for(int y=0;y<r;++y) for(int x=0;x<c;++x) {int v=s<2?(int)(hs(y,x,s)%(t?65536:256)):s<4?(int)(hs(y,x,s)%3):(t?40000:200); if(t) in.at<ushort>(y,x)=(ushort)v; else in.at<uchar>(y,x)=(uchar)v; if(mask.empty() || mask(y,x)) {e[v]++; ok.push_back(v);}}
            int tot=-1; if(lv::calcHistCounts(in,mask,&tot)!=e || tot!=(int)ok.size()) violation("hist-counts",fmt("%dx%d image, type %d, case %d",c,r,in.type(),s)); ctx().evals++; ctx().nontriv++; if(ok.empty()) continue; std::sort(ok.begin(),ok.end()); int md=lv::calcMedianValue(in,mask); if(md!=ok[ok.size()/2]) violation("median",fmt("%dx%d image, type %d, case %d: %d, expected %d",c,r,in.type(),s,md,ok[ok.size()/2]));}
        // median filters and consensus
        for(int k : {3,5,9,11}) for(int s=0;s<4;++s) {mark("blur %dx%d kernel %d",c,r,k); cv::Mat in=mk8(r,c,[&](int y,int x){unsigned h=hs(y,x,s); return s==3?(hs(y/6,x/6,9)&1?255:0):h%3?(int)(h&255):0;}); cv::Mat_<uchar> mask; if(s%2) mask=mk8(r,c,[&](int y,int x){return hs(y/(s==3?8:1),x/(s==3?8:1),77)%3?255:0;}); blur_case(in,mask,k,s*11,s%3);}
        // integral images
        for(int cn=1;cn<=4;++cn) for(int s=0;s<3;++s) {mark("integral %dx%d",c,r); cv::Mat in(r,c,CV_8UC(cn)); for(size_t i=0;i<in.total()*cn;++i) in.data[i]=s==0?255:(uchar)hs((int)i,cn,s); cv::Mat_<uchar> mask; if(s==2) mask=mk8(r,c,[&](int y,int x){return hs(y,x,5)%3?1:0;}); cv::Mat out; if(mask.empty()) lv::integral(in,out,s?CV_32F:CV_32S); else lv::integral(in,out,mask,CV_32S); ctx().evals++; ctx().nontriv++; bool ok=out.rows==r+1 && out.cols==c+1 && out.type()==CV_MAKETYPE(s==1?CV_32F:CV_32S,cn);
            std::vector<double> col((size_t)(c*cn)); for(int y=0;y<=r && ok;++y) {for(int k=0;k<cn && ok;++k) {double sum=0; for(int x=0;x<=c && ok;++x) {double g=s==1?out.ptr<float>(y)[x*cn+k]:out.ptr<int>(y)[x*cn+k]; if(g!=sum) ok=false; if(x<c) sum+=col[(size_t)(x*cn+k)];}} if(y<r) for(int x=0;x<c;++x) for(int k=0;k<cn;++k) if(mask.empty() || mask(y,x)) col[(size_t)(x*cn+k)]+=in.ptr(y)[x*cn+k];} if(!ok) violation("integral",fmt("%dx%d image of %d channels, case %d",c,r,cn,s));}
        // non-maximum suppression
        for(int s=0;s<6;++s) {mark("nms %dx%d",c,r); cv::Mat_<float> f(r,c); cv::Mat_<uchar> k(r,c),u(r,c); for(int y=0;y<r;++y) for(int x=0;x<c;++x) {f(y,x)=(float)(int)(hs(y,x,s)%(s<2?5:s<4?100:100000))-(s%2?3.f:0.f); u(y,x)=(uchar)hs(y,x,s+9); k(y,x)=hs(y,x,30+s)%(1+s%4)==0;} nms_case<1>(f,cv::Mat()); nms_case<2>(f,k); nms_case<3>(u,cv::Mat()); nms_case<4>(f,cv::Mat()); nms_case<2>(u,k); nms_case<8>(u,cv::Mat());}
        // affinities
        auto im=[&](int t,int s,int levels){cv::Mat m(r,c,t); for(int y=0;y<r;++y) for(int x=0;x<c;++x) {int v=(int)(hs(y,x,s)%levels)*(256/levels); if(t==CV_8UC1) m.at<uchar>(y,x)=(uchar)v; else if(t==CV_16UC1) m.at<ushort>(y,x)=(ushort)(v*200); else m.at<float>(y,x)=v*1.25f-40;} return m;};
        for(int P : {1,3,7,9}) if(P<=r && P<=c && r<=40) for(int t : {CV_8UC1,CV_16UC1,CV_32FC1}) for(int ro=0;ro<2;++ro) {mark("affinity %dx%d patch %d",c,r,P); cv::Mat_<uchar> r1,r2; if(ro) {r1=mk8(r,c,[&](int y,int x){return hs(y,x,3)%4!=0;}); r2=mk8(r,c,[&](int y,int x){return hs(y,x,4)%5!=0;});} std::string id=fmt("%dx%d images of type %d, patch %d, regions %d",c,r,t,P,ro); aff_case(id,im(t,1,64),im(t,2,64),P,{-c/2,-1,0,7,c-2},false,r1,r2); if(t==CV_8UC1 && P<9) aff_case(id,im(t,1,8),im(t,2,8),P,{-1,0,7},true,r1,r2);}
        // temporal differences and remaps
        for(int cn : {1,3}) for(int s=0;s<3;++s) {mark("remap %dx%d",c,r); cv::Mat a(r,c,CV_8UC(cn)),b(r,c,CV_8UC(cn)); for(size_t i=0;i<a.total()*cn;++i) {a.data[i]=(uchar)hs((int)i,1,s); b.data[i]=(uchar)hs((int)i,2,s);} cv::Mat_<cv::Vec2f> fl(r,c); for(int y=0;y<r;++y) for(int x=0;x<c;++x) fl(y,x)=cv::Vec2f((float)((int)(hs(y,x,8+s)%9)-4),(float)((int)(hs(y,x,20+s)%9)-4)); cv::Mat o,q; lv::computeTemporalAbsDiff(a,b,fl,o,s%2); lv::remap_offset(a,q,fl,s==1?cv::INTER_NEAREST:cv::INTER_LINEAR); ctx().evals++; ctx().nontriv++; bool ok=o.size()==a.size() && o.type()==CV_32FC(cn) && q.size()==a.size() && q.type()==a.type();
            for(int y=0;y<r && ok;++y) for(int x=0;x<c && ok;++x) for(int k=0;k<cn;++k) {int fx=(int)fl(y,x)[0],fy=(int)fl(y,x)[1],px=x+fx,py=y+fy; if(px>=0 && py>=0 && px<c && py<r && std::abs(o.ptr<float>(y)[x*cn+k]-std::abs(a.ptr(y)[x*cn+k]-b.ptr(py)[px*cn+k]))>1e-3) {violation("tempdiff",fmt("%dx%d, %d channels, flow (%d,%d) at (%d,%d)",c,r,cn,fx,fy,x,y)); ok=false; break;} int sx=x-fx,sy=y-fy; bool in=sx>=0 && sy>=0 && sx<c && sy<r; int e=in?a.ptr(sy)[sx*cn+k]:0; if(q.ptr(y)[x*cn+k]!=e) {violation("remap-offset",fmt("%dx%d, %d channels, offset (%d,%d) at (%d,%d)",c,r,cn,fx,fy,x,y)); ok=false; break;}}}
    }
    // many equal values: counts beyond 8 and 16 bits
    {cv::Mat a(300,300,CV_8UC1,cv::Scalar(7)),b(300,300,CV_16UC1,cv::Scalar(65535)); a.row(3).setTo(9); auto h=lv::calcHistCounts(a),g=lv::calcHistCounts(b); ctx().evals+=2; if(h[7]!=299*300 || h[9]!=300 || g[65535]!=90000) violation("hist-counts","300x300 image"); if(lv::calcMedianValue(a)!=7 || lv::calcMedianValue(b)!=65535) violation("median","300x300 image"); cv::Mat o; a.setTo(255); lv::integral(a,o); if(o.at<int>(300,300)!=300*300*255) violation("integral","300x300 image");}
    // descriptor maps with longer descriptors
    for(int emd=0;emd<2;++emd) for(int D : {8,16,24,36}) for(int P : {1,3,5}) {const int r=6,c=19; mark("descriptor affinity %d values patch %d",D,P); int sz[3]={r,c,D}; cv::Mat_<float> d[2]={cv::Mat_<float>(3,sz),cv::Mat_<float>(3,sz)}; for(int w=0;w<2;++w) for(int i=0;i<r*c;++i) {float* p=(float*)d[w].data+i*D,t=0; for(int q=0;q<D;++q) t+=p[q]=(float)(hs(i,q,w)%7+(q==0)); for(int q=0;q<D;++q) p[q]/=t;} cv::Mat_<float> cost(D,D); for(int i=0;i<D;++i) for(int j=0;j<D;++j) cost(i,j)=(float)std::abs(i-j); VI disp={-12,-1,0,1,5,17}; cv::Mat_<float> map; lv::computeDescriptorAffinity(d[0],d[1],P,map,disp,emd?lv::AffinityDist_EMD:lv::AffinityDist_L2,cv::Mat_<uchar>(),cv::Mat_<uchar>(),emd?cost:cv::Mat_<float>()); ctx().evals++; ctx().nontriv++;
        auto raw=[&](int y,int x,int q)->double {int ox=x+disp[(size_t)q]; if(ox<0 || ox>=c) return -1; const float* A=d[0].ptr<float>(y,x), *B=d[1].ptr<float>(y,ox); double t=0; if(!emd) {for(int i=0;i<D;++i) t+=(A[i]-B[i])*(double)(A[i]-B[i]); return std::sqrt(t);} double cum=0; for(int i=0;i<D;++i) {cum+=A[i]-B[i]; t+=std::abs(cum);} return t;}; bool ok=map.dims==3 && map.size[0]==r && map.size[1]==c && map.size[2]==(int)disp.size();
        for(int y=0;y<r && ok;++y) for(int x=0;x<c && ok;++x) for(int q=0;q<(int)disp.size() && ok;++q) {double t=0,e; int m=0,R=P/2; for(int v=-R;v<=R;++v) for(int u=-R;u<=R;++u) {if(y+v<0 || y+v>=r || x+u<0 || x+u>=c) continue; double k=raw(y+v,x+u,q); if(k>=0) {t+=k; ++m;}} e=m?t/m:-1; ok=std::abs(map.at<float>(y,x,q)-e)<=1e-4;} if(!ok) violation(emd?"desc-affinity-emd":"desc-affinity-l2",fmt("19x6 map of %d-value descriptors, patch %d",D,P));}
    // warps
    for(auto& z : SZ) if(z[0]<=33 && z[0]>1) for(int grid : {1,4,7,16}) for(int rigid=0;rigid<2;++rigid) for(double ratio : {0.5,1.}) {int w=std::min(z[1],16),h=std::min(z[0],16); mark("warp %dx%d grid %d",w,h,grid); imwarp_case({{1,1},{w-2.,2.5},{3.5,h-1.}},{{0,0},{w-1.,0},{2,h-2.}},cv::Size(w,h),cv::Size(z[1],z[0]),grid,rigid,ratio,w%2);}
    sample("every operation on nine image sizes from 1x16 to 64x65 and 30x129 with textured, block and constant contents, masks and regions; longer descriptors; counts beyond 16 bits");
}

int main(int argc, char** argv) {
    init(argc,argv); omp_set_num_threads(3);
    if(is_part("thin")) thin();
    if(is_part("hist")) hist();
    if(is_part("blur")) blur();
    if(is_part("integral")) integrals();
    if(is_part("nms")) nms();
    if(is_part("localmax")) localmax();
    if(is_part("affinity")) affinity();
    if(is_part("warp")) warp();
    if(is_part("gmm")) gmms();
    if(is_part("imwarp")) imwarp();
    if(is_part("img-large")) large();
    return finish();
}
