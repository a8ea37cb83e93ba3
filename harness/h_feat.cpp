// P24: descriptors (LSS, DASC, shape context) and mutual information against reference implementations of their definitions.
#include "litiv/features2d.hpp"
#include "litiv/features2d/SC.hpp"
#include "../mc/report.hpp"
#include <cmath>
using namespace vr;
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<cv::KeyPoint> VK;
template<typename F> static bool refused(F f) {try {f();} catch(const std::exception&) {return true;} return false;}
static cv::Mat as_view(const cv::Mat& m, int fill) { // same content inside a larger matrix filled with something else
    cv::Mat big(m.rows+7,m.cols+9,m.type(),cv::Scalar::all(fill)); cv::Mat v=big(cv::Rect(4,3,m.cols,m.rows)); m.copyTo(v); return v;
}
static uint32_t hsh(uint32_t x) {x^=x>>16; x*=0x7feb352dU; x^=x>>15; x*=0x846ca68bU; x^=x>>16; return x;}
static cv::Mat texture(int rows, int cols, int cn, int kind) {
    cv::Mat m(rows,cols,CV_8UC(cn));
    for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) for(int c=0;c<cn;++c) {
        int v=0; switch(kind%6) {
            case 0: v=(int)(hsh((uint32_t)(y*977+x*13+c*7+kind))%256); break;
            case 1: v=(int)std::lround(127+120*std::sin(x*0.7+c)*std::cos(y*0.5+x*0.11)); break;
            case 2: v=(x*7+y*3+c*20)%256; break;
            case 3: v=((x/3+y/2+c)&1)?220:30; break;
            case 4: v=(int)std::lround(127+60*std::sin((x*x+y*y)*0.02+c))+(int)(hsh((uint32_t)(y*31+x*17+c))%60); break;
            case 5: v=(x-cols/2)*(x-cols/2)+(y-rows/2)*(y-rows/2)<rows*cols/9?200:40+c*10; break;
        } m.ptr(y)[x*cn+c]=(uchar)v; }
    return m;
}
static bool all_finite(const cv::Mat& m) {cv::Mat c=m.isContinuous()?m:m.clone(); const float* p=(const float*)c.data; for(size_t i=0;i<c.total();++i) if(!std::isfinite(p[i])) return false; return true;}
static double maxdiff(const float* a, const VD& b) {double d=0; for(size_t i=0;i<b.size();++i) {double e=std::abs(a[i]-b[i]); if(!(e<=d)) d=std::isnan(e)?1e9:e;} return d;}
static void normalise(VD& v, double eps) {double n=0; for(double d : v) n+=d*d; n=std::sqrt(n); for(double& d : v) d=n>eps?d/n:std::sqrt(1.0/(double)v.size());}

// ---------------------------------------------------------------- mutual information
struct Joint {std::map<std::vector<int>,int> joint; std::vector<std::map<int,int>> marg; VI mn,mx; int n=0;};
static Joint ref_joint(const std::vector<VI>& in, int q, const VI& lo) {
    Joint j; j.n=(int)in[0].size(); j.marg.resize(in.size()); for(size_t k=0;k<in.size();++k) {j.mn.push_back(*std::min_element(in[k].begin(),in[k].end())); j.mx.push_back(*std::max_element(in[k].begin(),in[k].end()));}
    for(int i=0;i<j.n;++i) {std::vector<int> key; for(size_t k=0;k<in.size();++k) {int b=(in[k][i]-(lo.empty()?j.mn[k]:lo[k]))/q; key.push_back(b); j.marg[k][b]++;} j.joint[key]++;}
    return j;
}
static double ref_mi(const Joint& j, bool norm) {
    double mi=0,N=j.n; for(auto& e : j.joint) {double p=e.second/N,a=j.marg[0].at(e.first[0])/N,b=j.marg[1].at(e.first[1])/N; mi+=p*std::log2(p/a/b);}
    if(norm) {double h[2]={0,0}; for(int k=0;k<2;++k) for(auto& e : j.marg[k]) {double p=e.second/N; h[k]-=p*std::log2(p);} if(h[0]>1e-12 && h[1]>1e-12) mi/=std::sqrt(h[0]*h[1]);}
    return mi;
}
template<typename T> static cv::Mat_<T> mk(int rows, int cols, const VI& v) {cv::Mat_<T> m(rows,cols); for(int i=0;i<rows*cols;++i) m(i/cols,i%cols)=(T)v[i]; return m;}
template<typename T> static cv::Mat_<T> mkv(int rows, int cols, const VI& v) {cv::Mat_<T> b(rows+2,cols+3); b=(T)77; cv::Mat_<T> m=b(cv::Rect(1,1,cols,rows)); for(int i=0;i<rows*cols;++i) m(i/cols,i%cols)=(T)v[i]; return m;}
template<size_t Q, bool S, bool F, bool K, typename A, typename B> static void mi_case(int rows, int cols, const VI& a, const VI& b, bool view) {
    cv::Mat_<A> ma=view?mkv<A>(rows,cols,a):mk<A>(rows,cols,a); cv::Mat_<B> mb=view?mkv<B>(rows,cols,b):mk<B>(rows,cols,b);
    VI lo; if(K) lo={std::is_same<A,int>::value?*std::min_element(a.begin(),a.end()):(int)std::numeric_limits<A>::min(),std::is_same<B,int>::value?*std::min_element(b.begin(),b.end()):(int)std::numeric_limits<B>::min()};
    const bool approx=F && a.size()>16; const double ht=approx?1e-3:1e-5; // the fast variant sums rounded probabilities
    Joint j=ref_joint({a,b},(int)Q,lo); static thread_local lv::JointHistData<S,A,B> reused;
    auto txt=[&]{std::string t=fmt("%dx%d, step %zu, %s%s%s%s:",rows,cols,Q,S?"sparse":"dense",F?", fast":"",K?", full range":"",view?", views":""); for(size_t i=0;i<a.size() && i<30;++i) t+=fmt(" %d/%d",a[i],b[i]); return t;};
    for(int norm=0;norm<2;++norm) {double e=ref_mi(j,norm!=0); double g0=norm?lv::calcMutualInfo<Q,S,true,F,K>(ma,mb):lv::calcMutualInfo<Q,S,false,F,K>(ma,mb),g1=norm?lv::calcMutualInfo<Q,S,true,F,K>(ma,mb,&reused):lv::calcMutualInfo<Q,S,false,F,K>(ma,mb,&reused); ctx().evals+=2; if(e>0) ctx().nontriv++;
        double tol=approx?0.05:1e-4; if(!(std::abs(g0-e)<=tol)) {violation("mutual-information",fmt("%s score %g, expected %g",txt().c_str(),g0,e)); return;}
        if(!(std::abs(g1-e)<=tol)) {violation("mutual-information-reused",fmt("%s score %g, expected %g",txt().c_str(),g1,e)); return;}}
    // histograms
    const auto& h=reused; for(int k=0;k<2;++k) {double s=0; for(auto& m : j.marg[k]) {int idx[2]={m.first,0}; float v=lv::getElem(const_cast<lv::JointHistData<S,A,B>&>(h).aMargHists[k],idx); s+=v; if(std::abs(v-m.second/(double)j.n)>ht) {violation("marginal-histogram",fmt("%s input %d bin %d: %g",txt().c_str(),k,m.first,v)); return;}} double tot=0; for(auto it=h.aMargHists[k].begin();it!=h.aMargHists[k].end();++it) tot+=*it; if(std::abs(tot-1)>10*ht) {violation("marginal-histogram-total",fmt("%s input %d: %g",txt().c_str(),k,tot)); return;}
        if(S && h.aStates[k]!=j.marg[k].size()) {violation("state-count",fmt("%s input %d: %zu",txt().c_str(),k,(size_t)h.aStates[k])); return;}
        if(!K && (h.aMinVals[k]!=j.mn[k] || h.aMaxVals[k]!=j.mx[k])) {violation("value-range",fmt("%s input %d: %d..%d",txt().c_str(),k,h.aMinVals[k],h.aMaxVals[k])); return;}}
    double tot=0; for(auto it=h.oJointHist.begin();it!=h.oJointHist.end();++it) tot+=*it; if(std::abs(tot-1)>10*ht) {violation("joint-histogram-total",fmt("%s %g",txt().c_str(),tot)); return;}
    for(auto& e : j.joint) {float v=lv::getElem(const_cast<lv::JointHistData<S,A,B>&>(h).oJointHist,e.first.data()); if(std::abs(v-e.second/(double)j.n)>ht) {violation("joint-histogram",fmt("%s bin %d,%d: %g",txt().c_str(),e.first[0],e.first[1],v)); return;}}
    if(S && h.nJointStates!=j.joint.size()) violation("joint-state-count",fmt("%s %zu",txt().c_str(),(size_t)h.nJointStates));
}
static void mi_pairs() {
    // all pairs of arrays with up to four elements over small alphabets
    static const int U[4]={0,1,255,5},SV[4]={-3,0,127,-128},UD[4]={0,1,9,6},SD[3]={-3,0,8};
    for(int n=1;n<=4;++n) {int P=1; for(int i=0;i<n;++i) P*=3; for(int p=0;p<P;++p) {mark("mi arrays of %d, %d/%d",n,p,P); for(int q=0;q<P;++q) {
        VI a(n),b(n),sa(n),da(n),db(n),ds(n); int x=p,y=q; for(int i=0;i<n;++i) {a[i]=U[x%3]; da[i]=UD[x%3]; sa[i]=SV[x%3]; ds[i]=SD[x%3]; b[i]=U[1+y%3]; db[i]=UD[1+y%3]; x/=3; y/=3;}
        int rows=n==4?2:1,cols=n/rows; bool view=(p+q)&1; if(n==4 && !ctx().thorough && (p*7+q)%3) continue;
        mi_case<1,true,false,false,uchar,uchar>(rows,cols,a,b,view); mi_case<1,false,false,false,uchar,uchar>(cols,rows,da,db,view);
        mi_case<3,true,false,false,schar,uchar>(rows,cols,sa,b,view); mi_case<2,false,false,false,schar,uchar>(rows,cols,ds,db,!view); 
        if((p*5+q)%4==0) {mi_case<1,true,true,false,uchar,uchar>(rows,cols,a,b,view); mi_case<2,true,false,true,uchar,schar>(rows,cols,b,sa,view); mi_case<1,true,false,false,ushort,int>(rows,cols,a,sa,view); mi_case<5,false,true,false,uchar,uchar>(rows,cols,da,db,view); mi_case<1,true,true,true,schar,ushort>(rows,cols,sa,b,view);}
        if((p*3+q)%61==0 && n<4) {mi_case<1,false,false,false,uchar,uchar>(cols,rows,a,b,view); mi_case<4,false,false,true,uchar,schar>(rows,cols,b,sa,view); mi_case<1,false,true,true,uchar,uchar>(rows,cols,a,b,view);}
    }}}
    // joint histograms of three inputs
    for(int p=0;p<729;++p) {int x=p; VI a,b,c; for(int i=0;i<2;++i) {a.push_back(x%3*4); x/=3; b.push_back(x%3-1); x/=3; c.push_back(x%3*100); x/=3;} a.push_back(0); b.push_back(1); c.push_back(100);
        auto d=lv::calcJointProbHist<2>(std::make_tuple(mk<uchar>(3,1,a),mkv<short>(3,1,b),mk<int>(3,1,c))); Joint j=ref_joint({a,b,c},2,{}); ctx().evals++; ctx().nontriv++; bool ok=d.nJointStates==j.joint.size(); for(auto& e : j.joint) ok=ok && std::abs(lv::getElem(d.oJointHist,e.first.data())-e.second/3.)<1e-5; for(int k=0;k<3;++k) ok=ok && d.aStates[k]==j.marg[k].size(); if(!ok) violation("joint-histogram-3",fmt("case %d",p));}
    VCHECK(refused([]{lv::calcMutualInfo(cv::Mat_<uchar>(2,2,(uchar)1),cv::Mat_<uchar>(2,3,(uchar)1));}),"mi-size-mismatch","2x2 and 2x3"); VCHECK(refused([]{lv::calcMutualInfo(cv::Mat_<uchar>(),cv::Mat_<uchar>());}),"mi-empty","");
    sample("all pairs of arrays of up to 4 elements over 3 values each; nine histogram configurations");
}
template<typename W> static double ref_window(const W& a, const cv::Mat& b, const cv::Rect& r, bool norm) {VI x,y; for(int i=r.y;i<r.y+r.height;++i) for(int j=r.x;j<r.x+r.width;++j) {x.push_back(a(i,j)); y.push_back(b.at<uchar>(i,j));} return ref_mi(ref_joint({x,y},1,{}),norm);}
static void mi_class() {
    for(int ww : {1,3,5}) for(int wh : {1,3,5}) for(int norm=0;norm<2;++norm) for(int dense=0;dense<2;++dense) for(int pair=0;pair<3;++pair) for(int kind : {0,2,3}) {
        mark("mi window %dx%d normalised %d dense %d pair %d",ww,wh,norm,dense,pair); if(dense && pair && (ww!=3 || wh!=1+2*norm || kind!=3)) continue; if(!ctx().thorough && (ww+wh)%4==2*norm && kind==2) continue;
        MutualInfo mi(cv::Size(ww,wh),norm!=0,dense!=0); std::string t=fmt("window %dx%d%s%s, pair kind %d, texture %d",ww,wh,norm?", normalised":"",dense?", dense":"",pair,kind);
        if(mi.windowSize()!=cv::Size(ww,wh) || mi.borderSize(0)!=ww/2 || mi.borderSize(1)!=wh/2) violation("mi-window",t);
        for(int rows=wh;rows<=wh+2;++rows) for(int cols=ww;cols<=ww+3;++cols) {
            auto quant=[](cv::Mat m){for(int y=0;y<m.rows;++y) for(int x=0;x<m.cols*m.channels();++x) m.ptr(y)[x]=(uchar)(m.ptr(y)[x]/100*4+((x+y)&1)); return m;};
            if(dense && pair && (rows!=wh+1 || cols!=ww+1)) continue; cv::Mat i1=quant(texture(rows,cols,pair==1?3:1,kind)),i2=quant(texture(rows,cols,pair==2?3:1,kind+3)); if(rows&1) {i1=as_view(i1,9); i2=as_view(i2,201);}
            cv::Mat b1=i1.clone(),b2=i2.clone(); const cv::Mat& col=pair==1?i1:i2; const cv::Mat& gry=pair==1?i2:i1; cv::Mat_<ushort> pk; cv::Mat_<uchar> g1; if(pair) pk=lv::cvtBGRToPackedYCbCr(col.clone()); else g1=i1.clone();
            auto exp=[&](cv::Rect r){return pair?ref_window(pk,gry,r,norm!=0):ref_window(g1,i2,r,norm!=0);};
            if(rows==wh && cols==ww) {double g=mi.compute(i1,i2),e=exp(cv::Rect(0,0,ww,wh)); ctx().evals++; ctx().nontriv++; if(std::abs(g-e)>1e-4) violation("mi-whole-window",fmt("%s: %g, expected %g",t.c_str(),g,e));}
            else VCHECK(refused([&]{mi.compute(i1,i2);}),"mi-wrong-size-accepted","%s, image %dx%d",t.c_str(),cols,rows);
            VK ok; for(int y4=-4;y4<=rows*4;++y4) for(int x4=-4;x4<=cols*4;++x4) { if(((y4|x4)&3) && (y4*3+x4+kind)%(dense?41:5)) continue;
                float x=x4/4.f,y=y4/4.f; VD half; cv::Rect r((int)std::round(x)-ww/2,(int)std::round(y)-wh/2,ww,wh); bool in=r.x>=0 && r.y>=0 && r.x+ww<=cols && r.y+wh<=rows; VK kp{cv::KeyPoint(cv::Point2f(x,y),3.f)}; VD out{7,8,9}; bool thr=refused([&]{mi.compute(i1,i2,kp,out);}); ctx().evals++;
                if(thr==in) {violation("mi-keypoint-range",fmt("%s, image %dx%d, keypoint (%g,%g) %s",t.c_str(),cols,rows,x,y,thr?"refused":"accepted")); continue;}
                if(in) {ctx().nontriv++; double e=exp(r); if(out.size()!=1 || std::abs(out[0]-e)>1e-4) violation("mi-keypoint",fmt("%s, image %dx%d, keypoint (%g,%g): %g, expected %g",t.c_str(),cols,rows,x,y,out.empty()?-1:out[0],e)); ok.push_back(kp[0]);}
            }
            VD all=mi.compute(i1,i2,ok); for(size_t i=0;i<ok.size();++i) {cv::Rect r((int)std::round(ok[i].pt.x)-ww/2,(int)std::round(ok[i].pt.y)-wh/2,ww,wh); if(std::abs(all[i]-exp(r))>1e-4) {violation("mi-keypoints",fmt("%s, image %dx%d, keypoint %zu of %zu",t.c_str(),cols,rows,i,ok.size())); break;}}
            if(cv::norm(b1,i1,cv::NORM_INF)!=0 || cv::norm(b2,i2,cv::NORM_INF)!=0) violation("mi-input-changed",t);
        }
        if(dense && pair) continue;
        VK many; for(int y=-2;y<20;++y) for(int x=-2;x<20;++x) many.push_back(cv::KeyPoint(cv::Point2f(x+0.4f,y-0.3f),1)); mi.validateKeyPoints(many,cv::Size(17,18)); cv::Mat A=texture(18,17,pair==1?3:1,0),B=texture(18,17,pair==2?3:1,1); if(many.empty() || refused([&]{mi.compute(A,B,many);})) violation("mi-validate-keypoints",t);
        cv::Mat roi(18,17,CV_8UC1,cv::Scalar(255)); roi.at<uchar>(9,8)=0; mi.validateROI(roi); VK rk; for(int y=0;y<18;++y) for(int x=0;x<17;++x) if(roi.at<uchar>(y,x)) rk.push_back(cv::KeyPoint(cv::Point2f((float)x,(float)y),1)); if(rk.empty() || roi.at<uchar>(9,8) || refused([&]{mi.compute(A,B,rk);})) violation("mi-validate-roi",t);
    }
    {MutualInfo m(cv::Size(3,3),false,false,false); cv::Mat c3=texture(3,3,3,0),c1=texture(3,3,1,0); VCHECK(refused([&]{m.compute(c3,c1);}),"mi-type-accepted","8UC3 without pair option"); MutualInfo m2(cv::Size(3,3)); VCHECK(refused([&]{m2.compute(c3,c3);}),"mi-type-accepted","two colour images"); VCHECK(refused([&]{cv::Mat f; c1.convertTo(f,CV_32F); m2.compute(f,c1);}),"mi-type-accepted","32F");}
    VCHECK(refused([]{MutualInfo m(cv::Size(2,3));}) && refused([]{MutualInfo m(cv::Size(3,4));}),"mi-even-window","");
    sample("windows 1-5 x 1-5, images up to 3 pixels larger, keypoints at quarter pixels including all outside positions");
}

// ---------------------------------------------------------------- local self-similarity
struct LssP {int in,out,patch,ang,rad; float noise; bool norm,pre,lien;};
static VD ref_lss(const cv::Mat& img, const LssP& P, const cv::Mat_<int>& lu, int y, int x) { // img already filtered
    int cn=img.channels(),pr=P.patch/2,R=P.out; VD d((size_t)(P.ang*P.rad),1e300);
    for(int dy=-R;dy<=R;++dy) for(int dx=-R;dx<=R;++dx) {int b=lu(dy+R,dx+R); if(b<0) continue; double s=0; for(int v=-pr;v<=pr;++v) for(int u=-pr;u<=pr;++u) for(int c=0;c<cn;++c) {double e=(double)img.ptr(y+dy+v)[(x+dx+u)*cn+c]-img.ptr(y+v)[(x+u)*cn+c]; s+=e*e;} d[b]=std::min(d[b],s);}
    for(double& v : d) v=v>1e299?0:std::exp(-v/P.noise); if(P.norm) normalise(d,1e-6); return d;
}
static void lss_check(const LssP& P, const cv::Mat& img, LSS& l, const std::string& t, bool view) {
    cv::Mat in=view?as_view(img,255-img.ptr(0)[0]):img,before=in.clone(),f; if(P.pre) cv::GaussianBlur(img.clone(),f,cv::Size(7,7),1.0); else f=img.clone();
    cv::Mat_<int> lu; lv::getLogPolarMask(2*P.out+1,P.rad,P.ang,lu,P.lien,(float)P.in); int B=l.borderSize(),n=P.ang*P.rad; double tol=2e-3;
    cv::Mat_<float> map; l.compute2(in,map); ctx().evals++; ctx().nontriv++;
    if(map.dims!=3 || map.size[0]!=img.rows || map.size[1]!=img.cols || map.size[2]!=n) {violation("lss-map-shape",t); return;}
    auto info=l.getOutputInfo(lv::MatInfo(in)); if(info.size!=lv::MatSize(map.size) || info.type()!=CV_32FC1) violation("lss-output-info",t);
    VK kps; for(int y=0;y<img.rows;++y) for(int x=0;x<img.cols;++x) kps.push_back(cv::KeyPoint(cv::Point2f((float)x,(float)y),1));
    VK k2=kps; cv::Mat desc; static_cast<cv::Feature2D&>(l).compute(in,k2,desc); ctx().evals++; VK k3=kps; cv::Mat_<float> kmap(3,std::array<int,3>{img.rows,img.cols,n}.data()); kmap=99.f; l.compute2(in,k3,kmap); VD border((size_t)n,0.0); if(P.norm) normalise(border,1e-6);
    size_t idx=0; for(int y=0;y<img.rows;++y) for(int x=0;x<img.cols;++x) {bool inside=y>=B && x>=B && y<img.rows-B && x<img.cols-B; VD e=inside?ref_lss(f,P,lu,y,x):border;
        if(maxdiff(map.ptr<float>(y,x),e)>tol) {violation(inside?"lss-dense":"lss-border",fmt("%s at (%d,%d): off by %g",t.c_str(),x,y,maxdiff(map.ptr<float>(y,x),e))); return;}
        if(maxdiff(kmap.ptr<float>(y,x),e)>tol) {violation("lss-keypoint-map",fmt("%s at (%d,%d): off by %g",t.c_str(),x,y,maxdiff(kmap.ptr<float>(y,x),e))); return;}
        if(inside) {if(idx>=k2.size() || k2[idx].pt!=cv::Point2f((float)x,(float)y) || (int)idx>=desc.rows || desc.cols!=n || maxdiff(desc.ptr<float>((int)idx),e)>tol) {violation("lss-keypoints",fmt("%s at (%d,%d)",t.c_str(),x,y)); return;} ++idx;}}
    if(k2.size()!=idx || k3.size()!=idx || desc.rows!=(int)idx) violation("lss-keypoint-filter",fmt("%s: %zu and %zu keypoints kept of %zu valid ones",t.c_str(),k2.size(),k3.size(),idx));
    if(cv::norm(before,in,cv::NORM_INF)!=0) violation("lss-input-changed",t);
}
static void lss() {
    std::vector<LssP> Ps; for(int lien=0;lien<2;++lien) for(int pre=0;pre<2;++pre) for(int norm=0;norm<2;++norm) for(int patch : {1,3}) for(int ang : {4,8,12}) for(int rad : {2,3}) for(float noise : {2000.f,300000.f}) Ps.push_back({lien && (ang+rad)%3==0?1:0,patch+1+rad%2,patch,ang,rad,noise,norm!=0,pre!=0,lien!=0});
    int i=0; for(auto& P : Ps) { std::string t0=fmt("radii %d-%d, patch %d, %d angular and %d radial bins, noise %g%s%s%s",P.in,P.out,P.patch,P.ang,P.rad,P.noise,P.norm?", normalised":"",P.pre?", filtered":"",P.lien?", log-polar rings":""); mark("lss %s",t0.c_str());
        LSS l(P.in,P.out,P.patch,P.ang,P.rad,P.noise,P.norm,P.pre,P.lien); int W=2*P.out+P.patch; if(l.windowSize()!=cv::Size(W,W) || l.borderSize()!=W/2 || l.descriptorSize()!=P.ang*P.rad*4 || l.isNormalizingBins()!=P.norm || l.isPreProcessing()!=P.pre || l.isUsingLienhartMask()!=P.lien || l.isUsingDynamicNoiseVarNorm()) violation("lss-parameters",t0);
        for(int dr=0;dr<=2;++dr) for(int dc=0;dc<=2;++dc) for(int cn : {1,3}) {++i; if(!ctx().thorough && (dr+dc*2+cn+i/7)%3) continue; lss_check(P,texture(W+dr,W+dc,cn,i),l,fmt("%s, image %dx%dx%d texture %d",t0.c_str(),W+dc,W+dr,cn,i%6),(i/2)%2!=0);}
        for(int cn : {1,3}) {cv::Mat flat(W+1,W+1,CV_8UC(cn),cv::Scalar::all(90)); lss_check(P,flat,l,t0+", flat image",false);}
        cv::Mat o; VCHECK(refused([&]{l.compute2(texture(W-1,W,1,0),o);}) && refused([&]{l.compute2(texture(W,W-1,1,0),o);}) && refused([&]{cv::Mat f(W,W,CV_32FC1,cv::Scalar(0)); l.compute2(f,o);}) && refused([&]{l.compute2(cv::Mat(),o);}),"lss-misuse-accepted","%s",t0.c_str());
        if(out_of_time()) return;
    }
    sample("192 parameter sets x image sizes up to 2 larger than the window x 1/3 channels x textures");
}
// ---------------------------------------------------------------- dense adaptive self-correlation
static const int RP1[256]={5,-9,-14,-5,10,0,-12,4,-4,-6,-13,-7,-6,-11,5,14,3,9,10,11,10,-2,15,3,6,5,14,5,14,-5,-9,-5,8,10,-8,-10,-3,-15,-11,6,12,4,9,3,-7,13,3,-15,-15,3,13,0,4,-12,-6,-11,12,-2,-4,-12,-5,14,-3,-15,10,-11,11,10,-10,0,-11,-10,-9,5,8,6,-12,-4,13,7,15,0,-15,3,5,14,-11,10,5,-6,-13,-7,3,-15,-9,-5,-6,-8,0,13,-7,13,-9,3,0,15,11,-6,10,11,5,14,-11,10,14,-5,8,10,0,15,-5,14,11,6,8,-6,-7,13,-13,0,-11,-6,-8,-13,2,12,-7,13,4,6,-10,-11,-6,-11,-10,-11,5,-9,-14,-5,-3,-15,-4,12,10,-2,13,7,-15,0,10,2,5,14,-5,-14,-13,0,5,-14,0,5,10,8,-12,4,-12,4,-10,8,-15,-3,14,5,-10,-8,15,0,-2,-10,-7,1,0,15,14,-5,3,-9,-13,0,0,15,2,12,-10,8,13,7,-5,-6,5,14,15,3,-8,-13,-9,3,-5,9,5,-9,0,-13,6,-11,15,3,0,-15,13,7,6,11,-2,10,-15,-3,6,-8,11,-6,-14,5,-5,-6,3,-7,-15,0,6,-8,14,5,0,13,};
static const int RP2[256]={0,-13,1,7,12,2,-10,-11,-3,-9,0,15,-11,10,-15,-3,-2,-12,-15,3,5,14,-12,2,15,0,-11,-6,-8,-6,-2,10,0,-8,-8,6,-4,-12,-9,-5,10,-8,5,-6,11,10,-13,0,12,2,-8,-13,-11,10,10,8,-10,11,0,-8,4,12,11,10,11,-10,6,-11,-3,9,-11,6,-14,5,8,13,0,-15,4,12,14,5,5,14,-10,-2,13,0,-15,-3,-3,15,7,-3,-14,5,13,7,4,-6,13,-8,-15,3,0,15,-14,-5,-14,-5,14,-5,5,-9,11,-6,-3,15,-10,-8,-3,15,14,5,10,-2,5,14,-3,-15,6,4,0,15,-5,14,11,6,-3,-7,-5,14,12,-4,8,-13,9,-3,7,1,-14,-5,-8,-10,8,10,0,15,-5,-14,0,-15,-8,6,-7,-3,8,6,0,-10,-7,-3,-11,-10,8,10,10,11,-15,0,-11,6,-2,10,-12,2,15,0,-10,8,10,-11,3,-7,-6,-8,9,3,5,-2,8,10,10,-2,14,-5,-10,-11,-13,-7,0,15,-6,11,-10,8,5,9,-3,15,-8,-6,-5,-14,3,15,12,-2,-4,-12,3,-4,8,-13,0,-13,0,-10,10,11,-5,-6,-13,7,-8,-10,-11,-10,5,14,8,-13,8,10,-15,-3,};

struct DascP {bool rf; float ss,sr; int it; int rad; float eps; int sub; bool pre;};
struct DascRef {
    int R,C; std::vector<VD> bins; std::vector<char> ok; // per pixel, before normalisation; ok=false where the definition is numerically unstable
    typedef cv::Mat_<double> M;
    static M rf(const M& in, const DascP& P, const M& ref) {
        M o=in.clone(); for(int it=0;it<P.it;++it) {double base=std::exp(-std::sqrt(2.0)/(P.ss*std::sqrt(3.0)*std::pow(2.0,P.it-(it+1))/std::sqrt(std::pow(4.0,P.it)-1)));
            for(int y=0;y<o.rows;++y) {auto a=[&](int x){return std::pow(base,1+P.ss/P.sr*std::abs(ref(y,x)-ref(y,x-1)));}; for(int x=1;x<o.cols;++x) o(y,x)+=a(x)*(o(y,x-1)-o(y,x)); for(int x=o.cols-2;x>=0;--x) o(y,x)+=a(x+1)*(o(y,x+1)-o(y,x));}
            for(int x=0;x<o.cols;++x) {auto a=[&](int y){return std::pow(base,1+P.ss/P.sr*std::abs(ref(y,x)-ref(y-1,x)));}; for(int y=1;y<o.rows;++y) o(y,x)+=a(y)*(o(y-1,x)-o(y,x)); for(int y=o.rows-2;y>=0;--y) o(y,x)+=a(y+1)*(o(y+1,x)-o(y,x));}}
        return o;
    }
    static M box(const M& in, int r) {M o(in.size()); auto rfl=[](int i, int n){if(n==1) return 0; while(i<0 || i>=n) i=i<0?-i:2*n-2-i; return i;}; for(int y=0;y<in.rows;++y) for(int x=0;x<in.cols;++x) {double s=0; for(int v=-r;v<=r;++v) for(int u=-r;u<=r;++u) s+=in(rfl(y+v,in.rows),rfl(x+u,in.cols)); o(y,x)=s/((2*r+1)*(2*r+1));} return o;}
    static M gf(const M& in, const DascP& P, const M& ref) { // in: filtered signal, ref: guide (the image)
        cv::Size sub(ref.cols/P.sub,ref.rows/P.sub); int r=P.rad/P.sub; M g,s; cv::resize(ref,g,sub,0,0,cv::INTER_NEAREST); cv::resize(in,s,sub,0,0,cv::INTER_NEAREST); M mg=box(g,r),ms=box(s,r),mgs=box(g.mul(s),r),mgg=box(g.mul(g),r),a(sub),b(sub);
        for(int y=0;y<sub.height;++y) for(int x=0;x<sub.width;++x) {a(y,x)=(mgs(y,x)-mg(y,x)*ms(y,x))/(mgg(y,x)-mg(y,x)*mg(y,x)+P.eps); b(y,x)=ms(y,x)-a(y,x)*mg(y,x);}
        M A,Bb; cv::resize(box(a,r),A,ref.size(),0,0,cv::INTER_LINEAR); cv::resize(box(b,r),Bb,ref.size(),0,0,cv::INTER_LINEAR); return M(A.mul(ref)+Bb);
    }
    DascRef(const cv::Mat& img, const DascP& P, bool everywhere) : R(img.rows), C(img.cols), bins((size_t)(R*C),VD(128,0.0)), ok((size_t)(R*C),1) {
        cv::Mat f; if(img.depth()==CV_8U) img.convertTo(f,CV_32F,1.0/255); else f=img.clone(); if(f.channels()==3) {cv::Mat g(f.size(),CV_32FC1); for(int y=0;y<R;++y) for(int x=0;x<C;++x) {auto v=f.at<cv::Vec3f>(y,x); g.at<float>(y,x)=0.114f*v[0]+0.587f*v[1]+0.299f*v[2];} f=g;} if(P.pre) {cv::Mat g; cv::GaussianBlur(f,g,cv::Size(7,7),1.0); f=g;}
        M I; f.convertTo(I,CV_64F); auto flt=[&](const M& m){return P.rf?rf(m,P,I):gf(m,P,I);}; M m1=flt(I),m2=flt(I.mul(I));
        for(int l=0;l<128;++l) {int dy=RP2[l*2]-RP1[l*2],dx=RP2[l*2+1]-RP1[l*2+1]; M L(R,C,0.0),L2(R,C,0.0),X(R,C,0.0); for(int y=0;y<R;++y) for(int x=0;x<C;++x) if(y+dy>=0 && y+dy<R && x+dx>=0 && x+dx<C) {double v=I(y+dy,x+dx); L(y,x)=v; L2(y,x)=v*v; X(y,x)=v*I(y,x);}
            M f1=flt(L),f2=flt(L2),fx=flt(X);
            for(int y=0;y<R;++y) for(int x=0;x<C;++x) {if(!everywhere && (y<15 || x<15 || y>=R-15 || x>=C-15)) continue; int oy=y+RP1[l*2],ox=x+RP1[l*2+1]; if(oy<=0 || ox<=0 || oy>=R || ox>=C) continue; double va=m2(oy,ox)-m1(oy,ox)*m1(oy,ox),vb=f2(oy,ox)-f1(oy,ox)*f1(oy,ox),p=va*vb,cov=fx(oy,ox)-m1(oy,ox)*f1(oy,ox);
                size_t k=(size_t)(y*C+x); if(p<0) {bins[k][l]=1; if(std::abs(va)<1e-5 || std::abs(vb)<1e-5) ok[k]=0;} else {double d=std::sqrt(p); if(d<2e-4 || std::abs(va)<2e-5 || std::abs(vb)<2e-5) ok[k]=0; bins[k][l]=d>1e-10?std::min(std::exp(-(1-cov/d)*2),1.0):1;}}}
    }
};
static std::unique_ptr<DASC> mk_dasc(const DascP& P) {return P.rf?std::make_unique<DASC>(P.ss,P.sr,(size_t)P.it,P.pre):std::make_unique<DASC>((size_t)P.rad,P.eps,(size_t)P.sub,P.pre);}
static void dasc_check(const DascP& P, const cv::Mat& img, DASC& d, const std::string& t, bool view, size_t& compared) {
    cv::Mat in=view?as_view(img,7):img,before=in.clone(); cv::Mat_<float> map; d.compute2(in,map); ctx().evals++; ctx().nontriv++; int R=img.rows,C=img.cols;
    if(map.dims!=3 || map.size[0]!=R || map.size[1]!=C || map.size[2]!=128) {violation("dasc-map-shape",t); return;}
    if(!all_finite(map)) {violation("dasc-not-finite",t); return;}
    for(int y=0;y<R;++y) for(int x=0;x<C;++x) {double n=0; for(int k=0;k<128;++k) n+=(double)map(y,x,k)*map(y,x,k); if(std::abs(n-1)>1e-3) {violation("dasc-not-normalised",fmt("%s at (%d,%d): %g",t.c_str(),x,y,n)); return;}}
    DascRef r(img,P,true); for(int y=0;y<R;++y) for(int x=0;x<C;++x) {size_t k=(size_t)(y*C+x); if(!r.ok[k]) continue; ++compared; VD e=r.bins[k]; normalise(e,1e-10); if(maxdiff(map.ptr<float>(y,x),e)>4e-3) {violation("dasc-dense",fmt("%s at (%d,%d): off by %g",t.c_str(),x,y,maxdiff(map.ptr<float>(y,x),e))); return;}}
    auto info=d.getOutputInfo(lv::MatInfo(in)); if(info.size!=lv::MatSize(map.size) || info.type()!=CV_32FC1) violation("dasc-output-info",t);
    VK k2; for(int y=0;y<R;++y) for(int x=0;x<C;++x) k2.push_back(cv::KeyPoint(cv::Point2f((float)x,(float)y),1)); cv::Mat desc; static_cast<cv::Feature2D&>(d).compute(in,k2,desc); ctx().evals++; size_t n=0; for(int y=15;y<R-15;++y) for(int x=15;x<C-15;++x,++n) if(n>=k2.size() || k2[n].pt!=cv::Point2f((float)x,(float)y) || desc.cols!=128 || (int)n>=desc.rows || memcmp(desc.ptr<float>((int)n),map.ptr<float>(y,x),512)) {violation("dasc-keypoints",fmt("%s at (%d,%d)",t.c_str(),x,y)); return;} if(k2.size()!=n) violation("dasc-keypoint-filter",t);
    if(cv::norm(before,in,cv::NORM_INF)!=0) violation("dasc-input-changed",t);
}
static void dasc(bool rf) {
    std::vector<DascP> Ps; if(rf) {for(float ss : {2.f,5.f}) for(float sr : {0.2f,1.f}) for(int it=1;it<=3;++it) for(int pre=0;pre<2;++pre) Ps.push_back({true,ss,sr,it,0,0,0,pre!=0});} else for(int rad=1;rad<=3;++rad) for(float eps : {0.09f,0.001f}) for(int sub=1;sub<=std::min(rad,2);++sub) for(int pre=0;pre<2;++pre) Ps.push_back({false,0,0,0,rad,eps,sub,pre!=0});
    size_t compared=0,total=0; int i=0; for(auto& P : Ps) {std::string t0=rf?fmt("recursive filter %g/%g, %d iterations%s",P.ss,P.sr,P.it,P.pre?", filtered":""):fmt("guided filter radius %d, epsilon %g, subsampling %d%s",P.rad,P.eps,P.sub,P.pre?", filtered":""); auto d=mk_dasc(P); if(d->isUsingRF()!=rf || d->isPreProcessing()!=P.pre || d->windowSize()!=cv::Size(31,31) || d->borderSize()!=15 || d->descriptorSize()!=512) violation("dasc-parameters",t0);
        static const int SZ[][2]={{31,31},{32,31},{31,33},{33,34}}; for(auto& s : SZ) for(int cn : {1,3}) {++i; if(!ctx().thorough && i%3) continue; mark("dasc %s %dx%dx%d",t0.c_str(),s[1],s[0],cn); cv::Mat m=texture(s[0],s[1],cn,i/3); if((i/3)%4==3) {cv::Mat f; m.convertTo(f,CV_MAKETYPE(CV_32F,cn),1/255.); m=f;} total+=(size_t)(s[0]*s[1]); dasc_check(P,m,*d,fmt("%s, image %dx%d, %d channels, texture %d",t0.c_str(),s[1],s[0],cn,(i/3)%6),(i/3)%2!=0,compared);}
        cv::Mat o; VCHECK(refused([&]{d->compute2(texture(30,40,1,0),o);}) && refused([&]{d->compute2(texture(40,30,1,0),o);}) && refused([&]{d->compute2(cv::Mat(),o);}),"dasc-misuse-accepted","%s",t0.c_str()); if(out_of_time()) return;
    }
    sample(fmt("%zu parameter sets, %zu of %zu positions compared with the definition",Ps.size(),compared,total));
}
// ---------------------------------------------------------------- shape context
struct ScP {bool rel; double in,out; int ang,rad; bool rot,norm,nz;};
static std::unique_ptr<ShapeContext> mk_sc(const ScP& P) {return P.rel?std::make_unique<ShapeContext>(P.in,P.out,(size_t)P.ang,(size_t)P.rad,P.rot,P.norm,P.nz):std::make_unique<ShapeContext>((size_t)P.in,(size_t)P.out,(size_t)P.ang,(size_t)P.rad,P.rot,P.norm,P.nz);}
static std::vector<cv::Point> contour_points(const cv::Mat& img) {cv::Mat b=img.clone()>0; std::vector<std::vector<cv::Point>> c; cv::findContours(b,c,cv::RETR_LIST,cv::CHAIN_APPROX_NONE); std::vector<cv::Point> o; for(auto& v : c) o.insert(o.end(),v.begin(),v.end()); return o;}
struct ScRef { // smallest and largest admissible count per bin (they differ only where a point sits on a bin limit up to rounding)
    std::vector<VD> lo,hi;
    ScRef(const std::vector<cv::Point>& pts, const std::vector<cv::Point2f>& keys, const ScP& P) {
        int n=P.ang*P.rad; double init=P.nz?std::max(10.0/n,0.5):0.0; cv::Mat_<int> lu; bool direct=!P.rel && !P.rot; if(direct) lv::getLogPolarMask(2*(int)P.out+1,P.rad,P.ang,lu,true,(float)P.in);
        double mean=0; for(auto& k : keys) for(auto& p : pts) mean+=std::hypot((double)k.x-p.x,(double)k.y-p.y); if(!pts.empty()) mean/=(double)(keys.size()*pts.size()); double cx=0,cy=0; for(auto& p : pts) {cx+=p.x; cy+=p.y;} if(!pts.empty()) {cx/=(double)pts.size(); cy/=(double)pts.size();}
        VD lim; for(int r=0;r<P.rad;++r) lim.push_back(P.rad==1?P.out:P.in*std::pow(P.out/P.in,r/(double)(P.rad-1)));
        for(auto& k : keys) {VD l((size_t)n,init),h((size_t)n,init);
            for(auto& p : pts) {
                if(direct) {int dy=(int)std::round(p.y-k.y),dx=(int)std::round(p.x-k.x),R=(int)P.out; if(std::abs(dy)>R || std::abs(dx)>R) continue; int b=lu(dy+R,dx+R); if(b>=0) {l[b]++; h[b]++;} continue;}
                double dx=(double)p.x-k.x,dy=(double)p.y-k.y; if(std::abs(dx)<0.01 && std::abs(dy)<0.01) continue; double d=std::hypot(dx,dy); if(P.rel) d/=mean+FLT_EPSILON;
                double a=std::atan2(-dy,dx); bool loose=false; if(P.rot) {a-=std::atan2(-(p.y-cy),p.x-cx); loose=true;} 
                auto angbins=[&]{std::set<int> s; for(double e : loose?VD{-3e-6,0,3e-6}:VD{1.2e-7}) {double v=std::fmod(a+e+4*CV_PI,2*CV_PI); s.insert(std::min((int)(v/(2*CV_PI)*P.ang),P.ang-1));} return s;}();
                auto radbins=[&]{std::set<int> s; for(double e : {-1e-6,1e-6}) {double v=d*(1+e); int b=-1; for(int r=0;r<P.rad;++r) if(v<lim[r]) {b=r; break;} s.insert(b);} if(!P.rel && d==lim[0]) {s.clear(); s.insert(P.rad>1?1:-1);} return s;}();
                bool sure=angbins.size()==1 && radbins.size()==1; for(int ab : angbins) for(int rb : radbins) if(rb>=0) {h[ab+rb*P.ang]++; if(sure) l[ab+rb*P.ang]++;}
            } lo.push_back(l); hi.push_back(h);}
    }
};
static std::string show(const cv::Mat& m) {std::string s; for(int y=0;y<m.rows;++y) {for(int x=0;x<m.cols;++x) s+=m.ptr(y)[x]?'#':'.'; s+='/';} return s;}
static bool sc_match(const float* d, const VD& lo, const VD& hi) {for(size_t i=0;i<lo.size();++i) if(!(d[i]>=lo[i]-1e-3 && d[i]<=hi[i]+1e-3)) return false; return true;}
// P.norm must be false; a second extractor with normalisation is compared with the normalised values of the first
struct Sc {ScP P; std::unique_ptr<ShapeContext> raw,nrm; std::string t; Sc(const ScP& p) : P(p) {P.norm=false; raw=mk_sc(P); ScP q=P; q.norm=true; nrm=mk_sc(q); t=fmt("%s radii %g-%g, %d angular and %d radial bins%s%s",P.rel?"relative":"absolute",P.in,P.out,P.ang,P.rad,P.rot?", rotation invariant":"",P.nz?"":", zero start");}};
static bool norm_ok(const float* r, const float* n, int c) {VD v(r,r+c); normalise(v,1e-5); return maxdiff(n,v)<1e-4;}
static void sc_check(Sc& s, const cv::Mat& img, const std::vector<cv::Point2f>& keys, bool view, bool dense) {
    cv::Mat in=view?as_view(img,1):img,before=in.clone(); auto pts=contour_points(img); int n=s.P.ang*s.P.rad; std::string t=s.t+", shape "+show(img);
    if(dense) {std::vector<cv::Point2f> all; for(int y=0;y<img.rows;++y) for(int x=0;x<img.cols;++x) all.push_back(cv::Point2f((float)x,(float)y)); ScRef r(pts,all,s.P); cv::Mat_<float> a,b; s.raw->compute2(in,a); s.nrm->compute2(in,b); ctx().evals+=2; ctx().nontriv+=!pts.empty();
        if(a.dims!=3 || a.size[0]!=img.rows || a.size[1]!=img.cols || a.size[2]!=n) {violation("sc-map-shape",t); return;} size_t k=0; for(int y=0;y<img.rows;++y) for(int x=0;x<img.cols;++x,++k) {if(!sc_match(a.ptr<float>(y,x),r.lo[k],r.hi[k])) {violation("sc-dense",fmt("%s at (%d,%d)",t.c_str(),x,y)); return;} if(!norm_ok(a.ptr<float>(y,x),b.ptr<float>(y,x),n)) {violation("sc-normalisation",fmt("%s at (%d,%d)",t.c_str(),x,y)); return;}}}
    if(!keys.empty()) {VK kp; for(auto& k : keys) kp.push_back(cv::KeyPoint(k,1)); ScRef r(pts,keys,s.P); VK k1=kp,k2=kp; cv::Mat d,dn; static_cast<cv::Feature2D&>(*s.raw).compute(in,k1,d); static_cast<cv::Feature2D&>(*s.nrm).compute(in,k2,dn); ctx().evals+=2; ctx().nontriv+=!pts.empty(); if(k1.size()!=keys.size() || d.rows!=(int)keys.size() || d.cols!=n) {violation("sc-keypoint-shape",t); return;} for(size_t k=0;k<keys.size();++k) {if(!sc_match(d.ptr<float>((int)k),r.lo[k],r.hi[k])) {violation("sc-keypoint",fmt("%s, keypoint (%g,%g)",t.c_str(),keys[k].x,keys[k].y)); return;} if(!norm_ok(d.ptr<float>((int)k),dn.ptr<float>((int)k),n)) {violation("sc-keypoint-normalisation",fmt("%s, keypoint (%g,%g)",t.c_str(),keys[k].x,keys[k].y)); return;}}}
    if(cv::norm(before,in,cv::NORM_INF)!=0) violation("sc-input-changed",t);
}
static std::vector<ScP> sc_params(int which) {
    std::vector<ScP> v; if(which==0) {for(int nz=0;nz<2;++nz) {for(int ang : {4,8,12}) for(int rad : {2,3,5}) v.push_back({false,1,(double)(rad+2),ang,rad,false,false,nz!=0}); v.push_back({false,2,9,12,3,false,false,nz!=0});}}
    else for(int nz=0;nz<2;++nz) {for(int rot=0;rot<2;++rot) for(int ang : {4,6,12}) for(int rad : {1,3,5}) v.push_back({true,0.15,(double)(ang==6?2:1),ang,rad,rot!=0,false,nz!=0}); for(int ang : {4,12}) for(int rad : {1,2,4}) v.push_back({false,2,6,ang,rad,true,false,nz!=0});}
    return v;
}
static void sc_shapes(int which) {
    auto Ps=sc_params(which); for(size_t pi=0;pi<Ps.size();++pi) {Sc s(Ps[pi]); mark("shape context %s",s.t.c_str()); if(s.raw->isNormalizingBins() || !s.nrm->isNormalizingBins() || s.raw->isNonZeroInitBins()!=s.P.nz || s.raw->descriptorSize()!=s.P.ang*s.P.rad*4) violation("sc-parameters",s.t);
        for(int p=0;p<512;++p) {if(!ctx().thorough && (p*3+(int)pi)%13) continue; int sz=5+(p+(int)pi)%5,oy=(p/3)%(sz-2),ox=(p/5)%(sz-2); cv::Mat m(sz,sz+p%3,CV_8UC1,cv::Scalar(0)); for(int b=0;b<9;++b) if((p>>b)&1) m.at<uchar>(oy+b/3,ox+b%3)=(uchar)(p%2?255:1);
            std::vector<cv::Point2f> keys; for(int k=0;k<9;++k) keys.push_back(cv::Point2f((float)((k*7+p)%m.cols),(float)((k*5+p/2)%m.rows))); if(p%4==0) for(auto& k : keys) {k.x=std::min(k.x+0.25f*(p%3),(float)m.cols-1); k.y=std::min(k.y+0.25f*((p/3)%3),(float)m.rows-1);} sc_check(s,m,keys,p%5==0,true);}
        for(int kind=0;kind<4;++kind) {cv::Mat m(23,21,CV_8UC1,cv::Scalar(0)); if(kind==0) cv::circle(m,{10,11},7,cv::Scalar(255),1); else if(kind==1) cv::rectangle(m,{3,4},{16,19},cv::Scalar(200),-1); else if(kind==2) {m.setTo(cv::Scalar(9)); cv::rectangle(m,{6,6},{12,9},cv::Scalar(0),-1);} std::vector<cv::Point2f> keys; for(auto& p : contour_points(m)) keys.push_back(cv::Point2f((float)p.x,(float)p.y)); sc_check(s,m,keys,kind==1,true);}
        // the cost map of the earth mover's distance
        cv::Mat_<float> c=s.raw->getEMDCostMap(); int n=s.P.ang*s.P.rad; bool ok=c.rows==n && c.cols==n; std::vector<cv::Point2d> ctr((size_t)n); VI cnt((size_t)n,0); double scale;
        if(!s.P.rel && !s.P.rot) {int R=(int)s.P.out; cv::Mat_<int> lu; lv::getLogPolarMask(2*R+1,s.P.rad,s.P.ang,lu,true,(float)s.P.in); for(int y=0;y<=2*R;++y) for(int x=0;x<=2*R;++x) if(lu(y,x)>=0) {ctr[lu(y,x)]+=cv::Point2d(x,y); cnt[lu(y,x)]++;} for(int i=0;i<n;++i) if(cnt[i]) ctr[i]*=1.0/cnt[i]; scale=R/2.0;}
        else {VD lim; for(int r=0;r<s.P.rad;++r) lim.push_back(s.P.rad==1?s.P.out:s.P.in*std::pow(s.P.out/s.P.in,r/(double)(s.P.rad-1))); for(int r=0;r<s.P.rad;++r) for(int a=0;a<s.P.ang;++a) {double rr=(lim[r]+(r?lim[r-1]:0))/2,aa=2*CV_PI/s.P.ang*(a+0.5); ctr[a+r*s.P.ang]=cv::Point2d(rr*std::cos(aa),rr*std::sin(aa));} scale=s.P.out/2;}
        for(int i=0;ok && i<n;++i) for(int j=0;j<n;++j) if(std::abs(c(i,j)-cv::norm(ctr[i]-ctr[j])/scale)>1e-4) {ok=false; break;} if(!ok) violation("sc-emd-costs",s.t);
        if(out_of_time()) return;
    }
    sample(fmt("%zu parameter sets x 512 (thorough) 3x3 shapes at varying places and 4 larger shapes; dense and keypoint descriptors",Ps.size()));
}
// ---------------------------------------------------------------- histories, keypoint positions, output matrices
struct Ext {std::string name; int W; std::function<std::unique_ptr<cv::Feature2D>()> mk; std::function<void(cv::Feature2D&,const cv::Mat&,cv::Mat&)> dense; std::function<void(cv::Feature2D&,const cv::Mat&,VK&,cv::Mat_<float>&)> kmap; std::function<void(cv::Feature2D&,const std::vector<cv::Mat>&,std::vector<cv::Mat_<float>>&)> batch; bool shape; int border;};
template<typename T> static Ext ext(const std::string& n, int W, std::function<std::unique_ptr<T>()> mk, bool shape, int border) {
    Ext e; e.name=n; e.W=W; e.shape=shape; e.border=border; e.mk=[mk]{return std::unique_ptr<cv::Feature2D>(mk().release());}; e.dense=[](cv::Feature2D& f, const cv::Mat& i, cv::Mat& o){dynamic_cast<T&>(f).compute2(i,o);}; e.kmap=[](cv::Feature2D& f, const cv::Mat& i, VK& k, cv::Mat_<float>& o){dynamic_cast<T&>(f).compute2(i,k,o);}; e.batch=[](cv::Feature2D& f, const std::vector<cv::Mat>& i, std::vector<cv::Mat_<float>>& o){dynamic_cast<T&>(f).compute2(i,o);}; return e;
}
static std::vector<Ext> exts() {
    std::vector<Ext> v; v.push_back(ext<LSS>("self-similarity",11,[]{return std::make_unique<LSS>(0,4,3,8,3,5000.f);},false,5)); v.push_back(ext<DASC>("recursive self-correlation",31,[]{return std::make_unique<DASC>(2.f,0.2f);},false,15)); v.push_back(ext<DASC>("guided self-correlation",31,[]{return std::make_unique<DASC>((size_t)2,0.09f);},false,15));
    v.push_back(ext<ShapeContext>("absolute shape context",5,[]{return std::make_unique<ShapeContext>((size_t)1,(size_t)4,(size_t)8,(size_t)3);},true,0)); v.push_back(ext<ShapeContext>("relative shape context",5,[]{return std::make_unique<ShapeContext>(0.2,1.5,(size_t)6,(size_t)3);},true,0)); v.push_back(ext<ShapeContext>("rotation invariant shape context",5,[]{return std::make_unique<ShapeContext>((size_t)1,(size_t)4,(size_t)8,(size_t)3,true);},true,0)); return v;
}
static cv::Mat input(const Ext& e, int k) {static const int D[][2]={{0,0},{2,1},{1,2},{2,1}}; int R=e.W+D[k][0],C=e.W+D[k][1]; cv::Mat m=texture(R,C,1,k==3?4:k); if(e.shape) {m=cv::Mat(R,C,CV_8UC1,cv::Scalar(0)); for(int y=0;y<R;++y) for(int x=0;x<C;++x) if(hsh((uint32_t)(y*31+x*7+k*101))%4==0) m.at<uchar>(y,x)=255;} return m;}
static std::string bytes(const cv::Mat& m) {if(m.empty()) return "empty"; cv::Mat c=m.isContinuous()?m:m.clone(); std::string s; for(int d=0;d<c.dims;++d) s+=fmt("%d,",c.size[d]); return s+std::string((const char*)c.data,c.total()*c.elemSize());}
static VK grid(const cv::Mat& m, int border) {VK k; for(int y=border;y<m.rows-border;++y) for(int x=border;x<m.cols-border;++x) if((y+x)%2==0) k.push_back(cv::KeyPoint(cv::Point2f((float)x,(float)y),1)); return k;}
// operations: 0-3 dense on input k, 4-7 keypoints on input k, 8 no keypoints on input 1, 9 keypoint map on input 2, 10 own keypoints with an all-zero mask on input 1, 11 refused call
static std::string op(const Ext& e, cv::Feature2D& f, int o, cv::Mat* reuse) {
    if(o<4) {cv::Mat m,in=input(e,o); e.dense(f,in,reuse?*reuse:m); return bytes(reuse?*reuse:m);}
    if(o<8) {cv::Mat in=input(e,o-4),d; VK k=grid(in,e.border); f.compute(in,k,d); return fmt("%zu ",k.size())+bytes(d);}
    if(o==8) {cv::Mat in=input(e,1),d; VK k; try {f.compute(in,k,d);} catch(const std::exception&) {return "refused";} return bytes(d);}
    if(o==9) {cv::Mat in=input(e,2); cv::Mat_<float> d; VK k=grid(in,e.border); e.kmap(f,in,k,d); return fmt("%zu ",k.size())+bytes(d);}
    if(o==10) {cv::Mat in=input(e,1),d,mask(in.size(),CV_8UC1,cv::Scalar(0)); VK k; f.detectAndCompute(in,mask,k,d,false); return fmt("%zu ",k.size())+bytes(d);}
    {cv::Mat m,in(40,40,CV_16SC2,cv::Scalar(0)); return refused([&]{e.dense(f,in,m);})?"refused":"accepted";}
}
static void histories(size_t from, size_t to) {
    auto es=exts(); for(size_t ei=from;ei<to;++ei) {auto& e=es[ei]; bool slow=e.W==31; VI ops=slow?VI{0,1,5,9,10,11}:VI{0,1,2,3,5,6,8,9,10,11}; std::map<int,std::string> fresh; for(int o : ops) {auto f=e.mk(); fresh[o]=op(e,*f,o,nullptr); auto g=e.mk(); if(op(e,*g,o,nullptr)!=fresh[o]) violation("descriptor-repeat",fmt("%s, operation %d",e.name.c_str(),o));} if(fresh[11]!="refused") violation("descriptor-misuse-accepted",e.name);
        int depth=slow?(ctx().thorough?3:2):3; size_t N=1; for(int i=0;i<depth;++i) N*=ops.size(); for(size_t h=0;h<N;++h) {auto f=e.mk(); cv::Mat reuse; size_t x=h; std::string hist; mark("%s history %zu/%zu",e.name.c_str(),h,N); for(int i=0;i<depth;++i,x/=ops.size()) {int o=ops[x%ops.size()]; hist+=fmt(" %d",o); std::string r=op(e,*f,o,(h&1)?&reuse:nullptr); ctx().evals++; ctx().nontriv++; if(r!=fresh[o]) {violation(fmt("descriptor-history %s%s",e.name.c_str(),(h&1)?" reused output":""),fmt("%s, operations%s%s: differs from a fresh extractor",e.name.c_str(),hist.c_str(),(h&1)?" into one matrix":"")); break;}} if(out_of_time()) return;}
        std::vector<cv::Mat> in{input(e,0),input(e,1),input(e,0)}; std::vector<cv::Mat_<float>> out(1); auto f=e.mk(); e.batch(*f,in,out); for(size_t i=0;i<3;++i) if(out.size()!=3 || bytes(out[i])!=fresh[(int)(i%2)]) {violation("descriptor-batch",e.name); break;}}
    sample("all operation histories up to depth 3 (2 for self-correlation) on one extractor");
}
static void positions(size_t from, size_t to) {
    auto es=exts(); for(size_t ei=from;ei<to;++ei) {auto& e=es[ei]; for(int k=0;k<(e.W==31?2:4);++k) {cv::Mat in=input(e,k),map; auto f=e.mk(); e.dense(*f,in,map); int n=map.size[2]; bool rel=e.name.find("relative")==0; int lo=e.border*4-6;
        for(int pass=0;pass<2;++pass) {VK kp; // quarter positions around the borders and inside, up to beyond the image
            for(int y4=lo;y4<=in.rows*4-lo;++y4) for(int x4=lo;x4<=in.cols*4-lo;++x4) {if(pass==0?((x4|y4)&3)!=0:((x4&y4)&1)!=0) continue; float x=x4/4.f,y=y4/4.f; if(x4%4==2 || y4%4==2 || x4%4==-2 || y4%4==-2) continue; kp.push_back(cv::KeyPoint(cv::Point2f(x,y),1));}
            if(rel) continue; VK all=kp; cv::Mat d; mark("%s keypoint positions %d/%d",e.name.c_str(),k,pass); f->compute(in,kp,d); ctx().evals++; ctx().nontriv++; size_t i=0;
            if(e.shape) { // shapes: also described from outside the image, exactly as within a larger image with an empty margin
                cv::Mat pad; cv::copyMakeBorder(in,pad,7,9,8,6,cv::BORDER_CONSTANT,cv::Scalar(0)); VK pk=all; for(auto& q : pk) q.pt+=cv::Point2f(8,7); cv::Mat dp; auto f2=e.mk(); f2->compute(pad,pk,dp); if(kp.size()!=all.size() || dp.rows!=d.rows || dp.cols!=d.cols) violation("keypoint-dropped",e.name); else for(int r=0;r<d.rows;++r) if(maxdiff(d.ptr<float>(r),VD(dp.ptr<float>(r),dp.ptr<float>(r)+dp.cols))>1e-4) {violation("keypoint-margin",fmt("%s: keypoint (%g,%g) of a %dx%d image is described differently with an empty margin around the image",e.name.c_str(),all[r].pt.x,all[r].pt.y,in.cols,in.rows)); break;}
            }
            else for(auto& q : all) {int x=(int)std::floor(q.pt.x+0.5f),y=(int)std::floor(q.pt.y+0.5f); bool valid=x>=e.border && y>=e.border && x<in.cols-e.border && y<in.rows-e.border; if(!valid) continue; if(i>=kp.size() || kp[i].pt!=q.pt) {violation("keypoint-kept",fmt("%s: keypoint (%g,%g) of a %dx%d image",e.name.c_str(),q.pt.x,q.pt.y,in.cols,in.rows)); break;}
                if(!e.shape && memcmp(d.ptr<float>((int)i),map.ptr<float>(y,x),n*sizeof(float)) && maxdiff(d.ptr<float>((int)i),VD(map.ptr<float>(y,x),map.ptr<float>(y,x)+n))>1e-5) {violation("keypoint-position",fmt("%s: keypoint (%g,%g) is not described like its pixel (%d,%d)",e.name.c_str(),q.pt.x,q.pt.y,x,y)); break;} ++i;}
            if(!e.shape && i!=kp.size()) violation("keypoint-dropped",fmt("%s: %zu keypoints kept, %zu are valid",e.name.c_str(),kp.size(),i));
            VK km=all; cv::Mat_<float> mp; if(!(e.W==31)) {e.kmap(*f,in,km,mp); if(mp.dims!=3 || mp.size[0]!=in.rows || mp.size[1]!=in.cols) violation("keypoint-map-shape",e.name);}
        }
        // masks and regions of interest: exactly the border is removed
        if(!e.shape) {VK dk; cv::Mat d,mask(in.size(),CV_8UC1,cv::Scalar(255)); mask.at<uchar>(in.rows/2,in.cols/2)=0; f->detectAndCompute(in,mask,dk,d,false); size_t exp=(size_t)((in.rows-2*e.border)*(in.cols-2*e.border)-1); if(dk.size()!=exp || d.rows!=(int)exp) violation("descriptor-mask",e.name);}
    }}
    sample("keypoints at all quarter positions around borders");
}
static void helpers() {
    LSS l(0,4,3,8,3); DASC d(2.f,0.2f); for(int which=0;which<2;++which) {int n=which?128:24,B=which?15:5; cv::Mat_<float> a(6,n),b(6,n); for(int i=0;i<6*n;++i) {((float*)a.data)[i]=(float)(hsh((uint32_t)i)%100)/50; ((float*)b.data)[i]=(float)(hsh((uint32_t)i+9999)%100)/50;} cv::Mat_<float> o; which?d.calcDistances(a,b,o):l.calcDistances(a,b,o); bool ok=o.rows==6 && o.cols==1; VD e; for(int r=0;r<6;++r) {double s=0; for(int c=0;c<n;++c) s+=std::pow((double)a(r,c)-b(r,c),2); e.push_back(std::sqrt(s)); double one=which?d.calcDistance(a.row(r),b.row(r)):l.calcDistance(a.row(r),b.row(r)); ok=ok && std::abs(o(r)-e[r])<1e-4 && std::abs(one-e[r])<1e-4;} 
        cv::Mat ra=a.clone(); which?DASC::reshapeDesc(cv::Size(3,2),ra):l.reshapeDesc(cv::Size(3,2),ra); cv::Mat rb=b.clone(); which?DASC::reshapeDesc(cv::Size(3,2),rb):l.reshapeDesc(cv::Size(3,2),rb); cv::Mat_<float> fa=ra,fb=rb; which?d.calcDistances(fa,fb,o):l.calcDistances(fa,fb,o); ok=ok && o.rows==2 && o.cols==3; for(int i=0;ok && i<6;++i) ok=std::abs(o(i/3,i%3)-e[i])<1e-4; ctx().evals++; ctx().nontriv++; if(!ok) violation("descriptor-distances",which?"dasc":"lss");
        for(int R=2*B+1;R<=2*B+3;++R) for(int C=2*B+1;C<=2*B+4;++C) {cv::Mat roi(R,C,CV_8UC1,cv::Scalar(200)); roi.at<uchar>(B,B)=0; which?DASC::validateROI(roi):l.validateROI(roi); bool ok2=true; for(int y=0;y<R;++y) for(int x=0;x<C;++x) {int v=y>=B && x>=B && y<R-B && x<C-B && (y!=B || x!=B)?200:0; if(roi.at<uchar>(y,x)!=v) ok2=false;} ctx().evals++; if(!ok2) violation("descriptor-roi",fmt("%s %dx%d",which?"dasc":"lss",C,R)); VK k; for(int y=0;y<R;++y) for(int x=0;x<C;++x) k.push_back(cv::KeyPoint(cv::Point2f((float)x,(float)y),1)); which?DASC::validateKeyPoints(k,cv::Size(C,R)):l.validateKeyPoints(k,cv::Size(C,R)); if(k.size()!=(size_t)((R-2*B)*(C-2*B))) violation("descriptor-keypoint-filter",which?"dasc":"lss");}}
    {ShapeContext s((size_t)1,(size_t)4,(size_t)4,(size_t)2); for(int p=1;p<256;++p) for(int q : {1,37,128,255}) {float a[8],b[8]; VD va,vb; double sa=0,sb=0; for(int i=0;i<8;++i) {a[i]=(float)((p>>i)&1); b[i]=(float)((q>>i)&1); sa+=a[i]; sb+=b[i];} double l2=0; for(int i=0;i<8;++i) l2+=(a[i]-b[i])*(a[i]-b[i]); ctx().evals++; ctx().nontriv++; if(std::abs(s.calcDistance_L2(a,b)-std::sqrt(l2))>1e-5) violation("sc-l2",fmt("%d %d",p,q)); cv::Mat_<float> A(8,1,a),Bm(8,1,b); double e=s.calcDistance_EMD(a,b),r=cv::EMD(A,Bm,cv::DIST_USER,s.getEMDCostMap()); if(std::abs(e-r)>1e-5 || (p==q && e>1e-5) || (p!=q && sa==sb && !(e>0))) violation("sc-emd",fmt("%d %d: %g, expected %g",p,q,e,r));}}
    // local differences
    for(int R=2;R<=5;++R) for(int C=2;C<=5;++C) for(int view=0;view<2;++view) {cv::Mat_<float> m(R,C); for(int i=0;i<R*C;++i) m(i/C,i%C)=(float)(hsh((uint32_t)(i+R*C))%90); cv::Mat_<float> in=m; if(view) {cv::Mat_<float> b(R+2,C+2,5.f); in=b(cv::Rect(1,1,C,R)); m.copyTo(in);} cv::Mat_<float> o(R,C,77.f); auto chk=[&](int dr,int dc,const char* w){for(int y=0;y<R;++y) for(int x=0;x<C;++x) {float e=y>=dr && x>=dc?m(y-dr,x-dc)-m(y,x):0; if(o(y,x)!=e) {violation("local-difference",fmt("%s %dx%d at (%d,%d): %g, expected %g",w,C,R,x,y,o(y,x),e)); return;}}}; ctx().evals+=4; ctx().nontriv+=4; lv::localDiff<1,0>(in,o); chk(1,0,"1,0"); lv::localDiff<0,1>(in,o); chk(0,1,"0,1"); lv::localDiff<1,1>(in,o); chk(1,1,"1,1"); lv::localDiff<2,1>(in,o); chk(2,1,"2,1");}
    sample("distances, reshaping, regions of interest, keypoint filters, local differences");
}
static void large() {
    // mutual information of whole images
    for(auto z : {std::make_pair(40,25),std::make_pair(3,400),std::make_pair(300,2),std::make_pair(64,65),std::make_pair(111,90)}) for(int k=0;k<4;++k) {
        int n=z.first*z.second; VI a((size_t)n),b((size_t)n); for(int i=0;i<n;++i) {uint32_t h=hsh((uint32_t)(i*13+k)); a[i]=(int)(h%(k==0?3:k==1?256:40)); b[i]=k==2?a[i]/2:(a[i]+(int)((h>>9)%5))%256;} mark("mi %dx%d kind %d",z.second,z.first,k);
        mi_case<1,true,false,false,uchar,uchar>(z.first,z.second,a,b,k&1); mi_case<1,false,false,false,uchar,uchar>(z.first,z.second,a,b,!(k&1)); mi_case<4,true,false,false,ushort,int>(z.first,z.second,a,b,false); mi_case<2,false,true,false,uchar,uchar>(z.first,z.second,a,b,false); mi_case<3,true,true,true,uchar,ushort>(z.first,z.second,a,b,k==3);
    }
    // self-similarity: the default parameters and images well beyond the window
    {LssP D{0,20,5,12,3,300000.f,true,true,true}; LSS l(D.in,D.out,D.patch,D.ang,D.rad,D.noise,D.norm,D.pre,D.lien); mark("lss default"); lss_check(D,texture(51,57,1,1),l,"default radii, image 57x51",false); lss_check(D,texture(49,60,3,2),l,"default radii, image 60x49x3",true);}
    for(int k=0;k<4;++k) {LssP P{k==1?1:0,5+k,3,8,3,20000.f,k!=2,k!=1,k!=3}; LSS l(P.in,P.out,P.patch,P.ang,P.rad,P.noise,P.norm,P.pre,P.lien); mark("lss large %d",k); lss_check(P,texture(k%2?40:90,k%2?101:33,k/2?3:1,k),l,fmt("large image, parameter set %d",k),k==3);}
    // self-correlation
    size_t cmp=0; {DascP P{true,2.f,0.2f,2,0,0,0,true}; auto d=mk_dasc(P); mark("dasc large"); dasc_check(P,texture(45,70,1,1),*d,"recursive filter, 70x45",false,cmp); DascP G{false,0,0,0,2,0.09f,1,true}; auto g=mk_dasc(G); dasc_check(G,texture(64,40,3,2),*g,"guided filter, 40x64",true,cmp); DascP H{false,0,0,0,4,0.05f,2,false}; auto h=mk_dasc(H); dasc_check(H,texture(50,52,1,3),*h,"guided filter subsampled, 52x50",false,cmp);}
    // shape contexts
    for(int q=0;q<4;++q) {ScP P{q==1 || q==3,q==1 || q==3?0.1:2,q==1 || q==3?2.0:20,12,5,q>=2,false,q%2!=0}; Sc s(P); for(int kind=0;kind<4;++kind) {mark("shape context large %d/%d",q,kind); cv::Mat m(kind%2?90:61,kind%2?70:120,CV_8UC1,cv::Scalar(0)); if(kind==0) cv::circle(m,{50,30},23,cv::Scalar(255),1); else if(kind==1) {cv::rectangle(m,{3,4},{50,70},cv::Scalar(200),-1); cv::rectangle(m,{60,60},{68,88},cv::Scalar(255),1);} else if(kind==2) {m.setTo(cv::Scalar(9)); cv::rectangle(m,{16,16},{82,39},cv::Scalar(0),-1); cv::line(m,{20,20},{80,30},cv::Scalar(255));} else for(int i=0;i<150;++i) m.at<uchar>((int)(hsh((uint32_t)i)%90),(int)(hsh((uint32_t)i+5555)%70))=255;
        std::vector<cv::Point2f> keys; auto cp=contour_points(m); for(size_t i=0;i<cp.size();i+=1+cp.size()/120) keys.push_back(cv::Point2f((float)cp[i].x,(float)cp[i].y)); sc_check(s,m,keys,kind==1,q==0 && kind<2);}}
    sample(fmt("images up to 120x90, default parameters, %zu self-correlation positions compared",cmp));
}
int main(int argc, char** argv) {
    init(argc,argv);
    if(is_part("mi-pairs")) mi_pairs();
    if(is_part("mi-class")) mi_class();
    if(is_part("lss")) lss();
    if(is_part("dasc-rf")) dasc(true);
    if(is_part("dasc-gf")) dasc(false);
    if(is_part("sc-absolute")) sc_shapes(0);
    if(is_part("sc-maps")) sc_shapes(1);
    if(is_part("feat-history0")) histories(0,2);
    if(is_part("feat-history1")) histories(2,4);
    if(is_part("feat-history2")) histories(4,6);
    if(is_part("feat-positions")) {positions(0,6); helpers();}
    if(is_part("feat-large")) large();
    return finish();
}
