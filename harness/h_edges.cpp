// P20: edge detectors (multi-scale LBSP gradients, Canny) against reference implementations of their definitions.
#include "litiv/imgproc.hpp"
#include "../mc/report.hpp"
#include <cmath>
using namespace vr;
typedef std::vector<int> VI;
template<typename F> static bool refused(F f) {try {f();} catch(const std::exception&) {return true;} return false;}
static bool same(const cv::Mat& a, const cv::Mat& b) {if(a.type()!=b.type() || a.size()!=b.size()) return false; for(int y=0;y<a.rows;++y) if(memcmp(a.ptr(y),b.ptr(y),a.cols*a.elemSize())) return false; return true;}

// the sixteen comparison positions (column, row) of the double cross, any order
static const int PAT[16][2]={{-2,0},{2,0},{0,-2},{0,2},{-2,2},{2,-2},{2,2},{-2,-2},{0,1},{-1,0},{0,-1},{1,0},{-1,-1},{1,1},{1,-1},{-1,1}};
static int sgn(int v) {return (v>0)-(v<0);}
struct G {int x,y,m;};
static G grad(const cv::Mat& img, int y, int x) { // strongest channel (the last one on ties, then the first): number of differing neighbours, and on which side they lie
    if(x<2 || y<2 || x>=img.cols-2 || y>=img.rows-2) return {0,0,0};
    int cn=img.channels(); G best{0,0,-1}; VI order{cn-1}; for(int c=0;c<cn-1;++c) order.push_back(c);
    for(int c : order) {int ref=img.ptr(y)[x*cn+c],t=(ref/4+20)/2; G g{0,0,0}; for(auto& p : PAT) if(std::abs(img.ptr(y+p[1])[(x+p[0])*cn+c]-ref)>t) {g.m++; g.x-=sgn(p[0]); g.y+=sgn(p[1]);} if(g.m>best.m) best=g;}
    return best;
}
struct RefLBSP {
    int rows,cols; std::vector<G> map; // gradients of the finest level, already limited by the coarser ones
    RefLBSP(const cv::Mat& in, int levels) : rows(in.rows), cols(in.cols) {
        std::vector<cv::Mat> pyr{in}; for(int l=1;l<levels;++l) {const cv::Mat& p=pyr.back(); int cn=p.channels(); cv::Mat n((p.rows+1)/2,(p.cols+1)/2,p.type()); for(int y=0;y<p.rows;y+=2) for(int x=0;x<p.cols;x+=2) for(int c=0;c<cn;++c) {int s=0; if(x<2 || y<2 || x>=p.cols-2 || y>=p.rows-2) s=p.ptr(y)[x*cn+c]*16; else for(auto& q : PAT) s+=p.ptr(y+q[1])[(x+q[0])*cn+c]; n.ptr(y/2)[x/2*cn+c]=(uchar)(s/16);} pyr.push_back(n);}
        std::vector<G> up; int upc=0;
        for(int l=levels-1;l>=0;--l) {const cv::Mat& p=pyr[l]; std::vector<G> cur(p.rows*p.cols); for(int y=0;y<p.rows;++y) for(int x=0;x<p.cols;++x) {G g=grad(p,y,x); if(!up.empty()) {const G& u=up[(y/2)*upc+x/2]; if(std::abs(u.x)<std::abs(g.x)) g.x=u.x; if(std::abs(u.y)<std::abs(g.y)) g.y=u.y; g.m=std::min(g.m,u.m);} cur[y*p.cols+x]=g;} up.swap(cur); upc=p.cols;}
        map.swap(up);
    }
    int mag(int y,int x) const {return y<0 || x<0 || y>=rows || x>=cols?0:map[y*cols+x].m;}
    bool peak(int y,int x,int dx,int dy) const {int m=mag(y,x); for(int k=1;k<=2;++k) if(mag(y-k*dy,x-k*dx)>=m || mag(y+k*dy,x+k*dx)>m) return false; return true;}
    bool ridge(int y,int x) const {const G& g=map[y*cols+x]; double ax=std::abs(g.x),ay=std::abs(g.y); if(!g.x && !g.y) return peak(y,x,-1,1) || peak(y,x,1,1); if(ay<ax*(std::sqrt(2.)-1)) return peak(y,x,1,0); if(ay>ax*(std::sqrt(2.)+1)) return peak(y,x,0,1); return peak(y,x,(g.x>0)==(g.y>0)?-1:1,1);} // positive x is to the left, positive y is down
    cv::Mat edges(int high, int low) const {
        cv::Mat out(rows,cols,CV_8UC1,cv::Scalar(0)); std::vector<char> cand(rows*cols,0); std::vector<int> st; for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) if(mag(y,x)>=low && ridge(y,x)) {cand[y*cols+x]=1; if(mag(y,x)>=high) {st.push_back(y*cols+x); out.at<uchar>(y,x)=255;}}
        while(!st.empty()) {int p=st.back(); st.pop_back(); for(int dy=-1;dy<=1;++dy) for(int dx=-1;dx<=1;++dx) {int y=p/cols+dy,x=p%cols+dx; if(y<0 || x<0 || y>=rows || x>=cols || !cand[y*cols+x] || out.at<uchar>(y,x)) continue; out.at<uchar>(y,x)=255; st.push_back(y*cols+x);}}
        return out;
    }
};
static std::string diff(const cv::Mat& g, const cv::Mat& e) {if(g.size()!=e.size() || g.type()!=e.type()) return fmt("%dx%d type %d instead of %dx%d type %d",g.cols,g.rows,g.type(),e.cols,e.rows,e.type()); for(int y=0;y<g.rows;++y) for(int x=0;x<g.cols;++x) if(g.at<uchar>(y,x)!=e.at<uchar>(y,x)) return fmt("pixel (%d,%d) is %d, expected %d",x,y,g.at<uchar>(y,x),e.at<uchar>(y,x)); return "";}
static std::map<std::pair<int,int>,std::shared_ptr<EdgeDetectorLBSP>> g_dets; // reused over all images
static const double FACT[]={0.5,0.25,0.99};
static EdgeDetectorLBSP& det(int levels, int f) {auto& p=g_dets[{levels,f}]; if(!p) p=std::make_shared<EdgeDetectorLBSP>((size_t)levels,FACT[f]); return *p;}
static void lbsp_case(const std::string& id, const cv::Mat& in, int levels, int f, const VI& thrs, int outmode, bool conf=false) {
    RefLBSP ref(in,levels); cv::Mat keep=in.clone(); EdgeDetectorLBSP& d=det(levels,f);
    auto prep=[&](){return outmode==0?cv::Mat():outmode==1?cv::Mat(in.size(),CV_8UC1,cv::Scalar(93)):cv::Mat(3,9,CV_32FC1,cv::Scalar(1));};
    for(int t : thrs) {cv::Mat out=prep(); d.apply_threshold(in,out,t<0?-0.5:t>16?1.5:t/16.0); int h=t<0 || t>16?8:t; cv::Mat e=ref.edges(h,(int)(h*FACT[f])); ctx().evals++; if(cv::countNonZero(e)) ctx().nontriv++; std::string s=diff(out,e); if(!s.empty()) {violation("lbsp-edges",fmt("%s, %d levels, threshold %d/16, factor %g: %s",id.c_str(),levels,t,FACT[f],s.c_str())); return;}}
    if(conf) {cv::Mat out=prep(); d.apply(in,out); cv::Mat e(in.size(),CV_8UC1,cv::Scalar(0)); for(int t=0;t<16;++t) {cv::Mat m=ref.edges(t,(int)(t*FACT[f])); for(int i=0;i<in.rows*in.cols;++i) if(m.data[i]) e.data[i]=(uchar)std::min(255,e.data[i]+16);} ctx().evals++; std::string s=diff(out,e); if(!s.empty()) {violation("lbsp-confidence",fmt("%s, %d levels: %s",id.c_str(),levels,s.c_str())); return;}
        if(f==0) {static std::map<int,std::shared_ptr<EdgeDetectorLBSP>> nd; auto& n=nd[levels]; if(!n) n=std::make_shared<EdgeDetectorLBSP>((size_t)levels,0.5,true); cv::Mat o2; n->apply(in,o2); double mn,mx; cv::minMaxLoc(e,&mn,&mx); bool ok=o2.size()==e.size() && o2.type()==CV_8UC1; for(int y=0;ok && y<e.rows;++y) for(int x=0;x<e.cols;++x) {double w=mx>mn?(e.at<uchar>(y,x)-mn)*255/(mx-mn):o2.at<uchar>(0,0); if(std::abs(o2.at<uchar>(y,x)-w)>1) ok=false;} if(!ok) violation("lbsp-normalised",fmt("%s, %d levels",id.c_str(),levels));}}
    if(!same(in,keep)) violation("edges-input",id);
}
static cv::Mat img(int r, int c, int cn, std::function<int(int,int,int)> f) {cv::Mat m(r,c,CV_8UC(cn)); for(int y=0;y<r;++y) for(int x=0;x<c;++x) for(int k=0;k<cn;++k) m.ptr(y)[x*cn+k]=(uchar)f(y,x,k); return m;}
static int scene(int s, int y, int x, int k, int r, int c) {
    switch(s) {case 0: return 90; case 1: return x<c/2?30:200; case 2: return y<r/2?200-k*50:30; case 3: return x+y<(r+c)/2?20:90+k*40; case 4: return x-y<(c-r)/2?250:120; case 5: return x*9+y*5; case 6: return std::abs(x-c/2)<=2 && std::abs(y-r/2)<=2?220:60; case 7: return (x-c/2)*(x-c/2)+(y-r/2)*(y-r/2)<(r*r+c*c)/20?10+k*30:150; case 8: return ((x/3+y/2)&1)*(80+k*30)+20; default: {unsigned h=(y/(s-8)*131u+x/(s-8)*71u+k*17u+s*977u)*2654435761u; return (h>>23)&255;}}
}
static void sizes(int lo) {
    int top=ctx().thorough?20:13; for(int r=1;r<=top;++r) for(int c=1;c<=top;++c) for(int cn=1;cn<=4;++cn) for(int lv=1;lv<=4;++lv) for(int s=0;s<11;++s) {if((r*7+c*3+cn+lv+s)%2!=lo) continue; mark("size %dx%d, %d channels, %d levels, scene %d",c,r,cn,lv,s); lbsp_case(fmt("scene %d of %dx%d, %d channels",s,c,r,cn),img(r,c,cn,[&](int y,int x,int k){return scene(s,y,x,k,r,c);}),lv,(r+c)%3,{0,1,8,16,-1,17},s%3,(r+c+s)%5==0);}
    sample("all sizes from 1x1 to 13x13 (20x20 in the thorough tier) x 1-4 channels x 1-4 levels x 11 scenes x 6 thresholds, detectors reused throughout");
}
static void patterns() {
    VI all; for(int t=0;t<=16;++t) all.push_back(t);
    for(int p=0;p<512;++p) {mark("pattern %d",p); for(int v=0;v<4;++v) {static const int A[]={40,40,200,0},B[]={140,58,60,255}; cv::Mat m=img(7,7,1,[&](int y,int x,int){bool in=x>=2 && y>=2 && x<5 && y<5; return in && ((p>>((y-2)*3+x-2))&1)?B[v]:A[v];}); lbsp_case(fmt("3x3 pattern %d of %d on %d",p,B[v],A[v]),m,1,p%3,v==0?all:VI{1,4,8},0);}}
    for(int p=0;p<65536;p+=ctx().thorough?1:11) {if(out_of_time()) break; mark("4x4 pattern %d",p); cv::Mat m=img(8,8,1,[&](int y,int x,int){bool in=x>=2 && y>=2 && x<6 && y<6; return in && ((p>>((y-2)*4+x-2))&1)?150:45;}); lbsp_case(fmt("4x4 pattern %d",p),m,1,p%3,{2,5,8,11},0);}
    for(int p=0;p<65536;p+=ctx().thorough?3:61) {if(out_of_time()) break; mark("half pattern %d",p); cv::Mat m=img(9,10,1,[&](int y,int x,int){return (p>>((y/3*4+x/3)%16))&1?190:y*6+20;}); lbsp_case(fmt("coarse pattern %d",p),m,1,p%3,{1,6,8,10},0);}
    sample("all 512 3x3 patterns x 4 contrasts x all thresholds; all 65536 4x4 patterns (every 11th in the quick tier); coarse block patterns");
}
static void scales() {
    for(int lv=2;lv<=4;++lv) {int b=lv==2?12:lv==3?20:38; int top=b+(ctx().thorough?6:3); for(int r=b;r<=top;++r) for(int c=b;c<=top+(lv<4?2:0);++c) for(int s=0;s<15;++s) {if(lv==4 && (s+r+c)%3) continue; mark("%d levels %dx%d scene %d",lv,c,r,s); int cn=1+(r+c+s)%4; lbsp_case(fmt("scene %d of %dx%d, %d channels",s,c,r,cn),img(r,c,cn,[&](int y,int x,int k){return scene(s,y,x,k,r,c);}),lv,(r+s)%3,{1,4,8,12},0,(r+c+s)%7==0);}}
    for(int p=0;p<65536;p+=ctx().thorough?5:67) {if(out_of_time()) break; mark("blocks %d",p); cv::Mat m=img(17,16,1,[&](int y,int x,int){return (p>>((y/4%4)*4+x/4))&1?170:50;}); lbsp_case(fmt("blocks %d",p),m,2,p%3,{2,6,8},0); cv::Mat m3=img(29,30,1,[&](int y,int x,int){return (p>>((y/7%4)*4+x/8))&1?170:50;}); lbsp_case(fmt("large blocks %d",p),m3,3,p%3,{2,6,8},0);}
    sample("sizes around the smallest ones with edges at 2-4 levels x 15 scenes; all 65536 4x4 block layouts at two sizes (strided)");
}
static void dense() { // many separate edges at once
    for(int r : {64,97}) for(int c : {60,101}) for(int py=1;py<=6;++py) for(int px=1;px<=6;++px) for(int s=0;s<3;++s) {mark("dense %dx%d period %dx%d kind %d",c,r,px,py,s); cv::Mat m=img(r,c,s==2?3:1,[&](int y,int x,int k){bool dot=y%py==0 && (x+(s?y/py:0)*(px/2))%px==0; return s==1?(dot?(y*7+x*13)%120+130:20):dot?200-k*10:(y/py*3+x/px)%4*9;}); lbsp_case(fmt("dense kind %d, period %dx%d, %dx%d",s,px,py,c,r),m,1+(px+py)%2,(px+py+s)%3,{0,1,4,8},0);}
    for(int s=9;s<(ctx().thorough?40:16);++s) {mark("dense noise %d",s); cv::Mat m=img(120,110,1,[&](int y,int x,int){unsigned h=(unsigned)(y*131+x*71+s*977)*2654435761u; return (int)((h>>23)&255);}); lbsp_case(fmt("noise %d",s),m,1,s%3,{0,1,3,6,9},0);}
    sample("images of 60x64 to 110x120 with up to every second pixel on an edge: grids of every period up to 6x6 and noise");
}
static void lbsp_refuse() {
    for(double f : {0.,1.,-1.,2.}) if(!refused([&]{EdgeDetectorLBSP e(3,f);})) violation("lbsp-ctor",fmt("factor %g accepted",f)); if(!refused([]{EdgeDetectorLBSP e(0);})) violation("lbsp-ctor","no level accepted");
    EdgeDetectorLBSP e; if(e.getDefaultThreshold()!=0.5) violation("lbsp-default",""); cv::Mat o; for(int t : {CV_16UC1,CV_8SC1,CV_32FC1,CV_8UC(5)}) {cv::Mat m(20,20,t); memset(m.data,1,m.total()*m.elemSize()); if(!refused([&]{e.apply(m,o);}) || !refused([&]{e.apply_threshold(m,o);})) violation("lbsp-type",fmt("type %d accepted",t));} if(!refused([&]{e.apply(cv::Mat(),o);}) || !refused([&]{e.apply_threshold(cv::Mat(),o);})) violation("lbsp-empty","");
}

// ---------------------------------------------------------------- Canny
static void canny_case(const std::string& id, const cv::Mat& in, double fact, double sigma, const std::vector<double>& thrs, int outmode, bool conf) {
    EdgeDetectorCanny d(fact,sigma); cv::Mat own=in.clone(), sm=own.clone(); if(sigma>0) {int k=(int)std::ceil(sigma)*4-1; cv::GaussianBlur(own,sm,cv::Size(k,k),sigma,sigma);}
    auto canny=[&](double t){cv::Mat e; cv::Canny(sm,e,t*fact,t,3,true); return e;}; auto prep=[&](){return outmode==0?cv::Mat():outmode==1?cv::Mat(in.size(),CV_8UC1,cv::Scalar(93)):cv::Mat(3,9,CV_32FC1,cv::Scalar(1));};
    for(double t : thrs) {cv::Mat out=prep(); d.apply_threshold(in,out,t); cv::Mat e=canny(t<0?100:t); ctx().evals++; if(cv::countNonZero(e)) ctx().nontriv++; std::string s=diff(out,e); if(!s.empty()) {violation("canny",fmt("%s, factor %g, sigma %g, threshold %g: %s",id.c_str(),fact,sigma,t,s.c_str())); return;}}
    if(conf) {cv::Mat out=prep(); d.apply(in,out); cv::Mat_<int> n(in.size(),0); for(int t=0;t<255;++t) {cv::Mat m=canny(t); for(int i=0;i<in.rows*in.cols;++i) if(m.data[i]) ((int*)n.data)[i]++;} int mn=INT_MAX,mx=0; for(int v : n) {mn=std::min(mn,v); mx=std::max(mx,v);} ctx().evals++; if(out.size()!=in.size() || out.type()!=CV_8UC1) {violation("canny-confidence",id); return;}
        for(int y=0;y<in.rows;++y) for(int x=0;x<in.cols;++x) {double w=mx>mn?(n(y,x)-mn)*255./(mx-mn):out.at<uchar>(0,0); if(std::abs(out.at<uchar>(y,x)-w)>1) {violation("canny-confidence",fmt("%s: pixel (%d,%d) is %d, expected %g",id.c_str(),x,y,out.at<uchar>(y,x),w)); return;}}}
    if(!same(in,own)) violation("edges-input",id);
}
static void canny() {
    cv::setNumThreads(1); static const double S[]={0,0.5,1,std::sqrt(2.0),2,2.5,3.2};
    for(int r=1;r<=12;++r) for(int c=1;c<=12;++c) for(int cn : {1,3,4}) for(int s=0;s<11;++s) {mark("canny %dx%d scene %d",c,r,s); int q=r*5+c+s+cn; double sg=S[q%7]; cv::Mat m=img(r,c,cn,[&](int y,int x,int k){return scene(s,y,x,k,r,c);}); auto id=fmt("scene %d of %dx%d, %d channels",s,c,r,cn); canny_case(id,m,q%2?0.4:0.75,sg,{0,30,100,250,-1},s%3,(r+c+s)%(ctx().thorough?3:15)==0);
        if(q%2==0) {cv::Mat big=img(r+4,c+4,cn,[&](int y,int x,int k){return (y*57+x*91+k*31)&255;}); cv::Mat v=big(cv::Rect(2,2,c,r)); m.copyTo(v); canny_case(id+" (view)",v,0.4,S[(q/2)%7],{30,100},0,q%38==0);}}
    for(int p=0;p<512;++p) {mark("canny pattern %d",p); cv::Mat m=img(5,5,1,[&](int y,int x,int){bool in=x>=1 && y>=1 && x<4 && y<4; return in && ((p>>((y-1)*3+x-1))&1)?140:40;}); canny_case(fmt("pattern %d",p),m,p%2?0.4:0.9,S[p%7],{20,100,300},0,p%(ctx().thorough?4:32)==0);}
    for(double f : {0.,1.,-1.}) if(!refused([&]{EdgeDetectorCanny e(f);})) violation("canny-ctor",""); if(!refused([]{EdgeDetectorCanny e(0.4,-1);})) violation("canny-ctor","");
    EdgeDetectorCanny e; if(e.getDefaultThreshold()!=100) violation("canny-default",""); cv::Mat o; for(int t : {CV_8UC2,CV_32FC1,CV_8UC(5)}) {cv::Mat m(20,20,t); memset(m.data,1,m.total()*m.elemSize()); if(!refused([&]{e.apply(m,o);}) || !refused([&]{e.apply_threshold(m,o);})) violation("canny-type",fmt("type %d accepted",t));} if(!refused([&]{e.apply(cv::Mat(),o);}) || !refused([&]{e.apply_threshold(cv::Mat(),o);})) violation("canny-empty","");
    sample("all sizes up to 12x12 x 1, 3, 4 channels x 11 scenes x smoothing x thresholds, continuous and views; all 3x3 patterns");
}
int main(int argc, char** argv) {
    init(argc,argv);
    if(is_part("edge-sizes0")) sizes(0);
    if(is_part("edge-sizes1")) sizes(1);
    if(is_part("edge-patterns")) {patterns(); lbsp_refuse();}
    if(is_part("edge-scales")) scales();
    if(is_part("edge-dense")) dense();
    if(is_part("edge-canny")) canny();
    return finish();
}
