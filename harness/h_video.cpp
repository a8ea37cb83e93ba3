// P18: background models of ViBe, PBAS (single pixel) and LOBSTER vs. reference models, for every random draw.
// P19: contract shared by all background subtractors.
#include "litiv/video.hpp"
#include "litiv/video/BackgroundSubtractorViBe.hpp"
#include "litiv/video/BackgroundSubtractorPBAS.hpp"
#include "../mc/report.hpp"
#include <cmath>
#include <memory>
using namespace vr;

// ---------------------------------------------------------------- controlled random draws
enum RMode {CONSTANT,SEQUENCE,ENUMERATE};
static RMode rmode=CONSTANT; static int rconst=0; static uint64_t rseq=1; static uint64_t rcalls=0;
static bool rcapped=false; static std::vector<int> rdom; static std::vector<size_t> rpath; static size_t rpos=0;
extern "C" int rand(void) noexcept {
    ++rcalls;
    if(rmode==CONSTANT) return rconst;
    if(rmode==SEQUENCE) {rseq=rseq*6364136223846793005ull+1442695040888963407ull; return (int)((rseq>>33)&0x7fffffff);}
    if(rpos==rpath.size()) rpath.push_back(0);
    return rdom[rpath[rpos++]];
}
static void rset(int c) {rmode=CONSTANT; rconst=c;}
static void rseed(uint64_t s) {rmode=SEQUENCE; rseq=s*2654435761u+12345;}
// the answers used inside f() while enumerating; f is called once for every combination of answers
template<typename F> static uint64_t all_draws(const std::vector<int>& dom, F f) {
    rpath.clear(); rdom=dom; uint64_t n=0;
    rcapped=false; while(true) {rpos=0; bool go=f(); ++n; if(!go || n>=400000) {rcapped=true; if(go) ctx().exhaustive=false; return n;} rpath.resize(rpos); while(!rpath.empty() && rpath.back()+1==rdom.size()) rpath.pop_back(); if(rpath.empty()) return n; rpath.back()++;}
}
// nondeterministic choices of the reference models
static std::vector<std::pair<size_t,size_t>> mpath; static size_t mpos=0;
static size_t pick(size_t n) {if(mpos==mpath.size()) mpath.push_back({0,n}); return mpath[mpos++].first;}
template<typename F> static void all_picks(F f) {
    mpath.clear(); while(true) {mpos=0; f(); mpath.resize(mpos); while(!mpath.empty() && mpath.back().first+1==mpath.back().second) mpath.pop_back(); if(mpath.empty()) return; mpath.back().first++;}
}
static std::string bytes(const cv::Mat& m) {std::string s; for(int y=0;y<m.rows;++y) s.append((const char*)m.ptr(y),m.elemSize()*(size_t)m.cols); return s;}
static void compare_sets(const std::string& key, const std::string& what, const std::set<std::string>& got, const std::set<std::string>& exp, bool drew) {
    ctx().nontriv+=exp.size(); ctx().counters["distinct traces"]+=exp.size();
    for(auto& t : got) if(!exp.count(t)) {violation(key,what+": an outcome the algorithm does not allow"); return;}
    if(drew && !rcapped) for(auto& t : exp) if(!got.count(t)) {violation(key+"-missing",what+": an outcome that some draws must produce never happens"); return;}
}
struct Rng {bool own, neigh;};
// possible outcomes of one draw, over the domain in use
static bool draw_zero(const std::vector<int>& dom, size_t L) {bool z=false,nz=false; for(int d : dom) (d%L==0?z:nz)=true; if(z && nz) return pick(2)==0; return z;}
static size_t draw_index(const std::vector<int>& dom, size_t N) {std::set<size_t> s; for(int d : dom) s.insert(d%N); size_t i=pick(s.size()); auto it=s.begin(); while(i--) ++it; return *it;}
static cv::Point draw_neighbour(const std::vector<int>& dom, int x, int y, int border, cv::Size sz) {std::set<std::pair<int,int>> s; for(int d : dom) {int X,Y; lv::getNeighborPosition_3x3(d,X,Y,x,y,border,sz); s.insert({X,Y});} size_t i=pick(s.size()); auto it=s.begin(); while(i--) ++it; return cv::Point(it->first,it->second);}
static cv::Point draw_sample(const std::vector<int>& dom, int x, int y, int border, cv::Size sz) {std::set<std::pair<int,int>> s; for(int d : dom) {int X,Y; lv::getSamplePosition_7x7_std2(d,X,Y,x,y,border,sz); s.insert({X,Y});} size_t i=pick(s.size()); auto it=s.begin(); while(i--) ++it; return cv::Point(it->first,it->second);}

// ---------------------------------------------------------------- ViBe reference
struct VibeModel {
    int cn; size_t R,N,k; cv::Size sz; std::vector<cv::Mat> s;
    VibeModel(int c, size_t r, size_t n, size_t kk) : cn(c),R(r),N(n),k(kk) {}
    void init(const cv::Mat& m, const std::vector<int>& dom) {sz=m.size(); s.assign(N,cv::Mat()); for(auto& q : s) {q.create(sz,CV_8UC(cn)); for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) {auto p=draw_sample(dom,x,y,0,sz); put(q,x,y,m,p.x,p.y);}}}
    void put(cv::Mat& q, int x, int y, const cv::Mat& m, int u, int v) {for(int c=0;c<cn;++c) q.ptr(y)[x*cn+c]=m.ptr(v)[u*cn+c];}
    cv::Mat apply(const cv::Mat& f, size_t L, const std::vector<int>& dom) {
        cv::Mat mask(sz,CV_8UC1,cv::Scalar(0));
        for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) {
            size_t good=0; for(auto& q : s) {long d=0,d2=0; for(int c=0;c<cn;++c) {long e=std::abs((int)q.ptr(y)[x*cn+c]-(int)f.ptr(y)[x*cn+c]); d+=e; d2+=e*e;} good+=cn==1?d<(long)R:d2<9*(long)R*(long)R;}
            if(good<k) {mask.at<uchar>(y,x)=255; continue;}
            if(draw_zero(dom,L)) put(s[draw_index(dom,N)],x,y,f,x,y);
            if(draw_zero(dom,L)) {auto p=draw_neighbour(dom,x,y,0,sz); put(s[draw_index(dom,N)],p.x,p.y,f,x,y);}
        }
        return mask;
    }
    cv::Mat bg() {cv::Mat o(sz,CV_8UC(cn)); for(int y=0;y<sz.height;++y) for(int i=0;i<sz.width*cn;++i) {int t=0; for(auto& q : s) t+=q.ptr(y)[i]; o.ptr(y)[i]=(uchar)cvRound(double(t)/N);} return o;}
};
static std::unique_ptr<BackgroundSubtractorViBe> mkvibe(int cn, size_t R, size_t N, size_t k) {if(cn==1) return std::unique_ptr<BackgroundSubtractorViBe>(new BackgroundSubtractorViBe_1ch(R,N,k)); return std::unique_ptr<BackgroundSubtractorViBe>(new BackgroundSubtractorViBe_3ch(R,N,k));}
static cv::Mat img(int r, int c, int cn, std::function<int(int,int,int)> f) {cv::Mat m(r,c,CV_8UC(cn)); for(int y=0;y<r;++y) for(int x=0;x<c;++x) for(int k=0;k<cn;++k) m.ptr(y)[x*cn+k]=(uchar)f(y,x,k); return m;}
struct Step {cv::Mat frame; double lr; std::vector<int> dom;}; // the learning rate and the domain of draws of each frame
static void vibe_case(const std::string& what, int cn, size_t R, size_t N, size_t k, const cv::Mat& I, const std::vector<int>& idom, const std::vector<Step>& steps, bool graycall=false) {
    // one domain at a time is enumerated; steps with a single answer are constant draws
    std::vector<int> edom; for(auto& d : steps) if(d.dom.size()>1) edom=d.dom; if(idom.size()>1) edom=idom; if(edom.empty()) edom={0};
    std::set<std::string> got,exp; uint64_t c0=rcalls;
    auto gray=[&](const cv::Mat& m){if(!graycall) return m; cv::Mat g; cv::extractChannel(m,g,0); return g;};
    auto mode=[&](const std::vector<int>& d){if(d.size()==1) rset(d[0]); else rmode=ENUMERATE;};
    all_picks([&]{VibeModel v(cn,R,N,k); std::string t; v.init(I,idom); t+=bytes(v.bg()); for(auto& s : steps) {t+=bytes(v.apply(s.frame,(size_t)std::ceil(s.lr),s.dom)); t+=bytes(v.bg());} exp.insert(t);});
    ctx().evals+=all_draws(edom,[&]{auto v=mkvibe(cn,R,N,k); std::string t; mode(idom); v->initialize(gray(I)); cv::Mat b,m; v->getBackgroundImage(b); t+=bytes(b);
        for(auto& s : steps) {mode(s.dom); v->apply(gray(s.frame),m,s.lr); t+=bytes(m); v->getBackgroundImage(b); t+=bytes(b);} got.insert(t); return exp.count(t)!=0;});
    rset(0); bool drew=rcalls!=c0;
    compare_sets("vibe",what,got,exp,drew);
}
static void vibe() {
    // decision thresholds, all value pairs
    for(size_t R : {(size_t)1,(size_t)2,(size_t)20,(size_t)100,(size_t)255,(size_t)256}) for(int u=0;u<256;++u) {
        mark("vibe threshold %zu, background %d",R,u); rset(1); BackgroundSubtractorViBe_1ch v(R,2,2); v.initialize(img(1,1,1,[&](int,int,int){return u;})); cv::Mat m;
        for(int f=0;f<256;++f) {rset(1); v.apply(img(1,1,1,[&](int,int,int){return f;}),m,2); ctx().evals++; ctx().nontriv++; bool fg=std::abs(u-f)>=(int)R; if(m.at<uchar>(0,0)!=(fg?255:0)) violation("vibe-threshold",fmt("background %d, value %d, threshold %zu: mask %d",u,f,R,m.at<uchar>(0,0)));}
    }
    static const int bv[]={0,1,19,20,34,35,60,61,100,147,148,200,255};
    for(size_t R : {(size_t)1,(size_t)20,(size_t)40,(size_t)85,(size_t)147}) for(int a : bv) for(int b : {0,1,60,255}) {
        mark("vibe colour threshold %zu",R); rset(1); BackgroundSubtractorViBe_3ch v(R,1,1); cv::Mat I=img(1,1,3,[&](int,int,int k){return k==0?a:k==1?b:128;}); v.initialize(I); cv::Mat m;
        for(int f0 : bv) for(int f1 : bv) for(int f2 : bv) {rset(1); v.apply(img(1,1,3,[&](int,int,int k){return k==0?f0:k==1?f1:f2;}),m,2); ctx().evals++; long d=(a-f0)*(a-f0)+(b-f1)*(b-f1)+(128-f2)*(128-f2); bool fg=d>=9*(long)R*(long)R; if(m.at<uchar>(0,0)!=(fg?255:0)) violation("vibe-threshold3",fmt("background (%d,%d,128), value (%d,%d,%d), threshold %zu: mask %d",a,b,f0,f1,f2,R,m.at<uchar>(0,0)));}
    }
    // single pixel, all histories of 3 frames, all draws
    static const int V[]={0,4,40};
    for(int cn : {1,3}) for(int gray=0;gray<(cn==3?2:1);++gray) for(size_t N=1;N<=2;++N) for(size_t k=1;k<=N;++k) for(int u : {0,40}) for(int h=0;h<27;++h) {
        if(cn==3 && !ctx().thorough && (h%2)!=gray) continue;
        auto pix=[&](int v){return img(1,1,cn,[=](int,int,int c){return gray?v:v+2*c;});}; std::vector<int> d={0,1}; mark("vibe single pixel, %d channels, N=%zu k=%zu, history %d",cn,N,k,h);
        vibe_case(fmt("single pixel, %d channels, %zu samples, %zu required, background %d, frames %d,%d,%d",cn,N,k,u,V[h%3],V[h/3%3],V[h/9]),cn,10,N,k,pix(u),{0},{{pix(V[h%3]),2,d},{pix(V[h/3%3]),1.5,d},{pix(V[h/9]),2,d}},gray!=0);
    }
    // learning rates: an update happens exactly when the draw is a multiple of the (rounded up) rate
    for(int cn : {1,3}) for(double L : {0.3,1.0,1.2,2.0,2.5,3.0,7.0,16.0,16.5}) for(int d=0;d<=34;++d) {
        mark("vibe rate %g draw %d",L,d); vibe_case(fmt("learning rate %g, draw %d",L,d),cn,10,2,1,img(1,1,cn,[](int,int,int){return 20;}),{0},{{img(1,1,cn,[](int,int,int){return 24;}),L,{d}}});
    }
    // one background pixel at every position of a 3x3 image (the 8 others are foreground), all neighbours and draws
    std::vector<int> d8={0,1,2,3,4,5,6,7};
    for(int cn : {1,3}) for(int p=0;p<9;++p) {mark("vibe 3x3 background pixel %d",p);
        vibe_case(fmt("3x3 image, %d channels, background at pixel %d only",cn,p),cn,10,1,1,img(3,3,cn,[](int,int,int){return 100;}),{0},{{img(3,3,cn,[&](int y,int x,int){return y*3+x==p?104:200+y*3+x;}),2,d8}});}
    // two pixels: updates of the first reach the second before it is examined; a second frame exposes the model
    for(int cn : {1,3}) for(int tall=0;tall<2;++tall) for(int i=0;i<4;++i) for(int h=0;h<81;++h) { if(cn==3 && (h&3) && !ctx().thorough) continue;
        auto two=[&](int a, int b){return img(tall?2:1,tall?1:2,cn,[=](int y,int x,int){return y+x==0?a:b;});}; mark("vibe two pixels %d history %d",i,h);
        vibe_case(fmt("two pixels (%s), %d channels, draws %d/%d, history %d",tall?"vertical":"horizontal",cn,2*i,2*i+1,h),cn,10,1,1,two(4,12),{0},{{two(V[h%3],V[h/3%3]),2,{2*i,2*i+1}},{two(V[h/9%3],V[h/27]),2,{1}}});
    }
    // mixed samples from the initialisation window, every number of required samples
    std::vector<int> w; for(auto o : {std::make_pair(0,0),std::make_pair(1,0),std::make_pair(-1,0)}) for(int r=0;r<512;++r) {int X,Y; lv::getSamplePosition_7x7_std2(r,X,Y,50,50,0,cv::Size(101,101)); if(X-50==o.first && Y-50==o.second) {w.push_back(r); break;}}
    for(int cn : {1,3}) for(size_t k=0;k<=3;++k) for(int a : {0,6,39}) for(int b : {9,60}) for(int f : {0,6,9,12,15,18,39,48,60}) {mark("vibe mixed samples"); auto two=[&](int p, int q){return img(1,2,cn,[=](int,int x,int){return x?q:p;});};
        vibe_case(fmt("mixed samples, %d channels, %zu of 3 required, initial image %d,%d, frame %d",cn,k,a,b,f),cn,10,3,k,two(a,b),w,{{two(f,f),2,{1}}});}
    // initialisation: each sample comes from the 7x7 window, every cell is reachable
    for(int cn : {1,3}) for(int r : {1,4,9}) for(int c : {2,5,9}) {
        cv::Mat I=img(r,c,cn,[](int y,int x,int k){return y*20+x+k;}); std::vector<std::set<int>> seen((size_t)(r*c)); mark("vibe init %dx%d",c,r);
        for(int d=0;d<512;++d) {rset(d); auto v=mkvibe(cn,10,1,1); v->initialize(I); cv::Mat b; v->getBackgroundImage(b); ctx().evals++; for(int y=0;y<r;++y) for(int x=0;x<c;++x) {int q=b.ptr(y)[x*cn]; int Y=q/20,X=q%20; if(Y>=r || X>=c || std::abs(Y-y)>3 || std::abs(X-x)>3 || (cn==3 && (b.ptr(y)[x*3+1]!=q+1 || b.ptr(y)[x*3+2]!=q+2))) violation("vibe-init",fmt("%dx%d, pixel (%d,%d) initialised with %d",c,r,x,y,q)); else seen[(size_t)(y*c+x)].insert(q);}}
        for(int y=0;y<r;++y) for(int x=0;x<c;++x) {size_t e=0; for(int Y=std::max(0,y-3);Y<=std::min(r-1,y+3);++Y) for(int X=std::max(0,x-3);X<=std::min(c-1,x+3);++X) ++e; if(seen[(size_t)(y*c+x)].size()!=e) violation("vibe-init-reach",fmt("%dx%d, pixel (%d,%d): %zu of %zu cells",c,r,x,y,seen[(size_t)(y*c+x)].size(),e));}
    }
    // 3x3 frames with every foreground pattern, constant draws per frame
    for(int cn : {1,3}) for(int p=0;p<512;++p) {mark("vibe 3x3 pattern %d",p); for(int d=0;d<10;++d) for(double L : {1.0,2.0,3.0}) { if(!ctx().thorough && cn==3 && (p+d)%3) continue;
        auto im=[&](int pt,int hi){return img(3,3,cn,[=](int y,int x,int){return (pt>>(y*3+x))&1?hi:50+2*y+4*x;});};
        vibe_case(fmt("3x3 pattern %d, %d channels, draw %d, rate %g",p,cn,d,L),cn,10,2,1+(size_t)(p&1),im(0,0),{171},{{im(p,90),L,{d}},{im(p^(p>>1),92),L,{(d*3+1)%8}},{im(p,94),L,{1}}});}}
    // larger frames and models (sample counts whose average is exact)
    struct Big {int r,c; size_t R,N,k;}; for(int cn : {1,3}) for(auto& b : {Big{17,33,20,16,2},Big{40,25,20,16,2},Big{3,100,12,4,1},Big{70,2,30,8,3},Big{33,31,5,16,2},Big{65,129,20,4,2}}) for(int d : {0,5,16,23,171,1000003}) for(double L : {1.0,16.0}) { if(b.r*b.c>2000 && d>20) continue;
        auto im=[&](int t){return img(b.r,b.c,cn,[=](int y,int x,int c){unsigned h=(unsigned)(y*131+x*71+c*17+t*977)*2654435761u; int v=(x*5+y*3+c*20)%200; return (h>>20)%5==0?(int)((h>>8)&255):v+(int)((h>>10)%9);});}; mark("vibe %dx%d, %d channels, draw %d",b.c,b.r,cn,d);
        vibe_case(fmt("%dx%d frames, %d channels, %zu samples, draw %d, rate %g",b.c,b.r,cn,b.N,d,L),cn,b.R,b.N,b.k,im(0),{d%512},{{im(1),L,{d}},{im(2),L,{d*3+1}},{im(3),L,{d+16}},{im(1),L,{16*(d%7)}}});}
    sample("1x1 histories of 3 frames x all draws; every neighbour draw at every position of a 3x3 image; all threshold pairs; all 512 initialisation draws; all 512 foreground patterns of 3x3 frames");
}

// ---------------------------------------------------------------- PBAS on a single pixel (no gradients)
struct PbasModel {
    int cn; size_t R0,N,k; float T0; float R=1,T,D=0; std::vector<std::vector<int>> s;
    bool apply(const std::vector<int>& f, double over, int draw) {
        float mn=255; size_t good=0,i=0; while(good<k && i<N) {double d=0; for(int c=0;c<cn;++c) {double e=s[i][c]-f[c]; d+=cn==1?std::abs(e):e*e;} float q=std::min((float)(cn==1?d:std::sqrt(d)),255.f); if(q<=R*R0) {mn=std::min(mn,q); ++good;} ++i;}
        D=(D*(N-1)+mn/255)/N; bool fg=good<k;
        if(fg) T=std::min(T+1.0f/(D*255.f+1.f),200.f);
        else {size_t L=over>0?(size_t)std::ceil(over):(size_t)std::ceil(T); if(draw%L==0) s[draw%N]=f; T=std::max(T-0.05f/(D*255.f+1.f),2.f);}
        if(R<0.6f+D*5.f) {if(R<99.f) R*=1.05f;} else if(R>0.6f) R*=0.95f;
        return fg;
    }
};
static void pbas() {
    static const int V[]={100,112,131,180}; 
    for(int cn : {1,3}) for(size_t N=1;N<=3;++N) for(size_t k=1;k<=std::min<size_t>(N,2);++k) { int depth=ctx().thorough?7:5; long H=1; for(int i=0;i<depth;++i) H*=4;
        for(long h=0;h<H;++h) for(int last=0;last<5;++last) for(int over=0;over<2;++over) { if((last>0 || over) && (h%7)!=last && !ctx().thorough) continue;
            if((h&255)==0) mark("pbas %d channels N=%zu k=%zu history %ld",cn,N,k,h);
            std::unique_ptr<BackgroundSubtractorPBAS> p; if(cn==1) p.reset(new BackgroundSubtractorPBAS_1ch(30,4.f,N,k)); else p.reset(new BackgroundSubtractorPBAS_3ch(30,4.f,N,k));
            auto pix=[&](int v){return img(1,1,cn,[=](int,int,int c){return v+3*c*(v>120);});}; auto vec=[&](int v){std::vector<int> o; for(int c=0;c<cn;++c) o.push_back(v+3*c*(v>120)); return o;};
            rset(0); p->initialize(pix(100)); PbasModel m; m.cn=cn; m.R0=30; m.N=N; m.k=k; m.T=4.f; m.s.assign(N,vec(100)); long q=h; static const int LD[]={1,4,5,3,2};
            for(int i=0;i<depth;++i,q/=4) {int d=i==depth-1?LD[last]:i==1?4:1; double ov=over && i==depth-1?2.5:-1; rset(d); cv::Mat mk; p->apply(pix(V[q%4]),mk,ov); bool e=m.apply(vec(V[q%4]),ov,d); ctx().evals++;
                if(mk.at<uchar>(0,0)!=(e?255:0)) {violation("pbas-mask",fmt("%d channels, %zu samples, %zu required, history %ld, frame %d: mask %d",cn,N,k,h,i,mk.at<uchar>(0,0))); break;}
                cv::Mat b; p->getBackgroundImage(b); bool ok=true; for(int c=0;c<cn;++c) {double t=0; for(auto& z : m.s) t+=z[c]; ok&=std::abs(b.ptr(0)[c]-t/N)<0.51;} if(!ok) {violation("pbas-model",fmt("%d channels, %zu samples, %zu required, history %ld, frame %d (draw %d)",cn,N,k,h,i,d)); break;}}
            ctx().nontriv++;
        }
    }
    // slow feedback: quiet, busy and quiet again phases of every length, then a probe of every distance; several draws
    int Q=ctx().thorough?24:14, B=ctx().thorough?12:6;
    for(int cn : {1,3}) for(int n1=0;n1<=Q;++n1) for(int n2=0;n2<=B;++n2) for(int n3=0;n3<=4;n3+=2) for(int dr=0;dr<3;++dr) for(int pr=1;pr<=(dr?1:60);++pr) {
        if(pr==1) mark("pbas %d channels, phases %d/%d/%d, draw %d",cn,n1,n2,n3,dr);
        std::unique_ptr<BackgroundSubtractorPBAS> p; if(cn==1) p.reset(new BackgroundSubtractorPBAS_1ch(30,4.f,2,1)); else p.reset(new BackgroundSubtractorPBAS_3ch(30,4.f,2,1));
        auto px=[&](int v){return img(1,1,cn,[=](int,int,int c){return c?100:v;});}; auto vec=[&](int v){std::vector<int> o(cn,100); o[0]=v; return o;};
        rset(0); p->initialize(px(100)); PbasModel m; m.cn=cn; m.R0=30; m.N=2; m.k=1; m.T=4.f; m.s.assign(2,vec(100));
        for(int i=0;i<n1+n2+n3+2;++i) {int v=i>=n1+n2+n3?100+pr+(dr?i&1:0):i>=n1 && i<n1+n2?220:100+(i&1), d=dr==0?1:dr==1?2+i%5:3+i%4; rset(d); cv::Mat mk; p->apply(px(v),mk); bool e=m.apply(vec(v),-1,d); ctx().evals++;
            if(mk.at<uchar>(0,0)!=(e?255:0)) {violation("pbas-mask",fmt("%d channels, phases %d/%d/%d, draws %d, probe at distance %d, frame %d: mask %d",cn,n1,n2,n3,dr,pr,i,mk.at<uchar>(0,0))); break;}
            cv::Mat b; p->getBackgroundImage(b); double t=(m.s[0][0]+m.s[1][0])/2.0; if(std::abs(b.ptr(0)[0]-t)>0.51) {violation("pbas-model",fmt("%d channels, phases %d/%d/%d, draws %d, probe at distance %d, frame %d",cn,n1,n2,n3,dr,pr,i)); break;}}
        ctx().nontriv++;
    }
    sample("PBAS on one pixel: every history over 4 values, up to 3 samples, adaptive threshold, rate and distance followed exactly");
}

// ---------------------------------------------------------------- LOBSTER reference
static const int PAT[5][5]={{7,-1,2,-1,5},{-1,12,10,14,-1},{0,9,-1,11,1},{-1,15,8,13,-1},{4,-1,3,-1,6}};
static int refdesc(const cv::Mat& im, int x, int y, int c, int ref, int thr) {int d=0,cn=im.channels(); for(int dy=-2;dy<=2;++dy) for(int dx=-2;dx<=2;++dx) {int b=PAT[dy+2][dx+2]; if(b<0) continue; int v=im.ptr(y+dy)[(x+dx)*cn+c]; if(std::abs(v-ref)>thr) d|=1<<b;} return d;}
struct LobModel {
    int cn; size_t dthr,cthr,N,k; size_t off; float rel; cv::Size sz; struct Px {std::vector<int> c,d;}; std::vector<std::vector<Px>> s; cv::Mat last,lastmask;
    int thr(int v) {return cn==1?cv::saturate_cast<uchar>((v*rel+off)/3):cv::saturate_cast<uchar>(v*rel+off);}
    Px at(const cv::Mat& f, int x, int y) {Px p; for(int c=0;c<cn;++c) {int v=f.ptr(y)[x*cn+c]; p.c.push_back(v); p.d.push_back(refdesc(f,x,y,c,v,thr(v)));} return p;}
    Px& S(size_t n, int x, int y) {return s[n][(size_t)(y*sz.width+x)];}
    void init(const cv::Mat& m, const std::vector<int>& dom) {sz=m.size(); Px z; z.c.assign((size_t)cn,0); z.d=z.c; s.assign(N,std::vector<Px>((size_t)sz.area(),z)); last=m.clone(); lastmask=cv::Mat(sz,CV_8UC1,cv::Scalar(0));
        for(int y=2;y<sz.height-2;++y) for(int x=2;x<sz.width-2;++x) for(size_t n=0;n<N;++n) {auto p=draw_sample(dom,x,y,2,sz); S(n,x,y)=at(last,p.x,p.y);}}
    cv::Mat apply(const cv::Mat& f, size_t L, const std::vector<int>& dom) {
        cv::Mat mask(sz,CV_8UC1,cv::Scalar(0));
        for(int y=2;y<sz.height-2;++y) for(int x=2;x<sz.width-2;++x) {
            size_t good=0; for(size_t n=0;n<N;++n) {auto& p=S(n,x,y); size_t tc=0,td=0; bool ok=true; for(int c=0;c<cn;++c) {size_t cd=(size_t)std::abs((int)f.ptr(y)[x*cn+c]-p.c[c]); size_t dd=(size_t)__builtin_popcount(refdesc(f,x,y,c,p.c[c],thr(p.c[c]))^p.d[c]); if(cn==1) ok&=cd<=cthr/2 && dd<=dthr; else ok&=cd<=cthr*3/2 && dd<=dthr*3/2; tc+=cd; td+=dd;} if(cn==3) ok&=tc<=cthr*3 && td<=dthr*3; good+=ok;}
            if(good<k) {mask.at<uchar>(y,x)=255; continue;}
            if(draw_zero(dom,L)) S(draw_index(dom,N),x,y)=at(f,x,y);
            if(draw_zero(dom,L)) {auto p=draw_neighbour(dom,x,y,2,sz); S(draw_index(dom,N),p.x,p.y)=at(f,x,y);}
        }
        cv::Mat o; cv::medianBlur(mask,o,9); return o;
    }
    cv::Mat bg() {cv::Mat o(sz,CV_8UC(cn)); for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) for(int c=0;c<cn;++c) {int t=0; for(size_t n=0;n<N;++n) t+=S(n,x,y).c[c]; o.ptr(y)[x*cn+c]=(uchar)cvRound(double(t)/N);} return o;}
    cv::Mat bgd() {cv::Mat o(sz,CV_16UC(cn)); for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) for(int c=0;c<cn;++c) {int t=0; for(size_t n=0;n<N;++n) t+=S(n,x,y).d[c]; o.ptr<ushort>(y)[x*cn+c]=(ushort)cvRound(double(t)/N);} return o;}
};
typedef BackgroundSubtractorLOBSTER LOB;
static std::string lobtrace(LOB& l, const cv::Mat& m) {cv::Mat b,d; l.getBackgroundImage(b); l.getBackgroundDescriptorsImage(d); return bytes(m)+bytes(b)+bytes(d);}
static std::string lobtrace(LobModel& l, const cv::Mat& m) {return bytes(m)+bytes(l.bg())+bytes(l.bgd());}
struct LP {size_t dthr,cthr,N,k,off; float rel;};
static void lob_case(const std::string& what, int cn, LP P, const cv::Mat& I, const std::vector<int>& idom, const std::vector<Step>& steps) {
    std::vector<int> edom={0}; for(auto& d : steps) if(d.dom.size()>1) edom=d.dom; if(idom.size()>1) edom=idom; std::set<std::string> got,exp; uint64_t c0=rcalls; auto mode=[&](const std::vector<int>& d){if(d.size()==1) rset(d[0]); else rmode=ENUMERATE;};
    LOB real(P.dthr,P.cthr,P.N,P.k,P.off,P.rel); cv::Mat full(I.size(),CV_8UC1,cv::Scalar(255));
    all_picks([&]{LobModel l; l.cn=cn; l.dthr=P.dthr; l.cthr=P.cthr; l.N=P.N; l.k=P.k; l.off=P.off; l.rel=P.rel; l.init(I,idom); std::string t=lobtrace(l,cv::Mat()); for(auto& s : steps) {auto m=l.apply(s.frame,(size_t)std::ceil(s.lr),s.dom); t+=lobtrace(l,m);} exp.insert(t);});
    ctx().evals+=all_draws(edom,[&]{mode(idom); real.initialize(I,full); std::string t=lobtrace(real,cv::Mat()); for(auto& s : steps) {cv::Mat m; mode(s.dom); real.apply(s.frame,m,s.lr); t+=lobtrace(real,m);} got.insert(t); return exp.count(t)!=0;});
    rset(0); bool drew=rcalls!=c0;
    compare_sets("lobster",what,got,exp,drew);
}
static void lobster() {
    // 5x5: a single modelled pixel. All 2^16 neighbourhoods against a flat background, the decision shows in the model (rate 1)
    std::vector<cv::Point> pos(16); for(int y=0;y<5;++y) for(int x=0;x<5;++x) if(PAT[y][x]>=0) pos[(size_t)PAT[y][x]]=cv::Point(x,y);
    for(int cn : {1,3}) for(size_t dthr : {(size_t)4,(size_t)0,(size_t)15}) for(int p=0;p<65536;++p) {
        if((dthr!=4 && p%5) || (cn==3 && p%3 && !ctx().thorough)) continue; if((p&1023)==0) mark("lobster neighbourhood %d, %d channels",p,cn);
        cv::Mat f=img(5,5,cn,[](int y,int x,int){return y==2 && x==2?106:100;}); for(int b=0;b<16;++b) if((p>>b)&1) for(int c=0;c<cn;++c) f.ptr(pos[(size_t)b].y)[pos[(size_t)b].x*cn+c]=(uchar)(cn==1?140:c==p%3?160:((p>>(15-b))&1)?150:100);
        lob_case(fmt("neighbourhood %04x, %d channels, descriptor threshold %zu",p,cn,dthr),cn,{dthr,30,1,1,0,0.333f},img(5,5,cn,[](int,int,int){return 100;}),{0},{{f,1,{0}}});
    }
    // colour thresholds, all values around several backgrounds, flat frames (descriptors only differ through the thresholds)
    for(int cn : {1,3}) for(size_t cthr : {(size_t)30,(size_t)31,(size_t)1,(size_t)100}) for(int u : {0,1,60,200,255}) for(int v=0;v<256;++v) for(int t=0;t<(cn==3?4:1);++t) { if((v&63)==0) mark("lobster colour threshold %zu, background %d, value %d",cthr,u,v);
        lob_case(fmt("colour threshold %zu, %d channels, background %d, value %d, kind %d",cthr,cn,u,v,t),cn,{4,cthr,1,1,3,0.2f},img(5,5,cn,[&](int,int,int){return u;}),{0},{{img(5,5,cn,[&](int,int,int c){return t==0 || c==t-1?v:u;}),1,{0}}});}
    // descriptor thresholds: every reference value x neighbour difference
    for(int cn : {1,3}) for(float rel : {0.333f,0.05f,0.f,1.5f}) for(size_t off : {(size_t)0,(size_t)10}) for(int u=0;u<256;u+=3) for(int d : {-90,-40,-25,-10,-4,-1,1,3,9,10,11,24,30,60,120}) { int v=u+d; if(v<0 || v>255) continue; if(u%12==0) mark("lobster descriptor threshold %g+%zu, %d",rel,off,u);
        lob_case(fmt("relative threshold %g, offset %zu, %d channels, background %d, neighbour %d",rel,off,cn,u,v),cn,{4,30,1,1,off,rel},img(5,5,cn,[&](int y,int x,int){return (y+x)%4==0 && (y!=2 || x!=2)?v:u;}),{0},{{img(5,5,cn,[&](int y,int x,int){return y<2?v:u;}),1,{0}}});}
    // two modelled pixels (6x5 and 5x6), all draws of one frame, then a second frame
    for(int cn : {1,3}) for(int tall=0;tall<2;++tall) for(size_t N=1;N<=2;++N) for(size_t k=1;k<=N;++k) for(int i=0;i<4;++i) for(int h=0;h<16;++h) { if(cn==3 && (h+i)%4 && !ctx().thorough) continue;
        int R=tall?6:5,C=tall?5:6; static const int V[]={100,110,112,180}; mark("lobster two pixels %d channels N=%zu k=%zu %d %d",cn,N,k,i,h);
        auto fr=[&](int a, int b, int e){return img(R,C,cn,[=](int y,int x,int){bool m=y==2 && x==2; bool n=tall?(y==3 && x==2):(y==2 && x==3); return m?a:n?b:100+(y==0?e:0);});};
        lob_case(fmt("two pixels (%s), %d channels, %zu samples, %zu required, draws %d/%d, history %d",tall?"vertical":"horizontal",cn,N,k,2*i,2*i+1,h),cn,{4,30,N,k,0,0.333f},fr(100,102,0),{171},{{fr(V[h%4],V[h/4],0),2,{2*i,2*i+1}},{fr(V[(h+i)%4],V[(h/4+1)%4],40),2,{1}}});
    }
    // all neighbour draws from every modelled pixel of a 7x7 image
    std::vector<int> d8={0,1,2,3,4,5,6,7};
    for(int cn : {1,3}) for(int p=0;p<9;++p) {mark("lobster diffusion from pixel %d",p); lob_case(fmt("7x7 image, %d channels, background at pixel %d only",cn,p),cn,{16,30,1,1,0,0.333f},img(7,7,cn,[](int,int,int){return 100;}),{171},{{img(7,7,cn,[&](int y,int x,int){return (y-2)*3+x-2==p && y>=2 && x>=2 && y<5 && x<5?104:200+y+x;}),2,d8}});}
    // the mask after the median filter: all rectangles of changed pixels in 13x13 frames
    for(int cn : {1,3}) for(int y0=0;y0<13;++y0) for(int x0=0;x0<13;++x0) {mark("lobster rectangles from (%d,%d), %d channels",x0,y0,cn); for(int y1=y0;y1<13;++y1) for(int x1=x0;x1<13;++x1) { if(!ctx().thorough && (y0+x0+y1+x1)%(cn==3?8:2)) continue;
        lob_case(fmt("rectangle (%d,%d)-(%d,%d), %d channels",x0,y0,x1,y1,cn),cn,{4,30,1,1,0,0.333f},img(13,13,cn,[](int,int,int){return 90;}),{171},{{img(13,13,cn,[&](int y,int x,int){return y>=y0 && y<=y1 && x>=x0 && x<=x1?190:90;}),1000,{1}}});}}
    // textured initial images: every sample carries the colour and the descriptor of one and the same drawn position
    for(int cn : {1,3}) for(int R=5;R<=9;++R) for(int C=5;C<=9;++C) {if(cn==3 && !ctx().thorough && (R+C)%2) continue; mark("lobster textured initialisation %dx%d, %d channels",C,R,cn); auto tex=[&](int s){return img(R,C,cn,[=](int y,int x,int c){unsigned h=(unsigned)(y*131+x*71+c*17+s*977+R*7+C)*2654435761u; return (int)((h>>22)&255);});};
        for(int d=0;d<512;++d) lob_case(fmt("textured %dx%d image, %d channels, draw %d",C,R,cn,d),cn,{4,60,2,1,0,0.333f},tex(d%5),{d},{{tex(d%5),1,{(d*5)%8}},{tex((d+1)%5),2,{d%7}}});}
    // explicit model refresh: the requested share of samples is replaced by the last frame's pixels, foreground ones spared unless forced
    for(int cn : {1,3}) for(int R=5;R<=8;++R) for(int C=5;C<=8;++C) for(int d=0;d<512;d+=ctx().thorough?1:7) for(int force=0;force<2;++force) {mark("lobster textured refresh %dx%d",C,R); cv::Mat full(R,C,CV_8UC1,cv::Scalar(255)),m,b,ds; LP P{4,30,2,1,0,0.333f};
        auto tex=[&](int s){return img(R,C,cn,[=](int y,int x,int c){unsigned h=(unsigned)(y*131+x*71+c*17+s*977)*2654435761u; return (int)((h>>22)&255);});}; cv::Mat A=tex(1),B=tex(2);
        LOB l(P.dthr,P.cthr,P.N,P.k,P.off,P.rel); LobModel r; r.cn=cn; r.dthr=P.dthr; r.cthr=P.cthr; r.N=P.N; r.k=P.k; r.off=P.off; r.rel=P.rel; mpath.clear(); mpos=0; rset(3); l.initialize(A,full); r.init(A,{3}); rset(1); l.apply(B,m,1000); r.apply(B,1000,{1}); rset(d); l.refreshModel(1.f,force!=0); ctx().evals++; ctx().nontriv++;
        for(int y=2;y<R-2;++y) for(int x=2;x<C-2;++x) {if(!force && m.at<uchar>(y,x)) continue; auto p=draw_sample({d},x,y,2,r.sz); if(!force && m.at<uchar>(p.y,p.x)) continue; for(size_t n=0;n<2;++n) r.S(n,x,y)=r.at(B,p.x,p.y);}
        if(lobtrace(l,m)!=lobtrace(r,m)) violation("lobster-refresh-content",fmt("%dx%d, %d channels, draw %d, force %d",C,R,cn,d,force));}
    // explicit model refresh: the requested share of samples is replaced
    for(int cn : {1,3}) for(float fr : {0.1f,0.25f,0.5f,0.75f,1.f}) for(int d=0;d<9;++d) for(int force=0;force<2;++force) {
        mark("lobster refresh %g",fr); rset(0); LOB l(4,30,4,2); cv::Mat full(5,5,CV_8UC1,cv::Scalar(255)),m,b; l.initialize(img(5,5,cn,[](int,int,int){return 40;}),full); rset(1); l.apply(img(5,5,cn,[](int,int,int){return 200;}),m,16); rset(d); l.refreshModel(fr,force!=0); l.getBackgroundImage(b); ctx().evals++; ctx().nontriv++;
        int n=(int)(fr*4); for(int c=0;c<cn;++c) if(b.ptr(2)[2*cn+c]!=40+n*40) violation("lobster-refresh",fmt("fraction %g, draw %d, force %d, %d channels: background %d, expected %d",fr,d,force,cn,b.ptr(2)[2*cn+c],40+n*40));
    }
    for(float fr : {0.f,-1.f,1.01f}) {bool thr=false; LOB l; cv::Mat full(5,5,CV_8UC1,cv::Scalar(255)); l.initialize(img(5,5,1,[](int,int,int){return 40;}),full); try {l.refreshModel(fr);} catch(const std::exception&) {thr=true;} if(!thr) violation("lobster-refresh-range",fmt("%g",fr));}
    sample("LOBSTER: 65536 neighbourhoods, all colour values around 5 backgrounds, all draws on 2- and 9-pixel models, all changed rectangles of 13x13 frames");
}

// ---------------------------------------------------------------- P19: every subtractor
struct Algo {
    virtual ~Algo() {} virtual void init(const cv::Mat&, const cv::Mat& roi=cv::Mat())=0; virtual void apply(cv::InputArray, cv::OutputArray, double lr=0)=0; virtual cv::Mat bg()=0; virtual void set_roi(cv::Mat&) {} virtual cv::Mat get_roi() {return cv::Mat();} virtual void init_last(const cv::Mat& m) {init(m);}
};
template<typename T> struct Plain : Algo {T t; double lr0; template<typename... A> Plain(double l, A... a) : t(a...),lr0(l) {} void init(const cv::Mat& m, const cv::Mat&) override {t.initialize(m);} void apply(cv::InputArray i, cv::OutputArray o, double lr) override {t.apply(i,o,lr==0?lr0:lr);} cv::Mat bg() override {cv::Mat b; t.getBackgroundImage(b); return b;}};
template<typename T> struct Roi : Algo {T t; double lr0; template<typename... A> Roi(double l, A... a) : t(a...),lr0(l) {} void init(const cv::Mat& m, const cv::Mat& roi) override {t.initialize(m,roi.empty()?cv::Mat(m.size(),CV_8UC1,cv::Scalar(255)):roi);} void apply(cv::InputArray i, cv::OutputArray o, double lr) override {t.apply(i,o,lr==0?lr0:lr);} cv::Mat bg() override {cv::Mat b; t.getBackgroundImage(b); return b;} void set_roi(cv::Mat& r) override {t.setROI(r);} cv::Mat get_roi() override {return t.getROICopy();} void init_last(const cv::Mat& m) override {t.initialize(m,cv::Mat());}};
struct Kind {const char* name; bool c1,c3,roi; int minsize; std::function<std::unique_ptr<Algo>()> mk; int blur; double bgtol=1;};
template<typename T, typename... A> static std::function<std::unique_ptr<Algo>()> mk(A... a) {return [=]{return std::unique_ptr<Algo>(new T(a...));};}
static std::vector<Kind> kinds() {
    return {
        {"ViBe (gray)",true,false,false,1,mk<Plain<BackgroundSubtractorViBe_1ch>>(4.0),0},
        {"ViBe (colour)",true,true,false,1,mk<Plain<BackgroundSubtractorViBe_3ch>>(4.0),0},
        {"PBAS (gray)",true,false,false,1,mk<Plain<BackgroundSubtractorPBAS_1ch>>(-1.0),4},
        {"PBAS (colour)",true,true,false,1,mk<Plain<BackgroundSubtractorPBAS_3ch>>(-1.0),4},
        {"LOBSTER",true,true,true,5,mk<Roi<BackgroundSubtractorLOBSTER>>(4.0),4},
        {"SuBSENSE",true,true,true,5,mk<Roi<BackgroundSubtractorSuBSENSE>>(0.0),12},
        {"PAWCS",true,true,true,8,mk<Roi<BackgroundSubtractorPAWCS>>(0.0),12,30},
    };
}
static cv::Mat scene(int r, int c, int cn, int kind, int t) { // deterministic test frames
    return img(r,c,cn,[=](int y,int x,int k){switch(kind) {case 0: return 100+5*k; case 1: return (x*17+y*29+k*5)%200+20; case 2: return (y>=r/3 && y<2*r/3 && x>=(c/4+t)%c && x<(c/4+t)%c+c/3)?220:60+10*k; case 3: return t%2?200:40; default: return ((x*7+t*31+k*3)^(y*13+t*5))&255;}});
}
static std::string clip(Algo& a, int r, int c, int cn, int kind, int frames, bool* bad=nullptr) {
    std::string t; for(int i=0;i<frames;++i) {cv::Mat f=scene(r,c,cn,kind,i),m; a.apply(f,m); if(m.size()!=f.size() || m.type()!=CV_8UC1) {if(bad) *bad=true; return t;} for(int y=0;y<r;++y) for(int x=0;x<c;++x) if(m.ptr(y)[x]!=0 && m.ptr(y)[x]!=255 && bad) *bad=true; t+=bytes(m); t+=bytes(a.bg());} return t;
}
static void contract(const Kind& K) {
    const int F=ctx().thorough?14:8; const int S=ctx().thorough?14:11;
    for(int cn : {1,3}) { if((cn==1 && !K.c1) || (cn==3 && !K.c3)) continue;
        for(int r=1;r<=S;++r) for(int c=1;c<=S;++c) {
            bool small=r<K.minsize || c<K.minsize; if(small && r!=1 && c!=1 && r!=4 && c!=4) continue;
            std::string tag=fmt("%s, %d channels, %dx%d",K.name,cn,c,r);
            if(small) { // no pixel away from the borders: must be refused
                mark("%s: too small",tag.c_str()); bool thr=false; try {auto a=K.mk(); a->init(scene(r,c,cn,1,0));} catch(const std::exception&) {thr=true;} ctx().evals++; if(!thr) violation("contract-too-small",tag); continue;
            }
            for(int kind=0;kind<5;++kind) { if(kind>2 && (r+c)%3) continue; 
                mark("%s, scene %d",tag.c_str(),kind); ctx().evals++; ctx().nontriv++; bool bad=false;
                rseed(kind+1); auto a=K.mk(); a->init(scene(r,c,cn,kind,0)); std::string t0=clip(*a,r,c,cn,kind,F,&bad);
                if(bad) violation("contract-mask",fmt("%s, scene %d: size, type or values",tag.c_str(),kind));
                // same draws, same results; frames overwritten after the call; masks that are views; re-initialised object
                rseed(kind+1); auto b=K.mk(); {cv::Mat I=scene(r,c,cn,kind,0); b->init(I); I.setTo(cv::Scalar::all(7));} std::string t1; 
                for(int i=0;i<F;++i) {cv::Mat f=scene(r,c,cn,kind,i),keep=f.clone(); cv::Mat big(r+4,c+5,CV_8UC1,cv::Scalar(77)); cv::Mat m=big(cv::Rect(3,2,c,r)); cv::Mat fb(r+2,c+3,f.type(),cv::Scalar::all(201)); cv::Mat fv=fb(cv::Rect(2,1,c,r)); f.copyTo(fv); bool done=false; if(i%2) {uint64_t k=rseq; try {b->apply(fv,m); done=true;} catch(const std::exception&) {rseq=k;} if(cv::norm(fv,keep,cv::NORM_INF)!=0) violation("contract-input",tag+": input view modified");} if(!done) b->apply(f,m); if(cv::norm(f,keep,cv::NORM_INF)!=0) violation("contract-input",tag+": input modified");
                    bool in=m.data==big.ptr(2)+3; bool ok=true; for(int y=0;y<big.rows;++y) for(int x=0;x<big.cols;++x) if((x<3 || x>=3+c || y<2 || y>=2+r) && big.ptr(y)[x]!=77) ok=false; if(!ok) violation("contract-mask-view",fmt("%s, scene %d, frame %d: bytes around the mask changed",tag.c_str(),kind,i)); if(!in) violation("contract-mask-realloc",tag); t1+=bytes(m); t1+=bytes(b->bg()); f.setTo(cv::Scalar::all(7));}
                if(t1!=t0) violation("contract-repeat",fmt("%s, scene %d: results differ when masks are views and frames are reused afterwards",tag.c_str(),kind));
                for(int prev : {1,4}) {rseed(99); auto d=K.mk(); int pr=prev==1?r:r+2,pc=prev==1?c:c+1,pcn=prev==4 && K.c3?4-cn:cn; d->init(scene(pr,pc,pcn,prev,3)); clip(*d,pr,pc,pcn,prev,5); rseed(kind+1); d->init(scene(r,c,cn,kind,0)); if(clip(*d,r,c,cn,kind,F)!=t0) violation("contract-reinit",fmt("%s, scene %d: differs from a new object after processing %dx%d with %d channels",tag.c_str(),kind,pc,pr,pcn));}
                // refused calls leave no trace
                rseed(kind+1); auto e=K.mk(); bool thr=false; {cv::Mat m; try {e->apply(scene(r,c,cn,kind,0),m);} catch(const std::exception&) {thr=true;} if(!thr) violation("contract-uninitialised",tag);} rseed(kind+1); e->init(scene(r,c,cn,kind,0)); std::string t2;
                for(int i=0;i<F;++i) {uint64_t keep=rseq; for(int w=0;w<3;++w) {cv::Mat m; bool t=false; try {if(w==0) e->apply(scene(r+1,c,cn,kind,0),m); else if(w==1) e->apply(scene(r,c,cn,kind,0).reshape(0,1).clone(),m); else {cv::Mat f; scene(r,c,cn,kind,0).convertTo(f,CV_16U); e->apply(f,m);}} catch(const std::exception&) {t=true;} if(!t && !(w==1 && r==1)) violation("contract-mismatch",fmt("%s: mismatched frame %d accepted",tag.c_str(),w)); if(w==1 && r==1) t=true;}
                    rseq=keep; if(r==1) break; cv::Mat f=scene(r,c,cn,kind,i),m; e->apply(f,m); t2+=bytes(m); t2+=bytes(e->bg());}
                if(r!=1 && t2!=t0) violation("contract-refused",fmt("%s, scene %d: refused calls changed later results",tag.c_str(),kind));
            }
        }
        // a scene that does not change is all background, whatever the draws; an abrupt change of the whole frame is foreground in the centre
        for(int sz : {K.minsize>1?K.minsize:1,7,9,12,16,24}) if(sz>=K.minsize) for(int u : {0,1,90,128,254,255}) for(int draws=0;draws<7;++draws) {
            mark("%s uniform %d size %d draws %d",K.name,u,sz,draws); auto set=[&]{if(draws<5) rset(draws==4?0x7fffffff:draws*3); else rseed(draws);}; set(); auto a=K.mk(); cv::Mat I=img(sz,sz+1,cn,[&](int,int,int){return u;}); a->init(I); cv::Mat m; ctx().evals++; ctx().nontriv++;
            for(int i=0;i<6;++i) {a->apply(I,m); if(cv::countNonZero(m)) {violation("contract-static",fmt("%s, %d channels, %dx%d, uniform %d, draws %d: foreground in frame %d",K.name,cn,sz+1,sz,u,draws,i)); break;} cv::Mat b=a->bg(); cv::Mat inner=K.roi?b(cv::Rect(2,2,sz-3,sz-4)):b; cv::Mat d; cv::absdiff(inner,cv::Scalar::all(u),d); double mx; cv::minMaxLoc(d.reshape(1),nullptr,&mx); if(mx>K.bgtol) {violation("contract-static-bg",fmt("%s, %d channels, %dx%d, uniform %d: background image off by %g",K.name,cn,sz+1,sz,u,mx)); break;}}
            if(sz>=12) {cv::Mat J=img(sz,sz+1,cn,[&](int,int,int){return u<128?u+120:u-120;}); a->apply(J,m); if(m.at<uchar>(sz/2,sz/2)!=255) violation("contract-change",fmt("%s, %d channels, %dx%d: change from %d unseen in the centre (draws %d)",K.name,cn,sz+1,sz,u,draws));}
        }
        // regions of interest: nothing is reported far from them
        if(K.roi) for(int side=0;side<4;++side) for(int kind : {1,2,3,4}) { const int n=48; mark("%s ROI side %d scene %d",K.name,side,kind);
            cv::Mat roi(n,n,CV_8UC1,cv::Scalar(0)); for(int y=0;y<n;++y) for(int x=0;x<n;++x) {int d=side==0?x:side==1?n-1-x:side==2?y:n-1-y; if(d<n/2) roi.at<uchar>(y,x)=255;}
            rseed(side+5); auto a=K.mk(); a->init(scene(n,n,cn,kind,0),roi); ctx().evals++; ctx().nontriv++; for(int i=0;i<F;++i) {cv::Mat m; a->apply(scene(n,n,cn,kind,i),m); bool ok=true; for(int y=0;y<n;++y) for(int x=0;x<n;++x) {int d=side==0?x:side==1?n-1-x:side==2?y:n-1-y; if(d>=n/2+2+K.blur && m.at<uchar>(y,x)) ok=false;} if(!ok) {violation("contract-roi",fmt("%s, %d channels, region on side %d, scene %d, frame %d: foreground far outside the region",K.name,cn,side,kind,i)); break;}}}
        // a region may also be set before initialisation (kept if the sizes match) or later (the model restarts from the current background image)
        if(K.roi) for(int kind : {1,2}) for(int side=0;side<3;++side) { const int n=20; mark("%s setting ROI %d scene %d",K.name,side,kind); ctx().evals++; ctx().nontriv++; auto mkroi=[&]{cv::Mat r(n,n+1,CV_8UC1,cv::Scalar(0)); r(side==0?cv::Rect(0,0,12,n):side==1?cv::Rect(4,5,14,11):cv::Rect(0,0,n+1,n)).setTo(cv::Scalar(255)); return r;}; std::string tag=fmt("%s, %d channels, region %d, scene %d",K.name,cn,side,kind);
            auto same=[&](const cv::Mat& u) {cv::Mat q=mkroi(); if(u.size()!=q.size() || u.type()!=CV_8UC1) return false; for(int y=0;y<n;++y) for(int x=0;x<n+1;++x) {bool in=q.at<uchar>(y,x) && y>=2 && x>=2 && y<n-2 && x<n-1; if(in!=(u.at<uchar>(y,x)==255)) return false;} return true;};
            cv::Mat I=scene(n,n+1,cn,kind,0); rseed(3); auto a=K.mk(); a->init(I,mkroi()); std::string t0=clip(*a,n,n+1,cn,kind,F); if(!same(a->get_roi())) violation("contract-roi-copy",tag+": the region read back is not the one given"); a->get_roi().setTo(cv::Scalar(0));
            rseed(3); a->init_last(I); if(!same(a->get_roi()) || clip(*a,n,n+1,cn,kind,F)!=t0) violation("contract-roi-kept",tag+": the last region is not kept by an initialisation without one");
            auto b=K.mk(); cv::Mat r=mkroi(); b->set_roi(r); r.setTo(cv::Scalar(0)); if(!same(b->get_roi())) violation("contract-roi-before",tag+": a region set before initialisation is not the one read back"); rseed(3); b->init_last(I); if(!same(b->get_roi())) violation("contract-roi-before",tag+": a region set before initialisation is not the one used");
            cv::Mat I2=scene(n+3,n+1,cn,kind,0); rseed(3); b->init_last(I2); std::string t3=clip(*b,n+3,n+1,cn,kind,2); auto b2=K.mk(); rseed(3); b2->init_last(I2); if(clip(*b2,n+3,n+1,cn,kind,2)!=t3) violation("contract-roi-resize",tag+": a region of another size is not ignored");
            auto d=K.mk(); rseed(3); d->init(I,cv::Mat(n,n+1,CV_8UC1,cv::Scalar(255))); clip(*d,n,n+1,cn,kind,3); cv::Mat bgi=d->bg().clone(); r=mkroi(); rseed(8); d->set_roi(r); r.setTo(cv::Scalar(0)); std::string t1=clip(*d,n,n+1,cn,kind,F); auto e=K.mk(); rseed(8); e->init(bgi,mkroi()); if(clip(*e,n,n+1,cn,kind,F)!=t1) violation("contract-roi-after",tag+": setting a region differs from restarting with the background image and that region");
            cv::Mat none(n,n+1,CV_8UC1,cv::Scalar(0)),bad(n,n+1,CV_8UC3,cv::Scalar::all(255)),big(n,n+2,CV_8UC1,cv::Scalar(255)); for(cv::Mat* w : {&none,&bad,&big}) {bool thr=false; try {d->set_roi(*w);} catch(const std::exception&) {thr=true;} if(!thr) violation("contract-roi-refused",tag);}
        }
    }
}
int main(int argc, char** argv) {
    vr::init(argc,argv); lv::setVerbosity(0);
    if(is_part("vibe")) vibe();
    if(is_part("pbas")) pbas();
    if(is_part("lobster")) lobster();
    auto K=kinds(); for(size_t i=0;i<K.size();++i) if(is_part(fmt("contract%zu",i).c_str())) {contract(K[i]); sample(fmt("%s: image sizes, scenes, draws, regions of interest and call histories of the contract",K[i].name));}
    return finish();
}
