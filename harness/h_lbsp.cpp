// P17: LBSP descriptors vs. a direct reference.
#include "litiv/features2d.hpp"
#include "../mc/report.hpp"
#include <cmath>
using namespace vr;
// documented pattern, row by row (dy=-2..2, dx=-2..2): bit index, or -1
static const int PAT[5][5]={{7,-1,2,-1,5},{-1,12,10,14,-1},{0,9,-1,11,1},{-1,15,8,13,-1},{4,-1,3,-1,6}};
static ushort refdesc(const cv::Mat& im, int x, int y, int c, int ref, int thr) {
    ushort d=0; int cn=im.channels(); for(int dy=-2;dy<=2;++dy) for(int dx=-2;dx<=2;++dx) {int b=PAT[dy+2][dx+2]; if(b<0) continue; int v=im.ptr<uchar>(y+dy)[(x+dx)*cn+c]; if(std::abs(v-ref)>thr) d|=ushort(1u<<b);} return d;
}
static int thr_of(bool rel, float f, size_t off, int ref) {return rel?cv::saturate_cast<uchar>((float)ref*f+(float)off):(int)std::min<size_t>(off,255);}
struct Cfg {bool rel; float f; size_t off;};
static const std::vector<Cfg> CFGS={{false,0,0},{false,0,1},{false,0,30},{false,0,127},{false,0,128},{false,0,255},{false,0,300},{true,0.f,0},{true,0.333f,0},{true,0.5f,3},{true,1.f,0},{true,2.f,10},{true,0.1f,250}};
static cv::Mat image(int r, int c, int cn, int pat) {
    cv::Mat m(r,c,CV_8UC(cn)); uint32_t s=uint32_t(pat*2654435761u+977);
    for(int y=0;y<r;++y) for(int i=0;i<c*cn;++i) {s^=s<<13; s^=s>>17; s^=s<<5; int x=i/cn; static const int V[]={0,1,30,60,120,127,128,160,200,254,255}; uchar v; switch(pat%5) {case 0: v=uchar(x*20+y*11+(i%cn)*40); break; case 1: v=(uchar)V[s%11]; break; case 2: v=((x+y)&1)?255:0; break; case 3: v=(uchar)s; break; default: v=uchar((x*y*7)%256);} m.ptr<uchar>(y)[i]=v;}
    return m;
}
static void threshold() {
    alignas(16) uchar v[16]; const int step=ctx().thorough?1:3;
    for(int ref=0;ref<256;++ref) for(int t=0;t<256;++t) for(int b=0;b<256;b+=16) {
        if(step>1 && (ref%step) && (t%step) && ref>2 && ref<253 && t>2 && t<253) continue;
        ushort e=0; for(int i=0;i<16;++i) {v[i]=uchar(b+((i*5+ref)&15)); if(std::abs((int)v[i]-ref)>t) e|=ushort(1u<<i);} ctx().evals++; ctx().nontriv++;
        if(LBSP::computeDescriptor_threshold(v,(uchar)ref,(uchar)t)!=e) violation("lbsp-threshold",fmt("values %d..%d, reference %d, threshold %d",b,b+15,ref,t));
    }
    sample("thresholding: values x references x thresholds over 0..255");
}
static void pattern() { // one pixel differs, in a view of a larger image: each pattern position sets exactly its own bit
    for(int cn : {1,3}) for(int y=0;y<5;++y) for(int x=0;x<5;++x) for(int c=0;c<cn;++c) for(int d : {0,9,10,11,200}) for(int thr : {0,9,10,199,200}) {
        cv::Mat m(5,5,CV_8UC(cn),cv::Scalar::all(40)); m.ptr<uchar>(y)[x*cn+c]=uchar(40+d); ctx().evals++; ctx().nontriv++; mark("pattern cn %d pos %d,%d c %d d %d thr %d",cn,x,y,c,d,thr);
        int b=PAT[y][x]; ushort e=(b>=0 && d>thr)?ushort(1u<<b):0;
        if(cn==1) {ushort g=0xAAAA; LBSP::computeDescriptor<1>(m,40,2,2,0,(uchar)thr,g); if(g!=e) violation("lbsp-pattern",fmt("pixel (%d,%d) off by %d, threshold %d: descriptor %x, expected %x",x-2,y-2,d,thr,g,e));}
        else {alignas(16) std::array<uchar,3> R{{40,40,40}}, T{{(uchar)thr,(uchar)thr,(uchar)thr}}; std::array<ushort,3> g{{7,7,7}}; LBSP::computeDescriptor<3>(m,R,2,2,T,g); for(int k=0;k<3;++k) if(g[k]!=(k==c?e:0)) violation("lbsp-pattern3",fmt("pixel (%d,%d) channel %d off by %d, threshold %d: descriptor %d is %x",x-2,y-2,c,d,thr,k,g[k])); ushort q=9; LBSP::computeDescriptor<3>(m,40,2,2,(size_t)c,(uchar)thr,q); if(q!=e) violation("lbsp-pattern-ch","single-channel lookup in a colour image");
            T={{(uchar)thr,0,255}}; LBSP::computeDescriptor<3>(m,R,2,2,T,g); for(int k=0;k<3;++k) {int tk=k==0?thr:k==1?0:255; ushort ek=(k==c && b>=0 && d>tk)?ushort(1u<<b):0; if(g[k]!=ek) violation("lbsp-pattern-thr","per-channel thresholds");}}
    }
    sample("pattern: all 25 positions x channels x differences x thresholds");
}
static void images() {
    std::vector<std::pair<int,int>> sizes; for(int r=5;r<=8;++r) for(int c=5;c<=8;++c) sizes.emplace_back(r,c); for(int big=0;big<9;++big) {static const int B[][2]={{5,20},{21,5},{16,16},{17,33},{33,18},{40,64},{64,37},{6,300},{131,9}}; sizes.emplace_back(B[big][0],B[big][1]);}
    for(int cn : {1,3}) for(auto& sz : sizes) for(int pat=0;pat<(ctx().thorough?40:10);++pat) for(size_t ci=0;ci<CFGS.size();++ci) for(int useref=0;useref<2;++useref) { const int r=sz.first,c=sz.second; if(r*c>64 && !ctx().thorough && (pat+(int)ci+useref)%5) continue;
        const Cfg& C=CFGS[ci]; cv::Mat m=image(r,c,cn,pat), rf=image(r,c,cn,pat+3), keep=m.clone(), rkeep=rf.clone(); ctx().evals++; ctx().nontriv++; ctx().transitions+=4;
        mark("lbsp %dx%dx%d pattern %d config %zu ref %d",r,c,cn,pat,ci,useref); auto tag=fmt("%dx%d image, %d channels, pattern %d, %s threshold %g+%zu, %s reference",c,r,cn,pat,C.rel?"relative":"absolute",C.f,C.off,useref?"separate":"own");
        std::unique_ptr<LBSP> L(C.rel?new LBSP(C.f,C.off):new LBSP(C.off)); if(useref) L->setReference(rf); const cv::Mat& R=useref?rf:m;
        auto exp=[&](int x, int y, int k){int ref=R.ptr<uchar>(y)[x*cn+k]; return refdesc(m,x,y,k,ref,thr_of(C.rel,C.f,C.off,ref));};
        cv::Mat D; if(pat%2) D.create(3,3,CV_8UC1); L->compute2(m,D);
        if(D.size()!=m.size() || D.type()!=CV_16UC(cn)) {violation("lbsp-map-shape",tag); continue;}
        lv::MatInfo oi=L->getOutputInfo(lv::MatInfo(m)); if(!(oi==lv::MatInfo(D))) violation("lbsp-output-info",tag);
        for(int y=2;y<r-2;++y) for(int x=2;x<c-2;++x) for(int k=0;k<cn;++k) if(D.ptr<ushort>(y)[x*cn+k]!=exp(x,y,k)) violation("lbsp-map",fmt("%s: descriptor %d at (%d,%d) is %x, expected %x",tag.c_str(),k,x,y,D.ptr<ushort>(y)[x*cn+k],exp(x,y,k)));
        // keypoints: all pixels, filtered by the extractor
        std::vector<cv::KeyPoint> kp; for(int y=0;y<r;++y) for(int x=0;x<c;++x) if(!((x*3+y*5+pat)%3==0)) kp.emplace_back(cv::Point2f((float)x,(float)y),5.f);
        std::vector<cv::KeyPoint> k1=kp,k2=kp; cv::Mat S,M; L->compute(m,k1,S); L->compute2(m,k2,M);
        std::vector<cv::Point> inner; for(auto& q : kp) if(q.pt.x>=2 && q.pt.x<c-2 && q.pt.y>=2 && q.pt.y<r-2) inner.push_back(q.pt);
        bool same=k1.size()==inner.size() && k2.size()==inner.size(); for(size_t i=0;i<inner.size()&&same;++i) same&=cv::Point(k1[i].pt)==inner[i] && cv::Point(k2[i].pt)==inner[i];
        if(!same) {violation("lbsp-keypoints",tag+": kept keypoints"); continue;}
        if(inner.empty()) {if(!S.empty() || !M.empty()) violation("lbsp-keypoints-empty",tag); continue;}
        if(S.rows!=(int)inner.size() || S.cols!=1 || S.type()!=CV_16UC(cn) || M.size()!=m.size() || M.type()!=CV_16UC(cn)) {violation("lbsp-keypoint-shape",tag); continue;}
        for(size_t i=0;i<inner.size();++i) for(int k=0;k<cn;++k) {ushort e=exp(inner[i].x,inner[i].y,k); if(S.ptr<ushort>((int)i)[k]!=e) violation("lbsp-keypoint-desc",tag); if(M.ptr<ushort>(inner[i].y)[inner[i].x*cn+k]!=e) violation("lbsp-keypoint-map",tag);}
        cv::Mat isin(r,c,CV_8UC1,cv::Scalar(0)); for(auto& q : inner) isin.at<uchar>(q)=1;
        cv::Mat O; LBSP::reshapeDesc(m.size(),k1,S,O); for(int y=0;y<r;++y) for(int x=0;x<c;++x) for(int k=0;k<cn;++k) {bool in=isin.at<uchar>(y,x)!=0; if(O.ptr<ushort>(y)[x*cn+k]!=(in?exp(x,y,k):0)) violation("lbsp-reshape",fmt("%s: (%d,%d)",tag.c_str(),x,y));}
        if(cv::norm(m,keep,cv::NORM_INF)!=0 || cv::norm(rf,rkeep,cv::NORM_INF)!=0) violation("lbsp-input-modified",tag);
    }
    // batch interface
    for(int n=0;n<=3;++n) {std::vector<cv::Mat> v,o,o2; std::vector<std::vector<cv::KeyPoint>> kk; for(int i=0;i<n;++i) {v.push_back(image(5+i,7-i%2,i%2?3:1,i)); kk.push_back({cv::KeyPoint(2.f,2.f,5.f),cv::KeyPoint(0.f,2.f,5.f)});} LBSP L(0.3f,2); L.compute2(v,o); L.compute2(v,kk,o2); if((int)o.size()!=n || (int)o2.size()!=n) violation("lbsp-batch","count"); for(int i=0;i<n;++i) {cv::Mat s; L.compute2(v[i],s); cv::Rect in(2,2,v[i].cols-4,v[i].rows-4); if(cv::norm(s(in),o[i](in),cv::NORM_INF)!=0 || kk[i].size()!=1 || cv::norm(s(cv::Rect(2,2,1,1)),o2[i](cv::Rect(2,2,1,1)),cv::NORM_INF)!=0) violation("lbsp-batch","content");}}
    sample("dense and keypoint descriptors: sizes 5..8 squared and nine sizes up to 64x37, 6x300 and 131x9 x 1/3 channels x patterns x 13 thresholds x reference or not");
}
static void fractional() { // keypoints at quarter-pixel positions: those kept are described at their nearest pixel, inside the image
    for(int cn : {1,3}) for(int r=5;r<=7;++r) for(int c=5;c<=6;++c) {
        cv::Mat big(r,c,CV_8UC(cn)); image(r,c,cn,3).copyTo(big); cv::Mat m=big;
        for(float y=-1;y<=r;y+=0.25f) for(float x=-1;x<=c;x+=0.25f) for(int rel=0;rel<2;++rel) {
            ctx().evals++; ctx().nontriv++; mark("keypoint %g,%g in %dx%dx%d",x,y,c,r,cn); std::unique_ptr<LBSP> L(rel?new LBSP(0.3f,5):new LBSP((size_t)30));
            std::vector<cv::KeyPoint> k{cv::KeyPoint(x,y,5.f)}, k2=k, k3=k; cv::Mat S,M,O; L->compute(m,k,S); L->compute2(m,k2,M); LBSP::validateKeyPoints(k3,m.size());
            int X=cvRound(x), Y=cvRound(y); bool in=X>=2 && Y>=2 && X<c-2 && Y<r-2; bool mustin=x>=2 && y>=2 && x<=c-3 && y<=r-3, mustout=x<1.5f || y<1.5f || x>c-2.5f+1 || y>r-2.5f+1;
            if((mustin && k.size()!=1) || (mustout && k.size()!=0) || k.size()!=k2.size() || k.size()!=k3.size()) {violation("lbsp-fractional-filter",fmt("keypoint (%g,%g) in %dx%d: kept %zu/%zu/%zu",x,y,c,r,k.size(),k2.size(),k3.size())); continue;}
            if(k.empty() || !in) continue;
            LBSP::reshapeDesc(m.size(),k,S,O);
            for(int q=0;q<cn;++q) {int ref=m.ptr<uchar>(Y)[X*cn+q]; ushort e=refdesc(m,X,Y,q,ref,thr_of(rel!=0,0.3f,rel?5:30,ref)); if(S.ptr<ushort>(0)[q]!=e || M.ptr<ushort>(Y)[X*cn+q]!=e || O.ptr<ushort>(Y)[X*cn+q]!=e) violation("lbsp-fractional",fmt("keypoint (%g,%g): descriptor is not that of its nearest pixel",x,y));}
        }
    }
    sample("keypoints at all quarter-pixel positions in and around images of 5..7 pixels");
}
static void derived() {
    // distances between descriptor maps
    static const int DS[][2]={{3,4},{1,1},{1,17},{5,33},{40,64},{17,3}}; for(int q=0;q<6;++q) for(int cn=1;cn<=4;++cn) for(int pat=0;pat<(q?20:200);++pat) { const int H=DS[q][0],W=DS[q][1],n=H*W;
        cv::Mat a(H,W,CV_16UC(cn)), b(H,W,CV_16UC(cn)); uint32_t s=pat*977+1; for(int i=0;i<n*cn;++i) {s^=s<<13; s^=s>>17; s^=s<<5; a.ptr<ushort>()[i]=(ushort)(pat<4?(pat&1?0xFFFF:0):s); b.ptr<ushort>()[i]=(ushort)(pat<4?(pat&2?0xFFFF:0):s>>16);}
        cv::Mat_<uchar> d; LBSP::calcDistances(a,b,d); ctx().evals++; ctx().nontriv++; mark("calcDistances cn %d pat %d",cn,pat); bool ok=d.rows==H && d.cols==W; for(int i=0;i<n&&ok;++i) {int e=0; for(int k=0;k<cn;++k) e+=__builtin_popcount(a.ptr<ushort>()[i*cn+k]^b.ptr<ushort>()[i*cn+k]); ok&=d.ptr<uchar>()[i]==e;} if(!ok) violation("lbsp-distances",fmt("channels %d pattern %d",cn,pat));
        if(cn==1 || cn==3) for(int mg=0;mg<2;++mg) {cv::Mat o; LBSP::calcDescImgDiff(a,b,o,mg!=0); int oc=cn==1||mg?1:3; ok=o.type()==CV_8UC(oc) && o.size()==a.size(); for(int i=0;i<n&&ok;++i) {if(oc==cn) for(int k=0;k<cn;++k) {int h=__builtin_popcount(a.ptr<ushort>()[i*cn+k]^b.ptr<ushort>()[i*cn+k]); ok&=std::abs(o.ptr<uchar>()[i*cn+k]-h*255.0/16)<=1.0;} else {double e=0; for(int k=0;k<cn;++k) e+=__builtin_popcount(a.ptr<ushort>()[i*cn+k]^b.ptr<ushort>()[i*cn+k])*255.0/16/3; ok&=std::abs(o.ptr<uchar>()[i]-e)<=3.0;}} if(!ok) violation("lbsp-diff-image",fmt("channels %d pattern %d merge %d",cn,pat,mg));}
    }
    // ROI validation
    for(int r=5;r<=70;r+=r<9?1:r<40?8:13) for(int c=5;c<=70;c+=c<9?1:c<40?8:13) for(int pat=0;pat<16;++pat) {cv::Mat roi(r,c,CV_8UC1); for(int i=0;i<r*c;++i) roi.data[i]=((i*7+pat*3)%(pat+2))?255:(pat%3?0:1); cv::Mat k=roi.clone(), shared=roi; LBSP::validateROI(roi); ctx().evals++; mark("validateROI %dx%d",c,r); bool ok=roi.size()==k.size() && roi.type()==CV_8UC1; for(int y=0;y<r&&ok;++y) for(int x=0;x<c;++x) {bool in=x>=2 && y>=2 && x<c-2 && y<r-2; ok&=roi.at<uchar>(y,x)==(in?k.at<uchar>(y,x):0);} if(!ok) violation("lbsp-roi",fmt("%dx%d",c,r));}
    // gradients: magnitude is the largest channel's bit count, direction counts its signed bits
    static const int GX[5]={1,1,0,-1,-1}, GY[5]={-1,-1,0,1,1};
    for(int pat=0;pat<(ctx().thorough?20000:4000);++pat) {
        alignas(16) std::array<std::array<uchar,16>,3> v; alignas(16) std::array<uchar,16> w[3]; cv::Mat m=image(5,5,3,pat); LBSP::computeDescriptor_lookup<3>(m,2,2,v); uchar R[3]; for(int k=0;k<3;++k) R[k]=m.ptr<uchar>(2)[6+k]; ctx().evals++; ctx().nontriv++; if(pat%64==0) mark("gradient pattern %d",pat);
        for(int k=0;k<3;++k) {LBSP::computeDescriptor_lookup<3>(m,2,2,(size_t)k,w[k]); if(w[k]!=v[k]) violation("lbsp-lookup","single-channel and multi-channel lookups differ");}
        int best=-1,gx=0,gy=0; std::set<std::pair<int,int>> dirs; for(int k=0;k<3;++k) {int thr=((R[k]>>2)+20)/2; ushort d=refdesc(m,2,2,k,R[k],thr); int n=__builtin_popcount(d); if(n>=best) {gx=gy=0; for(int y=0;y<5;++y) for(int x=0;x<5;++x) if(PAT[y][x]>=0 && (d>>PAT[y][x])&1) {gx+=GX[x]; gy+=GY[y];} if(n>best) dirs.clear(); best=n; dirs.insert({gx,gy});}}
        int ox,oy; uint om; LBSP::computeDescriptor_gradient<3>(v[0].data(),R,ox,oy,om); if((int)om!=best || !dirs.count({ox,oy})) violation("lbsp-gradient",fmt("pattern %d: magnitude %u (expected %d), direction (%d,%d)",pat,om,best,ox,oy));
    }
    sample("descriptor distances, difference images, ROI validation, gradients");
}
int main(int argc, char** argv) {
    init(argc,argv); lv::setVerbosity(0); cv::setNumThreads(1); cv::redirectError([](int,const char*,const char*,const char*,int,void*){return 0;});
    if(is_part("lbsp-threshold")) threshold();
    if(is_part("lbsp-pattern")) pattern();
    if(is_part("lbsp-images")) images();
    if(is_part("lbsp-fractional")) fractional();
    if(is_part("lbsp-derived")) derived();
    return finish();
}
