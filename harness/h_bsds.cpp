// P26: boundary benchmark (BSDS500): assignment solver, random subset selection, per-threshold matching counts, derived scores, coloured masks.
#include "litiv/datasets.hpp"
#include "litiv/imgproc.hpp"
#include "litiv/3rdparty/bsds500/csa.hpp"
#include "litiv/3rdparty/bsds500/kofn.hpp"
#include "../mc/report.hpp"
#include <cmath>
#include <fstream>
using namespace vr;
typedef lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500> Acc;
typedef lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500> Calc;

// ---- assignment solver: all bipartite graphs with up to n nodes per side that have a perfect matching ----
static void solve(int n, const std::vector<int>& cost /*n*n, -1: no edge*/, bool reverse) {
    std::vector<int> p(n); for(int i=0;i<n;++i) p[i]=i; long best=-1;
    do {long c=0; bool ok=true; for(int i=0;i<n && ok;++i) {int e=cost[i*n+p[i]]; if(e<0) ok=false; else c+=e;} if(ok && (best<0 || c<best)) best=c;} while(std::next_permutation(p.begin(),p.end()));
    if(best<0 || *std::max_element(cost.begin(),cost.end())<=0) return; // the solver is only specified for graphs with a perfect matching and some positive cost
    ctx().evals++; ctx().nontriv++;
    std::vector<int> g; for(int k=0;k<n*n;++k) {int i=reverse?n*n-1-k:k; if(cost[i]>=0) {g.push_back(i/n+1); g.push_back(n+i%n+1); g.push_back(cost[i]);}}
    BSDS500::CSA s(2*n,int(g.size()/3),g.data());
    std::vector<char> l(n,0),r(n,0); long c=0; bool ok=s.edges()==n;
    for(int i=0;i<n && ok;++i) {int a,b,w; s.edge(i,a,b,w); ok=a>=1 && a<=n && b>n && b<=2*n && !l[a-1] && !r[b-n-1] && cost[(a-1)*n+b-n-1]==w; if(ok) {l[a-1]=r[b-n-1]=1; c+=w;}}
    if(!ok) violation("assign-shape",fmt("the solver did not return a one-to-one assignment of existing edges for a graph of %d+%d nodes",n,n));
    else if(c!=best) violation("assign-cost",fmt("assignment of cost %ld returned, the cheapest costs %ld (%d+%d nodes)",c,best,n,n));
}
static void assign() {
    auto all=[&](int n, const std::vector<int>& w) {
        std::vector<int> d(n*n,0),c(n*n); bool more=true; uint64_t k=0;
        while(more) {
            if((k++&255)==0) {if(out_of_time()) return; mark("assignment n=%d graph %llu",n,(unsigned long long)k);}
            for(int i=0;i<n*n;++i) c[i]=w[d[i]]; solve(n,c,k&1);
            more=false; for(int i=0;i<n*n;++i) {if(++d[i]<(int)w.size()) {more=true; break;} d[i]=0;}
        }
    };
    all(1,{-1,0,1,5,1000}); all(2,{-1,0,1,2,7,100}); all(3,ctx().thorough?std::vector<int>{-1,0,1,3,50}:std::vector<int>{-1,0,1,50}); all(4,ctx().thorough?std::vector<int>{-1,1,9}:std::vector<int>{-1,3});
    if(!ctx().thorough) { // 4+4 complete graphs: every placement of two costs
        for(int k=0;k<65536;++k) {if((k&255)==0) {if(out_of_time()) return; mark("assignment complete 4+4 graph %d",k);} std::vector<int> c(16); for(int i=0;i<16;++i) c[i]=k>>i&1?141:100; solve(4,c,k&1);}
    }
    sample("every cost matrix up to 3x3 over {none,0,1,50}, every 4x4 adjacency, every 4x4 matrix over two costs");
}
static void kofn() {
    for(int n=1;n<=(ctx().thorough?120:60);++n) for(int k=0;k<=n;++k) for(int rep=0;rep<(n<=12?200:10);++rep) {
        if(rep==0) mark("choose %d of %d",k,n); ctx().evals++; std::vector<int> v(k+2,-7); BSDS500::kOfN(k,n,v.data()+1); bool ok=v[0]==-7 && v[k+1]==-7; for(int i=1;i<=k;++i) ok&=v[i]>=0 && v[i]<n && (i==1 || v[i]>v[i-1]);
        if(!ok) violation("kofn",fmt("choosing %d of %d did not return that many distinct increasing indices",k,n));
    }
    sample("every (k,n) with n up to 60");
}

// ---- reference counts of one image ----
struct Ref {std::vector<uint64_t> itp,itpfn,ttpfp; std::vector<std::set<size_t>> ttp;};
static void matchings(const std::vector<cv::Point>& s, const std::vector<cv::Point>& g, double maxd, size_t& card, std::set<std::set<int>>& used) {
    // all maximum-cardinality, minimum-total-distance matchings: explore every assignment of gt pixels
    std::vector<char> busy(s.size(),0); size_t bc=0; long bd=0; used.clear(); used.insert(std::set<int>()); std::set<int> cur;
    std::function<void(size_t,size_t,long)> rec=[&](size_t j, size_t c, long d) {
        if(c+(g.size()-j)<bc) return;
        if(j==g.size()) {if(c>bc || (c==bc && d<bd)) {bc=c; bd=d; used.clear(); used.insert(cur);} else if(c==bc && d==bd) used.insert(cur); return;}
        for(size_t i=0;i<s.size();++i) if(!busy[i]) {double dx=s[i].x-g[j].x,dy=s[i].y-g[j].y,dd=std::sqrt(dx*dx+dy*dy); if(dd>maxd) continue; busy[i]=1; cur.insert((int)i); rec(j+1,c+1,d+(long)std::lrint(dd*100)); cur.erase((int)i); busy[i]=0;}
        rec(j+1,c,d);
    };
    rec(0,0,0); card=bc;
}
static Ref reference(const cv::Mat& seg, const cv::Mat& gt, const std::vector<uchar>& thr) {
    Ref r; const int n=gt.rows/seg.rows; const double maxd=0.0075*std::sqrt(double(seg.cols)*seg.cols+double(seg.rows)*seg.rows);
    std::map<std::string,size_t> memo;
    for(size_t t=0;t<thr.size();++t) {
        cv::Mat m=seg>=thr[t],th; std::string key((char*)m.data,m.total()); auto it=memo.find(key);
        if(it!=memo.end()) {size_t o=it->second; r.itp.push_back(r.itp[o]); r.itpfn.push_back(r.itpfn[o]); r.ttpfp.push_back(r.ttpfp[o]); r.ttp.push_back(r.ttp[o]); continue;}
        memo[key]=t; lv::thinning(m,th); std::vector<cv::Point> s; for(int y=0;y<th.rows;++y) for(int x=0;x<th.cols;++x) if(th.at<uchar>(y,x)) s.push_back(cv::Point(x,y));
        uint64_t tp=0,pos=0; std::set<std::set<int>> unions; unions.insert(std::set<int>());
        for(int k=0;k<n;++k) {
            std::vector<cv::Point> g; for(int y=0;y<seg.rows;++y) for(int x=0;x<seg.cols;++x) if(gt.at<uchar>(k*seg.rows+y,x)) g.push_back(cv::Point(x,y));
            size_t c; std::set<std::set<int>> u,next; matchings(s,g,maxd,c,u); tp+=c; pos+=g.size();
            for(auto& a : unions) for(auto& b : u) {std::set<int> x=a; x.insert(b.begin(),b.end()); next.insert(x);} unions.swap(next);
        }
        std::set<size_t> sz; for(auto& a : unions) sz.insert(a.size()); r.itp.push_back(tp); r.itpfn.push_back(pos); r.ttpfp.push_back(s.size()); r.ttp.push_back(sz);
    }
    return r;
}
static std::vector<uchar> refThresholds(size_t bins) {std::vector<uchar> v; for(size_t i=1;i<=bins;++i) v.push_back(uchar(255.0/bins*i)); return v;}
static void imageCase(const cv::Mat& seg, const cv::Mat& gt, size_t bins) {
    ctx().evals++; ctx().nontriv++; auto a=bins==99?lv::IIMetricsAccumulator::create<Acc>():lv::IIMetricsAccumulator::create<Acc>(bins); cv::Mat s0=seg.clone(),g0=gt.clone();
    try {a->accumulate(seg,gt,cv::Mat());} catch(const std::exception& e) {violation("eval-refused",fmt("evaluation of a valid boundary map was refused: %s",e.what())); return;}
    if(cv::norm(seg,s0,cv::NORM_INF)!=0 || cv::norm(gt,g0,cv::NORM_INF)!=0) violation("eval-modified","the evaluation changed its inputs");
    if(a->m_voMetricsBase.size()!=1) {violation("eval-blocks","one evaluated image did not yield one block of counters"); return;}
    const auto& b=a->m_voMetricsBase[0]; std::vector<uchar> rt=refThresholds(bins); bool ok=b.vnThresholds.size()==bins; for(size_t i=0;ok && i<bins;++i) ok=std::abs(int(b.vnThresholds[i])-int(rt[i]))<=1 && b.vnThresholds[i]>0 && (!i || b.vnThresholds[i]>b.vnThresholds[i-1]);
    if(!ok) {violation("eval-thresholds",fmt("the %zu thresholds are not evenly spread over ]0,255]",bins)); return;}
    Ref r=reference(seg,gt,b.vnThresholds);
    for(size_t t=0;t<bins;++t) {
        if(b.vnIndivTPFN[t]!=r.itpfn[t]) violation("eval-gt-count",fmt("threshold %d: %llu ground truth boundary pixels counted, there are %llu",b.vnThresholds[t],(unsigned long long)b.vnIndivTPFN[t],(unsigned long long)r.itpfn[t]));
        if(b.vnTotalTPFP[t]!=r.ttpfp[t]) violation("eval-det-count",fmt("threshold %d: %llu detected boundary pixels counted, there are %llu",b.vnThresholds[t],(unsigned long long)b.vnTotalTPFP[t],(unsigned long long)r.ttpfp[t]));
        if(b.vnIndivTP[t]!=r.itp[t]) violation("eval-matched",fmt("threshold %d: %llu ground truth pixels matched, the largest matching has %llu",b.vnThresholds[t],(unsigned long long)b.vnIndivTP[t],(unsigned long long)r.itp[t]));
        if(!r.ttp[t].count(b.vnTotalTP[t])) violation("eval-det-matched",fmt("threshold %d: %llu detected pixels counted as matched, possible are %zu..%zu",b.vnThresholds[t],(unsigned long long)b.vnTotalTP[t],*r.ttp[t].begin(),*r.ttp[t].rbegin()));
    }
}
// image shapes with matching distances just above 1 and 2 pixels, and below 1; cells around the given origin
struct Geo {int rows,cols,y,x;};
static const Geo GEO[]={{5,134,1,3},{5,134,0,0},{134,5,130,1},{5,134,2,131},{5,100,1,40},{5,267,1,100},{100,100,50,50}};
static void match(int part) {
    const int W=3,H=2,C=W*H;
    for(int gi=0;gi<7;++gi) {
        if(gi%2!=part) continue; const Geo& G=GEO[gi]; const int full=1<<C;
        for(int a=0;a<full;++a) for(int b=0;b<full;++b) {
            if(out_of_time()) return; const bool second=(a*7+b*3)%(ctx().thorough?2:5)==0; mark("geometry %d detection %d ground truth %d",gi,a,b);
            cv::Mat s=cv::Mat::zeros(G.rows,G.cols,CV_8UC1),g=cv::Mat::zeros(G.rows*(second?2:1),G.cols,CV_8UC1);
            for(int k=0;k<C;++k) {int y=G.y+k/W,x=G.x+k%W; if(a>>k&1) s.at<uchar>(y,x)=200; if(b>>k&1) g.at<uchar>(y,x)=255; if(second && ((b*5+a)>>k&1)) g.at<uchar>(G.rows+y,x)=255;}
            if(gi==6 && (a*full+b)%16) continue;
            imageCase(s,g,2+(a+b)%2);
        }
    }
    sample("every detection x ground truth over a 2x3 block in 7 image geometries, one or two annotators");
}
static void levels() {
    // three detected pixels far apart, one annotator each near/far, values at, below and above thresholds
    for(size_t bins : {1,2,3,4,5,50,99,127,255}) {
        std::vector<uchar> t=refThresholds(bins); std::set<int> sel; for(size_t i=0;i<bins;++i) if(i<2 || i+2>=bins || i==bins/2) for(int d=-1;d<=1;++d) if(int(t[i])+d<=255) sel.insert(int(t[i])+d); sel.insert(0); sel.insert(255);
        std::vector<int> v(sel.begin(),sel.end()); const bool small=bins<=5 || ctx().thorough;
        for(size_t i=0;i<v.size();++i) for(size_t j=0;j<v.size();++j) for(size_t k=0;k<(small?v.size():1);++k) for(int gm=0;gm<4;++gm) {
            if(gm && gm!=int(1+(i+j+k)%3)) continue; if(out_of_time()) return; mark("levels bins %zu values %d %d %d ground truth %d",bins,v[i],v[j],v[k],gm);
            cv::Mat s=cv::Mat::zeros(5,134,CV_8UC1),g=cv::Mat::zeros(5,134,CV_8UC1); s.at<uchar>(2,10)=(uchar)v[i]; s.at<uchar>(2,20)=(uchar)v[j]; s.at<uchar>(2,30)=(uchar)v[small?k:(i+j)%v.size()];
            if(gm!=1) g.at<uchar>(2,10)=255; if(gm!=2) g.at<uchar>(1,20)=255; if(gm!=3) g.at<uchar>(2,31)=255; imageCase(s,g,bins);
        }
        // uniform maps: no value below the first threshold
        for(int u : v) {cv::Mat s(5,134,CV_8UC1,cv::Scalar(u)),g=cv::Mat::zeros(5,134,CV_8UC1); if(u>=128) continue; cv::Mat s2=cv::Mat::zeros(5,134,CV_8UC1); s2.row(2).colRange(5,9).setTo(u); g.row(2).colRange(6,10).setTo(255); imageCase(s2,g,bins);}
    }
    { // misuse: refused without a trace; no ground truth: nothing is counted
        auto a=lv::IIMetricsAccumulator::create<Acc>(); cv::Mat s=cv::Mat::zeros(5,134,CV_8UC1); a->accumulate(s,cv::Mat(),cv::Mat()); if(!a->m_voMetricsBase.empty()) violation("eval-nogt","an image without ground truth was counted");
        auto refused=[&](const cv::Mat& x, const cv::Mat& y, const char* w) {ctx().evals++; bool t=false; try {a->accumulate(x,y,cv::Mat());} catch(...) {t=true;} if(!t || !a->m_voMetricsBase.empty()) violation("eval-misuse",fmt("%s was accepted",w));};
        refused(s,cv::Mat::zeros(7,134,CV_8UC1),"a ground truth whose height is no multiple"); refused(s,cv::Mat::zeros(5,130,CV_8UC1),"a narrower ground truth"); refused(s,cv::Mat::zeros(5,134,CV_8UC3),"a colour ground truth"); refused(cv::Mat::zeros(5,134,CV_32FC1),s,"a float map"); refused(cv::Mat::zeros(10,134,CV_8UC1),s,"a ground truth smaller than the map");
        for(size_t b : {size_t(0),size_t(256)}) {bool t=false; try {lv::IIMetricsAccumulator::create<Acc>(b);} catch(...) {t=true;} if(!t) violation("eval-bins","an invalid number of thresholds was accepted");}
    }
    sample("every combination of values at, below and above thresholds for 9 threshold counts");
}

// ---- derived scores ----
static bool near_(double a, double b) {return std::abs(a-b)<=1e-9*std::max(1.0,std::max(std::abs(a),std::abs(b)));}
struct S {double t,r,p,f;};
static double rat(uint64_t a, uint64_t b) {return b?double(a)/b:0;}
static double fm(double r, double p) {return r+p>0?2*r*p/(r+p):0;}
// every interpolated operating point of the curve
static std::vector<S> points(const std::vector<S>& v) {std::vector<S> o(1,v[0]); for(size_t i=1;i<v.size();++i) for(int k=0;k<=100;++k) {double c=k/100.0,l=1-c; S s{l*v[i-1].t+c*v[i].t,l*v[i-1].r+c*v[i].r,l*v[i-1].p+c*v[i].p,0}; s.f=fm(s.r,s.p); o.push_back(s);} return o;}
static void chkBest(const lv::BSDS500Score& g, const std::vector<S>& curve, const char* what) {
    double best=0; auto pt=points(curve); for(auto& s : pt) best=std::max(best,s.f); if(!near_(g.dFMeasure,best)) {violation("score-best",fmt("%s: best F-measure is %g, expected %g",what,g.dFMeasure,best)); return;}
    for(auto& s : pt) if(near_(s.f,best) && near_(s.t,g.dThreshold) && near_(s.r,g.dRecall) && near_(s.p,g.dPrecision)) return;
    violation("score-best-point",fmt("%s: recall %g, precision %g, threshold %g are not those of an operating point with the best F-measure %g",what,g.dRecall,g.dPrecision,g.dThreshold,best));
}
static void chkScores(const Calc& c, const std::vector<lv::BSDS500Counters>& b, size_t bins, const char* what) {
    const std::vector<uchar>& t=b[0].vnThresholds; std::vector<S> cum; uint64_t mx[4]={0,0,0,0}; std::vector<std::vector<S>> img; bool tie=false;
    for(auto& x : b) {
        std::vector<S> v; for(size_t i=0;i<bins;++i) {S s{t[i]/255.0,rat(x.vnIndivTP[i],x.vnIndivTPFN[i]),rat(x.vnTotalTP[i],x.vnTotalTPFP[i]),0}; s.f=fm(s.r,s.p); v.push_back(s);} img.push_back(v);
        size_t k=0; for(size_t i=1;i<bins;++i) if(v[i].f>v[k].f) k=i; for(size_t i=0;i<bins;++i) if(i!=k && near_(v[i].f,v[k].f) && (x.vnIndivTP[i]!=x.vnIndivTP[k] || x.vnIndivTPFN[i]!=x.vnIndivTPFN[k] || x.vnTotalTP[i]!=x.vnTotalTP[k] || x.vnTotalTPFP[i]!=x.vnTotalTPFP[k])) tie=true;
        mx[0]+=x.vnIndivTP[k]; mx[1]+=x.vnIndivTPFN[k]; mx[2]+=x.vnTotalTP[k]; mx[3]+=x.vnTotalTPFP[k];
    }
    for(size_t i=0;i<bins;++i) {uint64_t q[4]={0,0,0,0}; for(auto& x : b) {q[0]+=x.vnIndivTP[i]; q[1]+=x.vnIndivTPFN[i]; q[2]+=x.vnTotalTP[i]; q[3]+=x.vnTotalTPFP[i];} S s{t[i]/255.0,rat(q[0],q[1]),rat(q[2],q[3]),0}; s.f=fm(s.r,s.p); cum.push_back(s);}
    if(c.voThresholdScores.size()!=bins || c.voBestImageScores.size()!=b.size()) {violation("score-size",fmt("%s: wrong number of scores",what)); return;}
    for(size_t i=0;i<bins;++i) {auto& g=c.voThresholdScores[i]; if(!near_(g.dThreshold,cum[i].t) || !near_(g.dRecall,cum[i].r) || !near_(g.dPrecision,cum[i].p) || !near_(g.dFMeasure,cum[i].f)) violation("score-threshold",fmt("%s: scores at threshold %zu are R=%g P=%g F=%g T=%g, expected R=%g P=%g F=%g T=%g",what,i,g.dRecall,g.dPrecision,g.dFMeasure,g.dThreshold,cum[i].r,cum[i].p,cum[i].f,cum[i].t));}
    chkBest(c.oBestScore,cum,what); for(size_t k=0;k<b.size();++k) chkBest(c.voBestImageScores[k],img[k],"per-image");
    if(!tie) {double r=rat(mx[0],mx[1]),p=rat(mx[2],mx[3]); if(!near_(c.dMaxRecall,r) || !near_(c.dMaxPrecision,p) || !near_(c.dMaxFMeasure,fm(r,p))) violation("score-max",fmt("%s: scores at the best threshold of each image are R=%g P=%g F=%g, expected R=%g P=%g F=%g",what,c.dMaxRecall,c.dMaxPrecision,c.dMaxFMeasure,r,p,fm(r,p)));}
    // area under the precision/recall curve: precision interpolated over recall 0,0.01..1 inside the covered range; where several thresholds share a recall either precision may be used
    std::map<double,std::pair<double,double>> pr; for(auto& s : cum) {auto it=pr.find(s.r); if(it==pr.end()) pr[s.r]={s.p,s.p}; else {it->second.first=std::min(it->second.first,s.p); it->second.second=std::max(it->second.second,s.p);}}
    double lo=0,hi=0; if(pr.size()>1) for(int k=0;k<=100;++k) {double q=k/100.0; auto u=pr.lower_bound(q-1e-12); if(u==pr.end()) continue; if(std::abs(u->first-q)<1e-12) {lo+=u->second.first*0.01; hi+=u->second.second*0.01; continue;} if(u==pr.begin()) continue; auto l=std::prev(u); double f=(q-l->first)/(u->first-l->first); lo+=0.01*((1-f)*l->second.first+f*u->second.first); hi+=0.01*((1-f)*l->second.second+f*u->second.second);}
    if(!(c.dAreaPR>=lo-1e-6 && c.dAreaPR<=hi+1e-6)) violation("score-area",fmt("%s: area under the precision/recall curve is %g, expected %g..%g",what,c.dAreaPR,lo,hi));
}
static void scores() {
    // every assignment of a catalogue of counter quadruples to 1-3 thresholds of 1-2 images
    const int Q[][4]={{0,0,0,0},{0,4,0,0},{0,4,0,3},{4,4,3,3},{2,4,2,3},{1,4,1,1},{3,4,2,8},{4,8,2,2},{100,400,100,100}}; const int N=9;
    for(size_t bins=1;bins<=3;++bins) for(int imgs=1;imgs<=2;++imgs) {
        const int L=int(bins)*imgs; if(L>4 && !(ctx().thorough && L<=6)) {if(L>4) continue;} long tot=1; for(int i=0;i<L;++i) tot*=N;
        for(long k=0;k<tot;++k) {
            if(out_of_time()) return; ctx().evals++; ctx().nontriv++; mark("scores bins %zu images %d case %ld",bins,imgs,k);
            auto a=lv::IIMetricsAccumulator::create<Acc>(bins),a2=lv::IIMetricsAccumulator::create<Acc>(bins); std::vector<lv::BSDS500Counters> b; long q=k;
            for(int i=0;i<imgs;++i) {lv::BSDS500Counters x(bins); for(size_t j=0;j<bins;++j) {const int* c=Q[q%N]; q/=N; x.vnIndivTP[j]=c[0]; x.vnIndivTPFN[j]=c[1]; x.vnTotalTP[j]=c[2]; x.vnTotalTPFP[j]=c[3];} b.push_back(x); (i?a2:a)->m_voMetricsBase.push_back(x);}
            if((*a==*a2)!=(imgs==2 && lv::BSDS500Counters::isEqual(b[0],b[1]))) violation("acc-equal","accumulators compare wrongly");
            auto c1=lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(a)); chkScores(*c1,{b[0]},bins,"one image");
            if(imgs==2) {
                auto c2=lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(a2)); c1->accumulate(c2); // order of the images is not specified
                chkScores(*c1,near_(c1->voBestImageScores[0].dFMeasure,c2->voBestImageScores[0].dFMeasure) && near_(c1->voBestImageScores[0].dRecall,c2->voBestImageScores[0].dRecall)?std::vector<lv::BSDS500Counters>{b[1],b[0]}:b,bins,"two sets");
                if(a->accumulate(a2).get()!=a.get() || a->m_voMetricsBase.size()!=2) violation("acc-sum","accumulated counters are incomplete"); else chkScores(*lv::IIMetricsCalculator::create<Calc>(lv::IIMetricsAccumulatorConstPtr(a)),b,bins,"two images");
                if(*a==*a2) violation("acc-equal","accumulators of different sizes compare equal");
            }
        }
    }
    { bool t=false; auto a=lv::IIMetricsAccumulator::create<Acc>((size_t)2),b=lv::IIMetricsAccumulator::create<Acc>((size_t)3); try {a->accumulate(lv::IIMetricsAccumulatorConstPtr(b));} catch(...) {t=true;} if(!t) violation("acc-misuse","counters with other thresholds were added"); if(*a==*b) violation("acc-equal","accumulators with other thresholds compare equal"); }
    sample("every assignment of 9 counter quadruples to up to 3 thresholds of up to 2 images");
}
static void colours() {
    // the mask shows detections near a boundary green, others red, missed boundaries magenta (averaged over the annotators)
    for(int gi=0;gi<6;++gi) for(int a=0;a<64;++a) for(int b=0;b<64;++b) for(int n=1;n<=2;++n) {
        const Geo& G=GEO[gi]; if(out_of_time()) return; if(gi && (a+b)%3 && !ctx().thorough) continue; ctx().evals++; ctx().nontriv++; mark("colours geometry %d detection %d ground truth %d annotators %d",gi,a,b,n);
        cv::Mat s=cv::Mat::zeros(G.rows,G.cols,CV_8UC1),g=cv::Mat::zeros(G.rows*n,G.cols,CV_8UC1);
        for(int k=0;k<6;++k) {int y=G.y+k/3,x=G.x+k%3; int gx=G.x+(k%3)*(G.x+8<G.cols && G.x>4?4:1); if(a>>k&1) s.at<uchar>(y,x)=255; if(b>>k&1) g.at<uchar>(y,gx)=255; if(n==2 && ((a+b*5)>>k&1)) g.at<uchar>(G.rows+y,gx)=255;}
        cv::Mat c; try {c=Acc::getColoredMask(s,g,cv::Mat());} catch(...) {violation("colour-refused","coloured mask of a valid map was refused"); continue;} if(c.type()!=CV_8UC3 || c.size()!=s.size()) {violation("colour-shape","coloured mask has the wrong size or type"); continue;}
        const int R=(int)std::ceil(0.0075*std::sqrt(double(G.cols)*G.cols+double(G.rows)*G.rows));
        for(int y=0;y<s.rows;++y) for(int x=std::max(0,G.x-6);x<std::min(s.cols,G.x+20);++x) {
            double tp=0,fp=0,fn=0; for(int k=0;k<n;++k) {bool ng=false,ns=false; for(int v=std::max(0,y-R);v<=std::min(s.rows-1,y+R);++v) for(int u=std::max(0,x-R);u<=std::min(s.cols-1,x+R);++u) {ng|=g.at<uchar>(k*G.rows+v,u)!=0; ns|=s.at<uchar>(v,u)!=0;} if(s.at<uchar>(y,x)) (ng?tp:fp)+=255.0/n; if(g.at<uchar>(k*G.rows+y,x) && !ns) fn+=255.0/n;}
            cv::Vec3b q=c.at<cv::Vec3b>(y,x); if(std::abs(q[1]-tp)>1 || std::abs(q[0]-fn)>1 || std::abs(q[2]-std::max(fp,fn))>1) violation("colour",fmt("colour at (%d,%d) of a %dx%d map is %d,%d,%d, expected %g,%g,%g",x,y,s.cols,s.rows,q[0],q[1],q[2],fn,tp,std::max(fp,fn)));
        }
    }
    cv::Mat s(5,134,CV_8UC1,cv::Scalar(77)); cv::Mat c=Acc::getColoredMask(s,cv::Mat(),cv::Mat()); if(c.type()!=CV_8UC3 || c.at<cv::Vec3b>(2,3)!=cv::Vec3b(77,77,77)) violation("colour-nogt","mask without ground truth is not the grey map");
    sample("every detection x ground truth over a 2x3 block in 6 image geometries, one or two annotators");
}
// ---- the whole data set: images, annotations per image, evaluation and report files ----
typedef lv::Dataset_<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel> DS;
static void files() {
    for(int v=0;v<(ctx().thorough?8:4);++v) {
        mark("data set variant %d",v); ctx().evals++; ctx().nontriv++;
        std::string root=fmt("%s/bsds%d/",ctx().scratch.c_str(),v); auto mk=[&](const std::string& d) {lv::createDirIfNotExist(d);};
        mk(root); mk(root+"BSDS500"); mk(root+"BSDS500/BSR"); mk(root+"BSDS500/data"); mk(root+"BSDS500/data/images"); mk(root+"BSDS500/data/images/train"); mk(root+"BSDS500/data/groundTruth_bdry_images"); mk(root+"BSDS500/data/groundTruth_bdry_images/train");
        const int n=1+v%3; std::vector<std::vector<cv::Mat>> gts(n); std::vector<cv::Mat> ins;
        for(int i=0;i<n;++i) {
            const cv::Size sz=(v+i)%2?cv::Size(481,321):cv::Size(321,481); cv::Mat in(sz,CV_8UC3,cv::Scalar(10*i,20,30+v)); ins.push_back(in); cv::imwrite(root+fmt("BSDS500/data/images/train/im%d.png",i),in); std::string d=root+fmt("BSDS500/data/groundTruth_bdry_images/train/im%d",i); mk(d);
            for(int k=0;k<1+(i+v)%3;++k) {cv::Mat g=cv::Mat::zeros(sz,CV_8UC1); g.at<uchar>(10+k,20+i)=255; if(k!=1) g.at<uchar>(100,200+4*k)=255; gts[i].push_back(g); cv::imwrite(d+fmt("/b%d.png",k),g);}
        }
        lv::datasets::setRootPath(root);
        try {
            auto ds=lv::datasets::create<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel>("out",true,true); auto bs=ds->getBatches(false); if(bs.size()!=1) {violation("files-batches","the training set was not found"); continue;}
            auto b=std::dynamic_pointer_cast<DS::WorkBatch>(bs[0]); if(!b || (int)b->getInputCount()!=n) {violation("files-count","the training set has the wrong number of images"); continue;}
            auto ref=lv::IIMetricsAccumulator::create<Acc>(); b->startProcessing();
            for(int i=0;i<n;++i) {
                cv::Mat in=b->getInput(i),g=b->getGT(i); if(in.size()!=ins[i].size() || cv::norm(in,ins[i],cv::NORM_INF)!=0) violation("files-input","an image was not loaded as stored");
                cv::Mat e; cv::vconcat(gts[i],e); if(g.size()!=e.size() || cv::norm(g,e,cv::NORM_INF)!=0) violation("files-gt",fmt("annotations of image %d were not loaded as stored",i));
                cv::Mat out=cv::Mat::zeros(ins[i].size(),CV_8UC1); out.at<uchar>(11,20+i)=uchar(60+80*i); out.at<uchar>(100,204)=200; out.at<uchar>(200,100)=uchar(100+v); ref->accumulate(out,e,cv::Mat()); b->push(out,i);
            }
            b->stopProcessing(); auto m=b->getMetrics(false); auto* c=dynamic_cast<const Calc*>(m.get()); if(!c) {violation("files-metrics","no boundary scores available"); continue;} chkScores(*c,ref->m_voMetricsBase,99,"batch");
            ds->writeEvalReport(); std::string od=root+"BSDS500/BSR/out/train_reimpl_eval"; // located by name: any sub directory holding the three files
            auto find=[&](const std::string& name) {std::string p; std::function<void(const std::string&)> w=[&](const std::string& d) {for(auto& f : lv::getFilesFromDir(d)) if(f.size()>name.size() && f.substr(f.size()-name.size()-1)=="/"+name) p=f; for(auto& s : lv::getSubDirsFromDir(d)) w(s);}; w(root+"BSDS500/BSR"); return p;};
            auto lines=[&](const std::string& p) {std::vector<std::vector<double>> o; std::ifstream f(p); std::string l; while(std::getline(f,l)) {std::vector<double> r; std::stringstream s(l); double x; while(s>>x) r.push_back(x); if(!r.empty()) o.push_back(r);} return o;};
            auto same=[&](const std::vector<double>& r, const std::vector<double>& e) {if(r.size()!=e.size()) return false; for(size_t i=0;i<r.size();++i) if(std::abs(r[i]-e[i])>1e-4*std::max(1.0,std::abs(e[i]))) return false; return true;};
            auto li=lines(find("eval_bdry_img.txt")),lt=lines(find("eval_bdry_thr.txt")),lo=lines(find("eval_bdry.txt"));
            bool ok=(int)li.size()==n && lt.size()==99 && lo.size()==1; for(int i=0;ok && i<n;++i) ok=same(li[i],{double(i+1),c->voBestImageScores[i].dThreshold,c->voBestImageScores[i].dRecall,c->voBestImageScores[i].dPrecision,c->voBestImageScores[i].dFMeasure}); for(int i=0;ok && i<99;++i) {auto& s=c->voThresholdScores[i]; ok=same(lt[i],{s.dThreshold,s.dRecall,s.dPrecision,s.dFMeasure});}
            if(ok) {auto& s=c->oBestScore; ok=same(lo[0],{s.dThreshold,s.dRecall,s.dPrecision,s.dFMeasure,c->dMaxRecall,c->dMaxPrecision,c->dMaxFMeasure,c->dAreaPR});}
            if(!ok) violation("files-report",fmt("variant %d: the evaluation files do not hold the scores (%zu/%zu/%zu lines)",v,li.size(),lt.size(),lo.size()));
        } catch(const std::exception& e) {violation("files-refused",fmt("a valid data set was refused: %s",e.what()));}
    }
    sample("data sets of 1-3 images in both orientations with 1-3 annotators each: loading, scores, report files");
}
int main(int argc, char** argv) {
    init(argc,argv); lv::setVerbosity(0); int fd=dup(1); (void)fd; if(!ctx().out.empty()) {FILE* f=freopen("/dev/null","w",stdout); (void)f;}
    try {
        if(is_part("assign")) assign(); if(is_part("kofn")) kofn(); if(is_part("match0")) match(0); if(is_part("match1")) match(1); if(is_part("levels")) levels(); if(is_part("scores")) scores(); if(is_part("colours")) colours(); if(is_part("files")) files();
    } catch(const std::exception& e) {violation("exception",fmt("unexpected exception: %s",e.what()));}
    return finish();
}
