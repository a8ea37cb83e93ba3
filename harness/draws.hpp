// Control over the random draws of the code under test, and nondeterministic choices of the reference models.
#pragma once
#include "litiv/video.hpp"
#include "../mc/report.hpp"
#include <cmath>
#include <memory>
using namespace vr;
enum RMode {CONSTANT,SEQUENCE,ENUMERATE};
static RMode rmode=CONSTANT; static int rconst=0; static uint64_t rseq=1; static uint64_t rcalls=0;
static bool rcapped=false; static std::vector<int> rdom; static std::vector<size_t> rpath; static size_t rpos=0;
extern "C" int rand(void) noexcept {
    ++rcalls;
    if(rmode==CONSTANT) return rconst;
    if(rmode==SEQUENCE) {rseq=rseq*6364136223846793005ull+1442695040888963407ull; return (int)((rseq>>33)&0x7fffffff);}
    if(rpos==rpath.size()) rpath.push_back(0);
    return rdom[rpath[rpos++]];
}
static inline void rset(int c) {rmode=CONSTANT; rconst=c;}
static inline void rseed(uint64_t s) {rmode=SEQUENCE; rseq=s*2654435761u+12345;}
// the answers used inside f() while enumerating; f is called once for every combination of answers
template<typename F> static uint64_t all_draws(const std::vector<int>& dom, F f) {
    rpath.clear(); rdom=dom; uint64_t n=0;
    rcapped=false; while(true) {rpos=0; bool go=f(); ++n; if(!go || n>=400000) {rcapped=true; if(go) ctx().exhaustive=false; return n;} rpath.resize(rpos); while(!rpath.empty() && rpath.back()+1==rdom.size()) rpath.pop_back(); if(rpath.empty()) return n; rpath.back()++;}
}
static std::vector<std::pair<size_t,size_t>> mpath; static size_t mpos=0;
static inline size_t pick(size_t n) {if(mpos==mpath.size()) mpath.push_back({0,n}); return mpath[mpos++].first;}
template<typename F> static void all_picks(F f) {
    mpath.clear(); while(true) {mpos=0; f(); mpath.resize(mpos); while(!mpath.empty() && mpath.back().first+1==mpath.back().second) mpath.pop_back(); if(mpath.empty()) return; mpath.back().first++;}
}
static inline std::string bytes(const cv::Mat& m) {std::string s; for(int y=0;y<m.rows;++y) s.append((const char*)m.ptr(y),m.elemSize()*(size_t)m.cols); return s;}
static inline void compare_sets(const std::string& key, const std::string& what, const std::set<std::string>& got, const std::set<std::string>& exp, bool drew) {
    ctx().nontriv+=exp.size(); ctx().counters["distinct traces"]+=exp.size();
    for(auto& t : got) if(!exp.count(t)) {violation(key,what+": an outcome the algorithm does not allow"); return;}
    if(drew && !rcapped) for(auto& t : exp) if(!got.count(t)) {violation(key+"-missing",what+": an outcome that some draws must produce never happens"); return;}
}
// possible outcomes of one draw, over the domain in use
static inline bool draw_zero(const std::vector<int>& dom, size_t L) {bool z=false,nz=false; for(int d : dom) ((size_t)d%L==0?z:nz)=true; if(z && nz) return pick(2)==0; return z;}
static inline size_t draw_index(const std::vector<int>& dom, size_t N) {std::set<size_t> s; for(int d : dom) s.insert((size_t)d%N); size_t i=pick(s.size()); auto it=s.begin(); while(i--) ++it; return *it;}
template<typename P> static cv::Point draw_pos(const std::vector<int>& dom, P pos) {std::set<std::pair<int,int>> s; for(int d : dom) {int X,Y; pos(d,X,Y); s.insert({X,Y});} size_t i=pick(s.size()); auto it=s.begin(); while(i--) ++it; return cv::Point(it->first,it->second);}
static inline cv::Point draw_neighbour(const std::vector<int>& dom, int x, int y, int border, cv::Size sz) {return draw_pos(dom,[&](int d,int& X,int& Y){lv::getNeighborPosition_3x3(d,X,Y,x,y,border,sz);});}
static inline cv::Point draw_neighbour5(const std::vector<int>& dom, int x, int y, int border, cv::Size sz) {return draw_pos(dom,[&](int d,int& X,int& Y){lv::getNeighborPosition_5x5(d,X,Y,x,y,border,sz);});}
static inline cv::Point draw_sample(const std::vector<int>& dom, int x, int y, int border, cv::Size sz) {return draw_pos(dom,[&](int d,int& X,int& Y){lv::getSamplePosition_7x7_std2(d,X,Y,x,y,border,sz);});}
static inline cv::Mat img(int r, int c, int cn, std::function<int(int,int,int)> f) {cv::Mat m(r,c,CV_8UC(cn)); for(int y=0;y<r;++y) for(int x=0;x<c;++x) for(int k=0;k<cn;++k) m.ptr(y)[x*cn+k]=(uchar)f(y,x,k); return m;}
struct Step {cv::Mat frame; double lr; std::vector<int> dom;}; // the learning rate and the domain of draws of each frame
// LBSP pattern (bit of each position)
static const int PAT[5][5]={{7,-1,2,-1,5},{-1,12,10,14,-1},{0,9,-1,11,1},{-1,15,8,13,-1},{4,-1,3,-1,6}};
static inline int refdesc(const cv::Mat& im, int x, int y, int c, int ref, int thr) {int d=0,cn=im.channels(); for(int dy=-2;dy<=2;++dy) for(int dx=-2;dx<=2;++dx) {int b=PAT[dy+2][dx+2]; if(b<0) continue; int v=im.ptr(y+dy)[(x+dx)*cn+c]; if(std::abs(v-ref)>thr) d|=1<<b;} return d;}
