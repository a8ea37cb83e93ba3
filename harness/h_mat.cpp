// P15: sampling / neighbour positions. P16: matrix helpers (views, sub-pixel access, shapes, colours, packing).
#include "litiv/utils/opencv.hpp"
#include "../mc/report.hpp"
#include <cmath>
#include <sstream>
using namespace vr;

// ---------------------------------------------------------------- P15
static int clampi(int v, int lo, int hi) {return v<lo?lo:v>hi?hi:v;}
typedef std::pair<int,int> XY;
template<typename F> static void posfn(const char* name, int radius, int period, bool centre, bool weighted, F f) {
    // unclamped distribution: a large image, so that clamping plays no role
    std::map<XY,int> cnt;
    for(int r=0;r<period;++r) {int x=-99,y=-99; f(r,x,y,50,60,0,cv::Size(101,103)); cnt[{x-50,y-60}]++; ctx().evals++;}
    for(auto& e : cnt) if(std::abs(e.first.first)>radius || std::abs(e.first.second)>radius || (!centre && e.first==XY(0,0))) violation(fmt("%s-window",name),fmt("offset (%d,%d) outside the window",e.first.first,e.first.second));
    for(int dy=-radius;dy<=radius;++dy) for(int dx=-radius;dx<=radius;++dx) {
        if(!centre && !dx && !dy) continue;
        int n=cnt.count({dx,dy})?cnt[{dx,dy}]:0; ctx().evals++; ctx().nontriv++;
        if(n==0) {violation(fmt("%s-reach",name),fmt("offset (%d,%d) is never drawn",dx,dy)); continue;}
        for(XY m : {XY(-dx,dy),XY(dx,-dy),XY(dy,dx)}) if(cnt[m]!=n) violation(fmt("%s-symmetry",name),fmt("offsets (%d,%d) and (%d,%d) are drawn %d and %d times out of %d",dx,dy,m.first,m.second,n,cnt[m],period));
        if(!weighted && n!=1) violation(fmt("%s-uniform",name),fmt("offset (%d,%d) drawn %d times",dx,dy,n));
        if(weighted && dx>0 && cnt[{dx-1,dy}]<n) violation(fmt("%s-monotonic",name),fmt("offset (%d,%d) is drawn more often than (%d,%d)",dx,dy,dx-1,dy));
    }
    // every image size, border and origin: position = clamp(origin + offset)
    for(int w=1;w<=10;++w) for(int h=1;h<=10;++h) for(int b=0;b<=3;++b) {
        if(w<=2*b || h<=2*b) continue;
        mark("%s %dx%d border %d",name,w,h,b);
        for(int oy=0;oy<h;++oy) for(int ox=0;ox<w;++ox) for(int r=0;r<period;++r) {
            int x=-99,y=-99,ux,uy; f(r,x,y,ox,oy,b,cv::Size(w,h)); f(r,ux,uy,50,60,0,cv::Size(101,103)); ctx().evals++;
            int ex=clampi(ox+ux-50,b,w-1-b), ey=clampi(oy+uy-60,b,h-1-b);
            if(x<b || x>=w-b || y<b || y>=h-b) violation(fmt("%s-bounds",name),fmt("image %dx%d border %d origin (%d,%d) draw %d gives (%d,%d)",w,h,b,ox,oy,r,x,y));
            else if(x!=ex || y!=ey) violation(fmt("%s-clamp",name),fmt("image %dx%d border %d origin (%d,%d) draw %d gives (%d,%d), expected (%d,%d)",w,h,b,ox,oy,r,x,y,ex,ey));
        }
    }
    // large images: origins around the corners, the middle and byte boundaries
    for(auto& z : {cv::Size(640,480),cv::Size(300,7),cv::Size(9,400),cv::Size(1031,1025)}) for(int b=0;b<=3;++b) {mark("%s %dx%d border %d",name,z.width,z.height,b); auto org=[](int n){std::set<int> o={0,1,2,3,n/2,n-4,n-3,n-2,n-1}; for(int v : {127,128,254,255,256,257,511,512,1023,1024}) if(v<n) o.insert(v); return o;};
        for(int oy : org(z.height)) for(int ox : org(z.width)) for(int r=0;r<period;r+=period>50?3:1) {int x=-99,y=-99,ux,uy; f(r,x,y,ox,oy,b,z); f(r,ux,uy,50,60,0,cv::Size(101,103)); ctx().evals++; int ex=clampi(ox+ux-50,b,z.width-1-b), ey=clampi(oy+uy-60,b,z.height-1-b); if(x!=ex || y!=ey) violation(fmt("%s-clamp",name),fmt("image %dx%d border %d origin (%d,%d) draw %d gives (%d,%d), expected (%d,%d)",z.width,z.height,b,ox,oy,r,x,y,ex,ey));}}
    // any non-negative random number behaves like its remainder
    for(int64_t r : {(int64_t)period,(int64_t)period+1,(int64_t)RAND_MAX,(int64_t)RAND_MAX-1,(int64_t)RAND_MAX-period,(int64_t)1<<30,(int64_t)12345678}) for(int s=0;s<3;++s) {
        int64_t q=std::min<int64_t>(r+s,INT_MAX); int x,y,a,b; f((int)q,x,y,50,60,0,cv::Size(101,103)); f((int)(q%period),a,b,50,60,0,cv::Size(101,103)); if(x!=a || y!=b) violation(fmt("%s-large",name),fmt("draw %lld",(long long)q));
    }
    sample(fmt("%s: all %d draws x all images up to 10x10 x borders 0-3 x all origins",name,period));
}
static void positions() {
    posfn("sample3x3",1,256,true,true,[](int r,int& x,int& y,int ox,int oy,int b,cv::Size s){lv::getSamplePosition_3x3_std1(r,x,y,ox,oy,b,s);});
    posfn("sample7x7",3,512,true,true,[](int r,int& x,int& y,int ox,int oy,int b,cv::Size s){lv::getSamplePosition_7x7_std2(r,x,y,ox,oy,b,s);});
    posfn("neighbour3x3",1,8,false,false,[](int r,int& x,int& y,int ox,int oy,int b,cv::Size s){lv::getNeighborPosition_3x3(r,x,y,ox,oy,b,s);});
    posfn("neighbour5x5",2,24,false,false,[](int r,int& x,int& y,int ox,int oy,int b,cv::Size s){lv::getNeighborPosition_5x5(r,x,y,ox,oy,b,s);});
    for(int w=1;w<=7;++w) for(int h=1;h<=7;++h) for(int b=0;b<=3;++b) if(w>2*b && h>2*b) for(int x=-9;x<=15;++x) for(int y=-9;y<=15;++y) {
        int X=x,Y=y; lv::clampImageCoords(X,Y,b,cv::Size(w,h)); ctx().evals++; if(X!=clampi(x,b,w-1-b) || Y!=clampi(y,b,h-1-b)) violation("clamp",fmt("(%d,%d) in %dx%d border %d gives (%d,%d)",x,y,w,h,b,X,Y));
    }
    // custom kernels through the generic forms
    for(int pat=1;pat<512;++pat) {
        std::array<std::array<int,3>,3> k; int tot=0; for(int i=0;i<9;++i) {k[i/3][i%3]=(pat>>i)&1?1+i%3:0; tot+=k[i/3][i%3];}
        std::map<XY,int> c; for(int r=0;r<tot;++r) {int x,y; lv::getSamplePosition<3,3>(k,tot,r,x,y,5,5,0,cv::Size(11,11)); c[{x-5,y-5}]++; ctx().evals++;}
        for(int i=0;i<9;++i) if(c[{i%3-1,i/3-1}]!=k[i/3][i%3]) violation("kernel",fmt("kernel %d cell %d drawn %d times, weight %d",pat,i,c[{i%3-1,i/3-1}],k[i/3][i%3]));
    }
    // logarithmic-polar masks: every cell in range, centre excluded, radial bin grows outwards, all angles within a ring in order
    for(int lien=0;lien<2;++lien) for(int sz=3;sz<=41;sz+=2) for(int rb=1;rb<=5;++rb) for(int ab : {1,4,6,8,10,12,20}) for(float off : {0.f,0.6f}) {
        if(!lien && (off!=0 || sz<5)) continue;
        cv::Mat_<int> m; int f0=-7,l0=-7; lv::getLogPolarMask(sz,rb,ab,m,lien!=0,off,&f0,&l0); ctx().evals++; ctx().nontriv++; if((ctx().evals&255)==0) mark("log-polar %d %d %d",sz,rb,ab);
        std::string t=fmt("mask size %d, %d radial x %d angular bins, %s",sz,rb,ab,lien?"lienhart":"chatfield"); int c=sz/2,ef=sz*sz-1,el=0; bool ok=m.rows==sz && m.cols==sz && m(c,c)==-1;
        for(int y=0;y<sz && ok;++y) for(int x=0;x<sz;++x) {int v=m(y,x); if(v<-1 || v>=rb*ab) ok=false; if(v>=0) {ef=std::min(ef,y*sz+x); el=std::max(el,y*sz+x);}}
        if(!ok) {violation("logpolar-range",t); continue;}
        if(f0!=ef || l0!=el) violation("logpolar-first-last",fmt("%s: %d..%d, expected %d..%d",t.c_str(),f0,l0,ef,el));
        // moving outwards along any ray from the centre, the ring index only grows (the stored index counts rings from the outside)
        std::vector<std::pair<int,int>> d; for(int y=0;y<sz;++y) for(int x=0;x<sz;++x) if(x!=c || y!=c) d.push_back({(x-c)*(x-c)+(y-c)*(y-c),m(y,x)<0?-1:m(y,x)%rb});
        std::sort(d.begin(),d.end()); int prev=rb-1; for(auto& e : d) {if(e.second>prev) {violation("logpolar-rings",t); break;} prev=e.second;}
        for(size_t i=1;i<d.size();++i) if(d[i].first==d[i-1].first && d[i].second!=d[i-1].second) {violation("logpolar-ring-equal",t); break;}
        // same direction, same angular bin
        for(int dy=-c;dy<=c;++dy) for(int dx=-c;dx<=c;++dx) if((dx||dy) && std::abs(2*dx)<=c && std::abs(2*dy)<=c && m(c+dy,c+dx)>=0 && m(c+2*dy,c+2*dx)>=0 && m(c+dy,c+dx)/rb!=m(c+2*dy,c+2*dx)/rb) {violation("logpolar-angle",t); dy=c+1; break;}
        // every cell against the published definition of the two masks (cells within rounding error of a boundary may fall on either side of it)
        for(int y=0;y<sz;++y) for(int x=0;x<sz;++x) if(x!=c || y!=c) {
            double D=std::hypot((double)(x-c),(double)(y-c)); std::set<int> rs,as; const double e=1e-4;
            if(lien) {for(double s : {-e,e}) {int k=0; while(k<rb && !(D+s<=(rb==1?1.0:(std::pow((double)rb,(k+1.0)/rb)-1)/(rb-1))*c+(k==rb-1?0.0:(double)off))) ++k; rs.insert(k<rb?rb-1-k:-1);} double A=(std::atan2((double)(c-x),(double)(c-y))+M_PI)*ab/(2*M_PI); for(double s : {-e,e}) as.insert((int)std::floor(A+s+ab)%ab);}
            else {double b=std::log10(D)*rb/std::log10((double)c); for(double s : {-e,e}) {double q=b+s; rs.insert(q<0?rb-1:q<rb?rb-1-(int)q:-1);} double A=std::atan2((double)(y-c),(double)(x-c))/M_PI*180; if(A<0) A+=360; int w=360/ab; for(double s : {-e,e}) as.insert((((int)std::floor(A+s+0.5)+w/2)%360)/w);}
            int v=m(y,x); bool good=v<0?rs.count(-1)>0:(rs.count(v%rb) && as.count(v/rb)); if(!good) {violation("logpolar-cell",fmt("%s, offset %g: cell (%d,%d) is in bin %d",t.c_str(),off,x-c,y-c,v)); y=sz; break;}
        }
    }
}

// ---------------------------------------------------------------- P16
template<typename T> static T val(int i) {return (T)((i*37+11)%101-(std::is_signed<T>::value?50:0));}
template<typename T> static void basicmat(int cv) {
    std::vector<XY> szs={{1,17},{2,33},{9,16},{20,5},{33,1},{7,130}}; for(int r=1;r<=4;++r) for(int c=1;c<=4;++c) szs.emplace_back(r,c);
    for(int cn=1;cn<=4;++cn) for(auto& sz : szs) for(int view=0;view<4;++view) { const int r=sz.first,c=sz.second; if(r*c>16 && (cn+view)%2) continue;
        cv::Mat big(r+3,c+3,CV_MAKETYPE(cv,cn)); for(int y=0;y<big.rows;++y) for(int x=0;x<big.cols*cn;++x) big.ptr<T>(y)[x]=val<T>(y*100+x);
        cv::Mat m=view==0?big(cv::Rect(0,0,c,r)).clone():view==1?big(cv::Rect(0,0,c,r)):view==2?big(cv::Rect(2,1,c,r)):big.rowRange(0,r); int C=m.cols; ctx().evals++; ctx().nontriv++; mark("basic mat depth %d cn %d %dx%d view %d",cv,cn,r,c,view);
        std::string t=fmt("depth %d, %d channels, %dx%d, view %d",cv,cn,r,C,view);
        cv::Mat_<T> b=lv::getBasicMat<T>(m); bool ok=b.channels()==1 && b.total()==m.total()*cn && b.dims==(cn==1?2:3) && b.size[0]==r && b.size[1]==C && (cn==1 || b.size[2]==cn);
        for(int y=0;y<r && ok;++y) for(int x=0;x<C;++x) for(int k=0;k<cn;++k) {T g; if(cn==1) g=b(y,x); else {int ix[3]={y,x,k}; g=b(ix);} if(g!=m.ptr<T>(y)[x*cn+k]) ok=false;}
        if(ok && cn==1 && b.ptr(0)!=m.ptr(0)) ok=false;
        if(!ok) violation("basic-mat",t);
        // near-equality and equality
        cv::Mat n=m.clone(); if(!lv::isNearlyEqual<T>(m,n,0) || !lv::isNearlyEqual<T>(n,m,0)) violation("nearly-equal",t+": a copy differs");
        for(int y=0;y<r;++y) for(int x=0;x<C*cn;++x) {if(r*c>100 && (y*C*cn+x)%7) continue; T& e=n.ptr<T>(y)[x]; T o=e; e=(T)(o+2); if(lv::isNearlyEqual<T>(m,n,1) || lv::isNearlyEqual<T>(n,m,1) || !lv::isNearlyEqual<T>(m,n,2)) violation("nearly-equal",fmt("%s: element %d,%d off by 2",t.c_str(),y,x)); ctx().evals++; e=o;}
        cv::Mat u=m.reshape(1,0).clone(); if(cn==1) {if(!lv::isEqual<T>(m,n)) violation("equal",t); for(int y=0;y<r;++y) for(int x=0;x<C;++x) {T& e=n.ptr<T>(y)[x]; T o=e; e=(T)(o+1); if(lv::isEqual<T>(m,n) || lv::isEqual<T>(n,m)) violation("equal",fmt("%s: element %d,%d changed",t.c_str(),y,x)); e=o;}
            std::set<T> s(m.begin<T>(),m.end<T>()); if(lv::unique(cv::Mat_<T>(m))!=std::vector<T>(s.begin(),s.end())) violation("unique",t);}
        if(lv::isEqual<T>(m,cv::Mat(r+1,C,m.type(),cv::Scalar::all(0))) || lv::isNearlyEqual<T>(m,cv::Mat(r,C+1,m.type(),cv::Scalar::all(0)),1000)) violation("equal-shape",t);
        // printed text contains every value, in order (2d, one channel)
        if(cn==1) {std::string s=lv::to_string(m,cv::Point2i(3,5)); size_t p=s.find("--\n"); if(p==std::string::npos) p=s.find("--"); std::istringstream is(s.substr(s.find('\n',s.find("--")))); std::string tok; std::vector<double> g; std::string line; while(std::getline(is,line)) {size_t q=line.find('|'); if(q==std::string::npos) continue; std::istringstream ls(line.substr(q+1)); double v; while(ls>>v) g.push_back(v);}
            bool same=g.size()==m.total(); for(size_t i=0;i<g.size() && same;++i) same=std::abs(g[i]-(double)m.at<T>((int)(i/C),(int)(i%C)))<1e-3; if(!same) violation("print",t+": printed values differ");}
    }
}
static void views() {
    basicmat<uint8_t>(CV_8U); basicmat<int8_t>(CV_8S); basicmat<uint16_t>(CV_16U); basicmat<int16_t>(CV_16S); basicmat<int32_t>(CV_32S); basicmat<float>(CV_32F); basicmat<double>(CV_64F);
    // sub-selections and squeezing of n-dimensional matrices
    for(int d=2;d<=5;++d) {std::vector<int> s((size_t)d,1); while(true) {
        for(int cn=1;cn<=2;++cn) {
            cv::Mat m(d,s.data(),CV_MAKETYPE(CV_16S,cn)); for(size_t i=0;i<m.total()*cn;++i) ((int16_t*)m.data)[i]=(int16_t)(i*3+1); mark("squeeze %dd",d); ctx().evals++; ctx().nontriv++;
            auto at=[&](const cv::Mat& q, const std::vector<int>& ix, int k){const uchar* p=q.data; for(int j=0;j<q.dims;++j) p+=ix[j]*q.step[j]; return ((const int16_t*)p)[k];};
            auto chksq=[&](const cv::Mat& q, const char* w){
                cv::Mat keep=q.clone(); cv::Mat o=lv::squeeze(q); std::vector<int> es; if(q.dims<=2) es={q.size[0],q.size[1]}; else {for(int j=0;j<q.dims;++j) if(q.size[j]>1) es.push_back(q.size[j]); if(es.empty()) es={1,1}; else if(es.size()==1) es={1,es[0]};}
                bool ok=o.type()==q.type() && o.dims==(int)es.size() && o.total()==q.total(); for(int j=0;j<o.dims && ok;++j) ok=o.size[j]==es[j];
                if(ok) {std::vector<int> ix((size_t)q.dims,0); size_t lin=0; while(ok) {std::vector<int> oi((size_t)o.dims); size_t t=lin; for(int j=o.dims-1;j>=0;--j) {oi[j]=(int)(t%o.size[j]); t/=o.size[j];} for(int k=0;k<cn;++k) ok&=at(o,oi,k)==at(q,ix,k); int j=q.dims-1; while(j>=0 && ++ix[j]==q.size[j]) ix[j--]=0; if(j<0) break; ++lin;}}
                std::string sz; for(int j=0;j<q.dims;++j) sz+=fmt("%d ",q.size[j]); if(!ok) violation("squeeze",fmt("%s, sizes %s, %d channels",w,sz.c_str(),cn));
            };
            chksq(m,"whole");
            for(int td=0;td<d;++td) for(int a=0;a<s[td];++a) {
                cv::Mat o=lv::getSubMat(m,td,a); bool ok=o.dims==d; for(int j=0;j<d && ok;++j) ok=o.size[j]==(j==td?1:s[j]); if(ok) {std::vector<int> ix((size_t)d,0); while(ok) {auto full=ix; full[td]+=a; for(int k=0;k<cn;++k) ok&=at(o,ix,k)==at(m,full,k); int j=d-1; while(j>=0 && ++ix[j]==o.size[j]) ix[j--]=0; if(j<0) break;}} if(!ok) violation("sub-mat",fmt("%dd, dimension %d element %d",d,td,a)); if(ok) chksq(o,"slice"); ctx().evals++;
                for(int b=a+1;b<=s[td];++b) {if(a==0 && b==s[td] && false) continue; cv::Mat q=lv::getSubMat(m,td,cv::Range(a,b)); bool k2=q.dims==d && q.size[td]==b-a; if(k2) {std::vector<int> z((size_t)d,0), zz=z; zz[td]=a; k2=at(q,z,0)==at(m,zz,0); z[td]=b-a-1; zz[td]=b-1; k2&=at(q,z,0)==at(m,zz,0);} if(!k2) violation("sub-mat-range",fmt("%dd, dimension %d range %d-%d",d,td,a,b));}
            }
            int bad=0; for(auto f : {0,1,2,3}) {try {if(f==0) lv::getSubMat(m,d,0); else if(f==1) lv::getSubMat(m,0,s[0]); else if(f==2) lv::getSubMat(m,0,-1); else lv::getSubMat(m,0,cv::Range(0,s[0]+1)); bad++;} catch(const std::exception&) {}} if(bad) violation("sub-mat-bounds","an out-of-range selection was accepted");
        }
        int j=d-1; while(j>=0 && ++s[j]==4) s[j--]=1; if(j<0) break;
    }}
    // horizontal / vertical concatenation of equally sized matrices
    for(int n=1;n<=12;n+=n<4?1:4) for(int r=1;r<=40;r+=r<3?1:18) for(int c=1;c<=40;c+=c<3?1:17) for(int cn=1;cn<=3;++cn) {
        std::vector<cv::Mat> v; for(int i=0;i<n;++i) {cv::Mat b(r+1,c+1,CV_8UC(cn)); for(int y=0;y<=r;++y) for(int x=0;x<(c+1)*cn;++x) b.ptr<uchar>(y)[x]=(uchar)(i*60+y*15+x); v.push_back(i%2?b(cv::Rect(1,1,c,r)):b(cv::Rect(0,0,c,r)).clone());}
        cv::Mat h=lv::hconcat(v), w=lv::vconcat(v); bool ok=h.rows==r && h.cols==c*n && w.rows==r*n && w.cols==c && h.type()==v[0].type(); ctx().evals++; mark("concat %d %dx%d",n,r,c);
        for(int i=0;i<n && ok;++i) for(int y=0;y<r;++y) for(int x=0;x<c*cn;++x) {uchar e=v[i].ptr<uchar>(y)[x]; ok&=h.ptr<uchar>(y)[i*c*cn+x]==e && w.ptr<uchar>(i*r+y)[x]==e;} if(!ok) violation("concat",fmt("%d matrices of %dx%d, %d channels",n,c,r,cn));
    }
    // keypoint filtering by mask
    for(int r=1;r<=4;++r) for(int c=1;c<=4;++c) for(int pat=0;pat<(1<<std::min(r*c,9));++pat) {
        cv::Mat big(r+2,c+2,CV_8UC1,cv::Scalar(255)), m=big(cv::Rect(1,1,c,r)); for(int i=0;i<r*c;++i) m.at<uchar>(i/c,i%c)=(pat>>(i%9))&1?(i%2?255:1):0;
        if((pat&63)==0) mark("keypoints %dx%d",r,c); std::vector<cv::KeyPoint> k; for(int y=-3;y<=4*r+2;++y) for(int x=-3;x<=4*c+2;++x) k.push_back(cv::KeyPoint(x*0.25f,y*0.25f,1.f)); auto o=k; cv::Mat roi=m.clone(); lv::validateKeyPoints(roi,o); std::set<std::pair<float,float>> S; for(auto& q : o) S.insert({q.pt.x,q.pt.y}); ctx().evals+=k.size(); ctx().nontriv++;
        for(auto& q : k) {bool in=S.count({q.pt.x,q.pt.y}); float fx=q.pt.x-std::floor(q.pt.x), fy=q.pt.y-std::floor(q.pt.y); bool intpos=fx==0 && fy==0; bool out=q.pt.x<0 || q.pt.y<0 || q.pt.x>=c || q.pt.y>=r;
            if(out && in) violation("keypoints-bounds",fmt("keypoint (%g,%g) outside %dx%d was kept",q.pt.x,q.pt.y,c,r)); if(intpos && !out && in!=(roi.at<uchar>((int)q.pt.y,(int)q.pt.x)>0)) violation("keypoints-mask",fmt("keypoint (%g,%g) on %d",q.pt.x,q.pt.y,roi.at<uchar>((int)q.pt.y,(int)q.pt.x)));
            if(in && !intpos) {bool any=false; for(int dy=0;dy<2;++dy) for(int dx=0;dx<2;++dx) {int X=(int)std::floor(q.pt.x)+dx,Y=(int)std::floor(q.pt.y)+dy; if(X<c && Y<r && roi.at<uchar>(Y,X)) any=true;} if(!any) violation("keypoints-mask",fmt("keypoint (%g,%g) kept next to null pixels only",q.pt.x,q.pt.y));}}
    }
    for(auto& z : {XY(40,60),XY(3,200)}) for(int s=0;s<4;++s) {int r=z.first,c=z.second; mark("keypoints %dx%d",r,c); cv::Mat roi(r,c,CV_8UC1); for(int i=0;i<r*c;++i) roi.data[i]=(i*(7+s)+i/c*3)%(2+s)?255:0; std::vector<cv::KeyPoint> k,e; for(int y=-2;y<r+2;++y) for(int x=-2;x<c+2;++x) {k.push_back(cv::KeyPoint((float)x,(float)y,1.f+s)); if(x>=0 && y>=0 && x<c && y<r && roi.at<uchar>(y,x)) e.push_back(k.back());} lv::validateKeyPoints(roi,k); ctx().evals++; bool ok=k.size()==e.size(); for(size_t i=0;i<e.size() && ok;++i) ok=k[i].pt==e[i].pt && k[i].size==e[i].size; if(!ok) violation("keypoints-mask",fmt("%dx%d mask %d: kept keypoints or their order",c,r,s));}
    sample("all 7 depths x 1-4 channels x 4 kinds of views up to 4x4 and six larger sizes up to 7x130; all 2-5 dimensional shapes over {1,2,3}; all masks up to 4x4 with quarter-pixel keypoints");
}
static void subpix() {
    std::vector<XY> szs={{5,40},{37,6},{20,20}}; for(int r=1;r<=4;++r) for(int c=1;c<=4;++c) szs.emplace_back(r,c);
    for(auto& sz : szs) for(int pat=0;pat<6;++pat) { const int r=sz.first,c=sz.second,st=r*c>16?5:1; if(st>1 && pat>1) continue;
        cv::Mat_<uint8_t> m(r,c); cv::Mat_<float> fm(r,c); cv::Mat_<cv::Vec3b> m3(r,c); for(int y=0;y<r;++y) for(int x=0;x<c;++x) {int v=(pat*53+y*91+x*37+(pat%2)*x*x*17)%256; m(y,x)=(uint8_t)v; fm(y,x)=v-100.f; m3(y,x)=cv::Vec3b((uchar)v,(uchar)(255-v),(uchar)(v*7));}
        mark("subpix %dx%d pat %d",r,c,pat);
        for(int bt : {cv::BORDER_REPLICATE,cv::BORDER_REFLECT,cv::BORDER_REFLECT_101,cv::BORDER_WRAP}) { if(bt!=cv::BORDER_REPLICATE && (r<3 || c<3)) continue;
          for(int iy=-12;iy<=8*r+4;iy+=st) for(int ix=-12;ix<=8*c+4;ix+=st) {
            double x=ix/8.0,y=iy/8.0; int x0=(int)std::floor(x),y0=(int)std::floor(y); double dx=x-x0,dy=y-y0; auto B=[&](int p,int len){return cv::borderInterpolate(p,len,bt);};
            auto bl=[&](auto g){return (g(B(y0,r),B(x0,c))*(1-dx)+g(B(y0,r),B(x0+1,c))*dx)*(1-dy)+(g(B(y0+1,r),B(x0,c))*(1-dx)+g(B(y0+1,r),B(x0+1,c))*dx)*dy;};
            ctx().evals++; ctx().nontriv++; double e=bl([&](int Y,int X){return (double)m(Y,X);});
            float g=lv::getSubPix<uint8_t,float>(m,(float)x,(float)y,bt); if(std::abs(g-e)>1e-3) violation("subpix",fmt("%dx%d, border mode %d, position (%g,%g): %g, expected %g",c,r,bt,x,y,g,e));
            int gi=lv::getSubPix<uint8_t>(m,(float)x,(float)y,bt); if(std::abs(gi-e)>0.501) violation("subpix-round",fmt("position (%g,%g): %d, expected %g",x,y,gi,e));
            double ef=bl([&](int Y,int X){return (double)fm(Y,X);}); if(std::abs(lv::getSubPix<float>(fm,(float)x,(float)y,bt)-ef)>1e-3) violation("subpix-float",fmt("position (%g,%g)",x,y));
            auto v3=lv::getSubPix<uint8_t,3,float>(m3,(float)x,(float)y,bt); for(int k=0;k<3;++k) {double e3=bl([&](int Y,int X){return (double)m3(Y,X)[k];}); if(std::abs(v3[k]-e3)>1e-3) violation("subpix-vec",fmt("position (%g,%g) channel %d: %g, expected %g",x,y,k,v3[k],e3));}
          }
        }
    }
    // integer shifts with every fill mode
    for(auto& sz : szs) for(int cn=1;cn<=3;cn+=2) for(int dep : {CV_8U,CV_32F}) { const int r=sz.first,c=sz.second,sr=r>4?4:1,sc=c>4?4:1;
        cv::Mat m(r,c,CV_MAKETYPE(dep,cn)); for(int y=0;y<r;++y) for(int x=0;x<c*cn;++x) {if(dep==CV_8U) m.ptr<uchar>(y)[x]=(uchar)(1+y*40+x*7+(r*c>16?y*x*11:0)); else m.ptr<float>(y)[x]=1.f+y*40+x*7;} cv::Mat big(r+4,c+4,m.type(),cv::Scalar::all(201)); if((r+c)%2) {m.copyTo(big(cv::Rect(2,2,c,r))); m=big(cv::Rect(2,2,c,r));}
        for(int bt : {cv::BORDER_CONSTANT,cv::BORDER_REPLICATE,cv::BORDER_WRAP,cv::BORDER_REFLECT}) for(int dy=-r+1;dy<r;dy+=sr) for(int dx=-c+1;dx<c;dx+=sc) for(int inplace=0;inplace<2;++inplace) {
            cv::Mat o,keep=m.clone(); cv::Scalar fill(9,8,7); if(inplace) {o=m.clone(); lv::shift(o,o,cv::Point2f((float)dx,(float)dy),bt,fill);} else lv::shift(m,o,cv::Point2f((float)dx,(float)dy),bt,fill);
            ctx().evals++; ctx().nontriv++; bool ok=o.size()==m.size() && o.type()==m.type() && cv::norm(m,keep,cv::NORM_INF)==0; for(int y=0;y<r && ok;++y) for(int x=0;x<c;++x) {int Y=cv::borderInterpolate(y-dy,r,bt),X=cv::borderInterpolate(x-dx,c,bt); for(int k=0;k<cn;++k) {double e=(Y<0||X<0)?fill[k]:dep==CV_8U?m.ptr<uchar>(Y)[X*cn+k]:m.ptr<float>(Y)[X*cn+k]; double g=dep==CV_8U?o.ptr<uchar>(y)[x*cn+k]:o.ptr<float>(y)[x*cn+k]; ok&=g==e;}}
            if(!ok) violation("shift",fmt("%dx%d, %d channels, depth %d, offset (%d,%d), fill mode %d, in place %d",c,r,cn,dep,dx,dy,bt,inplace));
        }
        mark("shift %dx%d",r,c);
    }
    // fractional shifts: bilinear mix of the pixels (or fill values) around the source position, floating point results
    for(auto& sz : szs) for(int cn=1;cn<=3;cn+=2) for(int dep : {CV_8U,CV_8S,CV_16U,CV_16S,CV_32S,CV_32F,CV_64F}) { const int r=sz.first,c=sz.second,sr=r>4?9:1,sc=c>4?13:1;
        cv::Mat d(r,c,CV_64FC(cn)),m,big(r+4,c+4,CV_MAKETYPE(dep,cn),cv::Scalar::all(101)); for(int y=0;y<r;++y) for(int x=0;x<c*cn;++x) d.ptr<double>(y)[x]=r*c>16?(y*15+x*4+y*x*7)%120:1+y*15+x*4; d.convertTo(m,dep); if((r+c)%2) {m.copyTo(big(cv::Rect(2,2,c,r))); m=big(cv::Rect(2,2,c,r));}
        for(int bt : {cv::BORDER_CONSTANT,cv::BORDER_REPLICATE,cv::BORDER_WRAP,cv::BORDER_REFLECT}) for(int qy=-4*r+1;qy<4*r;qy+=sr) for(int qx=-4*c+1;qx<4*c;qx+=sc) {if(qx%4==0 && qy%4==0) continue; double dx=qx/4.0,dy=qy/4.0; cv::Scalar fill(9,8,7); cv::Mat o,keep=m.clone(),od; bool inplace=(qx+qy)&1; if(inplace) {o=m.clone(); lv::shift(o,o,cv::Point2f((float)dx,(float)dy),bt,fill);} else lv::shift(m,o,cv::Point2f((float)dx,(float)dy),bt,fill);
            ctx().evals++; ctx().nontriv++; bool ok=o.size()==m.size() && o.channels()==cn && o.depth()==(dep==CV_64F?CV_64F:CV_32F) && cv::norm(m,keep,cv::NORM_INF)==0; if(ok) {o.convertTo(od,CV_64F); auto at=[&](int Y,int X,int k){Y=cv::borderInterpolate(Y,r,bt); X=cv::borderInterpolate(X,c,bt); return (Y<0||X<0)?fill[k]:d.ptr<double>(Y)[X*cn+k];};
                for(int y=0;y<r && ok;++y) for(int x=0;x<c && ok;++x) for(int k=0;k<cn;++k) {double sx=x-dx,sy=y-dy; int X=(int)std::floor(sx),Y=(int)std::floor(sy); double fx=sx-X,fy=sy-Y; double e=(at(Y,X,k)*(1-fx)+at(Y,X+1,k)*fx)*(1-fy)+(at(Y+1,X,k)*(1-fx)+at(Y+1,X+1,k)*fx)*fy; ok&=std::abs(od.ptr<double>(y)[x*cn+k]-e)<1e-3;}
                if(!ok && o.size()==m.size() && o.channels()==cn) {bool known=true; // listed finding: zeros instead of the fill next to the last row or column of negative fractional shifts
                    for(int y=0;y<r && known;++y) for(int x=0;x<c && known;++x) for(int k=0;k<cn;++k) {double sx=x-dx,sy=y-dy; int X=(int)std::floor(sx),Y=(int)std::floor(sy); double fx=sx-X,fy=sy-Y; double zx=dx<0 && fx>0 && x==c-1?0:fx,zy=dy<0 && fy>0 && y==r-1?0:fy; double e=(at(Y,X,k)*(1-fx)+at(Y,X+1,k)*zx)*(1-fy)+(at(Y+1,X,k)*(1-fx)+at(Y+1,X+1,k)*zx)*zy; known&=std::abs(od.ptr<double>(y)[x*cn+k]-e)<1e-3;}
                    if(known) {violation("shift-fraction-last",fmt("%dx%d, %d channels, depth %d, offset (%g,%g), fill mode %d",c,r,cn,dep,dx,dy,bt)); ok=true;}}}
            if(!ok) violation("shift-fraction",fmt("%dx%d, %d channels, depth %d, offset (%g,%g), fill mode %d, in place %d",c,r,cn,dep,dx,dy,bt,(int)inplace));
        }
        mark("fractional shift %dx%d",r,c);
    }
    sample("bilinear access at every eighth of a pixel from -1.5 to 0.5 beyond the end, 4 border modes; every shift by quarters of a pixel of every matrix up to 4x4 (spread shifts and positions on 5x40, 37x6 and 20x20)");
}
static void colours() {
    // 8-bit -> HSL -> 8-bit on the full cube with step (all values when thorough)
    const int st=ctx().thorough?1:5;
    for(int b=0;b<256;b+=st) {mark("hsl blue %d",b); for(int g=0;g<256;g+=st) for(int r=0;r<256;r+=st) {
        cv::Vec3b v((uchar)b,(uchar)g,(uchar)r); cv::Vec3f h=lv::getHSLFromBGR(v); ctx().evals++; 
        if(!(h[0]>=0 && h[0]<360.001f && h[1]>=0 && h[1]<=1 && h[2]>=0 && h[2]<=1)) violation("hsl-range",fmt("(%d,%d,%d) gives %g %g %g",b,g,r,h[0],h[1],h[2]));
        if(h[0]>=360) h[0]=0; cv::Vec3b w=lv::getBGRFromHSL(h); for(int k=0;k<3;++k) if(std::abs((int)w[k]-(int)v[k])>1) violation("hsl-roundtrip",fmt("(%d,%d,%d) comes back as (%d,%d,%d)",b,g,r,w[0],w[1],w[2]));
        double mx=std::max(b,std::max(g,r))/255.0,mn=std::min(b,std::min(g,r))/255.0; if(std::abs(h[2]-(mx+mn)/2)>1e-5) violation("hsl-lightness",fmt("(%d,%d,%d)",b,g,r)); if(mx!=mn && std::abs(h[1]-(mx-mn)/(1-std::abs(mx+mn-1)))>1e-4) violation("hsl-saturation",fmt("(%d,%d,%d)",b,g,r));
        if(mx!=mn) {double d=mx-mn,R=r/255.0,G=g/255.0,Bb=b/255.0,H; if(mx==R) H=std::fmod((G-Bb)/d+6,6); else if(mx==G) H=(Bb-R)/d+2; else H=(R-G)/d+4; H*=60; double e=std::abs(h[0]-H); if(std::min(e,360-e)>0.01) violation("hsl-hue",fmt("(%d,%d,%d): %g, expected %g",b,g,r,h[0],H));}
    }}
    // packed YCbCr: every width 1..40 (vector and scalar tails), value cube
    for(int c=1;c<=40;++c) for(int r=1;r<=3;++r) for(int pat=0;pat<24;++pat) for(int view=0;view<2;++view) {
        cv::Mat_<cv::Vec3b> big(r+1,c+3); for(int y=0;y<big.rows;++y) for(int x=0;x<big.cols;++x) {int s=pat*977+y*131+x*29; big(y,x)=cv::Vec3b((uchar)(s*7),(uchar)(s*s+pat*31),(uchar)(pat%3==0?255:pat%3==1?0:s/3));}
        cv::Mat_<cv::Vec3b> m=view?cv::Mat_<cv::Vec3b>(big(cv::Rect(1,1,c,r))):cv::Mat_<cv::Vec3b>(big(cv::Rect(0,0,c,r)).clone()); cv::Mat keep=m.clone(); mark("packed %dx%d pat %d view %d",c,r,pat,view); ctx().evals++; ctx().nontriv++;
        cv::Mat_<uint16_t> p=lv::cvtBGRToPackedYCbCr(m); cv::Mat ycc; cv::cvtColor(m,ycc,cv::COLOR_BGR2YCrCb); bool ok=p.size()==m.size(); for(int y=0;y<r && ok;++y) for(int x=0;x<c;++x) {cv::Vec3b q=ycc.at<cv::Vec3b>(y,x); ok&=p(y,x)==(uint16_t)(q[0]|((q[1]>>4)<<8)|((q[2]>>4)<<12));}
        if(!ok) violation("pack-ycc",fmt("%dx%d, pattern %d, view %d",c,r,pat,view)); if(cv::norm(m,keep,cv::NORM_INF)!=0) violation("pack-ycc-input","modified");
        for(int pv=0;pv<2;++pv) {cv::Mat_<uint16_t> pin(r,c); for(int y=0;y<r;++y) for(int x=0;x<c;++x) pin(y,x)=(uint16_t)(pv?p(y,x):(pat*4001+y*7919+x*1237)); cv::Mat_<uint16_t> odd; if(view) {cv::Mat_<uint16_t> bb(r,c+3); bb=0; odd=bb(cv::Rect(1,0,c,r)); pin.copyTo(odd);} else odd=pin;
            cv::Mat_<cv::Vec3b> o=lv::cvtPackedYCbCrToBGR(odd); cv::Mat_<cv::Vec3b> y3(r,c); for(int y=0;y<r;++y) for(int x=0;x<c;++x) {int v=pin(y,x); y3(y,x)=cv::Vec3b((uchar)v,(uchar)(((v>>8)&15)<<4),(uchar)((v>>12)<<4));} cv::Mat e; cv::cvtColor(y3,e,cv::COLOR_YCrCb2BGR); if(o.size()!=e.size() || cv::norm(o,e,cv::NORM_INF)!=0) violation("unpack-ycc",fmt("%dx%d, pattern %d, view %d",c,r,pat,view));}
    }
    // unique colour maps
    for(int n : {1,2,3,5,7,8,9,15,16,17,31,33,63,64,65,100,127,128,129,200,255,256,257,359,360,361,500,512,600,718,719}) {
        cv::Mat_<int> m(2,n); for(int i=0;i<n;++i) {m(0,i)=i*3-n; m(1,n-1-i)=i*3-n;} std::map<int,cv::Vec3b> cm; cv::Mat o=lv::getUniqueColorMap(m,&cm); ctx().evals++; mark("colour map %d",n);
        bool ok=o.size()==m.size() && o.type()==CV_8UC3; std::set<std::array<int,3>> s; if(ok) for(int i=0;i<n;++i) {auto q=o.at<cv::Vec3b>(0,i); s.insert({{q[0],q[1],q[2]}}); ok&=o.at<cv::Vec3b>(1,n-1-i)==q; if(n>1) ok&=cm.count(m(0,i)) && cm[m(0,i)]==q;} if(!ok || s.size()!=(size_t)n) violation("colour-map",fmt("%d labels: %zu distinct colours",n,s.size()));
    }
    sample("colour cube with step 5 (1 when thorough); packed conversions for all widths 1-40 x 24 patterns, aligned and not; colour maps of up to 719 labels");
}
template<typename I> static void sizes_() {
    std::vector<std::vector<int>> all; for(int d=0;d<=4;++d) {std::vector<int> s((size_t)d,0); while(true) {all.push_back(s); int j=d-1; while(j>=0 && ++s[j]==4) s[j--]=0; if(j<0) break;}} for(auto& q : std::vector<std::vector<int>>{{480,640},{65536,65536},{70000,70000},{1000,1},{255,256,257},{2000,2000,2000},{100000},{12,1000,0}}) all.push_back(q);
    for(auto& s : all) {
        lv::MatSize_<I> z(s); size_t tot=s.empty()?0:1; for(int v : s) tot*=v; ctx().evals++; ctx().nontriv++; std::string t; for(int v : s) t+=fmt("%d ",v); if((ctx().evals&63)==0) mark("sizes %s",t.c_str());
        if((size_t)z.dims()!=s.size() || z.total()!=tot || z.empty()!=(tot==0)) violation("matsize",t); for(size_t i=0;i<s.size();++i) if((int)z[i]!=s[i] || (int)z.size(i)!=s[i] || z.sizes()[i]!=s[i]) violation("matsize-elem",t);
        std::string es=fmt("%zu-d:[",s.size()); for(size_t i=0;i<s.size();++i) es+=(i?",":"")+std::to_string(s[i]); es+="]"; if(tot==0) es+="<empty>"; if(z.str()!=es) violation("matsize-str",t+": "+z.str());
        lv::MatSize_<int> zi(z); if((int)zi.dims()!=(int)s.size() || zi.total()!=tot || zi!=z || zi.str()!=z.str()) violation("matsize-convert",t); lv::MatSize_<I> cp=z; cp=zi; if(cp!=z) violation("matsize-assign",t);
        if(s.size()<=2) {cv::Size c=z; cv::Size e=s.empty()?cv::Size():s.size()==1?cv::Size(s[0],1):cv::Size(s[1],s[0]); if(c!=e || !(z==e) || z!=e) violation("matsize-cvsize",t); if(s.size()==2) {auto tr=z.transpose(); if((int)tr[0]!=s[1] || (int)tr[1]!=s[0] || !(lv::MatSize_<I>(e)==z)) violation("matsize-transpose",t);}} else {bool thr=false; try {cv::Size c=z; (void)c;} catch(...) {thr=true;} if(!thr || z==cv::Size(1,1)) violation("matsize-cvsize-3d",t);}
        if(s.size()>=2 && tot && tot<1000000) {cv::Mat m((int)s.size(),s.data(),CV_8UC1); if(!(lv::MatSize_<I>(m)==z) || !(z==m.size) || z!=m.size || !(lv::MatInfo(m).size==lv::MatSize(z)) || !(lv::MatInfo(m)==lv::MatInfo(lv::MatSize(z),CV_8UC1)) || lv::MatInfo(m)==lv::MatInfo(lv::MatSize(z),CV_8UC2)) violation("matsize-mat",t); cv::Mat m2; m2.create((int)z.dims(),z.sizes(),CV_16S); if(!(z==m2.size)) violation("matsize-create",t);}
        for(double k : {0.5,1.0,2.0,1.5}) {auto q=z*k; auto q2=z; q2*=k; for(size_t i=0;i<s.size();++i) if((int)q[i]!=(int)(s[i]*k) || q[i]!=q2[i]) violation("matsize-scale",t);}
    }
    for(auto& a : all) for(auto& b : all) {lv::MatSize_<I> x(a), y(b); bool e=(x.empty() && y.empty()) || a==b; ctx().evals++; if((x==y)!=e || (x!=y)==e) violation("matsize-equality","");}
}
static void shapes() {
    sizes_<size_t>(); sizes_<int>();
    for(int dep=0;dep<=6;++dep) for(int cn=1;cn<=4;++cn) {int ty=CV_MAKETYPE(dep,cn); lv::MatType t(ty); static const char* nm[]={"8U","8S","16U","16S","32S","32F","64F"}; static const size_t by[]={1,1,2,2,4,4,8}; ctx().evals++; if(t.channels()!=cn || t.depth()!=dep || t.depthBytes()!=by[dep] || t.elemSize()!=by[dep]*cn || t()!=ty || t.str().find(nm[dep])==std::string::npos || t.str().substr(t.str().size()-2)!=fmt("C%d",cn)) violation("mattype",fmt("depth %d, %d channels: %s",dep,cn,t.str().c_str()));
        if(t.isTypeCompat<uint8_t>()!=(dep==CV_8U) || t.isTypeCompat<int8_t>()!=(dep==CV_8S) || t.isTypeCompat<uint16_t>()!=(dep==CV_16U) || t.isTypeCompat<int16_t>()!=(dep==CV_16S) || t.isTypeCompat<int>()!=(dep==CV_32S) || t.isTypeCompat<float>()!=(dep==CV_32F) || t.isTypeCompat<double>()!=(dep==CV_64F) || t.isTypeCompat<int64_t>()) violation("mattype-compat",t.str());
        if(t.isTypeCompat<cv::Vec<float,2>,true>()!=(ty==CV_32FC2) || t.isTypeCompat<cv::Vec3b,true>()!=(ty==CV_8UC3) || t.isTypeCompat<cv::Vec4s,true>()!=(ty==CV_16SC4) || t.isTypeCompat<cv::Vec2d,true>()!=(ty==CV_64FC2) || t.isTypeCompat<cv::Vec3i,true>()!=(ty==CV_32SC3) || t.isTypeCompat<cv::Vec3w,true>()!=(ty==CV_16UC3)) violation("mattype-vec",t.str());
        for(int o=0;o<28;++o) {lv::MatType u(CV_MAKETYPE(o%7,o/7+1)); if((t==u)!=(t()==u())) violation("mattype-eq","");}}
    for(int bad : {CV_MAKETYPE(CV_8U,5),CV_MAKETYPE(7,1),CV_MAKETYPE(CV_32F,6)}) {bool thr=false; try {lv::MatType t(bad);} catch(const std::exception&) {thr=true;} if(!thr) violation("mattype-invalid",fmt("%d",bad));}
    // aligned matrix allocators: every row starts on the boundary, contents survive, memory is released
    for(int a=0;a<2;++a) for(int dep : {CV_8U,CV_16U,CV_32F,CV_64F}) for(int cn=1;cn<=4;++cn) for(int r=1;r<=5;++r) for(int c=1;c<=20;++c) {
        cv::Mat m; m.allocator=a?lv::getMatAllocator32a():lv::getMatAllocator16a(); m.create(r,c,CV_MAKETYPE(dep,cn)); ctx().evals++; if((ctx().evals&255)==0) mark("aligned %dx%d",r,c); m.setTo(cv::Scalar::all(0)); for(int y=0;y<r;++y) {memset(m.ptr(y),y+1,m.elemSize()*c); if(((uintptr_t)m.ptr(y))%(a?32:16)) violation("mat-alignment",fmt("row %d of a %dx%d matrix of %zu-byte elements",y,c,r,m.elemSize()));} for(int y=0;y<r;++y) for(size_t i=0;i<m.elemSize()*c;++i) if(m.ptr(y)[i]!=y+1) {violation("mat-alignment-overlap","rows overlap"); break;} cv::Mat k=m.clone(); if(cv::norm(k.reshape(1),m.reshape(1),cv::NORM_INF)!=0) violation("mat-alignment-clone","");
    }
    sample("all shapes of 0-4 dimensions over {0,1,2,3} (pairs included), all 28 element types, aligned matrices up to 5x20");
}
int main(int argc, char** argv) {
    init(argc,argv);
    if(is_part("positions")) positions();
    if(is_part("mat-views")) views();
    if(is_part("mat-subpix")) subpix();
    if(is_part("mat-colours")) colours();
    if(is_part("mat-shapes")) shapes();
    return finish();
}
