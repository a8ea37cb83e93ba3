// P31: SuBSENSE against a reference of its feedback model, for every draw on small frames and over longer histories.
#include "draws.hpp"
typedef BackgroundSubtractorSuBSENSE SUB;
struct SP {size_t off,cthr,N,k,avg; float rel;};
struct Sub {
    SP P; int cn; cv::Size sz; std::vector<char> rel; size_t nrel=0,frame=0,cooldown=0,since=0; bool scaling=false,autoreset=false,spread3=true; int median=9; float Tlo=4,Thi=512,lastratio=0; std::vector<int> lut;
    struct Px {float R=1,T=4,V=10,dlast=0,dminL=0,dminS=0,rawL=0,rawS=0,finL=0,finS=0; bool unstable=false,blink=false,raw=false,rawblink=false,fin=false,far=false; std::vector<int> lastc,lastd;}; std::vector<Px> px; // far: away from the previous final foreground
    struct S {std::vector<int> c,d;}; std::vector<std::vector<S>> s; cv::Mat small,meanL,meanS;
    Px& at(int x,int y) {return px[(size_t)(y*sz.width+x)];} S& smp(size_t n,int x,int y) {return s[n][(size_t)(y*sz.width+x)];}
    bool inside(int x,int y) {return x>=2 && y>=2 && x<sz.width-2 && y<sz.height-2;}
    static int sat(double v) {return cv::saturate_cast<uchar>(v);}
    std::vector<int> desc(const cv::Mat& f,int x,int y,const std::vector<int>& ref) {std::vector<int> d; for(int c=0;c<cn;++c) d.push_back(refdesc(f,x,y,c,ref[(size_t)c],lut[(size_t)ref[(size_t)c]])); return d;}
    std::vector<int> col(const cv::Mat& f,int x,int y) {std::vector<int> v; for(int c=0;c<cn;++c) v.push_back(f.ptr(y)[x*cn+c]); return v;}
    void refresh(float frac, const std::vector<int>& dom, bool force=false) {size_t n=frac<1?(size_t)(frac*P.N):P.N,b=frac<1?draw_index(dom,P.N):0;
        for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) if(rel[(size_t)(y*sz.width+x)] && (force || !at(x,y).fin)) for(size_t i=b;i<b+n;++i) {auto p=draw_sample(dom,x,y,2,sz); auto& q=at(p.x,p.y); if(force || !q.fin) smp(i%P.N,x,y)={q.lastc,q.lastd};}}
    void init(const cv::Mat& m, const cv::Mat& roi, const std::vector<int>& dom) {cn=m.channels(); sz=m.size(); lut.resize(256); for(int t=0;t<256;++t) lut[(size_t)t]=cn==1?cv::saturate_cast<uchar>(t*P.rel/3):cv::saturate_cast<uchar>(t*P.rel); cv::Mat r=roi.clone(); cv::dilate(roi,r,cv::Mat(),cv::Point(-1,-1),2); rel.assign((size_t)sz.area(),0); size_t orig=(size_t)cv::countNonZero(r); nrel=0;
        for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) if(inside(x,y) && r.at<uchar>(y,x)) {rel[(size_t)(y*sz.width+x)]=1; ++nrel;}
        bool large=orig>=(size_t)sz.area()/2 && sz.area()>=320*240; scaling=autoreset=large; spread3=!large || sz.area()<=320*240*2; median=9; if(large) {median=std::min((int)std::floor((float)sz.area()/(320*240)+0.5f)+9,14); if(median%2==0) --median;} Tlo=large?2:4; Thi=large?256:512; lastratio=0; frame=cooldown=since=0;
        px.assign((size_t)sz.area(),Px()); for(auto& q : px) q.T=Tlo; for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) {auto& q=at(x,y); q.lastc=col(m,x,y); q.lastd.assign((size_t)cn,0); if(inside(x,y)) q.lastd=desc(m,x,y,q.lastc);}
        S z; z.c.assign((size_t)cn,0); z.d=z.c; s.assign(P.N,std::vector<S>((size_t)sz.area(),z)); small=cv::Mat(); meanL=cv::Mat(sz.height/8,sz.width/8,CV_32FC(cn),cv::Scalar::all(0)); meanS=meanL.clone(); refresh(1,dom);}
    cv::Mat apply(const cv::Mat& f, double lr, const std::vector<int>& dom) {
        ++frame; float aL=1.f/std::min(frame,P.avg),aS=1.f/std::min(frame,P.avg/4); cv::Mat raw(sz,CV_8UC1,cv::Scalar(0)); size_t textured=0; auto roll=[](float& m,float v,float a){m=m*(1.f-a)+v*a;}; auto pc=[](int v){return (size_t)__builtin_popcount((unsigned)v);};
        const size_t CR=cn==1?255:765,DR=cn==1?16:48;
        for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) if(rel[(size_t)(y*sz.width+x)]) {
            auto& q=at(x,y); auto c=col(f,x,y),d=desc(f,x,y,c); size_t ct=(size_t)(q.R*P.cthr-(q.unstable?0:P.cthr/5)),dt=((size_t)1<<(size_t)std::floor(q.R+0.5f))+P.off+(q.unstable?P.off:0);
            q.unstable=q.R>3.f || q.rawL-q.finL>0.1f || q.rawS-q.finS>0.1f;
            size_t good=0,mind=DR,mins=CR; for(size_t n=0;n<P.N && good<P.k;++n) {auto& b=smp(n,x,y); auto inter=desc(f,x,y,b.c); size_t td=0,ts=0; bool ok=true;
                for(int i=0;i<cn && ok;++i) {size_t cd=(size_t)std::abs(c[(size_t)i]-b.c[(size_t)i]),dd=(pc(d[(size_t)i]^b.d[(size_t)i])+pc(inter[(size_t)i]^b.d[(size_t)i]))/2,sd=std::min((dd/(cn==1?4:2))*15+cd,(size_t)255); size_t lim=cn==1?ct/2:ct*3/2; ok=cd<=lim && sd<=lim; td+=dd; ts+=sd;}
                if(ok && (cn==1?td<=dt:td<=dt*3 && ts<=ct*3)) {++good; mind=std::min(mind,td); mins=std::min(mins,ts);}}
            size_t lc=0,ld=0; for(int i=0;i<cn;++i) {lc+=(size_t)std::abs(q.lastc[(size_t)i]-c[(size_t)i]); ld+=pc(q.lastd[(size_t)i]^d[(size_t)i]);} roll(q.dlast,((float)lc/CR+(float)ld/DR)/2,aS);
            float nd=((float)mins/CR+(float)mind/DR)/2; bool fg=good<P.k; if(fg) nd=std::min(1.f,nd+(float)(P.k-good)/P.k); roll(q.dminL,nd,aL); roll(q.dminS,nd,aS); roll(q.rawL,fg,aL); roll(q.rawS,fg,aS);
            if(fg) {raw.at<uchar>(y,x)=255; if(cooldown && draw_zero(dom,2)) smp(draw_index(dom,P.N),x,y)={c,d};}
            else {size_t L=std::isinf(lr)?SIZE_MAX:lr>0?(size_t)std::ceil(lr):(size_t)std::ceil(q.T); if(draw_zero(dom,L)) smp(draw_index(dom,P.N),x,y)={c,d};
                bool s3=spread3 && !q.unstable; auto p=s3?draw_neighbour(dom,x,y,2,sz):draw_neighbour5(dom,x,y,2,sz); size_t n=(size_t)dom[pick(dom.size())]; auto& o=at(p.x,p.y); bool ghost=o.rawS>0.995f && o.dlast<0.01f; if(n%(s3?L:L/2+1)==0 || (ghost && n%(size_t)Tlo==0)) smp(draw_index(dom,P.N),p.x,p.y)={c,d};}
            float mn=std::min(q.dminL,q.dminS),mx=std::max(q.dminL,q.dminS);
            if(q.fin || (mn<0.1f && fg)) {if(q.T<Thi) q.T+=0.5f/(mx*q.V);} else if(q.T>Tlo) q.T-=0.25f*q.V/mx; q.T=q.T<Tlo?Tlo:q.T>Thi?Thi:q.T;
            if(mx>0.1f && q.blink) q.V+=1.f; else if(q.V>0.1f) {q.V-=q.fin?0.1f/4:q.unstable?0.1f/2:0.1f; if(q.V<0.1f) q.V=0.1f;}
            if(q.R<std::pow(1.f+mn*2,2)) q.R+=0.01f*(q.V-0.1f); else {q.R-=0.01f/q.V; if(q.R<1.f) q.R=1.f;}
            size_t bits=0; for(int v : d) bits+=pc(v); if(bits>=(cn==1?2u:4u)) ++textured; q.lastc=c; q.lastd=d;
        }
        cv::Mat closed,fill,mask=raw.clone(),eroded,fin,dil; cv::morphologyEx(raw,closed,cv::MORPH_CLOSE,cv::getStructuringElement(cv::MORPH_RECT,cv::Size(3,3))); fill=closed.clone(); cv::floodFill(fill,cv::Point(0,0),255); cv::erode(closed,eroded,cv::Mat(),cv::Point(-1,-1),3); mask|=~fill; mask|=eroded; cv::medianBlur(mask,fin,median); cv::dilate(fin,dil,cv::Mat(),cv::Point(-1,-1),3);
        for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) {auto& q=at(x,y); bool r=raw.at<uchar>(y,x)!=0,ch=r!=q.raw,away=!dil.at<uchar>(y,x); q.blink=(ch || q.rawblink) && q.far && away; q.far=away; q.rawblink=ch; q.raw=r; q.fin=fin.at<uchar>(y,x)!=0;}
        cv::Mat mL(sz,CV_32FC1),mS(sz,CV_32FC1); for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) {mL.at<float>(y,x)=at(x,y).finL; mS.at<float>(y,x)=at(x,y).finS;} cv::addWeighted(mL,1.f-aL,fin,(1./255)*aL,0,mL,CV_32F); cv::addWeighted(mS,1.f-aS,fin,(1./255)*aS,0,mS,CV_32F); for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) {at(x,y).finL=mL.at<float>(y,x); at(x,y).finS=mS.at<float>(y,x);}
        float ratio=(float)textured/nrel; for(int t=0;t<256;++t) {if(ratio<0.1f && lastratio<0.1f) {if(lut[(size_t)t]>sat(std::ceil(t*P.rel/4))) --lut[(size_t)t];} else if(ratio>0.5f && lastratio>0.5f && lut[(size_t)t]<cv::saturate_cast<uchar>(255*P.rel)) ++lut[(size_t)t];} lastratio=ratio;
        if(scaling) {cv::resize(f,small,meanL.size(),0,0,cv::INTER_AREA); cv::accumulateWeighted(small,meanL,aL); cv::accumulateWeighted(small,meanS,aS); size_t tot=0; for(int y=0;y<meanL.rows;++y) for(int x=0;x<meanL.cols;++x) {size_t m=0; for(int c=0;c<cn;++c) m=std::max(m,(size_t)std::fabs(meanS.ptr<float>(y)[x*cn+c]-meanL.ptr<float>(y)[x*cn+c])); tot+=cn==1?m/2:m;}
            float r=(float)tot/(meanL.rows*meanL.cols); size_t lim=P.cthr/2; if(autoreset) {if(since>1000) autoreset=false; else if(r>=lim && !cooldown) {since=0; refresh(0.1f,dom); cooldown=P.avg/4; for(auto& q : px) q.T=1;} else ++since;} else if(r>=lim*2) {since=0; autoreset=true;}
            Tlo=2; Thi=256; if(r>=lim/2) {Tlo=(float)std::max(2>>(int)(r/2),1); Thi=(float)std::max(256>>(int)(r/2),1);} if(cooldown) --cooldown;}
        return fin;
    }
    cv::Mat bg() {cv::Mat o(sz,CV_8UC(cn)); for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) for(int c=0;c<cn;++c) {double t=0; for(size_t n=0;n<P.N;++n) t+=smp(n,x,y).c[(size_t)c]; o.ptr(y)[x*cn+c]=(uchar)cvRound(t/P.N);} return o;}
    cv::Mat bgd() {cv::Mat o(sz,CV_16UC(cn)); for(int y=0;y<sz.height;++y) for(int x=0;x<sz.width;++x) for(int c=0;c<cn;++c) {double t=0; for(size_t n=0;n<P.N;++n) t+=smp(n,x,y).d[(size_t)c]; o.ptr<ushort>(y)[x*cn+c]=(ushort)cvRound(t/P.N);} return o;}
};
template<typename T> static std::string trace(T& l, const cv::Mat& m, const cv::Mat& b, const cv::Mat& d) {(void)l; return bytes(m)+bytes(b)+bytes(d);}
static std::string tr(SUB& l, const cv::Mat& m) {cv::Mat b,d; l.getBackgroundImage(b); l.getBackgroundDescriptorsImage(d); return trace(l,m,b,d);}
static std::string tr(Sub& l, const cv::Mat& m) {return trace(l,m,l.bg(),l.bgd());}
// all draws of the (one) enumerated domain
static void sub_case(const std::string& what, SP P, const cv::Mat& I, const std::vector<int>& idom, const std::vector<Step>& steps) {
    std::vector<int> edom={0}; for(auto& d : steps) if(d.dom.size()>1) edom=d.dom; if(idom.size()>1) edom=idom; std::set<std::string> got,exp; uint64_t c0=rcalls; auto mode=[&](const std::vector<int>& d){if(d.size()==1) rset(d[0]); else rmode=ENUMERATE;};
    SUB real(P.off,P.cthr,P.N,P.k,P.avg,P.rel); cv::Mat full(I.size(),CV_8UC1,cv::Scalar(255));
    all_picks([&]{Sub l; l.P=P; l.init(I,full,idom); std::string t=tr(l,cv::Mat()); for(auto& s : steps) {auto m=l.apply(s.frame,s.lr,s.dom); t+=tr(l,m);} exp.insert(t);});
    ctx().evals+=all_draws(edom,[&]{mode(idom); real.initialize(I,full); std::string t=tr(real,cv::Mat()); for(auto& s : steps) {cv::Mat m; mode(s.dom); real.apply(s.frame,m,s.lr); t+=tr(real,m);} got.insert(t); return exp.count(t)!=0;});
    rset(0); bool drew=rcalls!=c0; compare_sets("subsense",what,got,exp,drew);
}
// one constant answer per frame; compared after every frame
static void sub_run(const std::string& what, SP P, const cv::Mat& I, const cv::Mat& roi, int id, const std::vector<Step>& steps, SUB* use=nullptr) {
    SUB own(P.off,P.cthr,P.N,P.k,P.avg,P.rel); SUB& real=use?*use:own; Sub l; l.P=P; mpath.clear(); mpos=0; rset(id); real.initialize(I,roi); l.init(I,roi,{id}); ctx().evals++; if(tr(real,cv::Mat())!=tr(l,cv::Mat())) {violation("subsense-init",what); return;}
    int i=0; for(auto& s : steps) {++i; cv::Mat m,keep=s.frame.clone(); rset(s.dom[0]); real.apply(s.frame,m,s.lr); mpath.clear(); mpos=0; cv::Mat e=l.apply(s.frame,s.lr,s.dom); ctx().evals++; if(cv::countNonZero(e)) ctx().nontriv++; if(bytes(m)!=bytes(e)) {violation("subsense-mask",what+fmt(", frame %d",i)); return;} if(tr(real,m)!=tr(l,e)) {violation("subsense-model",what+fmt(", frame %d",i)); return;} if(bytes(keep)!=bytes(s.frame)) violation("subsense-input",what);}
}
static cv::Mat flat(int r,int c,int cn,int v) {return img(r,c,cn,[=](int,int,int){return v;});}
static cv::Mat tex(int R,int C,int cn,int s,int amp=255) {return img(R,C,cn,[=](int y,int x,int c){unsigned h=(unsigned)(y*131+x*71+c*17+s*977)*2654435761u; return (int)((h>>22)&255)*amp/255;});}
static const SP D{3,30,2,1,100,0.333f};
static void pixel() { // one modelled pixel
    std::vector<int> d2={0,1};
    for(int cn : {1,3}) for(size_t N=1;N<=2;++N) for(size_t k=1;k<=N;++k) for(int h=0;h<64;++h) {if(cn==3 && !ctx().thorough && h%2) continue; static const int V[]={100,108,113,180}; mark("single pixel %d channels N=%zu k=%zu %d",cn,N,k,h); auto pix=[&](int v){return img(5,5,cn,[=](int y,int x,int){return y==2 && x==2?v:100;});};
        sub_case(fmt("single pixel, %d channels, %zu samples, %zu required, frames %d,%d,%d",cn,N,k,V[h%4],V[h/4%4],V[h/16]),{3,30,N,k,100,0.333f},pix(100),{0},{{pix(V[h%4]),2,d2},{pix(V[h/4%4]),2,d2},{pix(V[h/16]),2,d2}});}
    sample("one modelled pixel: every history of 3 frames over 4 values and every draw");
}
static void colours() {
    // colour thresholds: every value around several backgrounds
    for(int cn : {1,3}) for(size_t ct : {(size_t)30,(size_t)31,(size_t)4,(size_t)100}) for(int u : {0,60,200,255}) {mark("colour threshold %zu background %d",ct,u); for(int v=0;v<256;++v) for(int t=0;t<(cn==3?4:1);++t) {SP P=D; P.cthr=ct; P.N=1; sub_run(fmt("colour threshold %zu, %d channels, background %d, value %d kind %d",ct,cn,u,v,t),P,flat(5,5,cn,u),cv::Mat(5,5,CV_8UC1,cv::Scalar(255)),0,{{img(5,5,cn,[&](int,int,int c){return t==0 || c==t-1?v:u;}),1,{0}}});}}
    sample("all values around 4 backgrounds x 4 thresholds, each channel alone and all together");
}
static void neighbourhoods() {
    std::vector<cv::Point> pos(16); for(int y=0;y<5;++y) for(int x=0;x<5;++x) if(PAT[y][x]>=0) pos[(size_t)PAT[y][x]]=cv::Point(x,y);
    for(int cn : {1,3}) for(size_t off : {(size_t)3,(size_t)0}) for(int p=0;p<65536;p+=ctx().thorough?1:cn==3?5:3) {if((p&511)<5) mark("neighbourhood %d",p); cv::Mat f=flat(5,5,cn,100); for(int b=0;b<16;++b) if((p>>b)&1) for(int c=0;c<cn;++c) f.ptr(pos[(size_t)b].y)[pos[(size_t)b].x*cn+c]=(uchar)(cn==1?140:c==p%3?160:((p>>(15-b))&1)?150:100); SP P=D; P.off=off; P.N=1; sub_run(fmt("neighbourhood %04x, %d channels, offset %zu",p,cn,off),P,flat(5,5,cn,101),cv::Mat(5,5,CV_8UC1,cv::Scalar(255)),0,{{f,1,{0}}});}
    sample("all 65536 neighbourhoods (every third or fifth in the quick tier)");
}
static void longrun() { // feedback over time: constant answers, one and nine pixels
    for(int cn : {1,3}) for(size_t avg : {(size_t)4,(size_t)8,(size_t)20,(size_t)100}) for(int per=1;per<=6;++per) for(int a : {4,20,80}) for(int d=0;d<5;++d) {mark("feedback %d channels avg %zu period %d amplitude %d draw %d",cn,avg,per,a,d); std::vector<Step> st; for(int i=0;i<(ctx().thorough?160:60);++i) st.push_back({img(5,5,cn,[=](int y,int x,int c){return 100+((i/per)%2?((y==2 && x==2)?a+c:(y+x)%3==0?a/2:0):0);}),d==4?(i%3==0?std::numeric_limits<double>::infinity():0.):0.,{i%7==0?0:d}}); sub_run(fmt("feedback, %d channels, %zu averaged frames, period %d, amplitude %d, draw %d",cn,avg,per,a,d),{3,30,2,2,avg,0.333f},flat(5,5,cn,100),cv::Mat(5,5,CV_8UC1,cv::Scalar(255)),0,st);}
    for(int cn : {1,3}) for(int R : {7,13}) for(int kind=0;kind<8;++kind) for(int d=0;d<6;++d) {mark("history %d of %dx%d, %d channels, draw %d",kind,R,R,cn,d); int n=ctx().thorough?60:28; std::vector<Step> st; for(int i=0;i<n;++i) {auto f=[=](int y,int x,int c){switch(kind) {case 0: return x>=i%R && x<i%R+5 && y>2?190:90; case 1: return (y/5+x/5+i/3)%2?130-c:60; case 2: return i<n/2?70:95+c; case 3: return (x>3 && x<R-2 && y>1 && y<R-1 && i>4)?200-c*20:80; case 4: {unsigned h=(unsigned)(y*31+x*17+c+i*7919)*2654435761u; return 80+(int)((h>>24)&63);} case 5: {unsigned h=(unsigned)(y*31+x*17+c)*2654435761u; return (int)((h>>24)&127)+(i%4==0?30:0);} case 6: return (x-R/2)*(x-R/2)+(y-R/2)*(y-R/2)<(i%9)*4?30:140; default: return 10+i*4+x*3+y*2;}}; st.push_back({img(R,R,cn,f),i%5==4?2.5:0.,{(d*3+i*(d>2))%8}});}
        sub_run(fmt("history %d of %dx%d frames, %d channels, draw %d",kind,R,R,cn,d),{3,30,3,2,(size_t)(d%2?100:12),0.333f},st[0].frame,cv::Mat(R,R,CV_8UC1,cv::Scalar(255)),171,st);}
    sample("adaptive thresholds, rates and modulators followed over 28-60 frames (60-160 in the thorough tier)");
}
static void frames() { // several pixels: initialisation, diffusion, masks, regions of interest
    for(int cn : {1,3}) for(int R=5;R<=9;++R) for(int C=5;C<=9;++C) {if(cn==3 && !ctx().thorough && (R+C)%2) continue; mark("textured %dx%d, %d channels",C,R,cn); for(int d=0;d<512;d+=ctx().thorough?1:3) {SP P=D; P.cthr=60; sub_run(fmt("textured %dx%d image, %d channels, draw %d",C,R,cn,d),P,tex(R,C,cn,d%5),cv::Mat(R,C,CV_8UC1,cv::Scalar(255)),d,{{tex(R,C,cn,d%5),1,{(d*5)%8}},{tex(R,C,cn,(d+1)%5),2,{d%7}},{tex(R,C,cn,d%5,90),0,{d%25}}});}}
    std::vector<int> d8={0,1,2,3,4,5,6,7}; for(int cn : {1,3}) for(int p=0;p<9;++p) {mark("diffusion from %d",p); sub_case(fmt("7x7 image, %d channels, background at pixel %d only",cn,p),{16,30,1,1,100,0.333f},flat(7,7,cn,100),{171},{{img(7,7,cn,[&](int y,int x,int){return (y-2)*3+x-2==p && y>=2 && x>=2 && y<5 && x<5?104:200+y+x;}),2,d8}});}
    for(int cn : {1,3}) for(int d=0;d<25;++d) for(int ghost=0;ghost<2;++ghost) {mark("wide diffusion %d",d); std::vector<Step> st; for(int i=0;i<12;++i) st.push_back({img(9,9,cn,[=](int y,int x,int){return x>4?ghost?190:190+(i%2)*9:100+(ghost?0:(i*37+x*5)%9*5);}),3,{i<9?5:d}}); sub_run(fmt("static object, draw %d, kind %d, %d channels",d,ghost,cn),{3,30,2,1,100,0.333f},flat(9,9,cn,100),cv::Mat(9,9,CV_8UC1,cv::Scalar(255)),0,st);}
    for(int cn : {1,3}) for(int y0=0;y0<13;++y0) for(int x0=0;x0<13;++x0) {mark("rectangles from (%d,%d)",x0,y0); for(int y1=y0;y1<13;++y1) for(int x1=x0;x1<13;++x1) {if(!ctx().thorough && (y0*3+x0*5+y1*7+x1)%(cn==3?16:5)) continue; bool ring=(y0+x1)%2; sub_run(fmt("rectangle (%d,%d)-(%d,%d), ring %d, %d channels",x0,y0,x1,y1,ring,cn),{3,30,1,1,100,0.333f},flat(13,13,cn,90),cv::Mat(13,13,CV_8UC1,cv::Scalar(255)),0,{{img(13,13,cn,[&](int y,int x,int){bool in=y>=y0 && y<=y1 && x>=x0 && x<=x1,mid=y>=y0+2 && y<=y1-2 && x>=x0+2 && x<=x1-2; return in && !(ring && mid)?190:90;}),0,{1}},{flat(13,13,cn,95),0,{2}}});}}
    for(int cn : {1,3}) for(int y0=0;y0<9;y0+=2) for(int x0=0;x0<9;x0+=2) for(int y1=y0;y1<9;y1+=2) for(int x1=x0;x1<9;x1+=2) for(int inv=0;inv<2;++inv) for(int d=0;d<512;d+=37) {cv::Mat roi=img(9,9,1,[&](int y,int x,int){bool in=y>=y0 && y<=y1 && x>=x0 && x<=x1; return in!=(inv!=0)?255:0;}); cv::Mat dl; cv::dilate(roi,dl,cv::Mat(),cv::Point(-1,-1),2); if(!cv::countNonZero(roi) || !cv::countNonZero(dl(cv::Rect(2,2,5,5)))) continue; mark("roi (%d,%d)-(%d,%d)",x0,y0,x1,y1); SP P=D; P.cthr=60; sub_run(fmt("region (%d,%d)-(%d,%d), outside %d, %d channels, draw %d",x0,y0,x1,y1,inv,cn,d),P,tex(9,9,cn,3),roi,d,{{tex(9,9,cn,3),2,{d%8}},{tex(9,9,cn,4),0,{0}},{tex(9,9,cn,3,120),0,{d%5}}});}
    // explicit refresh of a share of the samples
    for(int cn : {1,3}) for(int R : {7,12}) for(float frac : {0.1f,0.25f,0.5f,0.75f,1.f}) for(int force=0;force<2;++force) for(int d=0;d<512;d+=ctx().thorough?1:31) {mark("refresh %g",frac); SP P=D; P.N=4; SUB real(P.off,P.cthr,P.N,P.k,P.avg,P.rel); Sub l; l.P=P; cv::Mat full(R,R,CV_8UC1,cv::Scalar(255)),m; cv::Mat A=tex(R,R,cn,1),B=img(R,R,cn,[&](int y,int x,int c){return x>4?A.ptr(y)[x*cn+c]^128:A.ptr(y)[x*cn+c];}); mpath.clear(); mpos=0; rset(d); real.initialize(A,full); l.init(A,full,{d}); rset(1); real.apply(B,m,1000); l.apply(B,1000,{1}); rset(d); real.refreshModel(frac,force!=0); mpath.clear(); mpos=0; l.refresh(frac,{d},force!=0); ctx().evals++; if(cv::countNonZero(m)) ctx().nontriv++; if(tr(real,m)!=tr(l,m)) violation("subsense-refresh-content",fmt("%dx%d, %d channels, fraction %g, force %d, draw %d",R,R,cn,frac,force,d)); rset(0); real.apply(A,m,0); cv::Mat e=l.apply(A,0,{0}); if(tr(real,m)!=tr(l,e)) violation("subsense-refresh-after",fmt("%dx%d, %d channels, fraction %g, force %d, draw %d",R,R,cn,frac,force,d));}
    // one object for several clips
    SUB shared(D.off,D.cthr,D.N,D.k,D.avg,D.rel); for(int i=0;i<60;++i) {int R=5+i%5,C=5+i/5%5,cn=i%3==0?3:1; std::vector<Step> st; for(int j=0;j<8;++j) st.push_back({tex(R,C,cn,(i*j)%7,j<4?60:240),0,{(i+j)%9}}); mark("shared clip %d",i); sub_run(fmt("clip %d of a reused object",i),D,st[0].frame,cv::Mat(R,C,CV_8UC1,cv::Scalar(255)),i,st,&shared);}
    sample("textured images of 5x5 to 9x9 and every initialisation draw; every diffusion draw; all changed rectangles and rings of 13x13 frames; all even-cornered regions of interest of 9x9 frames");
}
static void large() { // frame-level analysis
    int n=0; for(int cn : {1,3}) for(auto sz : {cv::Size(320,240),cv::Size(321,240),cv::Size(319,240),cv::Size(480,320),cv::Size(484,320)}) for(int kind=0;kind<4;++kind) {if(!ctx().thorough && (cn==3?(kind!=1 && kind!=3) || sz.width>321:(kind+sz.width)%2==0 && sz.width!=320)) continue; mark("large %dx%d kind %d, %d channels",sz.width,sz.height,kind,cn); ++n; std::vector<Step> st; int fr=ctx().thorough?40:12;
        for(int i=0;i<fr;++i) st.push_back({img(sz.height,sz.width,cn,[=](int y,int x,int c){switch(kind) {case 0: return (x/16+y/16)%2*40+60+c*3+i; case 1: return i<4?60:(i<8?190:120-c*10); case 2: return ((x+i*9)/24+(y+i*5)/32)%2*120+40; default: return 50+(x*y/97)%60+(i%5==4?90:0);}}),kind==0 && i%4==3?3.:0.,{(i*5+kind)%9}});
        sub_run(fmt("%dx%d, kind %d, %d channels",sz.width,sz.height,kind,cn),{3,30,(size_t)16,2,(size_t)(kind%2?20:40),0.333f},st[0].frame,cv::Mat(sz,CV_8UC1,cv::Scalar(255)),kind,st);}
    ctx().counters["large clips"]+=n; sample("clips of frames of 320x240 and more (and one column less): scaled learning rates, automatic partial resets, wide spread and median sizes");
}
static void refuse() {
    auto refused=[](std::function<void()> f){try {f();} catch(const std::exception&) {return true;} return false;}; cv::Mat m,full(7,7,CV_8UC1,cv::Scalar(255));
    if(!refused([]{SUB s(3,30,2,3);}) || !refused([]{SUB s(3,30,0,0);}) || !refused([]{SUB s(0,0,2,1);})) violation("subsense-ctor","");
    SUB s; if(!refused([&]{s.apply(flat(7,7,1,9),m);}) || !refused([&]{s.getBackgroundImage(m);}) || !refused([&]{s.refreshModel(1.f);})) violation("subsense-uninitialised",""); s.initialize(flat(7,7,1,9),full); if(!refused([&]{s.apply(flat(7,7,3,9),m);}) || !refused([&]{s.apply(flat(7,8,1,9),m);}) || !refused([&]{s.apply(cv::Mat(),m);})) violation("subsense-mismatch",""); for(float f : {0.f,-1.f,1.5f}) if(!refused([&]{s.refreshModel(f);})) violation("subsense-refresh",""); ctx().evals+=10;
}
int main(int argc, char** argv) {
    init(argc,argv); cv::setNumThreads(1);
    if(is_part("subsense-pixel")) pixel();
    if(is_part("subsense-colours")) colours();
    if(is_part("subsense-neighbourhoods")) neighbourhoods();
    if(is_part("subsense-feedback")) {longrun(); refuse();}
    if(is_part("subsense-frames")) frames();
    if(is_part("subsense-large")) large();
    return finish();
}
