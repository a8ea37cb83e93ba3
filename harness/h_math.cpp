// P12: distances vs. their definitions. P13: numeric helpers. P14: SIMD helpers.
#include "litiv/utils/math.hpp"
#include "litiv/utils/simd.hpp"
#include "litiv/utils/opencv.hpp"
#include "../mc/report.hpp"
#include <cmath>
using namespace vr;
typedef long double ld;

template<typename T, size_t N, typename F> static void vectors(const std::vector<T>& vals, F f) { // all pairs of N-vectors
    std::array<size_t,2*N> ix; ix.fill(0); std::array<T,N> a,b;
    while(true) {
        for(size_t i=0;i<N;++i) {a[i]=vals[ix[i]]; b[i]=vals[ix[N+i]];}
        f(a,b);
        size_t k=0; while(k<2*N && ++ix[k]==vals.size()) ix[k++]=0;
        if(k==2*N) break;
    }
}
template<typename T, size_t N> static std::string vs(const std::array<T,N>& a) {std::string s="("; for(size_t i=0;i<N;++i) s+=(i?",":"")+std::to_string(a[i]); return s+")";}
static bool near_(ld a, ld b, ld rel=1e-5L) {return std::abs(a-b)<=rel*std::max((ld)1,std::max(std::abs(a),std::abs(b)));}

template<typename T> static void scalars(const std::vector<T>& vals, const char* tn) {
    for(T a : vals) for(T b : vals) {
        ctx().evals++; ctx().nontriv++; ld d=(ld)a-(ld)b;
        if((ctx().evals&1023)==0) mark("scalar distances %s %Lg %Lg",tn,(ld)a,(ld)b);
        if(!near_((ld)lv::L1dist(a,b),std::abs(d),std::is_integral<T>::value?0:1e-6L)) violation(fmt("L1:%s",tn),fmt("L1dist(%Lg,%Lg)=%Lg",(ld)a,(ld)b,(ld)lv::L1dist(a,b)));
        if(std::abs(d)<2e9L && !near_((ld)lv::L2sqrdist(a,b),d*d,std::is_integral<T>::value?0:1e-5L)) violation(fmt("L2sqr:%s",tn),fmt("L2sqrdist(%Lg,%Lg)=%Lg",(ld)a,(ld)b,(ld)lv::L2sqrdist(a,b)));
    }
}
template<typename T, size_t N, bool UNS> struct CD {static void run(const std::array<T,N>&, const std::array<T,N>&, const char*) {}};
template<typename T, size_t N> struct CD<T,N,true> {
    static void run(const std::array<T,N>& a, const std::array<T,N>& b, const char* tn) {
        ld aa=0,bb=0,ab=0; bool grey=true, same=true; for(size_t i=0;i<N;++i) {aa+=(ld)a[i]*a[i]; bb+=(ld)b[i]*b[i]; ab+=(ld)a[i]*b[i]; if(i) grey&=a[i]==a[i-1] && b[i]==b[i-1]; same&=a[i]==b[i];}
        ld real=(grey||same)?0:bb==0?aa:aa-ab*ab/bb; if(real<0) real=0;
        ld lo,hi; if(std::is_integral<T>::value) {lo=std::floor(std::sqrt(real)-1e-6L); hi=std::sqrt((grey||same)?0:real+1)+1e-6L;} else {ld tol=1e-3L*std::sqrt(aa)+1e-3L; lo=std::sqrt(real)-tol; hi=std::sqrt(real)+tol;}
        auto chk=[&](ld g, const char* w){if(!(g>=lo && g<=hi)) violation(fmt("cdist:%s",tn),fmt("colour distortion %s of %s and %s is %Lg, expected %Lg",w,vs(a).c_str(),vs(b).c_str(),g,std::sqrt(real)));};
        ld g=(ld)lv::cdist<N>(a.data(),b.data()); chk(g,"ptr"); chk((ld)lv::cdist(a,b),"array"); chk((ld)lv::cdist(a,b.data()),"array/ptr"); chk((ld)lv::cdist(a.data(),b),"ptr/array");
        cv::Vec<T,(int)N> va,vb; for(size_t i=0;i<N;++i) {va[(int)i]=a[i]; vb[(int)i]=b[i];} chk((ld)lv::cdist(va,vb),"vec");
        ld l1=0; for(size_t i=0;i<N;++i) l1+=std::abs((ld)a[i]-(ld)b[i]);
        ld mx=std::is_integral<T>::value?std::floor(l1/2)+4*g:l1/2+4*g;
        if(!near_((ld)lv::cmixdist<N>(a.data(),b.data()),mx) || !near_((ld)lv::cmixdist(a,b),mx) || !near_((ld)lv::cmixdist(a.data(),b),mx) || !near_((ld)lv::cmixdist(a,b.data()),mx)) violation(fmt("cmixdist:%s",tn),fmt("mixed colour distance of %s and %s is %Lg, expected %Lg",vs(a).c_str(),vs(b).c_str(),(ld)lv::cmixdist<N>(a.data(),b.data()),mx));
    }
};
template<typename T, size_t N> static void arrays(const std::vector<T>& vals, const char* tn) {
    const ld rel=std::is_integral<T>::value?0:1e-5L;
    vectors<T,N>(vals,[&](const std::array<T,N>& a, const std::array<T,N>& b){
        ctx().evals++; ctx().nontriv++; if((ctx().evals&4095)==0) {mark("vector distances %s %s %s",tn,vs(a).c_str(),vs(b).c_str());}
        ld l1=0,l2=0; for(size_t i=0;i<N;++i) {ld d=(ld)a[i]-(ld)b[i]; l1+=std::abs(d); l2+=d*d;}
        cv::Vec<T,(int)N> va,vb; for(size_t i=0;i<N;++i) {va[(int)i]=a[i]; vb[(int)i]=b[i];}
        auto chk=[&](ld g, ld e, const char* w, ld r){if(!near_(g,e,r)) violation(fmt("%s:%s",w,tn),fmt("%s of %s and %s is %Lg, expected %Lg",w,vs(a).c_str(),vs(b).c_str(),g,e));};
        chk(lv::L1dist<N>(a.data(),b.data()),l1,"L1dist-ptr",rel); chk(lv::L1dist(a,b),l1,"L1dist-array",rel); chk(lv::L1dist(a,b.data()),l1,"L1dist-ap",rel); chk(lv::L1dist(a.data(),b),l1,"L1dist-pa",rel); chk(lv::L1dist(va,vb),l1,"L1dist-vec",rel);
        chk(lv::L1dist<N>(a.data(),b.data(),1),l1,"L1dist-n",rel); chk(lv::L1dist(a.data(),b.data(),size_t(1),N),l1,"L1dist-nc",rel);
        chk(lv::L2sqrdist<N>(a.data(),b.data()),l2,"L2sqrdist-ptr",rel); chk(lv::L2sqrdist(a,b),l2,"L2sqrdist-array",rel); chk(lv::L2sqrdist(a,b.data()),l2,"L2sqrdist-ap",rel); chk(lv::L2sqrdist(a.data(),b),l2,"L2sqrdist-pa",rel); chk(lv::L2sqrdist(va,vb),l2,"L2sqrdist-vec",rel);
        chk(lv::L2sqrdist<N>(a.data(),b.data(),1),l2,"L2sqrdist-n",rel);
        const ld r2=1e-5L, e2=std::sqrt(l2);
        chk(lv::L2dist<N>(a.data(),b.data()),e2,"L2dist-ptr",r2); chk(lv::L2dist(a,b),e2,"L2dist-array",r2); chk(lv::L2dist(a,b.data()),e2,"L2dist-ap",r2); chk(lv::L2dist(a.data(),b),e2,"L2dist-pa",r2); chk(lv::L2dist(va,vb),e2,"L2dist-vec",r2); chk(lv::L2dist<N>(a.data(),b.data(),1),e2,"L2dist-n",r2); chk(lv::L2dist(a.data(),b.data(),size_t(1),N),e2,"L2dist-nc",r2);
        bool nonneg=true; for(size_t i=0;i<N;++i) nonneg&=a[i]>=0 && b[i]>=0;
        if(nonneg) CD<T,N,(N>1) && (std::is_same<T,uint8_t>::value || std::is_floating_point<T>::value)>::run(a,b,tn);
    });
    sample(fmt("all pairs of %zu-vectors of %s over %zu values",N,tn,vals.size()));
}
template<typename T, size_t N> static void masked(const std::vector<T>& vals, const char* tn) { // elements x channels x masks
    for(size_t ne : {(size_t)5,(size_t)7,(size_t)8,(size_t)15,(size_t)16,(size_t)17,(size_t)31,(size_t)33,(size_t)64,(size_t)100,(size_t)257}) for(size_t pat=0;pat<12;++pat) for(int mk=0;mk<4;++mk) { // longer lists
        std::vector<T> a,b; for(size_t i=0;i<ne*N;++i) {a.push_back(vals[(i*7+pat+i/5)%vals.size()]); b.push_back(vals[(i*3+pat*5+1+i/3)%vals.size()]);} std::vector<uint8_t> m; for(size_t i=0;i<ne;++i) m.push_back((i*5+pat)%(mk+2)==0?0:(i%2?255:1)); const uint8_t* mp=mk==0?nullptr:m.data();
        ctx().evals++; ctx().nontriv++; mark("masked distances %s channels %zu elements %zu pattern %zu mask %d",tn,N,ne,pat,mk); ld l1=0,l2=0; for(size_t i=0;i<ne;++i) if(!mp || mp[i]) for(size_t c=0;c<N;++c) {ld d=(ld)a[i*N+c]-(ld)b[i*N+c]; l1+=std::abs(d); l2+=d*d;} if(std::is_integral<T>::value && l2>(ld)(sizeof(T)<=2?4e18L:4e18L)) continue;
        auto chk=[&](ld g, ld e, const char* w){if(!near_(g,e,1e-4L)) violation(fmt("masked-%s:%s",w,tn),fmt("%s over %zu elements of %zu channels (pattern %zu, mask kind %d) is %Lg, expected %Lg",w,ne,N,pat,mk,g,e));};
        chk(lv::L1dist<N>(a.data(),b.data(),ne,mp),l1,"L1dist"); chk(lv::L1dist(a.data(),b.data(),ne,N,mp),l1,"L1dist"); chk(lv::L2sqrdist<N>(a.data(),b.data(),ne,mp),l2,"L2sqrdist"); chk(lv::L2sqrdist(a.data(),b.data(),ne,N,mp),l2,"L2sqrdist"); chk(lv::L2dist<N>(a.data(),b.data(),ne,mp),std::sqrt(l2),"L2dist"); chk(lv::L2dist(a.data(),b.data(),ne,N,mp),std::sqrt(l2),"L2dist");
    }
    for(size_t ne=0;ne<=4;++ne) for(size_t pat=0;pat<64;++pat) for(int mk=0;mk<(1<<ne)+1;++mk) {
        std::vector<T> a,b; for(size_t i=0;i<ne*N;++i) {a.push_back(vals[(i*7+pat)%vals.size()]); b.push_back(vals[(i*3+pat*5+1)%vals.size()]);}
        std::vector<uint8_t> m; for(size_t i=0;i<ne;++i) m.push_back(((mk>>i)&1)?(i%2?255:1):0); const uint8_t* mp=mk==(1<<ne)?nullptr:m.data(); a.push_back(0); b.push_back(0); m.push_back(0); if(mp) mp=m.data();
        ctx().evals++; ctx().nontriv++; mark("masked distances %s channels %zu elements %zu pattern %zu mask %d",tn,N,ne,pat,mk);
        ld l1=0,l2=0,cd=0; for(size_t i=0;i<ne;++i) if(!mp || mp[i]) {for(size_t c=0;c<N;++c) {ld d=(ld)a[i*N+c]-(ld)b[i*N+c]; l1+=std::abs(d); l2+=d*d;}}
        auto chk=[&](ld g, ld e, const char* w){if(!near_(g,e,1e-4L)) violation(fmt("masked-%s:%s",w,tn),fmt("%s over %zu elements of %zu channels (pattern %zu, mask %d) is %Lg, expected %Lg",w,ne,N,pat,mk,g,e));};
        chk(lv::L1dist<N>(a.data(),b.data(),ne,mp),l1,"L1dist"); chk(lv::L1dist(a.data(),b.data(),ne,N,mp),l1,"L1dist"); chk(lv::L2sqrdist<N>(a.data(),b.data(),ne,mp),l2,"L2sqrdist"); chk(lv::L2sqrdist(a.data(),b.data(),ne,N,mp),l2,"L2sqrdist"); chk(lv::L2dist<N>(a.data(),b.data(),ne,mp),std::sqrt(l2),"L2dist"); chk(lv::L2dist(a.data(),b.data(),ne,N,mp),std::sqrt(l2),"L2dist");
    }
}
template<size_t N> static void masked_cd() {
    const std::vector<uint8_t> vals={0,3,90,128,255}; for(size_t ne : {(size_t)0,(size_t)1,(size_t)2,(size_t)3,(size_t)4,(size_t)5,(size_t)8,(size_t)13,(size_t)16}) for(size_t pat=0;pat<64;++pat) for(int mk=0;mk<(1<<ne)+1;mk+=ne>4?1+(1<<ne)/9:1) {
        std::vector<uint8_t> a,b,m; std::vector<float> fa,fb; for(size_t i=0;i<ne*N;++i) {a.push_back(vals[(i*7+pat)%5]); b.push_back(vals[(i*3+pat*4+1)%5]);} for(size_t i=0;i<ne;++i) m.push_back(((mk>>i)&1)?255:0); m.push_back(0); a.push_back(0); b.push_back(0); fa.assign(a.begin(),a.end()); fb.assign(b.begin(),b.end()); const uint8_t* mp=mk==(1<<ne)?nullptr:m.data();
        ld e=0,fe=0; for(size_t i=0;i<ne;++i) if(!mp||mp[i]) {e+=lv::cdist<N>(&a[i*N],&b[i*N]); fe+=lv::cdist<N>(&fa[i*N],&fb[i*N]);} ctx().evals++; ctx().nontriv++;
        if((ld)lv::cdist<N>(a.data(),b.data(),ne,mp)!=e || (ld)lv::cdist(a.data(),b.data(),ne,N,mp)!=e || !near_(lv::cdist<N>(fa.data(),fb.data(),ne,mp),fe,1e-4L) || !near_(lv::cdist(fa.data(),fb.data(),ne,N,mp),fe,1e-4L)) violation("masked-cdist",fmt("channels %zu elements %zu pattern %zu mask %d",N,ne,pat,mk));
    }
}
static void dist() {
    std::vector<uint8_t> u8; std::vector<int8_t> s8; for(int i=0;i<256;++i) {u8.push_back(uint8_t(i)); s8.push_back(int8_t(i-128));}
    scalars(u8,"uint8"); scalars(s8,"int8");
    std::vector<uint16_t> u16; std::vector<int16_t> s16; for(int b=0;b<=16;++b) for(int d=-2;d<=2;++d) {int v=(1<<b)+d; if(v>=0 && v<=65535) {u16.push_back(uint16_t(v)); s16.push_back(int16_t(v));}} scalars(u16,"uint16"); scalars(s16,"int16");
    std::vector<int32_t> s32; std::vector<uint32_t> u32; for(int b=0;b<=32;++b) for(int d=-2;d<=2;++d) {int64_t v=(int64_t(1)<<b)+d; u32.push_back((uint32_t)v); s32.push_back((int32_t)v);} scalars(s32,"int32"); scalars(u32,"uint32");
    std::vector<float> f; for(float v : {0.f,1e-3f,0.5f,1.f,3.25f,127.5f,255.f,1e4f}) {f.push_back(v); f.push_back(-v);} scalars(f,"float"); std::vector<double> dv(f.begin(),f.end()); scalars(dv,"double");
    std::vector<uint8_t> all; for(int i=0;i<256;i+=(ctx().thorough?5:15)) all.push_back(uint8_t(i));
    arrays<uint8_t,1>(u8,"uint8"); arrays<uint8_t,2>(all,"uint8"); arrays<uint8_t,3>(ctx().thorough?std::vector<uint8_t>{0,1,30,60,86,120,148,200,255}:std::vector<uint8_t>{0,1,60,86,120,148,255},"uint8"); arrays<uint8_t,4>(ctx().thorough?std::vector<uint8_t>{0,64,86,200,255}:std::vector<uint8_t>{0,64,86,255},"uint8");
    arrays<int8_t,1>(s8,"int8"); arrays<int8_t,2>({-128,-127,-1,0,1,64,127},"int8"); arrays<int8_t,3>({-128,-1,0,100,127},"int8"); arrays<int8_t,4>({-128,0,127},"int8");
    arrays<uint16_t,1>({0,1,255,256,32767,32768,65535},"uint16"); arrays<uint16_t,2>({0,1,255,256,32768,65535},"uint16"); arrays<uint16_t,3>({0,255,300,40000,65535},"uint16"); arrays<uint16_t,4>({0,300,65535},"uint16"); arrays<int16_t,3>({-32768,-1,0,256,32767},"int16");
    arrays<int32_t,3>({-2000000,-1,0,70000},"int32"); arrays<int32_t,4>({-70000,0,2000000},"int32");
    arrays<float,1>(f,"float"); arrays<float,2>({0.f,0.5f,3.25f,255.f,100.f},"float"); arrays<float,3>({0.f,0.5f,3.25f,255.f,100.f},"float"); arrays<float,4>({0.f,1.5f,90.f},"float"); arrays<double,3>({0.0,-2.5,3.25,255.0},"double");
    masked<uint8_t,1>(all,"uint8"); masked<uint8_t,2>(all,"uint8"); masked<uint8_t,3>({0,255,86,148},"uint8"); masked<uint8_t,4>({0,255,86,148},"uint8"); masked<float,1>(f,"float"); masked<float,2>(f,"float"); masked<float,3>(f,"float"); masked<float,4>(f,"float"); masked<int16_t,3>(s16,"int16");
    masked_cd<2>(); masked_cd<3>(); masked_cd<4>();
}
static int naivepop(uint64_t v) {int n=0; for(int i=0;i<64;++i) n+=int((v>>i)&1); return n;}
template<typename T> static void bits(const std::vector<T>& vals, const char* tn) {
    typedef std::make_unsigned_t<T> U;
    for(T v : vals) {ctx().evals++; if((ctx().evals&1023)==0) mark("popcount %s %llx",tn,(unsigned long long)v); if((int)lv::popcount(v)!=naivepop((U)v)) violation(fmt("popcount:%s",tn),fmt("popcount(%llx)=%d",(unsigned long long)(U)v,(int)lv::popcount(v)));}
    size_t st=std::max(size_t(1),vals.size()/400);
    for(size_t i=0;i<vals.size();i+=st) for(size_t j=0;j<vals.size();j+=st) {
        T a=vals[i], b=vals[j]; ctx().evals++; ctx().nontriv++; int h=naivepop(U(a^b)), g=std::abs(naivepop((U)a)-naivepop((U)b));
        if((int)lv::hdist(a,b)!=h) violation(fmt("hdist:%s",tn),fmt("hdist(%llx,%llx)=%d",(unsigned long long)(U)a,(unsigned long long)(U)b,(int)lv::hdist(a,b)));
        if((int)lv::gdist(a,b)!=g) violation(fmt("gdist:%s",tn),fmt("gdist(%llx,%llx)=%d",(unsigned long long)(U)a,(unsigned long long)(U)b,(int)lv::gdist(a,b)));
        if(i<st*24 && j<st*24) for(size_t k=0;k<vals.size();k+=st*20) {
            T c=vals[k]; std::array<T,3> x{{a,b,c}}, y{{c,a,b}}; int hh=naivepop(U(a^c))+naivepop(U(b^a))+naivepop(U(c^b)), p=naivepop((U)a)+naivepop((U)b)+naivepop((U)c);
            ctx().evals++;
            if((int)lv::popcount<3>(x.data())!=p || (int)lv::popcount(x)!=p) violation(fmt("popcount3:%s",tn),"three-word population count");
            if((int)lv::hdist<3>(x.data(),y.data())!=hh || (int)lv::hdist(x,y)!=hh || (int)lv::hdist(x,y.data())!=hh || (int)lv::hdist(x.data(),y)!=hh) violation(fmt("hdist3:%s",tn),"three-word hamming distance");
            std::array<T,2> u{{a,b}}, w{{c,c}}; int g2=std::abs(naivepop((U)a)+naivepop((U)b)-2*naivepop((U)c)); if((int)lv::gdist<2>(u.data(),w.data())!=g2 || (int)lv::gdist(u,w)!=g2 || (int)lv::gdist(u,w.data())!=g2 || (int)lv::gdist(u.data(),w)!=g2) violation(fmt("gdist2:%s",tn),"two-word gradient distance");
        }
    }
}
template<typename T, size_t N> static void widebits(const char* tn) {
    typedef std::make_unsigned_t<T> U; for(int pat=0;pat<300;++pat) {std::array<T,N> x,y; uint64_t s=(uint64_t)pat*7919+1; int h=0,px=0,py=0; for(size_t i=0;i<N;++i) {s^=s<<13; s^=s>>7; s^=s<<17; x[i]=pat<4?(T)(pat&1?~(U)0:0):(T)s; y[i]=pat<4?(T)(pat&2?~(U)0:0):pat%3?(T)(s>>9):(T)(x[i]^((U)1<<(i%(sizeof(T)*8)))); h+=naivepop((U)(x[i]^y[i])); px+=naivepop((U)x[i]); py+=naivepop((U)y[i]);} ctx().evals++; ctx().nontriv++; mark("wide descriptors %s x%zu pattern %d",tn,N,pat);
        if((int)lv::popcount<N>(x.data())!=px || (int)lv::popcount(x)!=px) violation(fmt("popcountN:%s",tn),fmt("%zu words, pattern %d",N,pat)); if((int)lv::hdist<N>(x.data(),y.data())!=h || (int)lv::hdist(x,y)!=h || (int)lv::hdist(x,y.data())!=h || (int)lv::hdist(x.data(),y)!=h) violation(fmt("hdistN:%s",tn),fmt("%zu words, pattern %d: %d, expected %d",N,pat,(int)lv::hdist(x,y),h)); if((int)lv::gdist<N>(x.data(),y.data())!=std::abs(px-py) || (int)lv::gdist(x,y)!=std::abs(px-py)) violation(fmt("gdistN:%s",tn),fmt("%zu words, pattern %d",N,pat));}
}
template<typename T> static void widebits_all(const char* tn) {widebits<T,1>(tn); widebits<T,4>(tn); widebits<T,5>(tn); widebits<T,8>(tn); widebits<T,16>(tn); widebits<T,33>(tn);}
static void bitdist() {
    widebits_all<uint8_t>("uint8"); widebits_all<uint16_t>("uint16"); widebits_all<uint32_t>("uint32"); widebits_all<uint64_t>("uint64"); widebits_all<int32_t>("int32");
    std::vector<uint8_t> a; std::vector<int8_t> b; std::vector<uint16_t> c; std::vector<int16_t> c2; for(int i=0;i<256;++i) {a.push_back(uint8_t(i)); b.push_back(int8_t(i));} for(int i=0;i<65536;++i) {c.push_back(uint16_t(i)); c2.push_back(int16_t(i));}
    std::vector<uint32_t> d; std::vector<uint64_t> e; for(int i=0;i<32;++i) for(int j=i;j<32;++j) for(int k=j;k<32;++k) {uint32_t v=(1u<<i)|(1u<<j)|(1u<<k); d.push_back(v); d.push_back(~v);} d.push_back(0); d.push_back(~0u);
    for(int i=0;i<64;++i) for(int j=i;j<64;++j) {uint64_t v=(1ull<<i)|(1ull<<j); e.push_back(v); e.push_back(~v); e.push_back(v*0x0101010101010101ull);} e.push_back(0); e.push_back(~0ull);
    bits(a,"uint8"); bits(b,"int8"); bits(c,"uint16"); bits(c2,"int16"); bits(d,"uint32"); bits(e,"uint64"); std::vector<int32_t> d2(d.begin(),d.end()); bits(d2,"int32");
    sample("population counts: all 8- and 16-bit words, all 32/64-bit words with up to 3/2 set or cleared bits; Hamming and gradient distances of pairs and triples");
}
static void hist(size_t n, int mass, std::vector<int>& cur, std::vector<std::vector<int>>& out) {if(cur.size()==n-1) {cur.push_back(mass); out.push_back(cur); cur.pop_back(); return;} for(int k=0;k<=mass;++k) {cur.push_back(k); hist(n,mass-k,cur,out); cur.pop_back();}}
static double lemd(const std::vector<int>& a, const std::vector<int>& b) { // transport of sorted units
    std::vector<int> x,y; for(size_t i=0;i<a.size();++i) {x.insert(x.end(),a[i],(int)i); y.insert(y.end(),b[i],(int)i);} double s=0; for(size_t i=0;i<x.size();++i) s+=std::abs(x[i]-y[i]); return s;
}
static void emd() {
    for(size_t n=1;n<=5;++n) for(int M : {1,2,4}) {
        std::vector<std::vector<int>> H; std::vector<int> cur; hist(n,M,cur,H);
        for(auto& a : H) for(auto& b : H) {
            std::vector<double> x,y; std::vector<float> fx,fy; for(size_t i=0;i<n;++i) {x.push_back(a[i]/(double)M); y.push_back(b[i]/(double)M); fx.push_back(a[i]/(float)M); fy.push_back(b[i]/(float)M);}
            double e=lemd(a,b)/M, ce=1e9; for(size_t r=0;r<n;++r) {auto ra=a, rb=b; std::rotate(ra.begin(),ra.begin()+r,ra.end()); std::rotate(rb.begin(),rb.begin()+r,rb.end()); ce=std::min(ce,lemd(ra,rb)/M);}
            ctx().evals++; ctx().nontriv++; mark("emd bins %zu mass %d",n,M);
            if(!near_(lv::EMDL1dist(x,y),e) || !near_(lv::EMDL1dist(fx,fy),e)) violation("emd",fmt("%zu bins: earth mover's distance %g, expected %g",n,lv::EMDL1dist(x,y),e));
            if(!near_(lv::CEMDL1dist(x,y),ce) || !near_(lv::CEMDL1dist(fx,fy),ce)) violation("cemd",fmt("%zu bins: circular earth mover's distance %g, expected %g",n,lv::CEMDL1dist(x,y),ce));
        }
    }
    for(size_t n : {(size_t)8,(size_t)16,(size_t)24,(size_t)33,(size_t)36,(size_t)100}) for(int M : {1,3,20,64}) for(int p=0;p<40;++p) {mark("emd bins %zu mass %d pattern %d",n,M,p); std::vector<int> a(n,0),b(n,0); uint64_t s=(uint64_t)p*977+n; for(int i=0;i<M;++i) {s=s*6364136223846793005ull+1442695040888963407ull; a[(s>>33)%(p%3==1?std::min(n,(size_t)4):n)]++; s=s*6364136223846793005ull+1442695040888963407ull; b[(p%3==2?n-1-(s>>33)%3:(s>>33)%n)]++;} std::vector<double> x,y; std::vector<float> fx,fy; for(size_t i=0;i<n;++i) {x.push_back(a[i]/(double)M); y.push_back(b[i]/(double)M); fx.push_back(a[i]/(float)M); fy.push_back(b[i]/(float)M);}
        double e=lemd(a,b)/M, ce=1e9; for(size_t r=0;r<n;++r) {auto ra=a, rb=b; std::rotate(ra.begin(),ra.begin()+r,ra.end()); std::rotate(rb.begin(),rb.begin()+r,rb.end()); ce=std::min(ce,lemd(ra,rb)/M);} ctx().evals++; ctx().nontriv++; if(!near_(lv::EMDL1dist(x,y),e) || !near_(lv::EMDL1dist(fx,fy),e,1e-4L)) violation("emd",fmt("%zu bins: earth mover's distance %g, expected %g",n,lv::EMDL1dist(x,y),e)); if(!near_(lv::CEMDL1dist(x,y),ce) || !near_(lv::CEMDL1dist(fx,fy),ce,1e-4L)) violation("cemd",fmt("%zu bins: circular earth mover's distance %g, expected %g",n,lv::CEMDL1dist(x,y),ce));}
    for(size_t n : {(size_t)8,(size_t)16,(size_t)17,(size_t)64,(size_t)128,(size_t)200}) for(int p=0;p<20;++p) {std::vector<float> v; double l1=0,l2=0; for(size_t i=0;i<n;++i) {v.push_back((float)((i*37+p*11)%23)-(p%2?9.f:0.f)); l1+=std::abs(v.back()); l2+=(double)v.back()*v.back();} ctx().evals++; mark("rootSIFT of length %zu",n); auto g=v; lv::rootSIFT<float,false,true>(g.data(),n); auto h=v; lv::rootSIFT<float,true,true>(h.data(),n); for(size_t i=0;i<n;++i) {double e=std::sqrt(std::abs(v[i])/l1)*(v[i]<0?-1:1); if(!near_(g[i],e,1e-5L) || !near_(h[i],e,1e-5L)) {violation("rootSIFT:long",fmt("length %zu pattern %d element %zu",n,p,i)); break;}} if(p%2==0) {auto k=v; lv::rootSIFT<float,true,false>(k.data(),n); for(size_t i=0;i<n;++i) if(!near_(k[i],h[i],1e-5L)) {violation("rootSIFT:long",fmt("length %zu pattern %d",n,p)); break;}} double e=(std::sqrt((double)n)-l1/std::sqrt(l2))/(std::sqrt((double)n)-1); if(!near_(lv::sparseness(v.data(),n),e,1e-5L)) violation("sparseness",fmt("length %zu pattern %d: %g, expected %g",n,p,lv::sparseness(v.data(),n),e));}
    sample("earth mover's distances: all pairs of histograms with up to 5 bins and 4 units, patterned ones up to 100 bins");
    // descriptor normalisation
    std::vector<float> vals={0.f,1.f,2.5f,-1.f,7.f}; for(int n=1;n<=4;++n) {int tot=1; for(int i=0;i<n;++i) tot*=5; for(int c=0;c<tot;++c) {
        std::vector<float> v; int x=c; bool neg=false; for(int i=0;i<n;++i) {v.push_back(vals[x%5]); neg|=vals[x%5]<0; x/=5;} double l1=0; for(float q : v) l1+=std::abs(q); ctx().evals++; ctx().nontriv++; mark("rootSIFT %d of length %d",c,n);
        auto chk=[&](std::vector<float> g, bool l2, const char* w){double nn=0; std::vector<double> e; for(float q : v) {double s=l1>0?std::sqrt(std::abs(q)/l1):0; if(q<0) s=-s; e.push_back(s); nn+=s*s;} for(int i=0;i<n;++i) {double s=e[i]; if(l2 && nn>0) s/=std::sqrt(nn); if(!near_(g[i],s,1e-5L)) violation(fmt("rootSIFT:%s",w),fmt("vector %d of length %d: element %d is %g, expected %g",c,n,i,g[i],s));}};
        if(!neg) {auto g=v; lv::rootSIFT<float,false,false>(g.data(),g.size()); chk(g,false,"plain"); g=v; lv::rootSIFT<float,true,false>(g.data(),g.size()); chk(g,true,"l2");}
        auto g=v; lv::rootSIFT<float,false,true>(g.data(),g.size()); chk(g,false,"neg"); g=v; lv::rootSIFT<float,true,true>(g.data(),g.size()); chk(g,true,"neg-l2");
        if(n>1 && l1>0) {double l2=0; for(float q : v) l2+=(double)q*q; double e=(std::sqrt((double)n)-l1/std::sqrt(l2))/(std::sqrt((double)n)-1); if(!near_(lv::sparseness(v.data(),v.size()),e,1e-6L)) violation("sparseness",fmt("vector %d of length %d: %g, expected %g",c,n,lv::sparseness(v.data(),v.size()),e));}
    }}
}
template<size_t N> static ld leib(const double* m) { // exact expansion
    int p[N]; for(size_t i=0;i<N;++i) p[i]=(int)i; ld s=0; do {int inv=0; for(size_t i=0;i<N;++i) for(size_t j=i+1;j<N;++j) inv+=p[i]>p[j]; ld t=inv%2?-1:1; for(size_t i=0;i<N;++i) t*=m[i*N+p[i]]; s+=t;} while(std::next_permutation(p,p+N)); return s;
}
template<size_t N> static void matrix(const double* m, uint64_t id) {
    ctx().evals++; ctx().nontriv++; if((ctx().evals&255)==0) mark("matrix %zux%zu #%llu",N,N,(unsigned long long)id);
    ld d=leib<N>(m); double g=lv::determinant<N,double>(m); if(std::abs(g-d)>1e-9*(1+std::abs(d))) violation(fmt("determinant%zu",N),fmt("matrix #%llu: %g, expected %Lg",(unsigned long long)id,g,d));
    double inv[N*N], keep[N*N]; std::copy_n(m,N*N,keep); bool ok=lv::invert<N,double>(m,inv); if(ok!=(d!=0)) {violation(fmt("invert%zu-singular",N),fmt("matrix #%llu with determinant %Lg: invert says %d",(unsigned long long)id,d,(int)ok)); return;}
    for(size_t i=0;i<N*N;++i) if(keep[i]!=m[i]) violation(fmt("invert%zu-input",N),"the input matrix was modified");
    if(ok) {double w=0; for(size_t i=0;i<N;++i) for(size_t j=0;j<N;++j) {double s=0; for(size_t k=0;k<N;++k) s+=m[i*N+k]*inv[k*N+j]; w=std::max(w,std::abs(s-(i==j)));} if(w>1e-8) violation(fmt("invert%zu",N),fmt("matrix #%llu: product with its inverse is off by %g",(unsigned long long)id,w));
        cv::Matx<double,(int)N,(int)N> x,y; std::copy_n(m,N*N,x.val); if(!lv::invert<N,double>(x.val,y.val) || std::abs(y.val[N*N-1]-inv[N*N-1])>1e-12) violation("invert-matx","Matx inverse differs");
        float fm[N*N], fi[N*N]; for(size_t i=0;i<N*N;++i) fm[i]=(float)m[i]; bool fok=lv::invert<N,float>(fm,fi); double fd=lv::determinant<N,float>(fm); if(!fok || std::abs(fd-d)>1e-3*(1+std::abs(d))) violation(fmt("invert%zu-float",N),fmt("matrix #%llu: determinant %g, expected %Lg",(unsigned long long)id,fd,d));
        for(size_t i=0;i<N*N;++i) if(std::abs(fi[i]-inv[i])>1e-3*(1+std::abs(inv[i]))) {violation(fmt("invert%zu-float",N),fmt("matrix #%llu",(unsigned long long)id)); break;}
        // LU solves A x = B
        double A[N*N], B[N*2], B0[N*2]; std::copy_n(m,N*N,A); for(size_t i=0;i<N*2;++i) B0[i]=B[i]=double((i*5+id)%7)-3; int s=lv::LU(A,N*sizeof(double),(int)N,B,2*sizeof(double),2); if(s!=1 && s!=-1) violation("LU-sign",fmt("permutation sign %d",s));
        for(size_t i=0;i<N;++i) for(int j=0;j<2;++j) {double t=0; for(size_t k=0;k<N;++k) t+=m[i*N+k]*B[k*2+j]; if(std::abs(t-B0[i*2+j])>1e-8) {violation("LU-solve",fmt("%zux%zu matrix #%llu",N,N,(unsigned long long)id)); break;}}
    }
}
template<size_t N> static void matrices(const std::vector<double>& vals) {
    double m[N*N]; uint64_t tot=1; for(size_t i=0;i<N*N;++i) tot*=vals.size();
    for(uint64_t c=0;c<tot;++c) {uint64_t x=c; for(size_t i=0;i<N*N;++i) {m[i]=vals[x%vals.size()]; x/=vals.size();} matrix<N>(m,c); if((c&1023)==0 && out_of_time()) return;}
    sample(fmt("all %llu %zux%zu matrices over %zu values: determinant, inverse, linear solve",(unsigned long long)tot,N,N,vals.size()));
}
template<size_t K, size_t D> static void gmm_one(const std::vector<std::pair<size_t,std::array<double,D>>>& S, const std::vector<std::array<double,D>>& probes) {
    static std::unique_ptr<lv::GMM<K,D>> g(new lv::GMM<K,D>()); // re-used: learning must forget the previous model
    g->initLearning(); for(auto& s : S) g->addSample(s.first,s.second); g->endLearning(); ctx().evals++; ctx().nontriv++;
    double cov[K][D*D], mean[K][D], w[K], det[K];
    for(size_t k=0;k<K;++k) {
        size_t n=0; for(size_t d=0;d<D;++d) mean[k][d]=0; for(auto& s : S) if(s.first==k) {++n; for(size_t d=0;d<D;++d) mean[k][d]+=s.second[d];} w[k]=(double)n/S.size();
        if(std::abs(g->getComponentWeight(k)-w[k])>1e-12) violation("gmm-weight",fmt("component %zu: weight %g, expected %g",k,g->getComponentWeight(k),w[k]));
        if(!n) continue;
        for(size_t d=0;d<D;++d) {mean[k][d]/=n; if(std::abs(g->getComponentMean(k)[d]-mean[k][d])>1e-9) violation("gmm-mean",fmt("component %zu",k));}
        for(size_t d=0;d<D;++d) for(size_t e=0;e<D;++e) {double c=0; for(auto& s : S) if(s.first==k) c+=(s.second[d]-mean[k][d])*(s.second[e]-mean[k][e]); cov[k][d*D+e]=c/n;}
        if(std::abs(leib<D>(cov[k]))<1e-6) for(size_t d=0;d<D;++d) cov[k][d*D+d]+=0.01;
        det[k]=(double)leib<D>(cov[k]);
        for(size_t d=0;d<D*D;++d) if(std::abs(g->getComponentCovMat(k)[d]-cov[k][d])>1e-9) violation("gmm-cov",fmt("component %zu entry %zu: %g, expected %g",k,d,g->getComponentCovMat(k)[d],cov[k][d]));
    }
    for(auto& p : probes) {
        double tot=0; double best=-1; double pk[K];
        for(size_t k=0;k<K;++k) {
            pk[k]=0; if(w[k]>0) {double inv[D*D]; // adjugate-free inverse through Cramer's rule
                for(size_t i=0;i<D;++i) {for(size_t j=0;j<D;++j) {double t[D*D]; std::copy_n(cov[k],D*D,t); for(size_t r=0;r<D;++r) t[r*D+i]=(r==j); inv[i*D+j]=(double)leib<D>(t)/det[k];}}
                double q=0; for(size_t i=0;i<D;++i) for(size_t j=0;j<D;++j) q+=(p[i]-mean[k][i])*inv[i*D+j]*(p[j]-mean[k][j]);
                pk[k]=std::exp(-0.5*q)/std::sqrt(std::pow(2*M_PI,(double)D)*det[k]);}
            double got=(*g)(k,p); if(std::abs(got-pk[k])>1e-6*(1+pk[k])) violation("gmm-density",fmt("component %zu: %g, expected %g",k,got,pk[k]));
            tot+=w[k]*pk[k]; best=std::max(best,pk[k]);
        }
        if(std::abs((*g)(p)-tot)>1e-6*(1+tot)) violation("gmm-mixture",fmt("%g, expected %g",(*g)(p),tot));
        size_t b=g->getBestComponent(p); if(b>=K || pk[b]<best*(1-1e-6)) violation("gmm-best",fmt("component %zu",b));
    }
}
template<size_t K, size_t D> static void gmm(int maxlen, const std::vector<std::array<double,D>>& pts) {
    std::vector<std::pair<size_t,std::array<double,D>>> alpha; for(size_t k=0;k<K;++k) for(auto& p : pts) alpha.push_back({k,p});
    for(int len=1;len<=maxlen;++len) {std::vector<size_t> ix(len,0); while(true) {
        std::vector<std::pair<size_t,std::array<double,D>>> S; for(size_t i : ix) S.push_back(alpha[i]); if((ctx().evals&127)==0) mark("gmm components %zu dims %zu length %d",K,D,len); gmm_one<K,D>(S,pts); if((ctx().evals&255)==0 && out_of_time()) return;
        int k=len-1; while(k>=0 && ++ix[k]==alpha.size()) {ix[k]=0; --k;} if(k<0) break; for(int j=k+1;j<len;++j) ix[j]=ix[k]; // multisets
    }}
    sample(fmt("mixture models: all sample multisets up to size %d over %zu labelled points, %zu components, %zu dimensions",maxlen,alpha.size(),K,D));
}
static void numeric() {
    bool th=ctx().thorough;
    for(int i=1;i<65536;++i) {bool e=false; for(int b=0;b<16;++b) e|=i==(1<<b); if(lv::ispow2(i)!=e || lv::ispow2((uint16_t)i)!=e) violation("ispow2",fmt("%d",i)); ctx().evals++;}
    for(uint64_t v=0;v<(th?(1ull<<32):(1ull<<22));++v) {static uint64_t p=1; if(v==0) {if(lv::get_next_pow2(0)!=0) violation("next_pow2","0"); continue;} while(p<v) p<<=1; if(lv::get_next_pow2((uint32_t)v)!=(uint32_t)p) violation("next_pow2",fmt("%llu -> %u",(unsigned long long)v,lv::get_next_pow2((uint32_t)v)));} ctx().evals+=1<<22;
    for(int b=1;b<=31;++b) for(int d=-3;d<=3;++d) {if((1ll<<b)+d<=0) continue; uint64_t v=(1ull<<b)+d; uint64_t p=1; while(p<v) p<<=1; if(p<=0x80000000ull && lv::get_next_pow2((uint32_t)v)!=p) violation("next_pow2",fmt("%llu",(unsigned long long)v)); ctx().evals++;}
    // fast approximations: every exponent, mantissa grid
    for(uint32_t e=1;e<255;++e) for(uint32_t m=0;m<(1u<<23);m+=(th?0x1003:0x20003)) {
        uint32_t u=(e<<23)|m; float x; memcpy(&x,&u,4); ctx().evals++; ctx().nontriv++;
        if(lv::abs_fast(x)!=x || lv::abs_fast(-x)!=x || lv::abs_fast(-(double)x)!=(double)x || lv::abs_fast((double)x)!=(double)x) violation("abs_fast",fmt("%g",x));
        if(e>4 && e<250) {
            double r=lv::inv_fast(x)*(double)x; if(std::abs(r-1)>0.13) violation("inv_fast",fmt("%g: relative error %g",x,r-1));
            double s=lv::sqrt_fast(x)/std::sqrt((double)x); if(std::abs(s-1)>0.07) violation("sqrt_fast",fmt("%g: relative error %g",x,s-1));
            double i1=lv::invsqrt_fast<1>(x)*std::sqrt((double)x), i2=lv::invsqrt_fast<2>(x)*std::sqrt((double)x), i0=lv::invsqrt_fastest(x)*std::sqrt((double)x);
            if(std::abs(i0-1)>0.036 || std::abs(i1-1)>0.0019 || std::abs(i2-1)>1e-5) violation("invsqrt_fast",fmt("%g: relative errors %g %g %g",x,i0-1,i1-1,i2-1));
        }
    }
    if(!lv::isnan(std::nanf("")) || lv::isnan(1.0f) || lv::isnan(INFINITY)) violation("isnan","");
    // nearest neighbour, interpolation, linspace
    {std::vector<std::vector<int>> all; for(int len=0;len<=5;++len) {int n=1; for(int i=0;i<len;++i) n*=5; for(int c=0;c<n;++c) {std::vector<int> v; int x=c; for(int i=0;i<len;++i) {v.push_back(x%5*3-6); x/=5;} all.push_back(v);}}
     for(auto& v : all) for(int r=-8;r<=8;++r) {ctx().evals++; size_t e=size_t(-1); for(size_t i=0;i<v.size();++i) if(e==size_t(-1) || std::abs(v[i]-r)<std::abs(v[e]-r)) e=i; if(lv::find_nn_index(r,v,[](int a, int b){return std::abs(a-b);})!=e) violation("find_nn_index",fmt("request %d in a list of %zu",r,v.size()));}}
    for(int mask=1;mask<128;++mask) for(int pat=0;pat<27;++pat) {
        std::vector<double> X,Y; int q=pat; for(int b=0;b<7;++b) if(mask&(1<<b)) {X.push_back(b*1.5-2); Y.push_back((q%3)*2.0-1+b*b*0.25); q=q/3+pat;} 
        for(int k=0;k<=36;++k) {double x=-2+k*0.25; ctx().evals++; ctx().nontriv++; mark("interp1 mask %d pattern %d at %g",mask,pat,x);
            bool in=x>=X.front() && x<=X.back(); double e=0; if(in) {if(X.size()==1) e=Y[0]; for(size_t i=0;i+1<X.size();++i) if(x>=X[i] && x<=X[i+1]) e=Y[i]+(Y[i+1]-Y[i])*(x-X[i])/(X[i+1]-X[i]);}
            bool thr=false; std::vector<double> g; try {g=lv::interp1(X,Y,std::vector<double>{x});} catch(std::exception&) {thr=true;}
            if(thr==in) violation("interp1-domain",fmt("request %g with domain [%g,%g]",x,X.front(),X.back())); else if(in && (g.size()!=1 || !near_(g[0],e,1e-9L))) violation("interp1",fmt("%zu samples, request %g: %g, expected %g",X.size(),x,g[0],e));
        }
    }
    for(int a=-3;a<=3;++a) for(int b=-3;b<=5;++b) for(size_t n=0;n<=9;++n) for(int inc=0;inc<2;++inc) {
        auto v=lv::linspace((double)a,(double)b,n,inc!=0); ctx().evals++; bool ok=v.size()==n; for(size_t i=0;i<v.size()&&ok;++i) {double e=n==1?b:inc?a+(double)(b-a)*i/(n-1):a+(double)(b-a)*(i+1)/n; ok&=near_(v[i],e,1e-9L);} if(!ok) violation("linspace",fmt("linspace(%d,%d,%zu,%d)",a,b,n,inc));
    }
    for(size_t n : {(size_t)20,(size_t)100,(size_t)1000}) {std::vector<double> X,Y,q; for(size_t i=0;i<n;++i) {X.push_back(i*0.5+(i%7)*0.05); Y.push_back((double)((i*i*31)%97));} for(size_t i=0;i<3*n;++i) q.push_back(X.front()+(X.back()-X.front())*i/(3*n-1)); q.back()=X.back(); std::swap(q[3],q[2*n]); auto g=lv::interp1(X,Y,q); bool ok=g.size()==q.size(); for(size_t i=0;i<q.size() && ok;++i) {size_t k=0; while(k+2<n && q[i]>X[k+1]) ++k; ok=near_(g[i],Y[k]+(Y[k+1]-Y[k])*(q[i]-X[k])/(X[k+1]-X[k]),1e-7L);} ctx().evals++; if(!ok) violation("interp1",fmt("%zu samples",n)); auto v=lv::linspace(-3.0,7.5,n,true),w=lv::linspace(5.0,-6.0,n,false); ok=v.size()==n && w.size()==n; for(size_t i=0;i<n && ok;++i) ok=near_(v[i],-3+10.5*i/(n-1),1e-7L) && near_(w[i],5-11.0*(i+1)/n,1e-7L); if(!ok) violation("linspace",fmt("%zu values",n)); std::vector<int> L; for(size_t i=0;i<n;++i) L.push_back((int)((i*7919)%(3*n))); for(int r=-5;r<(int)(3*n)+5;r+=3) {size_t e=0; for(size_t i=0;i<n;++i) if(std::abs(L[i]-r)<std::abs(L[e]-r)) e=i; ctx().evals++; if(lv::find_nn_index(r,L,[](int a,int b){return std::abs(a-b);})!=e) {violation("find_nn_index",fmt("request %d in a list of %zu",r,n)); break;}}}
    // bit expansion
    for(int o=1;o<=8;++o) for(int x=o;x<=std::min(2*o,16);++x) {uint32_t prev=0; for(uint32_t v=0;v<(1u<<o);++v) {uint32_t g=lv::extend_bits(v,o,x); ctx().evals++; uint32_t mx=(1u<<x)-1; if((v==0 && g!=0) || (v==(1u<<o)-1 && g!=mx) || g>mx || (v && g<=prev) || std::abs((double)g-(double)v*mx/((1u<<o)-1))>(double)mx/((1u<<o)-1)) violation("extend_bits",fmt("%u from %d to %d bits: %u",v,o,x,g)); prev=g;}}
    for(uint32_t v=0;v<65536;++v) {ctx().evals++; auto ref=[&](int w, int n){uint64_t r=0; for(int i=0;i<n;++i) if((v>>i)&1) r|=1ull<<(i*w); return r;}; if(lv::expand_bits<4,uint32_t>(v)!=(uint32_t)ref(4,8) || lv::expand_bits<2,uint32_t>(v)!=(uint32_t)ref(2,16) || lv::expand_bits<4,uint64_t>(v)!=ref(4,16) || lv::expand_bits<3,uint32_t>(v)!=(uint32_t)ref(3,10) || lv::expand_bits<1,uint32_t>(v)!=v || lv::expand_bits<8,uint32_t>(v)!=(uint32_t)ref(8,4)) violation("expand_bits",fmt("%u",v));}
    // random numbers stay in range, and depend on the seed only
    for(int s=0;s<20000;++s) {int a=s*977-5000000,b=a; int x=lv::fastrand(a),y=lv::fastrand(b); ctx().evals++; if(x<0 || x>0x7FFF || x!=y || a!=b) violation("fastrand",fmt("seed %d: %d",s,x));}
    sample("powers of two, fast approximations over all exponents, interpolation over all 127 knot sets x 27 value patterns, linspace, bit expansion of all 16-bit words");
}
static void linalg() {
    for(int n : {5,8,13,24}) for(int p=0;p<20;++p) {mark("LU %d pattern %d",n,p); std::vector<double> A((size_t)(n*n)),A0,B((size_t)n*3),B0; uint64_t s=(uint64_t)p*77+n; for(auto* v : {&A,&B}) for(auto& x : *v) {s=s*6364136223846793005ull+1442695040888963407ull; x=(double)((s>>40)%19)-9;} for(int i=0;i<n;++i) A[(size_t)(i*n+(i+p)%n)]+=30; A0=A; B0=B; int r=lv::LU(A.data(),n*sizeof(double),n,B.data(),3*sizeof(double),3); ctx().evals++; bool ok=r==1 || r==-1; for(int i=0;i<n && ok;++i) for(int j=0;j<3;++j) {double t=0; for(int k=0;k<n;++k) t+=A0[(size_t)(i*n+k)]*B[(size_t)(k*3+j)]; ok&=std::abs(t-B0[(size_t)(i*3+j)])<1e-7;} if(!ok) violation("LU-solve",fmt("%dx%d system, pattern %d",n,n,p));}
    {std::vector<std::pair<size_t,std::array<double,3>>> S; std::vector<std::array<double,3>> pr; for(int i=0;i<2000;++i) {std::array<double,3> q{{(double)((i*37)%256),(double)((i*i*7)%256),(double)((i*91+i/3)%256)}}; S.push_back({(size_t)(i*i%5),q}); if(i%100==0) pr.push_back(q);} mark("gmm of 2000 samples"); gmm_one<5,3>(S,pr);}
    bool th=ctx().thorough;
    matrices<1>({-2,-1,0,0.5,3}); matrices<2>({-2,-1,0,1,0.5,3,7}); matrices<3>({-1,0,2}); matrices<4>({0,1}); if(th) {matrices<3>({-2,-1,0,1,3}); matrices<4>({-1,0.0,3});}
    // 4x4 permutation/triangular structures with other values
    {double m[16]; for(uint64_t c=0;c<20000;++c) {uint64_t x=c*2654435761u+12345; for(int i=0;i<16;++i) {x^=x<<13; x^=x>>7; x^=x<<17; m[i]=double(int(x%7))-3;} matrix<4>(m,1000000+c);} double q[25]; for(uint64_t c=0;c<4000;++c) {uint64_t x=c*88172645463325252ull+7; for(int i=0;i<25;++i) {x^=x<<13; x^=x>>7; x^=x<<17; q[i]=double(int(x%7))-3;} if(std::abs(leib<5>(q))>0.5) matrix<5>(q,2000000+c);}}
    gmm<2,1>(th?6:4,{{{0}},{{1}},{{2.5}},{{-3}}}); gmm<2,2>(th?5:4,{{{0,0}},{{1,0}},{{0,2}},{{3,-1}}}); gmm<3,3>(th?5:4,{{{0,0,0}},{{1,0,0.5}},{{0,2,1}},{{3,-1,2}}}); gmm<5,3>(th?4:3,{{{0,0,0}},{{2,1,0.25}},{{1,-1.5,3}}}); gmm<1,2>(6,{{{0,0}},{{1,0}},{{0,2}},{{3,-1}}});
}
static void simd() {
    alignas(16) uint8_t a[16], b[16], o[16]; const int bgs[]={0,1,127,128,254,255};
    auto L=[](const uint8_t* p){return _mm_load_si128((const __m128i*)p);};
    auto one=[&]{
        ctx().evals++; ctx().nontriv++; uint32_t s=0; int mn=255,mx=0; bool z=true; for(int i=0;i<16;++i) {s+=a[i]; mn=std::min(mn,(int)a[i]); mx=std::max(mx,(int)a[i]); z&=a[i]==0;}
        if(lv::hsum_8ui(L(a))!=s) violation("hsum_8ui",fmt("%u, expected %u",lv::hsum_8ui(L(a)),s)); if(lv::hmin_8ui(L(a))!=mn) violation("hmin_8ui",fmt("%d, expected %d",lv::hmin_8ui(L(a)),mn)); if(lv::hmax_8ui(L(a))!=mx) violation("hmax_8ui",fmt("%d, expected %d",lv::hmax_8ui(L(a)),mx)); if(lv::cmp_zero_128i(L(a))!=z) violation("cmp_zero","");
        if(lv::cmp_eq_128i(L(a),L(b))!=(memcmp(a,b,16)==0) || !lv::cmp_eq_128i(L(a),L(a))) violation("cmp_eq","");
        uint16_t lo[8],hi[8]; __m128i l=lv::unpack_8ui_to_16ui<true>(L(a)), h=lv::unpack_8ui_to_16ui<false>(L(a)); memcpy(lo,&l,16); memcpy(hi,&h,16); for(int i=0;i<8;++i) if(lo[i]!=a[i] || hi[i]!=a[8+i]) violation("unpack_8ui_to_16ui",fmt("lane %d",i));
        _mm_store_si128((__m128i*)o,lv::mult_8i(L(a),L(b))); for(int i=0;i<16;++i) if(o[i]!=uint8_t(a[i]*b[i])) violation("mult_8i",fmt("lane %d: %d*%d=%d",i,a[i],b[i],o[i]));
    };
    for(int bg : bgs) for(int p=0;p<16;++p) for(int v=0;v<256;++v) for(int q=0;q<16;q+=(ctx().thorough?1:5)) for(int w : bgs) {memset(a,bg,16); a[q]=(uint8_t)w; a[p]=(uint8_t)v; memset(b,bg,16); b[(p+1)%16]=(uint8_t)w; if(v==0) mark("simd bytes bg %d lane %d",bg,p); one();}
    for(int x=0;x<256;++x) for(int y=0;y<256;++y) {for(int i=0;i<16;++i) {a[i]=uint8_t(i%2?x:y); b[i]=uint8_t(i%3?y:x);} one();}
    const int32_t W[]={0,1,-1,65535,65536,-65536,INT32_MAX,INT32_MIN,123456789,-7}; const int NW=10;
    for(int i=0;i<NW;++i) for(int j=0;j<NW;++j) for(int k=0;k<NW;++k) for(int l=0;l<NW;++l) {
        alignas(16) int32_t x[4]={W[i],W[j],W[k],W[l]}, y[4]={W[l],W[k],W[i],W[j]}, r[4]; __m128i X=_mm_load_si128((__m128i*)x), Y=_mm_load_si128((__m128i*)y); ctx().evals++; ctx().nontriv++;
        if((uint32_t)lv::hsum_32i(X)!=(uint32_t)x[0]+(uint32_t)x[1]+(uint32_t)x[2]+(uint32_t)x[3]) violation("hsum_32i",fmt("%d %d %d %d",x[0],x[1],x[2],x[3])); if(lv::hmax_32si(X)!=*std::max_element(x,x+4)) violation("hmax_32si",fmt("%d %d %d %d",x[0],x[1],x[2],x[3]));
        if(lv::extract_32si<0>(X)!=x[0] || lv::extract_32si<1>(X)!=x[1] || lv::extract_32si<2>(X)!=x[2] || lv::extract_32si<3>(X)!=x[3]) violation("extract_32si","");
        _mm_store_si128((__m128i*)r,lv::mult_32si(X,Y)); for(int q=0;q<4;++q) if((uint32_t)r[q]!=(uint32_t)x[q]*(uint32_t)y[q]) violation("mult_32si",fmt("%d*%d=%d",x[q],y[q],r[q]));
    }
    for(size_t n=0;n<6;++n) for(int v=0;v<256;++v) {alignas(16) uint8_t buf[16*7]; memset(buf,v+1,sizeof(buf)); lv::store_8ui((__m128i*)buf,n,(uint8_t)v); bool ok=true; for(size_t i=0;i<sizeof(buf);++i) ok&=buf[i]==uint8_t(i<16*n?v:v+1); memset(buf,v+1,sizeof(buf)); lv::store1_8ui((__m128i*)buf+1,(uint8_t)v); for(size_t i=0;i<sizeof(buf);++i) ok&=buf[i]==uint8_t(i/16==1?v:v+1); ctx().evals++; if(!ok) violation("store_8ui",fmt("%zu blocks of %d",n,v));}
    sample("byte vectors: 6 backgrounds x 16 lanes x 256 values x second lane; all byte pairs; all 10^4 word quadruples");
}
int main(int argc, char** argv) {
    init(argc,argv); lv::setVerbosity(0);
    if(is_part("dist")) dist();
    if(is_part("bitdist")) bitdist();
    if(is_part("emd")) emd();
    if(is_part("numeric")) numeric();
    if(is_part("linalg")) linalg();
    if(is_part("simd")) simd();
    return finish();
}
