// P06: AutoBuffer vs. a vector model, all operation sequences up to a depth over three buffers.
// P07: lookup tables, exhaustive over bin counts, safety margins, domains and lookup positions.
// P11: vector helpers vs. naive references, all small vectors.
#include "litiv/utils/cxx.hpp"
#include "../mc/report.hpp"
#include <memory>
#include <cmath>
using namespace vr;

static const int UNK=-999999; // value the buffer is free to choose
typedef std::vector<int> Model;

template<typename TBuf>
struct Sys { // one buffer with its model
    std::unique_ptr<TBuf> b{new TBuf()}; Model m;
};
static std::string g_hist;
template<typename TBuf>
static void sync_moved(TBuf& b, Model& m) { // moved-from: valid, otherwise unspecified
    m.assign(b.size(),UNK);
}
template<typename TBuf>
static bool compare(TBuf& b, Model& m, const char* nm) {
    const TBuf& cb=b; bool ok=true;
    auto bad=[&](const char* what){violation(std::string("autobuffer:")+what,fmt("buffer %s after%s: %s (size %zu, model size %zu, capacity %zu)",nm,g_hist.c_str(),what,b.size(),m.size(),b.capacity())); ok=false;};
    if(b.size()!=m.size()) {bad("wrong size"); return false;}
    if(b.empty()!=m.empty()) bad("wrong empty()");
    if(b.capacity()<b.size()) {bad("capacity below size"); return false;}
    if(size_t(b.end()-b.begin())!=m.size() || size_t(cb.end()-cb.begin())!=m.size()) bad("wrong iterator range");
    if(b.data()!=b.begin() || cb.data()!=cb.begin() || (typename TBuf::pointer)b!=b.data() || (typename TBuf::const_pointer)cb!=cb.data()) bad("inconsistent data pointer");
    if(!lv::isAligned<16>(b.data())) bad("misaligned");
    const char* self=(const char*)&b; bool inside=(const char*)b.data()>=self && (const char*)b.data()<self+sizeof(TBuf);
    if(b.is_static()!=inside) bad("wrong is_static()");
    if(b.is_static() && b.capacity()!=b.max_static_size()) bad("wrong static capacity");
    for(size_t i=0;i<m.size();++i) {
        if(m[i]==UNK) {b[i]=int(1000+i); m[i]=int(1000+i);} // write through: catches out-of-range storage
        if(b[i]!=m[i] || cb[(int)i]!=m[i] || b.at(i)!=m[i] || cb.at((short)i)!=m[i] || b.begin()[i]!=m[i]) {bad("wrong element"); break;}
    }
    static std::set<std::pair<const void*,size_t>> seen; static const char kinds[4]={0};
    if(!seen.insert({kinds+(b.is_static()?0:2)+(sizeof(TBuf)==sizeof(lv::AutoBuffer<int,2>)?0:1),m.size()*64+b.capacity()}).second) return ok;
    for(long k : {long(m.size()),long(m.size())+1,-1L,-2L,65536L,4294967296L}) {
        bool threw=false; try {volatile int v=cb.at(k); (void)v;} catch(...) {threw=true;}
        if(!threw) bad("at() accepted an index out of bounds");
        threw=false; if(k<0) {try {b.at((int)k)=1;} catch(...) {threw=true;} if(!threw) bad("at() accepted an index out of bounds");}
    }
    return ok;
}
typedef lv::AutoBuffer<int,2> B2; typedef lv::AutoBuffer<int,3> B3;
static const int NOPS1=13, NCROSS=8;
template<typename TBuf> static const char* op1(Sys<TBuf>& s, int op, int val) {
    TBuf& b=*s.b; Model& m=s.m;
    auto rs=[&](size_t n){size_t o=m.size(); m.resize(n,0); for(size_t i=o;i<n;++i) m[i]=UNK; b.resize(n);};
    switch(op) {
        case 0: b.push_back(val); m.push_back(val); return "push";
        case 1: {const int v=val; b.push_back(v); m.push_back(v); return "pushc";}
        case 2: if(m.empty()) return nullptr; b.push_back(b[0]); m.push_back(m[0]); return "push(self[0])";
        case 3: rs(0); return "resize0"; case 4: rs(1); return "resize1"; case 5: rs(3); return "resize3"; case 6: rs(5); return "resize5";
        case 7: b.reserve(4); if(b.capacity()<4) violation("autobuffer:reserve",fmt("reserve(4) left capacity %zu after%s",b.capacity(),g_hist.c_str())); return "reserve4";
        case 8: b.clear(); m.clear(); if(!b.is_static()) violation("autobuffer:clear",fmt("dynamic memory kept by clear() after%s",g_hist.c_str())); return "clear";
        case 9: {size_t o=m.size(); size_t S=b.max_static_size(); m.resize(S,0); for(size_t i=o;i<S;++i) m[i]=UNK; b.resize_static(); if(!b.is_static()) violation("autobuffer:resize_static",fmt("still dynamic after%s",g_hist.c_str())); return "resize_static";}
        case 10: {std::unique_ptr<TBuf> n(new TBuf(std::move(b))); sync_moved(b,m.empty()?m:*new Model(m)); std::unique_ptr<TBuf> old=std::move(s.b); s.b=std::move(n); for(size_t i=0;i<old->size();++i) (*old)[i]=-7; old->clear(); old.reset(); return "move-construct";}
        case 11: {TBuf t; t.push_back(1); t.push_back(2); t.push_back(3); t.push_back(4); t=std::move(b); for(size_t i=0;i<b.size();++i) b[i]=-8; b=std::move(t); return "move-roundtrip";}
        case 12: {TBuf* p=&b; b=std::move(*p); return "self-move";}
    }
    return nullptr;
}
template<typename A, typename C> static const char* cross(Sys<A>& a, Sys<C>& c, int op) {
    switch(op) {
        case 0: *c.b=*a.b; c.m=a.m; return "copy-assign";
        case 1: *c.b=std::move(*a.b); c.m=a.m; sync_moved(*a.b,a.m); return "move-assign";
        case 2: c.b.reset(new C(*a.b)); c.m=a.m; return "copy-construct";
        case 3: c.b.reset(new C(std::move(*a.b))); c.m=a.m; sync_moved(*a.b,a.m); return "move-construct";
    }
    return nullptr;
}
static const char* same(Sys<B2>& a, Sys<B2>& c, int op) {
    switch(op) {
        case 0: *c.b=std::move(*a.b); c.m=a.m; sync_moved(*a.b,a.m); return "move-assign-same";
        case 1: c.b.reset(new B2(std::move(*a.b))); c.m=a.m; sync_moved(*a.b,a.m); return "move-construct-same";
    }
    return nullptr;
}
// op space: 0..12 on a(B2); 13..25 on c(B3); 26..29 a->c; 30..33 c->a; 34..35 a->e(B2); 36..37 e->a
static const int NOPS=38;
static const char* apply(Sys<B2>& a, Sys<B3>& c, Sys<B2>& e, int op, int val, std::string& who) {
    if(op<13) {who="a."; return op1(a,op,val);}
    if(op<26) {who="c."; return op1(c,op-13,val);}
    if(op<30) {who="a->c "; return cross(a,c,op-26);}
    if(op<34) {who="c->a "; return cross(c,a,op-30);}
    if(op<36) {who="a->e "; return same(a,e,op-34);}
    who="e->a "; return same(e,a,op-36);
}
template<typename T, size_t S> static void bigbuf(const char* nm) {
    typedef lv::AutoBuffer<T,S> B; auto v=[](size_t i){return (T)((i*7+i/200*3+1)%251);}; auto ok=[&](B& b, size_t n){if(b.size()!=n || b.capacity()<n || !lv::isAligned<16>(b.data())) return false; const char* self=(const char*)&b; if(b.is_static()!=((const char*)b.data()>=self && (const char*)b.data()<self+sizeof(B))) return false; for(size_t i=0;i<n;++i) if(b[i]!=v(i) || b.at(i)!=v(i)) return false; return true;};
    std::unique_ptr<B> p(new B()); std::set<size_t> at={0,1,S/2,S-1,S,S+1,S+2,2*S-1,2*S,2*S+1,3*S+5,1000,1023,1024,1025,2500};
    for(size_t n=0;n<=2500;++n) {if(n) {p->push_back(v(n-1));} ctx().evals++; ctx().transitions++; if(!at.count(n)) continue; mark("buffer of %s, %zu elements",nm,n); if(!ok(*p,n)) {violation("autobuffer:long",fmt("buffer of %s after %zu insertions",nm,n)); return;}
        lv::AutoBuffer<T,S+7> via(*p); std::unique_ptr<B> c(new B(via)); if(!ok(*c,n)) violation("autobuffer:long-copy",fmt("%s, %zu elements",nm,n)); std::unique_ptr<B> d(new B(std::move(*c))); if(!ok(*d,n)) violation("autobuffer:long-move",fmt("%s, %zu elements",nm,n)); B e((size_t)7); e=std::move(*d); if(!ok(e,n)) violation("autobuffer:long-move",fmt("%s, %zu elements, assigned",nm,n)); lv::AutoBuffer<T,S+13> o; o=e; bool same=o.size()==n; for(size_t i=0;i<n && same;++i) same=o[i]==v(i); lv::AutoBuffer<T,3> q(o); same&=q.size()==n; for(size_t i=0;i<n && same;++i) same=q[i]==v(i); if(!same) violation("autobuffer:long-cross",fmt("%s, %zu elements",nm,n));
        for(size_t k : at) {lv::AutoBuffer<T,S+7> via2(*p); std::unique_ptr<B> r(new B(via2)); r->resize(k); bool g=r->size()==k && r->capacity()>=k; for(size_t i=0;i<std::min(k,n) && g;++i) g=(*r)[i]==v(i); for(size_t i=n;i<k && g;++i) (*r)[i]=v(i); g=g && ok(*r,k); r->reserve(k+n); g=g && ok(*r,k); if(!g) violation("autobuffer:long-resize",fmt("%s, from %zu to %zu elements",nm,n,k)); bool thr=false; try {r->at(k);} catch(...) {thr=true;} if(!thr) violation("autobuffer:long-bounds",fmt("%s, %zu elements",nm,k));}}
    sample(fmt("buffers of %s grown to 2500 elements, copied, moved and resized between 16 sizes",nm));
}
static void autobuffer() {
    int depth=ctx().thorough?5:4; std::vector<int> seq(depth,0); uint64_t n=0;
    while(true) {
        Sys<B2> a; Sys<B3> c; Sys<B2> e; g_hist.clear(); bool stop=false; int dead=-1;
        for(int d=0;d<depth && !stop;++d) {
            std::string who; size_t hl=g_hist.size(); g_hist+=fmt(" #%d",seq[d]); mark("autobuffer%s",g_hist.c_str());
            const char* nm=apply(a,c,e,seq[d],10*(d+1),who);
            if(!nm) {dead=d; break;}
            g_hist.resize(hl); g_hist+=" "+who+nm;
            ctx().transitions++;
            stop=!(compare(*a.b,a.m,"a") & compare(*c.b,c.m,"c") & compare(*e.b,e.m,"e"));
        }
        ++n; ctx().evals++; if(dead<0) ctx().nontriv++;
        if(n%50021==1) sample("autobuffer:"+g_hist);
        int d=dead>=0?dead:depth-1; for(int k=d+1;k<depth;++k) seq[k]=0;
        while(d>=0 && ++seq[d]==NOPS) seq[d--]=0;
        if(d<0) break;
        if((n&255)==0 && out_of_time()) break;
    }
    ctx().states+=n; ctx().traces+=n;
    // explicit-size constructor
    for(size_t n2=0;n2<8;++n2) {B2 b(n2); Model m(n2,UNK); g_hist=fmt(" B2(%zu)",n2); compare(b,m,"b"); lv::AutoBuffer<double,1,32> q(n2); VCHECK(q.size()==n2 && lv::isAligned<32>(q.data()),"autobuffer:ctor","size/alignment of AutoBuffer<double,1,32>(%zu)",n2);}
    // larger inline capacities and other element types: growth one by one, then shrinking, copying and moving at every size around the inline capacity
    bigbuf<uint8_t,100>("100 bytes"); bigbuf<double,16>("16 doubles"); bigbuf<uint16_t,33>("33 words"); bigbuf<float,1>("1 float"); bigbuf<int64_t,200>("200 long words"); bigbuf<uint8_t,1024>("1024 bytes");
    // aligned allocator
    for(size_t n2=1;n2<70;++n2) {
        lv::aligned_vector<uint8_t,32> v(n2); lv::aligned_vector<float,64> w(n2); lv::aligned_vector<double,4096> z(n2);
        for(size_t i=0;i<n2;++i) {v[i]=uint8_t(i); w[i]=float(i); z[i]=double(i);}
        VCHECK(lv::isAligned<32>(v.data()) && lv::isAligned<64>(w.data()) && lv::isAligned<4096>(z.data()),"aligned-vector:misaligned","n=%zu",n2);
        bool ok=true; for(size_t i=0;i<n2;++i) ok&=v[i]==uint8_t(i) && w[i]==float(i) && z[i]==double(i);
        VCHECK(ok,"aligned-vector:content","n=%zu",n2); ctx().evals++;
    }
}

template<size_t nBins, size_t nSafety, bool bStatic>
static void lut_one(double lo, double hi) {
    mark("lut bins %zu safety %zu static %d domain [%g,%g]",nBins,nSafety,(int)bStatic,lo,hi);
    typedef lv::LUT<double,double,nBins,nSafety,bStatic> L;
    const double mn=std::min(lo,hi), mx=std::max(lo,hi), step=(mx-mn)/(nBins-1), eps=1e-9*std::max(1.0,std::max(std::abs(mn),std::abs(mx)));
    auto f=[](double x){return 3*x+1;}; auto finv=[](double y){return (y-1)/3;};
    std::unique_ptr<L> p(new L(lo,hi,f));
    for(int pass=0;pass<4;++pass) {
        if(pass==1) {std::unique_ptr<L> q(new L(std::move(*p))); p=std::move(q);} // moved
        if(pass==2) {std::unique_ptr<L> q(new L()); if(q->initialized()) violation("lut:initialized","default-constructed table claims to be initialised"); *q=std::move(*p); p=std::move(q);}
        if(pass==3) {p.reset(new L(5,6,f)); p->init(lo,hi,f);}
        const L& l=*p; auto tag=fmt("bins %zu, safety %zu, domain [%g,%g], pass %d",nBins,nSafety,lo,hi,pass);
        VCHECK(l.initialized() && l.size()==nBins+2*nSafety,"lut:size","%s: size %zu",tag.c_str(),l.size());
        VCHECK(l.domain_min()==mn && l.domain_max()==mx && l.domain_offset_low()==mn && std::abs(l.domain_offset_mid()-(mn+mx)/2)<eps,"lut:domain","%s",tag.c_str());
        VCHECK(std::abs(l.domain_index_step()-step)<eps && std::abs(l.domain_index_scale()*step-1)<1e-9,"lut:scale","%s",tag.c_str());
        VCHECK(l.data_low()==l.data_raw()+nSafety && l.data_mid()==l.data_raw()+nSafety+nBins/2,"lut:pointers","%s",tag.c_str());
        // raw entries
        for(ptrdiff_t k=-ptrdiff_t(nSafety);k<ptrdiff_t(nBins+nSafety);++k) {
            double x=k<=0?mn:k>=ptrdiff_t(nBins)-1?mx:mn+k*step;
            VCHECK(std::abs(finv(l.eval_raw(k))-x)<=eps,"lut:entry","%s: entry %td holds f(%g), expected f(%g)",tag.c_str(),k,finv(l.eval_raw(k)),x);
            VCHECK(std::abs(finv(l.eval_mid_raw(k-ptrdiff_t(nBins/2)))-x)<=eps,"lut:mid-entry","%s: entry %td",tag.c_str(),k);
            ctx().evals++;
        }
        // lookups at every eighth of a bin, over the domain and the safety margin
        for(int k=-int(nSafety)*8;k<=int(nBins-1+nSafety)*8;++k) {
            double x=mn+k*step/8; ctx().evals++; ctx().nontriv++;
            double r=finv(l.eval_round(x)), t=finv(l.eval(k%8==0?x+step*1e-7:x)); double cx=std::min(std::max(x,mn),mx);
            VCHECK(std::abs(r-cx)<=step/2+eps,"lut:eval_round","%s: lookup of %g returned f(%g)",tag.c_str(),x,r);
            if(k>=0) VCHECK(t<=cx+eps && t>cx-step-eps,"lut:eval","%s: lookup of %g returned f(%g)",tag.c_str(),x,t);
            else VCHECK(std::abs(t-mn)<=eps,"lut:eval","%s: lookup of %g below the domain returned f(%g)",tag.c_str(),x,t);
            if(nBins%2==1) {
                double mr=finv(l.eval_mid_round(x)); VCHECK(std::abs(mr-cx)<=step/2+eps,"lut:eval_mid_round","%s: lookup of %g returned f(%g)",tag.c_str(),x,mr);
                double mt=finv(l.eval_mid(x)); VCHECK(std::abs(mt-cx)<=step+eps,"lut:eval_mid","%s: lookup of %g returned f(%g)",tag.c_str(),x,mt);
                if(mn==-mx) {double q=finv(l.eval_mid_noffset(x)), qr=finv(l.eval_mid_noffset_round(x)); VCHECK(std::abs(q-cx)<=step+eps && std::abs(qr-cx)<=step/2+eps,"lut:eval_mid_noffset","%s: lookup of %g",tag.c_str(),x);}
            }
            if(mn==0) {double q=finv(l.eval_noffset(k%8==0?x+step*1e-7:x)), qr=finv(l.eval_noffset_round(x)); VCHECK(std::abs(q-cx)<=step+eps && std::abs(qr-cx)<=step/2+eps,"lut:eval_noffset","%s: lookup of %g",tag.c_str(),x);}
        }
    }
}
template<size_t nBins, size_t nSafety> static void lut_domains() {
    const double D[][2]={{0,1},{-1,1},{0,7},{3,-2},{-5,-1},{-4,4},{100,200}};
    for(auto& d : D) {lut_one<nBins,nSafety,true>(d[0],d[1]); lut_one<nBins,nSafety,false>(d[0],d[1]);}
    // integer domain with one bin per value: exact
    const int lo=-int(nBins)/2; lv::LUT<int,int,nBins,nSafety> l(lo,lo+int(nBins)-1,[](int x){return x*x+x;});
    for(int x=lo;x<lo+int(nBins);++x) VCHECK(l.eval_round(x)==x*x+x,"lut:int","bins %zu: lookup of %d returned %d",nBins,x,l.eval_round(x));
    sample(fmt("lut: bins %zu, safety %zu, 7 domains, static and dynamic storage, moved and re-initialised",nBins,nSafety));
}
template<size_t nBins> static void lut_bins() {lut_domains<nBins,0>(); lut_domains<nBins,1>(); lut_domains<nBins,3>();}
static void luts() {
    lut_bins<2>(); lut_bins<3>(); lut_bins<4>(); lut_bins<5>(); lut_bins<8>(); lut_bins<17>(); lut_bins<64>(); lut_bins<255>(); lut_domains<1024,2>(); lut_domains<4097,0>();
    try {lv::LUT<float,float,4> l(2.0f,2.0f,[](float x){return x;}); violation("lut:empty-domain","an empty domain is accepted");} catch(...) {}
    ctx().states+=ctx().evals; ctx().traces+=ctx().evals;
}

static void vec_helpers() {
    const int maxlen=ctx().thorough?6:5;
    std::vector<std::vector<int>> all; // all vectors over {0,1,2} up to maxlen
    for(int len=0;len<=maxlen;++len) {int n=1; for(int i=0;i<len;++i) n*=3; for(int c=0;c<n;++c) {std::vector<int> v; int x=c; for(int i=0;i<len;++i) {v.push_back(x%3); x/=3;} all.push_back(v);}}
    auto str=[](const std::vector<int>& v){std::string s="["; for(int x : v) s+=std::to_string(x); return s+"]";};
    auto uniq=[&](const std::vector<int>& v, const char* k) {
        // indices: one per distinct value, in ascending order of value, each the first occurrence
        std::vector<size_t> exp; std::set<int> vals(v.begin(),v.end());
        for(int x : vals) exp.push_back(size_t(std::find(v.begin(),v.end(),x)-v.begin()));
        auto got=lv::unique_indices(v); ctx().evals++;
        VCHECK(got==exp,k,"unique_indices(%s): not the first occurrence of each value",str(v).c_str());
        auto got2=lv::unique_indices(v,[&](size_t a, size_t b){return v[a]<v[b];},[&](size_t a, size_t b){return v[a]==v[b];});
        VCHECK(got2==exp,k,"unique_indices(%s) with functors: not the first occurrence of each value",str(v).c_str());
    };
    for(auto& v : all) {
        mark("vector helpers %s",str(v).c_str());
        uniq(v,"unique_indices");
        auto si=lv::sort_indices(v); std::vector<size_t> p=si; std::sort(p.begin(),p.end()); bool perm=p.size()==v.size(); for(size_t i=0;i<p.size();++i) perm&=p[i]==i;
        bool asc=true; for(size_t i=1;i<si.size();++i) asc&=v[si[i-1]]<=v[si[i]];
        VCHECK(perm && asc,"sort_indices","sort_indices(%s) is not a sorting permutation",str(v).c_str());
        auto sd=lv::sort_indices(v,[&](size_t a, size_t b){return v[a]>v[b];}); bool desc=sd.size()==v.size(); for(size_t i=1;i<sd.size();++i) desc&=v[sd[i-1]]>=v[sd[i]];
        VCHECK(desc,"sort_indices","sort_indices(%s,descending)",str(v).c_str());
        std::set<int> st(v.begin(),v.end()); VCHECK(lv::unique(v.begin(),v.end())==std::vector<int>(st.begin(),st.end()),"unique","unique(%s)",str(v).c_str());
        auto cs=lv::cumulativeSum(v); size_t acc=0; bool ok=cs.size()==v.size(); for(size_t i=0;i<v.size()&&ok;++i) {acc+=v[i]; ok&=cs[i]==acc;} VCHECK(ok,"cumulativeSum","cumulativeSum(%s)",str(v).c_str());
        VCHECK(lv::accumulateMembers<int>(v,[](int x){return 2*x+1;})==int(2*acc+v.size()),"accumulateMembers","%s",str(v).c_str());
        for(auto& w : all) if(w.size()<=3) {
            ctx().evals++; ctx().nontriv++;
            std::vector<int> c=v; c.insert(c.end(),w.begin(),w.end()); VCHECK(lv::concat<int>(v,w)==c,"concat","concat(%s,%s)",str(v).c_str(),str(w).c_str());
            std::vector<int> fo,fi; std::vector<size_t> io; for(int x : v) {auto it=std::find(w.begin(),w.end(),x); (it==w.end()?fo:fi).push_back(x); io.push_back(size_t(it-w.begin()));}
            VCHECK(lv::filter_out(v,w)==fo && lv::filter_in(v,w)==fi,"filter","filter_in/out(%s,%s)",str(v).c_str(),str(w).c_str());
            auto gi=lv::indices_of(v,w); bool good=gi.size()==v.size(); for(size_t i=0;i<v.size()&&good;++i) good&=io[i]<w.size()?gi[i]==io[i]:gi[i]>=w.size();
            VCHECK(good,"indices_of","indices_of(%s,%s)",str(v).c_str(),str(w).c_str());
        }
    }
    // longer vectors (beyond the sorting algorithm's small-input threshold): all binary vectors of length 18
    const int L=ctx().thorough?20:17; for(uint32_t c=0;c<(1u<<L);++c) {std::vector<int> v(L); for(int i=0;i<L;++i) v[i]=(c>>i)&1; if((c&4095)==0) mark("unique_indices %s",str(v).c_str()); uniq(v,"unique_indices"); ctx().nontriv++; if((c&8191)==0 && out_of_time()) break;}
    for(size_t n : {(size_t)30,(size_t)257,(size_t)1000,(size_t)5000}) for(int p=0;p<6;++p) {mark("vectors of %zu values",n); std::vector<int> v,w; for(size_t i=0;i<n;++i) {v.push_back(p==0?(int)i:p==1?-(int)i:(int)((i*7919+i*i*p)%(p<4?n/3:7))-20); if(i%3==0) w.push_back(v.back()+(int)(i%2));} uniq(v,"unique_indices"); ctx().nontriv++;
        auto si=lv::sort_indices(v); std::vector<char> seen(n,0); bool ok=si.size()==n; for(size_t i=0;i<n && ok;++i) {ok=si[i]<n && !seen[si[i]] && (!i || v[si[i-1]]<=v[si[i]]); if(ok) seen[si[i]]=1;} VCHECK(ok,"sort_indices","%zu values, pattern %d",n,p);
        std::set<int> st(v.begin(),v.end()),sw(w.begin(),w.end()); VCHECK(lv::unique(v.begin(),v.end())==std::vector<int>(st.begin(),st.end()),"unique","%zu values, pattern %d",n,p); std::vector<int> c=v; c.insert(c.end(),w.begin(),w.end()); VCHECK(lv::concat<int>(v,w)==c,"concat","%zu values, pattern %d",n,p); std::vector<int> fo,fi; for(int x : v) (sw.count(x)?fi:fo).push_back(x); VCHECK(lv::filter_out(v,w)==fo && lv::filter_in(v,w)==fi,"filter","%zu values, pattern %d",n,p);
        auto gi=lv::indices_of(v,w); ok=gi.size()==n; std::map<int,size_t> first; for(size_t i=w.size();i--;) first[w[i]]=i; for(size_t i=0;i<n && ok;++i) {auto it=first.find(v[i]); ok=it==first.end()?gi[i]>=w.size():gi[i]==it->second;} VCHECK(ok,"indices_of","%zu values, pattern %d",n,p); if(p==0) {auto cs=lv::cumulativeSum(v); size_t acc=0; ok=cs.size()==n; for(size_t i=0;i<n && ok;++i) {acc+=v[i]; ok=cs[i]==acc;} VCHECK(ok,"cumulativeSum","%zu values",n); std::vector<int> r; for(int i=-50;i<=(int)n;++i) r.push_back(i); VCHECK(lv::make_range(-50,(int)n)==r,"make_range","-50 to %zu",n);}}
    for(int a=-6;a<=6;++a) for(int b=-6;b<=6;++b) for(int s=1;s<=4;++s) {
        mark("make_range(%d,%d,%d)",a,b,s); ctx().evals++; std::vector<int> exp; bool thr=false; for(int x=a;x<=b;x+=s) exp.push_back(x);
        bool mustthrow=b>=a && (b-a)%s!=0; std::vector<int> got; try {got=lv::make_range(a,b,s);} catch(...) {thr=true;}
        VCHECK(mustthrow?thr:(!thr && got==exp),"make_range","make_range(%d,%d,%d)",a,b,s);
        if(a>=0 && b>=0) {std::vector<uint8_t> g2; thr=false; try {g2=lv::make_range(uint8_t(a),uint8_t(b),uint8_t(s));} catch(...) {thr=true;} VCHECK(mustthrow?thr:(!thr && g2==std::vector<uint8_t>(exp.begin(),exp.end())),"make_range","make_range<uint8>(%d,%d,%d)",a,b,s);}
    }
    sample(fmt("all %zu vectors over {0,1,2} up to length %d, paired with all vectors up to length 3; all binary vectors of length %d",all.size(),maxlen,L));
    ctx().states+=ctx().evals; ctx().traces+=ctx().evals;
}
int main(int argc, char** argv) {
    init(argc,argv); lv::setVerbosity(0);
    if(is_part("autobuffer")) autobuffer();
    if(is_part("lut")) luts();
    if(is_part("vec")) vec_helpers();
    return finish();
}
