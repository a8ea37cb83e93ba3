// P28: minimisation of sums of submodular terms and of multi-label energies.
#include "litiv/3rdparty/sospd/sospd.hpp"
#include "../mc/report.hpp"
using namespace vr;
typedef sospd::SubmodularIBFS<int,int> IBFS;
struct Term {std::vector<int> nodes; std::vector<int> table;};
static int eval(const std::vector<Term>& t, const std::vector<std::pair<int,int>>& u, int c, int x) {int e=c; for(size_t i=0;i<u.size();++i) e+=x>>i&1?u[i].second:u[i].first; for(auto& q : t) {int a=0; for(size_t k=0;k<q.nodes.size();++k) if(x>>q.nodes[k]&1) a|=1<<k; e+=q.table[a];} return e;}
static bool submod(const std::vector<int>& f, int n) {for(int s=0;s<1<<n;++s) for(int i=0;i<n;++i) for(int j=i+1;j<n;++j) if(!(s>>i&1) && !(s>>j&1) && f[s]+f[s|1<<i|1<<j]>f[s|1<<i]+f[s|1<<j]) return false; return true;}
static void solve(const std::vector<Term>& t, const std::vector<std::pair<int,int>>& u, int c, bool exact) {
    const int n=(int)u.size(); int best=1<<30; for(int x=0;x<1<<n;++x) best=std::min(best,eval(t,u,c,x));
    for(int alg=0;alg<3;++alg) for(int ub=0;ub<2;++ub) {
        if(exact && ub && (best&1)) continue; ctx().evals++; ctx().nontriv++; sospd::SubmodularIBFSParams p((sospd::FlowAlgorithm)alg); p.ub=ub?sospd::UBfn::chen:sospd::UBfn::cvpr14; IBFS s(p); s.AddNode(n); s.AddConstantTerm(c);
        for(int i=0;i<n;++i) if(u[i].first==0) s.AddUnaryTerm(i,u[i].second); else s.AddUnaryTerm(i,u[i].first,u[i].second);
        for(auto& q : t) s.AddClique(q.nodes,q.table);
        std::vector<int> z(n); for(int x=0;x<1<<n;++x) {for(int i=0;i<n;++i) z[i]=x>>i&1; if(s.ComputeEnergy(z)!=eval(t,u,c,x)) {violation("energy",fmt("energy of labelling %d is %d, expected %d",x,s.ComputeEnergy(z),eval(t,u,c,x))); return;}}
        s.Solve(); int x=0; bool ok=true; for(int i=0;i<n;++i) {int l=s.GetLabel(i); if(l!=0 && l!=1) ok=false; else x|=l<<i;}
        if(!ok) violation("labels","a node was left without a label"); else if(exact && eval(t,u,c,x)!=best) violation(fmt("minimum-%d",alg),fmt("%d nodes, %zu terms: solver %d returned labelling %d of energy %d, the minimum is %d",n,t.size(),alg,x,eval(t,u,c,x),best));
        if(exact && s.ComputeEnergy()!=best) violation("energy-after",fmt("energy reported after solving is %d, the minimum is %d (solver %d)",s.ComputeEnergy(),best,alg));
    }
}
typedef sospd::MultilabelEnergy<int,int,int> MLE;
typedef sospd::SoSPD<int,int,int> SPD;
struct TableClique : sospd::Clique<int,int,int> {
    std::vector<int> n; std::vector<int> t; int L;
    TableClique(std::vector<int> n_, std::vector<int> t_, int L_) : n(n_), t(t_), L(L_) {}
    int energy(const int* l) const override {int a=0; for(size_t i=n.size();i-->0;) a=a*L+l[i]; return t[a];}
    const int* nodes() const override {return n.data();}
    size_t size() const override {return n.size();}
};
// runs one multi-label problem: evaluation of every labelling, then the solver with several kinds of proposals
static void multi(int L, int nv, const std::vector<std::vector<int>>& un, const std::vector<Term>& cl, int c) {
    MLE e(L); if(e.addVar(nv)!=0) violation("vars","first variable is not number 0"); e.addConstantTerm(c); for(int i=0;i<nv;++i) e.addUnaryTerm(i,un[i]);
    for(auto& q : cl) e.addClique(MLE::CliquePtr(new TableClique(q.nodes,q.table,L)));
    auto u1=un; for(auto& q : cl) if(q.nodes.size()==1) for(int l=0;l<L;++l) u1[q.nodes[0]][l]+=q.table[l];
    int all=1; for(int i=0;i<nv;++i) all*=L; std::vector<int> en(all); std::vector<int> x(nv); int best=1<<30;
    auto enc=[&](const std::vector<int>& v) {int a=0; for(int i=nv;i-->0;) a=a*L+v[i]; return a;};
    for(int k=0;k<all;++k) {
        int q=k; for(int i=0;i<nv;++i) {x[i]=q%L; q/=L;}
        int w=c; for(int i=0;i<nv;++i) w+=un[i][x[i]]; for(auto& t : cl) {int a=0; for(size_t i=t.nodes.size();i-->0;) a=a*L+x[t.nodes[i]]; w+=t.table[a];}
        en[k]=w; best=std::min(best,w); ctx().evals++; if(e.computeEnergy(x)!=w) {violation("multi-energy",fmt("energy of labelling %d of a %d-label problem is %d, expected %d",k,L,e.computeEnergy(x),w)); return;}
    }
    for(int mode=0;mode<4;++mode) for(int alg=0;alg<3;++alg) {
        ctx().nontriv++; int prev=1<<30; std::vector<int> lab(nv);
        for(int it=0;it<2*L+2;++it) {
            sospd::SubmodularIBFSParams p((sospd::FlowAlgorithm)alg); SPD s(&e,p); if(mode==0) s.SetAlphaExpansion(); else if(mode==1) s.SetHeightAlphaExpansion();
            std::vector<int> was,off; int calls=0;
            if(mode>=2) s.SetProposalCallback([&](int k, const std::vector<int>& cur, std::vector<int>& prop) {++calls; for(size_t i=0;i<prop.size();++i) prop[i]=mode==2?(cur[i]+1+(k+(int)i)%L)%L:(L-1+k*2)%L; was=cur; off=prop;});
            s.Solve(it);
            for(int i=0;i<nv;++i) {lab[i]=s.GetLabel(i); if(lab[i]<0 || lab[i]>=L) {violation("multi-range","a label out of range was returned"); return;}}
            int now=en[enc(lab)];
            if(it==0) for(int i=0;i<nv;++i) for(int l=0;l<L;++l) if(u1[i][l]<u1[i][lab[i]]) violation("multi-start","the solver does not start from the cheapest individual labels");
            if(now>prev) {violation("multi-worse",fmt("an iteration raised the energy from %d to %d (%d labels, %d variables, proposals %d, solver %d)",prev,now,L,nv,mode,alg)); return;}
            if(calls==it && it) { // the last proposal was fused: when every term is submodular in the choice between old and proposed labels, the best mixture is taken
                bool sub=true; for(auto& t : cl) {const int k=(int)t.nodes.size(); std::vector<int> f(1<<k); for(int z=0;z<1<<k;++z) {int q=0; for(int i=k;i-->0;) q=q*L+(z>>i&1?off[t.nodes[i]]:was[t.nodes[i]]); f[z]=t.table[q];} sub&=submod(f,k);}
                int opt=1<<30; bool mixed=true; for(int i=0;i<nv;++i) mixed&=lab[i]==was[i]||lab[i]==off[i]; for(int z=0;z<1<<nv;++z) {std::vector<int> v(nv); for(int i=0;i<nv;++i) v[i]=z>>i&1?off[i]:was[i]; opt=std::min(opt,en[enc(v)]);}
                if(!mixed) violation("multi-fusion",fmt("iteration %d gave a variable a label which is neither its old nor its proposed one",it));
                if(sub && now!=opt) {violation("multi-optimal",fmt("iteration %d reached energy %d, the best mixture of the old and the proposed labelling has %d (solver %d)",it,now,opt,alg)); return;}
            }
            prev=now;
        }
        if(cl.empty() && mode==1 && prev!=best) violation("multi-unary","independent variables did not get their cheapest labels");
    }
}
int main(int argc, char** argv) {
    init(argc,argv);
    try {
        if(is_part("pairs")) {
            const int U[]={-2,0,1,3};
            for(int a=0;a<256;++a) for(int k=0;k<81*3;++k) {std::vector<int> tb={k%3,k/3%3,k/9%3,k/27%3}; for(auto& v : tb) v=v*(1+k/81)-1; if(!submod(tb,2)) continue; mark("pair unaries %d table %d",a,k); solve({Term{{0,1},tb}},{{U[a&3],U[a>>2&3]},{U[a>>4&3],U[a>>6]}},a%5-2,true);}
        }
        if(is_part("triples")) {
            const int U[]={-1,0,2};
            for(int k=0;k<6561;++k) {std::vector<int> tb(8); int q=k; for(int i=0;i<8;++i) {tb[i]=q%3; q/=3;} if(!submod(tb,3)) continue; for(int a=0;a<27;++a) {if(out_of_time()) break; mark("triple unaries %d table %d",a,k); solve({Term{{0,1,2},tb}},{{0,U[a%3]},{0,U[a/3%3]},{0,U[a/9]}},0,true);}}
        }
        if(is_part("chains")) {
            // several terms which share nodes: a chain, a cycle, a star, two overlapping triples and a pair inside of a triple
            std::vector<std::vector<int>> P; for(int k=0;k<81;++k) {std::vector<int> tb={k%3,k/3%3,k/9%3,k/27%3}; if(submod(tb,2) && (k%3==0 || k/27%3==0)) P.push_back(tb);}
            std::vector<std::vector<int>> T; for(int k=0;k<6561;++k) {std::vector<int> tb(8); int q=k; for(int i=0;i<8;++i) {tb[i]=q%3; q/=3;} if(submod(tb,3) && tb[0]==0 && tb[7]<=1) T.push_back(tb);}
            const std::vector<std::vector<std::vector<int>>> S={{{0,1},{1,2}},{{0,1},{1,2},{2,0}},{{0,1},{0,2},{0,3}},{{0,1},{1,2},{2,3},{3,4}},{{0,1,2},{1,2,3}},{{0,1,2},{2,1}},{{0,1,2},{2,3,4}},{{0,1,2,3}}};
            const int U[]={0,-2,1,3,-1};
            for(size_t g=0;g<S.size();++g) {
                int n=0; for(auto& q : S[g]) for(int v : q) n=std::max(n,v+1);
                if(S[g][0].size()==4) { // one term over four nodes: concave functions of the number of set nodes plus a weight
                    for(int w=0;w<256;++w) for(int k=0;k<4;++k) {if(out_of_time()) break; std::vector<int> tb(16); for(int s=0;s<16;++s) {int b=__builtin_popcount((unsigned)s); tb[s]=(k==0?b*(4-b):k==1?std::min(b,1)*3:k==2?std::min(b,2)*2:(b==4?0:b?2:0))+((s&1)?1:0)-((s&4)?2:0);} if(!submod(tb,4)) continue; mark("term of four nodes, unaries %d table %d",w,k); solve({Term{S[g][0],tb}},{{0,U[w&3]},{0,U[w>>2&3]},{0,U[w>>4&3]},{U[w>>6],0}},1,true);}
                    continue;
                }
                const size_t stp=ctx().thorough?1:S[g].size()>2||S[g][0].size()>2?5:1; size_t cnt=0;
                for(size_t a=0;a<(S[g][0].size()==2?P.size():T.size());a+=stp) for(size_t b=0;b<(S[g][1].size()==2?P.size():T.size());b+=stp) for(int u=0;u<(1<<n);u+=1) {
                    if(out_of_time()) break; ++cnt; mark("structure %zu tables %zu %zu unaries %d",g,a,b,u); std::vector<Term> t; for(size_t i=0;i<S[g].size();++i) {auto& tt=S[g][i].size()==2?P:T; t.push_back(Term{S[g][i],tt[i==0?a:i==1?b:(a+i*b)%tt.size()]});}
                    std::vector<std::pair<int,int>> un; for(int i=0;i<n;++i) un.push_back({0,u>>i&1?U[1+(i+(int)a)%4]:U[3+((i+(int)b)%2)]}); solve(t,un,-1,true);
                }
            }
        }
        if(is_part("functions")) {
            for(int n=2;n<=3;++n) {
                const int tot=n==2?625:6561; const int B=n==2?5:3;
                for(int k=0;k<tot;++k) {
                    std::vector<int> f(1<<n); int q=k; for(auto& v : f) {v=q%B-(n==2?2:0); q/=B;} const bool sm=submod(f,n); ctx().evals++; ctx().nontriv+=!sm; mark("function %d of %d variables",k,n);
                    if(sospd::CheckSubmodular(n,f)!=sm) violation("check",fmt("submodularity of function %d of %d variables misjudged",k,n));
                    for(int ub=0;ub<2;++ub) {std::vector<int> g(1<<n); if(ub) sospd::ChenUpperBound(n,f,g); else sospd::UpperBoundCVPR14(n,f,g); for(int s=0;s<1<<n;++s) if(g[s]<f[s]) violation(fmt("upper-%d",ub),fmt("upper bound below function %d of %d variables",k,n)); if(!submod(g,n)) violation(fmt("upper-submodular-%d",ub),fmt("upper bound of function %d is not submodular",k)); if(sm && g!=f) violation(fmt("upper-same-%d",ub),fmt("a submodular function (%d) was changed by its upper bound",k)); if(g[0]!=f[0] || g.back()!=f.back()) violation(fmt("upper-ends-%d",ub),fmt("upper bound of function %d differs at the empty or at the full set",k));}
                    {std::vector<int> g=f; int d=sospd::SubmodularLowerBound(n,g); int md=0; for(int s=0;s<1<<n;++s) {if(g[s]>f[s]) violation("lower",fmt("lower bound above function %d",k)); md=std::max(md,f[s]-g[s]);} if(!submod(g,n)) violation("lower-submodular",fmt("lower bound of function %d of %d variables is not submodular",k,n)); if(sm && g!=f) violation("lower-same",fmt("a submodular function (%d) was changed by its lower bound",k)); if((d>0)!=(md>0) ) violation("lower-diff",fmt("reported difference %d of the lower bound, largest is %d",d,md));}
                    for(int ps=0;ps<27;++ps) {std::vector<int> a(n),b(n); for(int i=0;i<n;++i) {a[i]=(ps+i*4)%7-3; b[i]=(ps*3+i)%5-2;} std::vector<int> g=f,h=f; sospd::AddLinear(n,g,a); sospd::SubtractLinear(n,h,a,b); for(int s=0;s<1<<n;++s) {int x=f[s],y=f[s]; for(int i=0;i<n;++i) {if(s>>i&1) {x+=a[i]; y-=a[i];} else y-=b[i];} if(g[s]!=x) violation("add-linear","adding a linear function gives wrong values"); if(h[s]!=y) violation("subtract-linear","subtracting linear functions gives wrong values");}}
                    if(sm) {std::vector<int> g=f,psi(n); sospd::Normalize(n,g,psi); for(int s=0;s<1<<n;++s) {int x=f[s]-f[0]; for(int i=0;i<n;++i) if(s>>i&1) x+=psi[i]; if(x!=g[s] || g[s]<0) violation("normalise",fmt("normalised function %d wrong at %d",k,s));} if(g[0] || g.back()) violation("normalise-ends","normalised function is not zero at both ends");}
                    for(unsigned s=0;s<(1u<<n);++s) {std::vector<int> g=f; sospd::ZeroMarginalSet(n,g,s); for(unsigned t=0;t<(1u<<n);++t) if(g[t]!=f[t&~s]) violation("zero-marginal","zero-marginal set gives wrong values");}
                }
            }
        }
        if(is_part("multi")) {
            for(int L=2;L<=3;++L) {
                int all=1; for(int i=0;i<L;++i) all*=3; // unary values 0, 1 and 3 per label
                auto U=[&](int k) {const int v[]={0,1,3}; std::vector<int> r(L); for(auto& x : r) {x=v[k%3]; k/=3;} return r;};
                auto potts=[&](int k, int w, int same) {int m=1; for(int i=0;i<k;++i) m*=L; std::vector<int> t(m); for(int a=0;a<m;++a) {int q=a; bool eq=true; int f=q%L; for(int i=0;i<k;++i) {eq&=q%L==f; q/=L;} t[a]=eq?same:w;} return t;};
                for(int a=0;a<all;++a) for(int b=0;b<all;++b) {
                    if(out_of_time()) break; mark("multi %d labels unaries %d %d",L,a,b);
                    multi(L,2,{U(a),U(b)},{},a%4);
                    for(int w : {0,1,2,5}) multi(L,2,{U(a),U(b)},{Term{{0,1},potts(2,w,0)}},b%3);
                    for(int w : {1,4}) multi(L,3,{U(a),U(b),U((a*7+b)%all)},{Term{{0,1},potts(2,w,0)},Term{{2,1},potts(2,3,0)}},0);
                    for(int w : {2,5}) multi(L,3,{U(a),U(b),U((a+b*5)%all)},{Term{{2,0,1},potts(3,w,0)}},2);
                    {std::vector<int> t(L*L); for(int i=0;i<L*L;++i) t[i]=(i*(a+2)+b*3)%5; multi(L,2,{U(a),U(b)},{Term{{1,0},t},Term{{0},std::vector<int>(t.begin(),t.begin()+L)}},0);}
                }
            }
        }
    } catch(const std::exception& e) {violation("exception",fmt("unexpected exception: %s",e.what()));}
    return finish();
}
