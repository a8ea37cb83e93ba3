// P01: worker pool.  P02: counting semaphore.   Real code, every schedule within the deviation bound.
#include "litiv/utils/cxx.hpp"
#include "sched.hpp"
#include "report.hpp"
#include <memory>
#include <set>
using namespace mc;

namespace {
    struct Scn {const char* name; int qb, tb; body_t f; bool race_only_cheap;};
    const int MAXTASK=8;
    struct Log {std::atomic<int> runs[MAXTASK]; Log() {for(auto& r : runs) r=0;}};

    // --- worker pool scenarios: nW workers, all queued from one thread, pool destroyed right away; results read after
    template<size_t W, int N> void pool_drain(void*) {
        auto log=std::make_shared<Log>();
        std::vector<std::future<int>> f;
        {
            lv::WorkerPool<W> pool;
            for(int i=0;i<N;++i) f.push_back(pool.queueTask([log](int k){log->runs[k]++; return 100+k;},i));
        }
        for(int i=0;i<N;++i) {
            if(log->runs[i]!=1) fail("task-run-count","after pool destruction task %d of %d ran %d times",i,N,(int)log->runs[i]);
            if(f[i].wait_for(std::chrono::seconds(0))!=std::future_status::ready) fail("future-not-ready","future of task %d not ready after pool destruction",i);
            int v=f[i].get(); if(v!=100+i) fail("wrong-result","task %d delivered %d",i,v);
        }
    }
    // --- futures are waited for while the pool is alive (no lost wakeup), exceptions are delivered and do not kill workers
    template<size_t W, int N> void pool_wait(void*) {
        auto log=std::make_shared<Log>();
        lv::WorkerPool<W> pool;
        std::vector<std::future<int>> f;
        for(int i=0;i<N;++i) f.push_back(pool.queueTask([log](int k)->int{log->runs[k]++; if(k%2==0) throw 1000+k; return 100+k;},i));
        for(int i=N-1;i>=0;--i) {
            try {int v=f[i].get(); if(i%2==0) fail("exception-lost","task %d threw but its future delivered %d",i,v); if(v!=100+i) fail("wrong-result","task %d delivered %d",i,v);}
            catch(int e) {if(i%2!=0 || e!=1000+i) fail("wrong-exception","task %d delivered exception %d",i,e);}
            if(log->runs[i]!=1) fail("task-run-count","task %d completed but ran %d times",i,(int)log->runs[i]);
        }
    }
    // --- two threads queue concurrently
    template<size_t W, int N> void pool_2prod(void*) {
        auto log=std::make_shared<Log>();
        std::future<int> fa[N],fb[N];
        {
            lv::WorkerPool<W> pool;
            std::thread p([&]{for(int i=0;i<N;++i) fb[i]=pool.queueTask([log,i]{log->runs[N+i]++; return N+i;});});
            for(int i=0;i<N;++i) fa[i]=pool.queueTask([log,i]{log->runs[i]++; return i;});
            p.join();
        }
        for(int i=0;i<N;++i) {int a=fa[i].get(),b=fb[i].get(); if(a!=i||b!=N+i) fail("wrong-result","tasks %d/%d delivered %d/%d",i,N+i,a,b);}
        for(int i=0;i<2*N;++i) if(log->runs[i]!=1) fail("task-run-count","task %d ran %d times",i,(int)log->runs[i]);
    }
    // --- a task blocks until another queued task runs: with 2 workers both must be in service
    void pool_dependent(void*) {
        lv::WorkerPool<2> pool;
        std::promise<int> pr; auto fut=pr.get_future().share();
        auto f1=pool.queueTask([fut]{return fut.get()+1;});
        auto f2=pool.queueTask([&pr]{pr.set_value(41); return 1;});
        if(f1.get()!=42) fail("wrong-result","dependent task delivered a wrong value");
        f2.get();
    }
    // --- idle workers must pick up work queued later (several rounds)
    template<size_t W> void pool_rounds(void*) {
        lv::WorkerPool<W> pool;
        for(int r=0;r<2;++r) {
            auto a=pool.queueTask([](int x){return x*2;},r+1);
            if(a.get()!=2*(r+1)) fail("wrong-result","round %d",r);
        }
        std::vector<std::future<void>> v;
        int cnt=0; // only touched by tasks; joined through futures
        for(int i=0;i<2;++i) v.push_back(pool.queueTask([]{}));
        for(auto& x : v) x.get(); (void)cnt;
    }
    // --- destruction racing with a task that queues a follow-up: it is either refused (exception) or executed exactly once
    template<size_t W> void pool_nested(void*) {
        auto log=std::make_shared<Log>();
        auto accepted=std::make_shared<std::atomic<int>>(-1);
        {
            lv::WorkerPool<W> pool;
            lv::WorkerPool<W>* pp=&pool;
            auto f=pool.queueTask([pp,log,accepted]{
                log->runs[0]++;
                try {pp->queueTask([log]{log->runs[1]++;}); *accepted=1;} catch(std::runtime_error&) {*accepted=0;}
            });
            if(mc::choose(2)) f.wait();
        }
        if(log->runs[0]!=1) fail("task-run-count","outer task ran %d times",(int)log->runs[0]);
        if(*accepted==1 && log->runs[1]!=1) fail("task-run-count","accepted nested task ran %d times",(int)log->runs[1]);
        if(*accepted==0 && log->runs[1]!=0) fail("task-run-count","refused nested task ran %d times",(int)log->runs[1]);
    }
    // --- empty pool lifecycle, arguments are copied/moved into the task
    void pool_args(void*) {
        {lv::WorkerPool<2> idle;}
        lv::WorkerPool<1> pool;
        auto up=std::make_shared<std::string>("payload");
        std::string s="abc";
        auto f=pool.queueTask([](std::string a, std::shared_ptr<std::string> b){return a+*b;},s,up);
        s="zzz"; // the task holds its own copy
        if(f.get()!="abcpayload") fail("wrong-result","task arguments were not captured at queue time");
        auto g=pool.queueTask([](int){},3); g.get();
    }

    // --- long sessions: hundreds of tasks, results of every kind, each on one of at most W threads other than the caller's
    template<size_t W, int N> void pool_many(void*) {
        const int pause=mc::choose(3); // wait for everything: never before the end / now and then / after each task
        std::vector<std::shared_ptr<std::atomic<int>>> runs; std::vector<std::future<std::unique_ptr<int>>> f; std::vector<std::future<std::string>> g; std::vector<std::future<void>> h;
        std::set<std::thread::id> ids; std::mutex m; const std::thread::id me=std::this_thread::get_id();
        {
            lv::WorkerPool<W> pool;
            for(int i=0;i<N;++i) {
                runs.push_back(std::make_shared<std::atomic<int>>(0)); auto r=runs.back();
                auto note=[r,&ids,&m]{++*r; std::lock_guard<std::mutex> l(m); ids.insert(std::this_thread::get_id());};
                if(i%3==0) f.push_back(pool.queueTask([note](int k){note(); return std::unique_ptr<int>(new int(k*3));},i));
                else if(i%3==1) g.push_back(pool.queueTask([note](std::string a, const std::vector<int>& b, double c)->std::string{note(); if(b.size()%7==5) throw std::runtime_error(a); return a+std::to_string(b.size())+std::to_string(c);},"task"+std::to_string(i),std::vector<int>(i,i),i*0.5));
                else h.push_back(pool.queueTask([note]{note();}));
                if(pause==2 || (pause==1 && i%16==15)) {if(i%3==0) f.back().wait(); else if(i%3==1) g.back().wait(); else h.back().wait();}
            }
        }
        for(int i=0;i<N;++i) if(*runs[i]!=1) fail("task-run-count","after pool destruction task %d of %d ran %d times",i,N,(int)*runs[i]);
        if(ids.count(me) || ids.size()>W) fail("wrong-thread","tasks of a pool of %d ran on %d threads%s",(int)W,(int)ids.size(),ids.count(me)?", the caller's included":"");
        for(int i=0;i<N;++i) {
            if(i%3==0) {auto v=f[i/3].get(); if(!v || *v!=i*3) fail("wrong-result","task %d delivered a wrong value",i);}
            else if(i%3==1) {
                try {std::string v=g[i/3].get(); if(i%7==5) fail("exception-lost","task %d threw but its future delivered a value",i); if(v!="task"+std::to_string(i)+std::to_string((size_t)i)+std::to_string(i*0.5)) fail("wrong-result","task %d delivered '%s'",i,v.c_str());}
                catch(std::runtime_error& e) {if(i%7!=5 || e.what()!="task"+std::to_string(i)) fail("wrong-exception","task %d delivered exception '%s'",i,e.what());}
            }
            else h[i/3].get();
        }
    }
    // --- chains: each task waits for the previous one and queues the next
    template<size_t W> void pool_chain(void*) {
        const int N=20; auto cnt=std::make_shared<std::atomic<int>>(0); std::promise<int> done; auto fd=done.get_future();
        {
            lv::WorkerPool<W> pool; lv::WorkerPool<W>* pp=&pool;
            std::function<void(int)> step=[&,pp](int k){++*cnt; if(k==N) done.set_value(k); else pp->queueTask(step,k+1);};
            pool.queueTask(step,1);
            if(fd.get()!=N) fail("wrong-result","chain ended at a wrong task");
            std::shared_future<int> prev=pool.queueTask([]{return 0;}).share();
            for(int i=0;i<N;++i) {std::shared_future<int> p=prev; prev=pool.queueTask([p]{return p.get()+1;}).share();} // waits for earlier ones only
            if(prev.get()!=N) fail("wrong-result","chain of waiting tasks delivered a wrong value");
        }
        if(*cnt!=N) fail("task-run-count","a chain of %d tasks ran %d",N,(int)*cnt);
    }

    // --- semaphore
    struct Sem {lv::Semaphore s; std::atomic<int> in,maxin,got; Sem(size_t n) : s(n),in(0),maxin(0),got(0) {}};
    template<int INIT, int N, int K> void sem_mutex(void*) { // N threads, INIT permits: never more than INIT inside, everyone gets in
        Sem x(INIT); std::vector<std::thread> v;
        for(int i=0;i<N;++i) v.emplace_back([&]{for(int k=0;k<K;++k) {
            x.s.wait(); int n=++x.in; if(n>INIT) fail("too-many-permits","%d holders with %d permits",n,INIT); mc::point("critical"); --x.in; x.got++; x.s.notify();}});
        for(auto& t : v) t.join();
        if(x.got!=N*K) fail("lost-permit","%d of %d acquisitions",(int)x.got,N*K);
        if(x.s.count()!=INIT) fail("count","final count %zu, expected %d",x.s.count(),INIT);
    }
    template<int NW, int NN> void sem_prodcons(void*) { // NN notifies, NW waits (NN>=NW): all waiters wake, count is conserved
        Sem x(0); std::vector<std::thread> v;
        for(int i=0;i<NW;++i) v.emplace_back([&]{x.s.wait(); x.got++;});
        v.emplace_back([&]{for(int i=0;i<NN;++i) x.s.notify();});
        for(auto& t : v) t.join();
        if(x.got!=NW) fail("lost-wakeup","%d of %d waiters woke",(int)x.got,NW);
        if(x.s.count()!=size_t(NN-NW)) fail("count","count %zu after %d notify / %d wait",x.s.count(),NN,NW);
    }
    template<int MODE> void sem_try(void*) { // try/timed acquisitions against notifies
        Sem x(MODE==2?1:0); std::vector<std::thread> v; std::atomic<int> ok(0),ko(0);
        for(int i=0;i<2;++i) v.emplace_back([&]{
            bool b;
            if(MODE==0) b=x.s.try_wait(); else if(MODE==1) b=x.s.wait_for(std::chrono::milliseconds(10)); else b=x.s.wait_until(std::chrono::steady_clock::now()+std::chrono::milliseconds(10));
            if(b) ok++; else ko++;
        });
        v.emplace_back([&]{x.s.notify(); mc::point("between"); {volatile size_t sink=x.s.count(); (void)sink;} x.s.notify();});
        for(auto& t : v) t.join();
        int init=MODE==2?1:0;
        if(int(x.s.count())!=init+2-ok) fail("count","count %zu with init %d, 2 notifies, %d successful and %d failed acquisitions",x.s.count(),init,(int)ok,(int)ko);
        // now nothing moves any more: availability and result must agree
        while(x.s.count()>0) {size_t before=x.s.count(); if(!x.s.try_wait()) fail("try-refused","try_wait refused with count %zu",before); if(x.s.count()!=before-1) fail("count","try_wait changed the count from %zu to %zu",before,x.s.count());}
        if(x.s.try_wait()) fail("try-granted","try_wait granted with no resource");
        if(x.s.wait_for(std::chrono::milliseconds(1))) fail("timed-granted","wait_for granted with no resource");
        if(x.s.wait_until(std::chrono::steady_clock::now()+std::chrono::milliseconds(1))) fail("timed-granted","wait_until granted with no resource");
        if(x.s.count()!=0) fail("count","failed acquisitions changed the count");
        x.s.notify();
        if(!x.s.wait_for(std::chrono::milliseconds(1))) fail("timed-refused","wait_for refused although a resource is available");
        if(x.s.count()!=0) fail("count","count after wait_for");
        x.s.notify();
        if(!x.s.wait_until(std::chrono::steady_clock::now()+std::chrono::milliseconds(1))) fail("timed-refused","wait_until refused although a resource is available");
        if(x.s.count()!=0) fail("count","count after wait_until");
    }
    // permits are plentiful: no attempt of any kind may fail, whatever the others do at the same moment
    template<int MODE> void sem_avail(void*) {
        Sem x(3); std::vector<std::thread> v; std::atomic<int> ok(0);
        for(int i=0;i<2;++i) v.emplace_back([&]{
            bool b=MODE==0?x.s.try_wait():MODE==1?x.s.wait_for(std::chrono::milliseconds(0)):x.s.wait_until(std::chrono::steady_clock::now());
            if(!b) fail("try-refused","an attempt failed although a permit was available throughout"); ok++;});
        v.emplace_back([&]{x.s.notify(); if(x.s.count()<2) fail("count","count below what can be left");});
        for(auto& t : v) t.join();
        if(x.s.count()!=2) fail("count","count %zu, expected 2",x.s.count());
    }
    // a timed attempt that fails does so after its full timeout, and only when no permit was left
    template<int MODE> void sem_patience(void*) {
        Sem x(0); std::atomic<int> ok(0),ko(0); std::vector<std::thread> v;
        for(int i=0;i<2;++i) v.emplace_back([&]{
            const auto t0=std::chrono::steady_clock::now(); bool b=MODE?x.s.wait_until(t0+std::chrono::milliseconds(10)):x.s.wait_for(std::chrono::milliseconds(10));
            const auto dt=std::chrono::steady_clock::now()-t0;
            if(!b && dt<std::chrono::milliseconds(10)) fail("timed-impatient","a timed attempt gave up before its timeout");
            (b?ok:ko)++;});
        x.s.notify();
        for(auto& t : v) t.join();
        if(int(x.s.count())!=1-ok) fail("count","count %zu after 1 notify and %d acquisitions",x.s.count(),(int)ok);
    }
    // many permits: exact counts all the way up and down
    void sem_many(void*) {
        Sem x(1000); for(int i=0;i<1000;++i) {if(x.s.count()!=size_t(1000-i)) fail("count","count %zu after %d acquisitions of 1000",x.s.count(),i); if(i%3==0) x.s.wait(); else if(i%3==1) {if(!x.s.try_wait()) fail("try-refused","refused with %d permits",1000-i);} else if(!x.s.wait_for(std::chrono::seconds(1))) fail("timed-refused","refused with %d permits",1000-i);}
        if(x.s.count()!=0 || x.s.try_wait()) fail("try-granted","granted with no resource");
        for(int i=0;i<70000;++i) x.s.notify();
        if(x.s.count()!=70000) fail("count","count %zu after 70000 releases",x.s.count());
        Sem y((size_t)5000000000ull); y.s.wait(); if(y.s.count()!=(size_t)4999999999ull) fail("count","count %zu, expected 4999999999",y.s.count());
        Sem z(0); std::vector<std::thread> v; std::atomic<int> got(0); for(int i=0;i<6;++i) v.emplace_back([&]{for(int k=0;k<20;++k) {z.s.wait(); got++;}});
        for(int i=0;i<120;++i) z.s.notify(); for(auto& t : v) t.join();
        if(got!=120 || z.s.count()!=0) fail("lost-permit","%d of 120 acquisitions",(int)got);
    }
    void sem_mixed(void*) { // blocking waiter must get a permit even though a timed waiter competes (2 notifies for 2 waiters)
        Sem x(0); std::atomic<int> ok(0);
        std::thread a([&]{x.s.wait(); ok++;});
        std::thread b([&]{if(x.s.wait_for(std::chrono::milliseconds(5))) ok++;});
        x.s.notify(); x.s.notify();
        a.join(); b.join();
        if(int(x.s.count())!=2-ok) fail("count","count %zu after 2 notifies and %d acquisitions",x.s.count(),(int)ok);
    }
}
int main(int argc, char** argv) {
    vr::init(argc,argv);
    bool th=vr::ctx().thorough;
#define S(n,qb,tb,...) SX(n,qb,tb,false,__VA_ARGS__)
#define SX(n,qb,tb,sg,...) {const char* nm=n; if((vr::ctx().part.empty()||std::string(nm).compare(0,vr::ctx().part.size(),vr::ctx().part)==0) && !vr::out_of_time()) {Config c; c.bound=th?tb:qb; c.unlock_points=th; c.single=sg; if(sg) c.max_steps=400000; Stats st; explore(nm,c,__VA_ARGS__,nullptr,st); if(vr::ctx().replay.empty()) vr::sample(vr::fmt("%s: bound %d, %llu schedules, %llu choice states, depth %llu, %llu threads%s",nm,c.bound,(unsigned long long)st.executions,(unsigned long long)st.nodes,(unsigned long long)st.maxdepth,(unsigned long long)st.threads,st.complete?"":" (budget reached)")); vr::nontrivial(nm); vr::ctx().evals+=st.executions;}}
    S("pool-drain-1w2t",3,4,pool_drain<1,2>)
    S("pool-drain-2w2t",2,3,pool_drain<2,2>)
    S("pool-drain-2w3t",2,2,pool_drain<2,3>)
    S("pool-drain-3w1t",2,2,pool_drain<3,1>)
    S("pool-wait-1w3t",2,3,pool_wait<1,3>)
    S("pool-wait-2w3t",1,2,pool_wait<2,3>)
    S("pool-2prod-1w",2,3,pool_2prod<1,1>)
    S("pool-2prod-2w",1,2,pool_2prod<2,2>)
    S("pool-dependent",2,3,pool_dependent)
    S("pool-rounds-1w",2,3,pool_rounds<1>)
    S("pool-rounds-2w",1,2,pool_rounds<2>)
    S("pool-nested-1w",2,3,pool_nested<1>)
    S("pool-nested-2w",2,2,pool_nested<2>)
    S("pool-args",2,3,pool_args)
    SX("pool-many-1w",0,0,true,pool_many<1,60>)
    SX("pool-many-3w",0,0,true,pool_many<3,300>)
    SX("pool-chain-1w",0,0,true,pool_chain<1>)
    SX("pool-chain-2w",0,0,true,pool_chain<2>)
    SX("sem-many",0,0,true,sem_many)
    S("sem-avail-try",2,3,sem_avail<0>)
    S("sem-avail-for",2,3,sem_avail<1>)
    S("sem-avail-until",2,3,sem_avail<2>)
    S("sem-patience-for",2,3,sem_patience<0>)
    S("sem-patience-until",2,3,sem_patience<1>)
    S("sem-mutex-1p2t",2,3,sem_mutex<1,2,2>)
    S("sem-mutex-2p3t",2,2,sem_mutex<2,3,1>)
    S("sem-prodcons-2w2n",3,4,sem_prodcons<2,2>)
    S("sem-prodcons-2w3n",2,3,sem_prodcons<2,3>)
    S("sem-prodcons-3w3n",1,2,sem_prodcons<3,3>)
    S("sem-try",2,3,sem_try<0>)
    S("sem-timed-for",2,3,sem_try<1>)
    S("sem-timed-until",2,3,sem_try<2>)
    S("sem-mixed",3,4,sem_mixed)
    return vr::finish();
}
