#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include "report.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <execinfo.h>
#include <exception>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#define VIS extern "C" __attribute__((visibility("default")))

namespace {
    const int MAXT=40, MAXCH=40000, MAXOPT=64, MAXSYNC=1<<14;
    enum Pend {P_RUN, P_LOCK, P_COND, P_JOIN, P_FUTEX, P_SLEEP, P_ONCE, P_RD, P_WR, P_DONE, P_NONE};
    struct VC {uint32_t c[MAXT];};
    struct Thr {
        Pend pend; void* obj; pthread_mutex_t* mtx; bool timed; uint64_t deadline; unsigned fval; int jtgt;
        int wake; // 0 normal, 1 timeout, 2 spurious
        int go; pthread_t real; bool created; VC vc; const char* what; bool yielded;
    };
    struct Sync {void* addr; uint32_t epoch; int owner; int count; int readers; VC vc;};
    struct Opt {int t; int variant; int cost; bool early;};
    struct Choice {int idx, n; int cost[MAXOPT]; };
    Thr T[MAXT]; int nT=0; std::atomic<int> cur(-1);
    Sync* syncs=nullptr; uint32_t epoch=0;
    mc::Config cfg; bool g_active=false; uint64_t vclock=1000000000000ull; uint64_t steps=0;
    int32_t* ch_idx; int32_t* ch_n; int16_t (*ch_cost)[MAXOPT]; int nch=0, prefix=0, usedcost=0;
    const char* g_name=""; mc::Stats* g_st=nullptr; bool g_replaying=false;
    __thread int self=-1; __thread int insched=0;
    struct In {In(){++insched;} ~In(){--insched;}};

    long futex(int* p, int op, int v) {return syscall(SYS_futex,p,op|FUTEX_PRIVATE_FLAG,v,nullptr,nullptr,0);}
    template<typename F> F real(const char* n, const char* ver=nullptr) {
        void* p=ver?dlvsym(RTLD_NEXT,n,ver):nullptr; if(!p) p=dlsym(RTLD_NEXT,n); return (F)p;
    }
    inline bool on() {return g_active && self>=0 && !insched;}

    std::string sched_string() {
        std::string s; int last=nch; while(last>0 && ch_idx[last-1]==0) --last;
        for(int i=0;i<last;++i) {char b[16]; snprintf(b,sizeof b,"%s%d",i?",":"",ch_idx[i]); s+=b;}
        return s;
    }
    [[noreturn]] void vfail(const char* key, const char* msg) {
        In in; g_active=false;
        std::string k=std::string(g_name)+":"+key;
        std::string m=std::string("scenario ")+g_name+", schedule ["+sched_string()+"]: "+msg;
        vr::ctx().states+=g_st?g_st->nodes:0; vr::ctx().transitions+=g_st?g_st->points:0; vr::ctx().traces+=g_st?g_st->executions:0;
        vr::violation(k,m,std::string(g_name)+"|"+sched_string());
        vr::dump(); _exit(3);
    }
    Sync& sync_of(void* a) {
        size_t h=((uintptr_t)a>>2)*0x9E3779B97F4A7C15ull>>40; h&=MAXSYNC-1;
        for(int i=0;i<MAXSYNC;++i,h=(h+1)&(MAXSYNC-1)) {
            Sync& s=syncs[h];
            if(s.epoch!=epoch) {s.epoch=epoch; s.addr=a; s.owner=-1; s.count=0; s.readers=0; memset(&s.vc,0,sizeof s.vc); return s;}
            if(s.addr==a) return s;
        }
        vfail("harness:sync-table-full","too many sync objects"); 
    }
    void vcjoin(VC& a, const VC& b) {for(int i=0;i<MAXT;++i) if(b.c[i]>a.c[i]) a.c[i]=b.c[i];}
    void hb_acquire(void* a) {vcjoin(T[self].vc,sync_of(a).vc);}
    void hb_release(void* a) {vcjoin(sync_of(a).vc,T[self].vc); ++T[self].vc.c[self];}

    bool enabled(int t, bool& canTimeout, bool& canSpur) {
        Thr& x=T[t]; canTimeout=canSpur=false;
        switch(x.pend) {
            case P_RUN: return true;
            case P_LOCK: {Sync& s=sync_of(x.obj); if(s.owner<0||(s.owner==t)) return true; if(x.timed) canTimeout=true; return false;}
            case P_COND: if(x.timed) canTimeout=true; canSpur=true; return false;
            case P_JOIN: return T[x.jtgt].pend==P_DONE;
            case P_FUTEX: if(__atomic_load_n((unsigned*)x.obj,__ATOMIC_SEQ_CST)!=x.fval) return true; if(x.timed) canTimeout=true; return false;
            case P_SLEEP: canTimeout=true; return false;
            case P_ONCE: return sync_of(x.obj).owner<0;
            case P_RD: return sync_of(x.obj).owner<0;
            case P_WR: {Sync& s=sync_of(x.obj); return s.owner<0 && s.readers==0;}
            default: return false;
        }
    }
    void describe(char* b, size_t n) {
        static const char* names[]={"runnable","lock","cond-wait","join","future-wait","sleep","once","rdlock","wrlock","done","none"};
        size_t o=0; for(int t=0;t<nT&&o<n;++t) o+=snprintf(b+o,n-o,"t%d:%s%s(%s) ",t,names[T[t].pend],T[t].timed?"(timed)":"",T[t].what?T[t].what:"");
    }
    int pick(int n, const Opt* o) {
        if(n>MAXOPT) n=MAXOPT;
        if(nch>=MAXCH) vfail("harness:choice-overflow","too many choices");
        int idx=0;
        if(nch<prefix) {idx=ch_idx[nch]; if(idx>=n) vfail("harness:nondeterminism","replayed prefix diverged (harness does not own all nondeterminism)");}
        else {ch_idx[nch]=0; if(!g_replaying) g_st->nodes++;}
        ch_n[nch]=n; for(int i=0;i<n;++i) ch_cost[nch][i]=(int16_t)o[i].cost;
        ++nch; return idx;
    }
    void wait_go(int t) {while(__atomic_load_n(&T[t].go,__ATOMIC_ACQUIRE)==0) futex(&T[t].go,FUTEX_WAIT,0); __atomic_store_n(&T[t].go,0,__ATOMIC_RELEASE);}
    void wake(int t) {__atomic_store_n(&T[t].go,1,__ATOMIC_RELEASE); futex(&T[t].go,FUTEX_WAKE,1);}

    // chooses who runs next; the calling thread's pending operation is already published in T[self]
    void reschedule(bool exiting=false) {
        if(++steps>(uint64_t)cfg.max_steps) {char b[1500]; describe(b,sizeof b); vfail("livelock",vr::fmt("no termination within %d steps; threads: %s",cfg.max_steps,b).c_str());}
        g_st->points++;
        static Opt o[MAXOPT]; int n=0; bool tmo[MAXT], spu[MAXT], en[MAXT]; int nen=0;
        for(int t=0;t<nT;++t) {en[t]=enabled(t,tmo[t],spu[t]); nen+=en[t];}
        bool selfFirst=!exiting && en[self] && !T[self].yielded;
        if(selfFirst) o[n++]=Opt{self,0,0,false};
        for(int k=0;k<nT;++k) { // round robin from the next thread
            int t=(self+1+k)%nT; if(t==self && selfFirst) continue;
            if(en[t] && n<MAXOPT) o[n++]=Opt{t,0,(selfFirst)?1:((T[self].yielded&&t==self&&nen>1)?1:0),false};
        }
        int base=n;
        int first=-1; if(base==0) for(int t=0;t<nT;++t) if(tmo[t] && (first<0 || T[t].deadline<T[first].deadline)) first=t;
        if(first>=0) o[n++]=Opt{first,1,0,false}; // nothing else can run: the earliest deadline expires; any other order is a deviation
        for(int t=0;t<nT;++t) if(t!=first && tmo[t] && n<MAXOPT && cfg.early_timeouts) o[n++]=Opt{t,1,1,true};
        int live=n;
        if(cfg.spurious && live>0) for(int t=0;t<nT;++t) if(spu[t] && n<MAXOPT) o[n++]=Opt{t,2,1,true};
        if(n==0) {
            bool all=true; for(int t=0;t<nT;++t) all=all&&T[t].pend==P_DONE;
            if(all) return;
            char b[1500]; describe(b,sizeof b); vfail("deadlock",vr::fmt("no thread can make progress: %s",b).c_str());
        }
        int i=n>1&&!cfg.single?pick(n,o):0; Opt c=o[i]; usedcost+=c.cost;
        T[c.t].wake=c.variant; T[self].yielded=false;
        if(c.variant==1 && T[c.t].deadline>vclock) vclock=T[c.t].deadline;
        if(c.t==self && !exiting) return;
        int me=self; wake(c.t);
        if(!exiting) wait_go(me);
    }
    void spoint(const char* what) {
        T[self].pend=P_RUN; T[self].what=what; T[self].timed=false; reschedule(); T[self].pend=P_RUN;
    }
    // returns false on timeout
    bool lock_mutex(pthread_mutex_t* m, bool timed=false, uint64_t dl=0, const char* what="lock") {
        Thr& x=T[self]; x.pend=P_LOCK; x.obj=m; x.timed=timed; x.deadline=dl; x.what=what;
        bool rec=(m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE;
        {Sync& s=sync_of(m); if(s.owner==self && !rec) vfail("self-deadlock","a thread relocks a non-recursive mutex it already owns");}
        reschedule(); x.pend=P_RUN;
        if(x.wake==1) return false;
        Sync& s=sync_of(m); s.owner=self; s.count++; hb_acquire(m); return true;
    }
    void unlock_mutex(pthread_mutex_t* m) {
        Sync& s=sync_of(m);
        if(s.owner!=self) vfail("unlock-not-owner","a thread unlocks a mutex it does not own");
        hb_release(m); if(--s.count==0) s.owner=-1;
    }
    int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t dl) {
        spoint("before-cond-wait");
        Thr& x=T[self]; 
        {Sync& s=sync_of(m); if(s.owner!=self) vfail("cond-wait-not-owner","waiting on a condition variable without owning its mutex");}
        unlock_mutex(m);
        x.pend=P_COND; x.obj=c; x.mtx=m; x.timed=timed; x.deadline=dl; x.what="cond-wait";
        reschedule();
        int w=x.wake; bool to=(w==1);
        // resumed by timeout/spurious choice (still P_COND) or by a signal (which turned us into P_LOCK on m, granted)
        if(x.pend==P_LOCK) {x.pend=P_RUN; Sync& s=sync_of(m); s.owner=self; s.count++; hb_acquire(m); return (x.fval==1)?ETIMEDOUT:0;}
        x.pend=P_RUN;
        lock_mutex(m,false,0,"cond-relock");
        return to?ETIMEDOUT:0;
    }
    void cond_signal(pthread_cond_t* c, bool all) {
        spoint(all?"notify-all":"notify-one");
        int w[MAXT], n=0; for(int t=0;t<nT;++t) if(T[t].pend==P_COND && T[t].obj==c) w[n++]=t;
        if(n==0) return;
        int first=0,last=n-1;
        if(!all) {static Opt o[MAXOPT]; for(int i=0;i<n;++i) o[i]=Opt{w[i],0,0,false}; first=last=(n>1 && !cfg.single)?pick(n,o):0;}
        for(int i=first;i<=last;++i) {Thr& x=T[w[i]]; x.pend=P_LOCK; x.obj=x.mtx; x.timed=false; x.fval=0; x.what="cond-relock";}
    }
    uint64_t ts2ns(const struct timespec* ts) {return (uint64_t)ts->tv_sec*1000000000ull+(uint64_t)ts->tv_nsec;}

    // ---- data race detection (only fed in the 'race' build) ----
    struct Rec {uint8_t tid, mask, wr; uint32_t clk; void* pc;};
    struct Gran {uintptr_t key; uint32_t ep; uint8_t nrec; Rec r[4];};
    const size_t NG=1<<17; Gran* grans=nullptr; uint32_t* used=nullptr; size_t nused=0;
    Gran* gran(uintptr_t k, bool create) {
        size_t h=(k*0x9E3779B97F4A7C15ull>>44)&(NG-1);
        for(size_t i=0;i<64;++i,h=(h+1)&(NG-1)) {
            Gran& g=grans[h];
            if(g.ep!=epoch) {if(!create) return nullptr; g.ep=epoch; g.key=k; g.nrec=0; if(nused<NG) used[nused++]=(uint32_t)h; return &g;}
            if(g.key==k) return &g;
        }
        return nullptr;
    }
    void clear_range(uintptr_t a, size_t n) {
        if(!grans||!n) return; uintptr_t k0=a>>3,k1=(a+n-1)>>3;
        if(k1-k0>nused) {for(size_t i=0;i<nused;++i) {Gran& g=grans[used[i]]; if(g.ep==epoch && g.key>=k0 && g.key<=k1) g.nrec=0;}}
        else for(uintptr_t k=k0;k<=k1;++k) {Gran* g=gran(k,false); if(g) g->nrec=0;}
    }
    std::string symb(void* pc) {
        Dl_info di; char b[512]; if(dladdr(pc,&di) && di.dli_sname) snprintf(b,sizeof b,"%s+0x%lx",di.dli_sname,(unsigned long)((char*)pc-(char*)di.dli_saddr)); else if(dladdr(pc,&di)) snprintf(b,sizeof b,"exe+0x%lx",(unsigned long)((char*)pc-(char*)di.dli_fbase)); else snprintf(b,sizeof b,"%p",pc); return b;
    }
    void access1(uintptr_t k, uint8_t mask, bool wr, void* pc) {
        Gran* g=gran(k,true); if(!g) return; uint32_t clk=T[self].vc.c[self]; int slot=-1;
        for(int i=0;i<g->nrec;++i) {
            Rec& r=g->r[i];
            if(r.tid==self) {if(r.mask==mask && r.wr==(wr?1:0)) slot=i; continue;}
            if(!(r.mask&mask) || !(r.wr||wr)) continue;
            if(r.clk>T[self].vc.c[r.tid]) {
                void* p1=r.pc; int t1=r.tid; bool w1=r.wr;
                vfail("data-race",vr::fmt("unsynchronised %s by t%d at %s races with %s by t%d at %s",wr?"write":"read",self,symb(pc).c_str(),w1?"write":"read",t1,symb(p1).c_str()).c_str());
            }
        }
        if(slot<0) {if(g->nrec<4) slot=g->nrec++; else {slot=(int)(clk&3);}}
        Rec& r=g->r[slot]; r.tid=(uint8_t)self; r.mask=mask; r.wr=wr?1:0; r.clk=clk; r.pc=pc;
    }
    void access(uintptr_t a, size_t n, bool wr, void* pc) {
        if(!cfg.races) return; In in;
        while(n>0) {uintptr_t k=a>>3; unsigned off=a&7; unsigned m=8-off; if(m>n) m=(unsigned)n; access1(k,(uint8_t)(((1u<<m)-1)<<off),wr,pc); a+=m; n-=m;}
    }
    // OS threads are reused across executions (creating them dominates the cost otherwise)
    struct Worker {void*(*f)(void*); void* a; pthread_t real; bool up;} W[MAXT];
    void* worker_main(void* p) {
        int id=(int)(intptr_t)p; insched=1;
        while(true) {
            wait_go(id); self=id; T[id].pend=P_RUN; insched=0;
            W[id].f(W[id].a);
            insched=1; T[id].pend=P_DONE; T[id].what="done"; reschedule(true); self=-1;
        }
        return nullptr;
    }
    void terminate_handler() {
        const char* what="std::terminate called"; std::string m=what;
        try {if(auto e=std::current_exception()) std::rethrow_exception(e);} catch(std::exception& e) {m+=std::string(", exception: ")+e.what();} catch(...) {m+=", unknown exception";}
        if(g_active) vfail("terminate",m.c_str());
        fprintf(stderr,"%s\n",m.c_str()); abort();
    }
}

namespace mc {
    bool active() {return g_active && self>=0;}
    uint64_t vnow_ns() {return vclock;}
    void point(const char* what) {if(on()) {In in; spoint(what);}}
    int choose(int n) {if(!on()||n<=1) return 0; In in; static Opt o[MAXOPT]; for(int i=0;i<n&&i<MAXOPT;++i) o[i]=Opt{i,0,0,false}; return pick(n,o);}
    void fail(const char* key, const char* f, ...) {
        ++insched; va_list a; va_start(a,f); char b[2000]; vsnprintf(b,sizeof b,f,a); va_end(a);
        if(g_active) vfail(key,b); 
        vr::violation(key,b); vr::dump(); _exit(3);
    }
    void explore(const char* name, const Config& c, body_t body, void* arg, Stats& st) {
        if(!syncs) {syncs=(Sync*)calloc(MAXSYNC,sizeof(Sync)); ch_idx=(int32_t*)calloc(MAXCH,4); ch_n=(int32_t*)calloc(MAXCH,4); ch_cost=(int16_t(*)[MAXOPT])calloc(MAXCH,sizeof(*ch_cost)); std::set_terminate(terminate_handler);
            cpu_set_t all; sched_getaffinity(0,sizeof all,&all); int ncpu=CPU_COUNT(&all); int want=(int)(getpid()%ncpu),k=0; for(int i=0;i<CPU_SETSIZE;++i) if(CPU_ISSET(i,&all)&&k++==want) {cpu_set_t one; CPU_ZERO(&one); CPU_SET(i,&one); sched_setaffinity(0,sizeof one,&one); break;}}
        cfg=c; g_name=name; g_st=&st; g_replaying=false;
        prefix=0; std::string rp=vr::ctx().replay; bool single=false;
        if(!rp.empty()) {
            size_t p=rp.find('|'); if(rp.substr(0,p)!=name) return;
            const char* q=rp.c_str()+p+1; while(*q) {ch_idx[prefix++]=atoi(q); q=strchr(q,','); if(!q) break; ++q;}
            single=true;
        }
        while(true) {
            ++epoch; nused=0; nT=1; memset(&T[0],0,sizeof T[0]); nch=0; usedcost=0; steps=0; vclock=1000000000000ull;
            T[0].pend=P_RUN; T[0].vc.c[0]=1; 
            {std::string s; int lim=prefix<600?prefix:600; for(int i=0;i<lim;++i) {char b[16]; snprintf(b,sizeof b,"%s%d",i?",":"",ch_idx[i]); s+=b;} vr::mark("%s|%s",name,s.c_str());}
            self=0; g_active=true;
            try {body(arg);} catch(std::exception& e) {fail("exception","exception escaped the scenario: %s",e.what());} catch(...) {fail("exception","unknown exception escaped the scenario");}
            {In in; bool all=true; for(int t=1;t<nT;++t) all=all&&T[t].pend==P_DONE; if(!all) vfail("thread-leak","scenario ended while threads it started are still alive");}
            g_active=false; self=-1;
            st.executions++; if((uint64_t)nch>st.maxdepth) st.maxdepth=nch; if((uint64_t)nT>st.threads) st.threads=nT;
            if(single) break;
            // backtrack: deepest choice with an untried alternative within the deviation bound
            int cum=0; static int* pre=(int*)malloc(sizeof(int)*MAXCH);
            for(int i=0;i<nch;++i) {pre[i]=cum; cum+=ch_cost[i][ch_idx[i]];}
            int i=nch-1; bool found=false;
            for(;i>=0 && !found;--i) for(int j=ch_idx[i]+1;j<ch_n[i];++j) if(pre[i]+ch_cost[i][j]<=cfg.bound) {ch_idx[i]=j; prefix=i+1; found=true; break;}
            if(!found) break;
            if((st.executions&63)==0 && vr::out_of_time()) {st.complete=false; break;}
        }
        vr::ctx().states+=st.nodes; vr::ctx().transitions+=st.points; vr::ctx().traces+=st.executions;
    }
}

// ---------------- interposed functions ----------------
VIS int pthread_mutex_lock(pthread_mutex_t* m) {
    if(!on()) {static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m);}
    In in; lock_mutex(m); return 0;
}
VIS int pthread_mutex_trylock(pthread_mutex_t* m) {
    if(!on()) {static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m);}
    In in; spoint("trylock"); Sync& s=sync_of(m); bool rec=(m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE;
    if(s.owner>=0 && !(rec&&s.owner==self)) return EBUSY; s.owner=self; s.count++; hb_acquire(m); return 0;
}
VIS int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if(!on()) {static auto f=real<int(*)(pthread_mutex_t*,const struct timespec*)>("pthread_mutex_timedlock"); return f(m,ts);}
    In in; return lock_mutex(m,true,ts2ns(ts))?0:ETIMEDOUT;
}
VIS int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    if(!on()) {static auto f=real<int(*)(pthread_mutex_t*,clockid_t,const struct timespec*)>("pthread_mutex_clocklock"); return f(m,c,ts);}
    In in; return lock_mutex(m,true,ts2ns(ts))?0:ETIMEDOUT;
}
VIS int pthread_mutex_unlock(pthread_mutex_t* m) {
    if(!on()) {static auto f=real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m);}
    In in; unlock_mutex(m); if(cfg.unlock_points) spoint("after-unlock"); return 0;
}
VIS int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if(!on()) {static auto f=real<int(*)(pthread_cond_t*,pthread_mutex_t*)>("pthread_cond_wait","GLIBC_2.3.2"); return f(c,m);}
    In in; return cond_wait(c,m,false,0);
}
VIS int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if(!on()) {static auto f=real<int(*)(pthread_cond_t*,pthread_mutex_t*,const struct timespec*)>("pthread_cond_timedwait","GLIBC_2.3.2"); return f(c,m,ts);}
    In in; return cond_wait(c,m,true,ts2ns(ts));
}
VIS int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if(!on()) {static auto f=real<int(*)(pthread_cond_t*,pthread_mutex_t*,clockid_t,const struct timespec*)>("pthread_cond_clockwait"); return f(c,m,k,ts);}
    In in; return cond_wait(c,m,true,ts2ns(ts));
}
VIS int pthread_cond_signal(pthread_cond_t* c) {
    if(!on()) {static auto f=real<int(*)(pthread_cond_t*)>("pthread_cond_signal","GLIBC_2.3.2"); return f(c);}
    In in; cond_signal(c,false); return 0;
}
VIS int pthread_cond_broadcast(pthread_cond_t* c) {
    if(!on()) {static auto f=real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast","GLIBC_2.3.2"); return f(c);}
    In in; cond_signal(c,true); return 0;
}
VIS int pthread_cond_destroy(pthread_cond_t* c) {
    if(!on()) {static auto f=real<int(*)(pthread_cond_t*)>("pthread_cond_destroy","GLIBC_2.3.2"); return f(c);}
    In in; for(int t=0;t<nT;++t) if(T[t].pend==P_COND && T[t].obj==c) vfail("cond-destroyed-in-use","a condition variable is destroyed while a thread waits on it");
    return 0;
}
VIS int pthread_create(pthread_t* pt, const pthread_attr_t* a, void*(*fn)(void*), void* arg) {
    static auto f=real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create");
    if(!on()) return f(pt,a,fn,arg);
    In in; if(nT>=MAXT) vfail("harness:too-many-threads","too many threads");
    int id=nT++; memset(&T[id],0,sizeof T[id]); T[id].pend=P_RUN; T[id].what="start";
    T[id].vc=T[self].vc; T[id].vc.c[id]=1; ++T[self].vc.c[self];
    W[id].f=fn; W[id].a=arg;
    if(!W[id].up) {if(f(&W[id].real,nullptr,worker_main,(void*)(intptr_t)id)) vfail("harness:pthread_create","pthread_create failed"); W[id].up=true;}
    T[id].real=W[id].real;
    *pt=T[id].real; T[id].created=true; spoint("after-create"); return 0;
}
VIS int pthread_join(pthread_t pt, void** ret) {
    static auto f=real<int(*)(pthread_t,void**)>("pthread_join");
    if(!on()) return f(pt,ret);
    In in; int id=-1; for(int t=1;t<nT;++t) if(T[t].created && pthread_equal(T[t].real,pt)) id=t;
    if(id<0) return f(pt,ret);
    Thr& x=T[self]; x.pend=P_JOIN; x.jtgt=id; x.timed=false; x.what="join"; reschedule(); x.pend=P_RUN;
    vcjoin(T[self].vc,T[id].vc); T[id].created=false; if(ret) *ret=nullptr; return 0;
}
VIS int pthread_detach(pthread_t pt) {
    static auto f=real<int(*)(pthread_t)>("pthread_detach"); if(on()) return 0; return f(pt);
}
VIS int pthread_once(pthread_once_t* o, void(*fn)()) {
    static auto f=real<int(*)(pthread_once_t*,void(*)())>("pthread_once");
    if(!on()) return f(o,fn);
    {In in; if(*o==2) {hb_acquire(o); return 0;}
     Thr& x=T[self]; x.pend=P_ONCE; x.obj=o; x.timed=false; x.what="once"; reschedule(); x.pend=P_RUN;
     if(*o==2) {hb_acquire(o); return 0;}
     sync_of(o).owner=self;}
    try {fn();} catch(...) {In in; sync_of(o).owner=-1; throw;}
    {In in; *o=2; hb_release(o); sync_of(o).owner=-1;}
    return 0;
}
VIS int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    static auto f=real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); if(!on()) return f(l);
    In in; Thr& x=T[self]; x.pend=P_RD; x.obj=l; x.timed=false; x.what="rdlock"; reschedule(); x.pend=P_RUN; sync_of(l).readers++; hb_acquire(l); return 0;
}
VIS int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    static auto f=real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); if(!on()) return f(l);
    In in; Thr& x=T[self]; x.pend=P_WR; x.obj=l; x.timed=false; x.what="wrlock"; reschedule(); x.pend=P_RUN; sync_of(l).owner=self; hb_acquire(l); return 0;
}
VIS int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    static auto f=real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); if(!on()) return f(l);
    In in; hb_release(l); Sync& s=sync_of(l); if(s.owner==self) s.owner=-1; else if(s.readers>0) s.readers--; return 0;
}
VIS int sched_yield() {
    if(!on()) return (int)syscall(SYS_sched_yield);
    In in; T[self].yielded=true; spoint("yield"); return 0;
}
static int vsleep(uint64_t dl) {Thr& x=T[self]; x.pend=P_SLEEP; x.timed=true; x.deadline=dl; x.what="sleep"; reschedule(); x.pend=P_RUN; x.timed=false; return 0;}
VIS int nanosleep(const struct timespec* r, struct timespec* rem) {
    if(!on()) return (int)syscall(SYS_nanosleep,r,rem);
    In in; return vsleep(vclock+ts2ns(r));
}
VIS int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec* rem) {
    if(!on()) return (int)-syscall(SYS_clock_nanosleep,c,fl,r,rem);
    In in; return vsleep(fl?ts2ns(r):vclock+ts2ns(r));
}
VIS int usleep(useconds_t u) {
    if(!on()) {struct timespec ts={(time_t)(u/1000000),(long)(u%1000000)*1000}; return (int)syscall(SYS_nanosleep,&ts,nullptr);}
    In in; return vsleep(vclock+u*1000ull);
}
VIS int clock_gettime(clockid_t c, struct timespec* ts) {
    if(!g_active || self<0) return (int)syscall(SYS_clock_gettime,c,ts);
    ts->tv_sec=(time_t)(vclock/1000000000ull); ts->tv_nsec=(long)(vclock%1000000000ull); return 0;
}
VIS int gettimeofday(struct timeval* tv, void*) {
    if(!g_active || self<0) {struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0;}
    tv->tv_sec=(time_t)(vclock/1000000000ull); tv->tv_usec=(long)(vclock%1000000000ull)/1000; return 0;
}
// libstdc++ futures block through these (member functions: 'this' comes first)
static bool fwait(unsigned* a, unsigned v, bool timed, int64_t s, int64_t ns, bool steady) {
    if(!on()) {
        struct timespec ts={s,ns};
        int op=FUTEX_WAIT_BITSET|FUTEX_PRIVATE_FLAG|(steady?0:FUTEX_CLOCK_REALTIME);
        long r=syscall(SYS_futex,a,op,v,timed?&ts:nullptr,nullptr,FUTEX_BITSET_MATCH_ANY);
        return !(r<0 && errno==ETIMEDOUT);
    }
    In in; Thr& x=T[self]; x.pend=P_FUTEX; x.obj=a; x.fval=v; x.timed=timed; x.deadline=timed?(uint64_t)s*1000000000ull+(uint64_t)ns:0; x.what="future-wait";
    reschedule(); x.pend=P_RUN; bool to=x.wake==1; x.timed=false; if(!to) hb_acquire(a); return !to;
}
extern "C" {
    __attribute__((visibility("default"))) bool mc_futex_wait(void*, unsigned* a, unsigned v, bool timed, int64_t s, int64_t ns) asm("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
    __attribute__((visibility("default"))) bool mc_futex_wait_steady(void*, unsigned* a, unsigned v, bool timed, int64_t s, int64_t ns) asm("_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
    __attribute__((visibility("default"))) void mc_futex_notify(void*, unsigned* a) asm("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
    bool mc_futex_wait(void*, unsigned* a, unsigned v, bool timed, int64_t s, int64_t ns) {return fwait(a,v,timed,s,ns,false);}
    bool mc_futex_wait_steady(void*, unsigned* a, unsigned v, bool timed, int64_t s, int64_t ns) {return fwait(a,v,timed,s,ns,true);}
    void mc_futex_notify(void*, unsigned* a) {
        if(on()) {In in; hb_release(a); return;}
        syscall(SYS_futex,a,FUTEX_WAKE|FUTEX_PRIVATE_FLAG,0x7fffffff,nullptr,nullptr,0);
    }
}

#ifdef MC_RACE
// ---- stand-in ThreadSanitizer runtime: feeds the race detector and makes atomics scheduling points ----
#define PC __builtin_return_address(0)
#define RW(n) \
    VIS void __tsan_read##n(void* a) {if(on()) access((uintptr_t)a,n,false,PC);} \
    VIS void __tsan_write##n(void* a) {if(on()) access((uintptr_t)a,n,true,PC);} \
    VIS void __tsan_unaligned_read##n(void* a) {if(on()) access((uintptr_t)a,n,false,PC);} \
    VIS void __tsan_unaligned_write##n(void* a) {if(on()) access((uintptr_t)a,n,true,PC);} \
    VIS void __tsan_volatile_read##n(void* a) {} \
    VIS void __tsan_volatile_write##n(void* a) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
VIS void __tsan_read_range(void* a, unsigned long n) {if(on()) access((uintptr_t)a,n,false,PC);}
VIS void __tsan_write_range(void* a, unsigned long n) {if(on()) access((uintptr_t)a,n,true,PC);}
VIS void __tsan_vptr_update(void**, void*) {}
VIS void __tsan_vptr_read(void**) {}
VIS void __tsan_func_entry(void*) {}
VIS void __tsan_func_exit() {}
VIS void __tsan_init() {}
VIS void __tsan_atomic_thread_fence(int) {__atomic_thread_fence(__ATOMIC_SEQ_CST);}
VIS void __tsan_atomic_signal_fence(int) {}
static void at_pre(const volatile void* a, bool pt) {if(on()) {In in; if(pt && cfg.atomic_points) spoint("atomic"); hb_acquire((void*)a);}}
static void at_post(const volatile void* a) {if(on()) {In in; hb_release((void*)a);}}
#define AT(n,T_,PTRMW) \
    VIS T_ __tsan_atomic##n##_load(const volatile T_* a, int) {at_pre(a,true); return __atomic_load_n(a,__ATOMIC_SEQ_CST);} \
    VIS void __tsan_atomic##n##_store(volatile T_* a, T_ v, int) {at_pre(a,true); __atomic_store_n(a,v,__ATOMIC_SEQ_CST); at_post(a);} \
    VIS T_ __tsan_atomic##n##_exchange(volatile T_* a, T_ v, int) {at_pre(a,true); T_ r=__atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); at_post(a); return r;} \
    VIS T_ __tsan_atomic##n##_fetch_add(volatile T_* a, T_ v, int) {at_pre(a,PTRMW); T_ r=__atomic_fetch_add(a,v,__ATOMIC_SEQ_CST); at_post(a); return r;} \
    VIS T_ __tsan_atomic##n##_fetch_sub(volatile T_* a, T_ v, int) {at_pre(a,PTRMW); T_ r=__atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST); at_post(a); return r;} \
    VIS T_ __tsan_atomic##n##_fetch_and(volatile T_* a, T_ v, int) {at_pre(a,PTRMW); T_ r=__atomic_fetch_and(a,v,__ATOMIC_SEQ_CST); at_post(a); return r;} \
    VIS T_ __tsan_atomic##n##_fetch_or(volatile T_* a, T_ v, int) {at_pre(a,PTRMW); T_ r=__atomic_fetch_or(a,v,__ATOMIC_SEQ_CST); at_post(a); return r;} \
    VIS T_ __tsan_atomic##n##_fetch_xor(volatile T_* a, T_ v, int) {at_pre(a,PTRMW); T_ r=__atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST); at_post(a); return r;} \
    VIS T_ __tsan_atomic##n##_fetch_nand(volatile T_* a, T_ v, int) {at_pre(a,PTRMW); T_ r=__atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST); at_post(a); return r;} \
    VIS int __tsan_atomic##n##_compare_exchange_strong(volatile T_* a, T_* c, T_ v, int, int) {at_pre(a,true); int r=__atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); at_post(a); return r;} \
    VIS int __tsan_atomic##n##_compare_exchange_weak(volatile T_* a, T_* c, T_ v, int, int) {at_pre(a,true); int r=__atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); at_post(a); return r;} \
    VIS T_ __tsan_atomic##n##_compare_exchange_val(volatile T_* a, T_ c, T_ v, int, int) {at_pre(a,true); __atomic_compare_exchange_n(a,&c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); at_post(a); return c;}
AT(8,uint8_t,true) AT(16,uint16_t,true) AT(32,uint32_t,false) AT(64,uint64_t,true)
extern "C" void __libc_free(void*);
VIS void free(void* p) {if(p && on()) {In in; clear_range((uintptr_t)p,malloc_usable_size(p));} __libc_free(p);}
namespace { struct RaceInit {RaceInit() {grans=(Gran*)calloc(NG,sizeof(Gran)); used=(uint32_t*)calloc(NG,4);}} race_init; }
#endif
