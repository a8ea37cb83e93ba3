// P03: packet precacher.  P04: asynchronous packet writer.  Real code, every request/queue history x every schedule within bounds.
#include "litiv/datasets.hpp"
#include "sched.hpp"
#include "report.hpp"
using namespace mc;

#define BUFSZ 64 // == LITIV_VERIF_CACHE_MIN_SIZE
namespace {
    // ---------- precacher ----------
    // packet sizes (bytes) per index for each stream; index >= count means end of stream (empty packet)
    struct Stream {const char* name; std::vector<int> sz;};
    const std::vector<Stream>& streams() {
        static const std::vector<Stream> v={
            {"small",{8,8,8,8}}, {"tight",{32,32,32,32}}, {"odd",{24,24,24,24}}, {"mixed",{40,8,24,16}}, {"big",{16,80,16,64}}, {"gap",{16,0,16,16}}, {"full",{64,64,8,56}},
        };
        return v;
    }
    cv::Mat make_packet(const Stream& s, size_t i) {
        if(i>=s.sz.size() || s.sz[i]==0) return cv::Mat();
        int n=s.sz[i]; cv::Mat m;
        if(i%3==0) m.create(1,n,CV_8UC1);
        else if(i%3==1) m.create(n/8,2,CV_16SC2);
        else {int d[3]={n/8,2,2}; m.create(3,d,CV_16UC1);}
        for(int k=0;k<n;++k) m.data[k]=(uchar)(31*i+7*k+1);
        return m;
    }
    bool same(const cv::Mat& a, const cv::Mat& b) {
        if(a.empty()&&b.empty()) return true;
        if(a.empty()!=b.empty()||a.dims!=b.dims||a.type()!=b.type()||a.total()!=b.total()) return false;
        for(int d=0;d<a.dims;++d) if(a.size[d]!=b.size[d]) return false;
        return a.isContinuous() && memcmp(a.data,b.data,a.total()*a.elemSize())==0;
    }
    struct PCfg {int s0,s1; int depth; bool rest; bool lifecycle; int throw_at; bool slow; bool burst;};
    void prec_body(void* arg) {
        const PCfg& c=*(const PCfg*)arg;
        const int si=c.s0+mc::choose(c.s1-c.s0); const Stream& st=streams()[si];
        const size_t N=st.sz.size();
        std::string hist; std::atomic<bool> throwing(c.throw_at>=0); int nthrown=0;
        {
            lv::DataPrecacher p([&](size_t i)->cv::Mat {
                if(throwing && int(i)==c.throw_at) {throw std::runtime_error("loader");}
                if(c.slow && i==1) std::this_thread::sleep_for(std::chrono::seconds(6));
                return make_packet(st,i);
            });
            bool act=p.startAsyncPrecaching(1);
            if(!act || !p.isActive()) fail("not-started","startAsyncPrecaching(1) did not activate precaching");
            size_t last=size_t(-1); 
            for(int d=0;d<c.depth;++d) {
                int nops=int(N)+1+(c.lifecycle?2:0);
                int op=mc::choose(nops);
                if(op<=int(N)) {
                    size_t idx=size_t(op); hist+=vr::fmt(" get%zu",idx);
                    if(c.rest && mc::choose(2)) {hist+="(idle)"; std::this_thread::sleep_for(std::chrono::milliseconds(25));}
                    try {
                        const cv::Mat& m=p.getPacket(idx);
                        cv::Mat ref=make_packet(st,idx);
                        if(throwing && int(idx)==c.throw_at) fail("error-swallowed","stream %s, history%s: loader failed for packet %zu but a packet was returned",st.name,hist.c_str(),idx);
                        if(!same(m,ref)) fail("wrong-packet","stream %s, history%s: packet %zu differs from what the loader produced",st.name,hist.c_str(),idx);
                        if(p.getLastReqIdx()!=idx) fail("last-idx","stream %s, history%s: last requested index reported as %zu",st.name,hist.c_str(),p.getLastReqIdx());
                        // the packet must stay intact while held, whatever the precaching thread does
                        if(c.burst && !mc::choose(2)) {last=idx; continue;} // next request follows at once
                        if(c.burst) hist+="(hold)";
                        std::this_thread::sleep_for(std::chrono::milliseconds(25));
                        if(!same(m,ref)) fail("packet-overwritten","stream %s, history%s: packet %zu was overwritten while held",st.name,hist.c_str(),idx);
                        last=idx;
                    }
                    catch(std::runtime_error& e) {
                        if(!throwing) fail("spurious-error","stream %s, history%s: unexpected error %s",st.name,hist.c_str(),e.what());
                        if(std::string(e.what())!="loader") fail("wrong-error","stream %s, history%s: error '%s' instead of the loader's",st.name,hist.c_str(),e.what());
                        ++nthrown;
                    }
                }
                else if(op==int(N)+1) {hist+=" stop"; try {p.stopAsyncPrecaching();} catch(std::runtime_error& e) {if(!throwing||std::string(e.what())!="loader") fail("spurious-error","history%s: %s",hist.c_str(),e.what()); ++nthrown;} if(p.isActive()) fail("still-active","history%s: active after stop",hist.c_str());}
                else {hist+=" start"; try {if(!p.startAsyncPrecaching(1)) fail("not-started","history%s: restart failed",hist.c_str());} catch(std::runtime_error& e) {if(!throwing||std::string(e.what())!="loader") fail("spurious-error","history%s: %s",hist.c_str(),e.what()); ++nthrown;}}
            }
            (void)last;
            if(throwing) { // the failing loader recovers: packets must be obtainable again after a restart
                throwing=false;
                bool ok=false; for(int k=0;k<2 && !ok;++k) {try {p.startAsyncPrecaching(1); ok=true;} catch(std::runtime_error&) {}}
                if(!ok) fail("error-sticky","history%s: the loader's error is delivered again and again",hist.c_str());
                for(size_t i=0;i<N;++i) {try {if(!same(p.getPacket(i),make_packet(st,i))) fail("wrong-packet","history%s: after recovery packet %zu is wrong",hist.c_str(),i);} catch(std::runtime_error& e) {fail("error-sticky","history%s: after recovery packet %zu fails with %s",hist.c_str(),i,e.what());}}
            }
        }
        vr::ctx().evals++;
        if(vr::ctx().samples.size()<6 && hist.size()>20) vr::sample(std::string(st.name)+hist);
    }

    // ---------- writer ----------
    struct Rec {int idx, ver;};
    struct WCfg {int workers; bool drop; int depth; int nidx; int throw_idx; int mode; bool restart;};
    // packet content encodes idx/version/size
    cv::Mat wpacket(int idx, int ver, int n) {cv::Mat m(1,n,CV_8UC1); for(int k=0;k<n;++k) m.data[k]=(uchar)(idx*64+ver*8+(k&7)); return m;}
    struct World {
        std::mutex mtx; std::vector<Rec> written; int active[8]={0}; std::map<std::pair<int,int>,int> started;
        int throw_idx=-1; lv::DataWriter* w=nullptr; size_t maxq=0; std::string hist;
    };
    size_t wcallback(World& W, const cv::Mat& m, size_t idx) {
        int n=(int)m.total(); 
        if(n==0 || idx>=8) fail("garbage-packet","history%s: writer called with idx %zu, %d bytes",W.hist.c_str(),idx,n);
        int ver=(m.data[0]-(int)idx*64)/8;
        auto ok=[&]{for(int k=0;k<n;++k) if(m.data[k]!=(uchar)(idx*64+ver*8+(k&7))) return false; return true;};
        if(!ok()) fail("corrupt-packet","history%s: packet %zu has corrupt content when written",W.hist.c_str(),idx);
        {std::lock_guard<std::mutex> l(W.mtx);
         if(W.active[idx]++) fail("concurrent-write","history%s: two versions of packet %zu are being written at once",W.hist.c_str(),idx);
         if(W.w && W.maxq && W.w->isActive() && W.w->getCurrentQueueSize()>W.maxq) fail("queue-overflow","history%s: queue holds %zu bytes, limit %zu",W.hist.c_str(),W.w->getCurrentQueueSize(),W.maxq);}
        mc::point("writing");
        if(!ok()) fail("corrupt-packet","history%s: packet %zu changed while being written",W.hist.c_str(),idx);
        {std::lock_guard<std::mutex> l(W.mtx); W.active[idx]--; W.written.push_back(Rec{(int)idx,ver});}
        if(W.throw_idx==(int)idx) throw std::runtime_error("disk");
        return 77;
    }
    void wcheck(World& W, const std::vector<Rec>& accepted, const std::vector<Rec>& dropped) {
        for(auto& d : dropped) for(auto& x : W.written) if(x.idx==d.idx && x.ver==d.ver) fail("dropped-written","history%s: packet %d v%d was reported dropped but written",W.hist.c_str(),d.idx,d.ver);
        for(size_t i=0;i<accepted.size();++i) {
            auto& a=accepted[i]; int cnt=0; size_t pos=0; for(size_t k=0;k<W.written.size();++k) if(W.written[k].idx==a.idx && W.written[k].ver==a.ver) {++cnt; pos=k;}
            if(cnt>1) fail("written-twice","history%s: packet %d v%d written %d times",W.hist.c_str(),a.idx,a.ver,cnt);
            bool superseded=false; for(size_t j=i+1;j<accepted.size();++j) superseded|=accepted[j].idx==a.idx;
            if(cnt==0 && !superseded) fail("packet-lost","history%s: packet %d v%d was accepted but never written",W.hist.c_str(),a.idx,a.ver);
            if(cnt==1 && !superseded) for(size_t k=pos+1;k<W.written.size();++k) if(W.written[k].idx==a.idx) fail("stale-final","history%s: packet %d v%d was written before an older version",W.hist.c_str(),a.idx,a.ver);
        }
        for(auto& x : W.written) {bool f=false; for(auto& a : accepted) f|=a.idx==x.idx&&a.ver==x.ver; if(!f) fail("phantom-write","history%s: packet %d v%d written but never accepted",W.hist.c_str(),x.idx,x.ver);}
    }
    void writer_body(void* arg) {
        const WCfg& c=*(const WCfg*)arg; World W; W.throw_idx=c.throw_idx;
        std::vector<Rec> acc,drp; bool anythrow=false; int ver[8]={0};
        {
            lv::DataWriter w([&](const cv::Mat& m, size_t i){return wcallback(W,m,i);});
            W.w=&w;
            if(!w.startAsyncWriting(BUFSZ,c.drop,c.workers) || !w.isActive()) fail("not-started","writer did not start");
            W.maxq=w.getMaxQueueSize(); if(W.maxq!=BUFSZ) fail("max-queue-size","queue limit is %zu, asked for %d",W.maxq,BUFSZ);
            for(int d=0;d<c.depth;++d) {
                int op=mc::choose(c.nidx*2); int idx=op/2, n=(op%2)?40:24; int v=ver[idx]++;
                {std::lock_guard<std::mutex> l(W.mtx); W.hist+=vr::fmt(" q%d(%d)",idx,n);}
                // the provider's packet lives in a matrix of its own, in plain user memory, or is a view in a larger image
                cv::Mat pk=wpacket(idx,v,n), keep; std::vector<uchar> mem;
                if((idx+v+d)%3==1) {mem.assign(pk.data,pk.data+n); pk=cv::Mat(1,n,CV_8UC1,mem.data());}
                else if((idx+v+d)%3==2) {keep=cv::Mat(4,n/2+3,CV_8UC1,cv::Scalar(201)); cv::Mat view=keep(cv::Rect(2,1,n/2,2)); pk.reshape(1,2).copyTo(view); pk=view;}
                bool chk=w.queue_check(pk,idx);
                if(!c.drop && !chk) fail("queue-check","history%s: a blocking queue claims it would drop",W.hist.c_str());
                size_t pos=w.queue(pk,idx);
                pk.setTo(cv::Scalar(255)); // the provider recycles its memory
                bool dropped=pos==SIZE_MAX;
                if(dropped && !c.drop) fail("dropped","history%s: packet dropped by a blocking queue",W.hist.c_str());
                if(dropped && chk && v==0) fail("queue-check","history%s: packet dropped although the preceding check said it would be accepted",W.hist.c_str());
                if(!dropped && pos>=size_t(c.nidx)) fail("queue-position","history%s: position %zu with %d distinct packets",W.hist.c_str(),pos,c.nidx);
                (dropped?drp:acc).push_back(Rec{idx,v});
                if(w.getCurrentQueueSize()>W.maxq) fail("queue-overflow","history%s: queue holds %zu bytes, limit %zu",W.hist.c_str(),w.getCurrentQueueSize(),W.maxq);
            }
            if(c.mode==0) {
                try {w.stopAsyncWriting();} catch(std::runtime_error& e) {anythrow=true; if(c.throw_idx<0||std::string(e.what())!="disk") fail("spurious-error","history%s: %s",W.hist.c_str(),e.what());}
                if(w.isActive()) fail("still-active","writer active after stop");
                wcheck(W,acc,drp);
                if(w.getCurrentQueueCount()!=0||w.getCurrentQueueSize()!=0) fail("not-drained","history%s: after stop the queue reports %zu packets, %zu bytes",W.hist.c_str(),w.getCurrentQueueCount(),w.getCurrentQueueSize());
                bool must=false; for(auto& x : W.written) must|=x.idx==c.throw_idx;
                if(must!=anythrow) fail("error-report","history%s: write errors occurred=%d but reported=%d",W.hist.c_str(),(int)must,(int)anythrow);
                try {w.stopAsyncWriting();} catch(...) {fail("error-sticky","history%s: second stop throws again",W.hist.c_str());}
                if(c.restart) { // restart: nothing leaks from the previous session
                    size_t before=W.written.size(); W.throw_idx=-1;
                    if(!w.startAsyncWriting(BUFSZ,c.drop,c.workers)) fail("not-started","writer did not restart");
                    int v=ver[0]++; W.hist+=" restart q0"; acc.push_back(Rec{0,v}); w.queue(wpacket(0,v,8),0);
                    w.stopAsyncWriting();
                    if(W.written.size()!=before+1) fail("packet-lost","history%s: %zu packets written after restart, expected 1",W.hist.c_str(),W.written.size()-before);
                }
                // inactive writer: synchronous call-through
                W.throw_idx=-1; int v=ver[1]++; acc.push_back(Rec{1,v}); if(w.queue(wpacket(1,v,8),1)!=77) fail("sync-write","inactive writer did not return the callback's result");
            }
        }
        W.w=nullptr;
        if(c.mode==1) wcheck(W,acc,drp);
        else wcheck(W,acc,drp);
        vr::ctx().evals++;
        if(vr::ctx().samples.size()<6) vr::sample(vr::fmt("writer(%d workers%s)",c.workers,c.drop?", drop":"")+W.hist);
    }
    // two producers; optionally the second one races with stop()
    struct W2Cfg {int workers; bool drop; bool race_stop;};
    void writer2_body(void* arg) {
        const W2Cfg& c=*(const W2Cfg*)arg; World W; std::vector<Rec> acc,drp; 
        {
            lv::DataWriter w([&](const cv::Mat& m, size_t i){return wcallback(W,m,i);});
            W.w=nullptr;
            w.startAsyncWriting(BUFSZ,c.drop,c.workers);
            auto prod=[&](int first, std::vector<Rec>& a, std::vector<Rec>& dr){
                for(int k=0;k<2;++k) {size_t pos=w.queue(wpacket(first+k,0,40),first+k); (pos==SIZE_MAX?dr:a).push_back(Rec{first+k,0});}
            };
            std::vector<Rec> a2,d2;
            std::thread t([&]{prod(2,a2,d2);});
            if(c.race_stop) {int v=0; size_t pos=w.queue(wpacket(0,v,40),0); (pos==SIZE_MAX?drp:acc).push_back(Rec{0,v}); w.stopAsyncWriting(); t.join();}
            else {prod(0,acc,drp); t.join(); w.stopAsyncWriting();}
            acc.insert(acc.end(),a2.begin(),a2.end()); drp.insert(drp.end(),d2.begin(),d2.end());
            if(!c.drop && !drp.empty()) fail("dropped","packet dropped by a blocking queue");
            wcheck(W,acc,drp);
        }
        vr::ctx().evals++;
    }
    // writing threads are held at a gate: occupancy, acceptance and reported sizes are then determined by the history alone
    struct WGCfg {int workers; bool drop; int depth;};
    void writer_gate_body(void* arg) {
        const WGCfg& c=*(const WGCfg*)arg; World W; std::vector<Rec> acc,drp; int ver[4]={0};
        std::mutex gm; std::condition_variable gc; int open=0; bool allopen=false; std::set<std::pair<int,int>> inflight; std::map<std::pair<int,int>,int> size;
        {
            lv::DataWriter w([&](const cv::Mat& m, size_t i)->size_t{
                int ver=(m.data[0]-(int)i*64)/8;
                {std::unique_lock<std::mutex> l(gm); inflight.insert({(int)i,ver}); gc.wait(l,[&]{return allopen||open>0;}); if(!allopen) --open; inflight.erase({(int)i,ver});}
                return wcallback(W,m,i);});
            if(!w.startAsyncWriting(BUFSZ,c.drop,c.workers)) fail("not-started","writer did not start");
            std::map<int,int> waiting; // index -> version accepted and not yet being written
            auto settle=[&]{std::this_thread::sleep_for(std::chrono::milliseconds(1));};
            for(int d=0;d<c.depth;++d) {
                settle();
                size_t used=0,cnt=0;
                {std::lock_guard<std::mutex> l(gm); for(auto& f : inflight) {used+=size[f]; ++cnt; auto it=waiting.find(f.first); if(it!=waiting.end() && it->second==f.second) waiting.erase(it);}}
                for(auto& q : waiting) {used+=size[{q.first,q.second}]; ++cnt;}
                if(w.getCurrentQueueSize()!=used || w.getCurrentQueueCount()!=cnt) fail("queue-occupancy","history%s: queue reports %zu packets and %zu bytes, it holds %zu and %zu",W.hist.c_str(),w.getCurrentQueueCount(),w.getCurrentQueueSize(),cnt,used);
                const int nw=(int)std::min(waiting.size()+inflight.size(),(size_t)c.workers); (void)nw;
                const int op=mc::choose(7);
                if(op==6) {std::lock_guard<std::mutex> l(gm); if(!inflight.empty()) {++open; gc.notify_one();} W.hist+=" write"; continue;}
                const int idx=op/2, n=(op%2)?40:24, v=ver[idx];
                cv::Mat pk=wpacket(idx,v,n);
                auto old=waiting.find(idx); const size_t oldsz=old==waiting.end()?0:size[{idx,old->second}];
                const bool fits=used-oldsz+n<=BUFSZ;
                if(!c.drop && !fits) {W.hist+=" (full)"; continue;} // would block for ever at the gate
                W.hist+=vr::fmt(" q%d(%d)",idx,n); ++ver[idx];
                const bool chk=w.queue_check(pk,idx);
                if(chk!=fits) fail("queue-check","history%s: the check says %s, %zu of %d bytes are free",W.hist.c_str(),chk?"accepted":"dropped",BUFSZ-(used-oldsz),BUFSZ);
                const size_t pos=w.queue(pk,idx); pk.setTo(cv::Scalar(255));
                if((pos!=SIZE_MAX)!=fits) fail(fits?"dropped":"queue-overflow","history%s: packet %s although %zu of %d bytes are free",W.hist.c_str(),fits?"dropped":"accepted",BUFSZ-(used-oldsz),BUFSZ);
                (fits?acc:drp).push_back(Rec{idx,v});
                if(fits) {waiting[idx]=v; size[{idx,v}]=n;}
            }
            {std::lock_guard<std::mutex> l(gm); allopen=true; gc.notify_all();}
            w.stopAsyncWriting();
            wcheck(W,acc,drp);
        }
        vr::ctx().evals++;
    }
    // long sessions: dozens of packets of changing sizes through a small queue
    struct WLCfg {int workers; bool drop;};
    void writer_many_body(void* arg) {
        const WLCfg& c=*(const WLCfg*)arg; const int N=60; std::map<int,int> cnt; std::mutex m; std::set<int> acc;
        const int pat=mc::choose(4), every=1+mc::choose(3);
        auto sz=[&](int i){return pat==0?8:pat==1?24:pat==2?(i%2?40:16):(i*7)%57+1;};
        lv::DataWriter w([&](const cv::Mat& p, size_t i)->size_t{
            bool ok=(int)p.total()==sz((int)i); for(size_t k=0;ok && k<p.total();++k) ok=p.data[k]==(uchar)(i*31+k*7+1);
            if(!ok) fail("corrupt-packet","long session: packet %zu has corrupt content when written",i);
            std::lock_guard<std::mutex> l(m); if(++cnt[(int)i]>1) fail("written-twice","long session: packet %zu written twice",i); return 77;});
        w.startAsyncWriting(BUFSZ,c.drop,c.workers);
        for(int i=0;i<N;++i) {
            cv::Mat p(1,sz(i),CV_8UC1); for(int k=0;k<p.cols;++k) p.data[k]=(uchar)(i*31+k*7+1);
            size_t pos=w.queue(p,i); p.setTo(cv::Scalar(255));
            if(pos!=SIZE_MAX) acc.insert(i); else if(!c.drop) fail("dropped","long session: packet %d dropped by a blocking queue",i);
            if(w.getCurrentQueueSize()>BUFSZ) fail("queue-overflow","long session: queue holds %zu bytes",w.getCurrentQueueSize());
            if(i%every==0) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        w.stopAsyncWriting();
        if(cnt.size()!=acc.size()) fail("packet-lost","long session: %zu packets accepted, %zu written",acc.size(),cnt.size());
        for(int i : acc) if(!cnt.count(i)) fail("packet-lost","long session: packet %d accepted, never written",i);
        if(w.getCurrentQueueCount()!=0||w.getCurrentQueueSize()!=0) fail("not-drained","long session: queue reports %zu packets after stop",w.getCurrentQueueCount());
        vr::ctx().evals++;
    }
    // long streams: a full pass, with pauses, jumps back and ahead
    void prec_many_body(void*) {
        const int N=50, pat=mc::choose(4), every=mc::choose(4), jump=mc::choose(5), at=mc::choose(3)*11+9;
        Stream st; st.name="long"; for(int i=0;i<N;++i) st.sz.push_back(pat==0?8:pat==1?24:pat==2?(i%2?40:8):(i%5==4?72:8*(1+i%4)));
        std::string hist=vr::fmt(" sizes %d, pause every %d",pat,every);
        lv::DataPrecacher p([&](size_t i)->cv::Mat {return make_packet(st,i);});
        if(!p.startAsyncPrecaching(1)) fail("not-started","startAsyncPrecaching(1) did not activate precaching");
        auto get=[&](int i){const cv::Mat& m=p.getPacket(i); if(!same(m,make_packet(st,i))) fail("wrong-packet","long stream,%s: packet %d differs from what the loader produced",hist.c_str(),i);};
        for(int i=0;i<N;++i) {
            get(i);
            if(every && i%every==0) {std::this_thread::sleep_for(std::chrono::milliseconds(25)); get(i);}
            if(i==at && jump) {
                if(jump==1) {hist+=vr::fmt(", back to 0 at %d",i); for(int k=0;k<=i;++k) get(k);}
                else if(jump==2) {hist+=vr::fmt(", one step back at %d",i); get(i-1); get(i);}
                else if(jump==3) {hist+=vr::fmt(", ahead and back at %d",i); get(i+9); get(i); }
                else {hist+=vr::fmt(", skip 5 at %d",i); i+=5; get(i);}
            }
        }
        for(int i=N;i<N+2;++i) get(i);
        get(N-1); get(0); get(1);
        vr::ctx().evals++;
    }
}
int main(int argc, char** argv) {
    vr::init(argc,argv); lv::setVerbosity(0); cv::setNumThreads(1);
    bool th=vr::ctx().thorough;
    {cv::Mat a(4,4,CV_8UC1); cv::Mat b=a.clone(); b.setTo(cv::Scalar(1));} // warm up
    auto run=[&](const char* nm, int qb, int tb, body_t f, void* a, bool spurious=true, bool single=false) {
        const std::string& part=vr::ctx().part;
        if(!part.empty() && std::string(nm).compare(0,part.size(),part)!=0) return;
        if(vr::out_of_time()) return;
        Config c; c.bound=th?tb:qb; c.spurious=spurious; c.single=single; Stats st; explore(nm,c,f,a,st);
        if(vr::ctx().replay.empty()) vr::sample(vr::fmt("%s: bound %d, %llu executions, %llu choice states, depth %llu%s",nm,c.bound,(unsigned long long)st.executions,(unsigned long long)st.nodes,(unsigned long long)st.maxdepth,st.complete?"":" (budget reached)"));
        vr::nontrivial(nm);
    };
    // stream range, depth, idle choice, lifecycle ops, throwing index, slow loader
    static PCfg a1{0,7,3,true,false,-1,false,false}; run("prec-seq",0,1,prec_body,&a1);
    static PCfg a1b{1,4,4,false,false,-1,false,false}; run("prec-long",0,0,prec_body,&a1b);
    static PCfg a1c{1,th?5:4,5,false,false,-1,false,true}; run("prec-burst",0,0,prec_body,&a1c);
    static PCfg a2{3,5,2,false,false,-1,false,false}; run("prec-sched",1,2,prec_body,&a2);
    static PCfg a3{3,4,3,false,true,-1,false,false}; run("prec-life",0,1,prec_body,&a3);
    static PCfg a4{0,1,2,true,true,2,false,false}; run("prec-throw-a",0,1,prec_body,&a4);
    static PCfg a5{3,4,2,true,true,0,false,false}; run("prec-throw-b",0,1,prec_body,&a5);
    static PCfg a6{0,4,2,true,false,-1,true,false}; run("prec-slow",1,1,prec_body,&a6);
    static WCfg w1{1,false,2,2,-1,0,true}; run("wr-1w-block",2,3,writer_body,&w1);
    static WCfg w2{2,false,2,2,-1,0,true}; run("wr-2w-block",1,2,writer_body,&w2);
    static WCfg w3{1,true,3,2,-1,0,false}; run("wr-1w-drop",2,3,writer_body,&w3);
    static WCfg w4{2,true,3,2,-1,1,false}; run("wr-2w-drop",1,1,writer_body,&w4);
    static WCfg w5{1,false,2,2,0,0,true}; run("wr-1w-throw",2,3,writer_body,&w5);
    static WCfg w6{2,false,2,2,0,0,false}; run("wr-2w-throw",1,1,writer_body,&w6);
    static WCfg w7{1,false,2,2,0,1,false}; run("wr-dtor-throw",2,3,writer_body,&w7);
    static WCfg w8{1,false,3,3,-1,1,false}; run("wr-1w-long",1,2,writer_body,&w8);
    static WGCfg g1{1,true,th?5:4}; run("wr-gate-1w-drop",0,0,writer_gate_body,&g1);
    static WGCfg g2{2,true,th?5:4}; run("wr-gate-2w-drop",0,0,writer_gate_body,&g2);
    static WGCfg g3{2,false,th?5:4}; run("wr-gate-2w-block",0,0,writer_gate_body,&g3);
    static WLCfg l1{1,false}; run("wr-many-1w",0,0,writer_many_body,&l1,true,true);
    static WLCfg l2{2,false}; run("wr-many-2w",0,0,writer_many_body,&l2,true,true);
    static WLCfg l3{2,true}; run("wr-many-2w-drop",0,0,writer_many_body,&l3,true,true);
    run("prec-many",0,0,prec_many_body,nullptr);
    static W2Cfg v1{1,false,false}; run("wr-2prod",1,2,writer2_body,&v1);
    static W2Cfg v2{2,false,false}; run("wr-2prod-2w",0,1,writer2_body,&v2);
    static W2Cfg v3{1,false,true}; run("wr-stoprace",2,3,writer2_body,&v3);
    static W2Cfg v4{1,true,true}; run("wr-stoprace-drop",2,3,writer2_body,&v4);
    return vr::finish();
}
