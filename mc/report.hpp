// Common reporting for harnesses: arguments, current-case marker (survives crashes),
// violations, coverage counters, samples.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>

namespace vr {
    inline double now() { // real clock, independent of any interposed clock
        struct timespec ts; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&ts); return ts.tv_sec+ts.tv_nsec*1e-9;
    }
    struct Viol { std::string key, msg, replay; };
    struct Ctx {
        bool thorough=false; std::string out, part, replay, scratch; double budget=1e9, t0=now();
        uint64_t states=0, transitions=0, evals=0, traces=0; bool exhaustive=true; uint64_t calls=0;
        std::map<std::string,uint64_t> counters; std::vector<std::string> samples; std::set<std::string> distinct; uint64_t nontriv=0;
        std::vector<Viol> viols; char* casebuf=nullptr; size_t maxviols=20;
    };
    inline Ctx& ctx() {static Ctx* c=new Ctx; return *c;}
    inline void jstr(FILE* f, const std::string& s) {
        fputc('"',f);
        for(unsigned char c : s) {
            if(c=='"'||c=='\\') {fputc('\\',f);fputc(c,f);}
            else if(c=='\n') fputs("\\n",f);
            else if(c<32||c>126) fprintf(f,"\\u%04x",c);
            else fputc(c,f);
        }
        fputc('"',f);
    }
    inline void dump() {
        Ctx& c=ctx(); if(c.out.empty()) return;
        std::string tmp=c.out+".tmp"; FILE* f=fopen(tmp.c_str(),"w"); if(!f) return;
        fprintf(f,"{\"states\":%llu,\"transitions\":%llu,\"evaluations\":%llu,\"traces\":%llu,\"distinct\":%llu,\"exhaustive\":%s,\"counters\":{",(unsigned long long)c.states,(unsigned long long)c.transitions,(unsigned long long)c.evals,(unsigned long long)c.traces,(unsigned long long)(c.distinct.size()+c.nontriv),c.exhaustive?"true":"false");
        bool first=true; for(auto& kv : c.counters) {if(!first) fputc(',',f); first=false; jstr(f,kv.first); fprintf(f,":%llu",(unsigned long long)kv.second);}
        fputs("},\"samples\":[",f); first=true;
        for(auto& s : c.samples) {if(!first) fputc(',',f); first=false; jstr(f,s);}
        fputs("],\"violations\":[",f); first=true;
        for(auto& v : c.viols) {if(!first) fputc(',',f); first=false; fputs("{\"key\":",f); jstr(f,v.key); fputs(",\"msg\":",f); jstr(f,v.msg); fputs(",\"replay\":",f); jstr(f,v.replay); fputc('}',f);}
        fputs("]}\n",f); fclose(f); rename(tmp.c_str(),c.out.c_str());
    }
    inline std::string fmt(const char* f, ...) {
        va_list a; va_start(a,f); va_list b; va_copy(b,a); int n=vsnprintf(nullptr,0,f,a); va_end(a);
        std::vector<char> v(size_t(n)+1); vsnprintf(v.data(),v.size(),f,b); va_end(b); return std::string(v.data(),size_t(n));
    }
    // marks the case being evaluated; read back by the runner if the process dies
    inline void mark(const char* f, ...) {
        Ctx& c=ctx(); c.calls++; if(!c.casebuf) return;
        va_list a; va_start(a,f); vsnprintf(c.casebuf,4095,f,a); va_end(a);
    }
    inline void init(int argc, char** argv) {
        Ctx& c=ctx();
        for(int i=1;i<argc;++i) {
            std::string a=argv[i]; auto val=[&](){return std::string(i+1<argc?argv[++i]:"");};
            if(a=="--thorough") c.thorough=true; else if(a=="--out") c.out=val(); else if(a=="--part") c.part=val();
            else if(a=="--budget") c.budget=atof(val().c_str()); else if(a=="--replay") c.replay=val(); else if(a=="--scratch") c.scratch=val();
        }
        if(!c.out.empty()) {
            int fd=open((c.out+".case").c_str(),O_RDWR|O_CREAT|O_TRUNC,0600);
            if(fd>=0) {if(ftruncate(fd,4096)==0) {void* p=mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(p!=MAP_FAILED) c.casebuf=(char*)p;} close(fd);}
        }
    }
    inline bool is_part(const char* p) {return ctx().part.empty() || ctx().part==p;}
    inline bool out_of_time() {if(now()-ctx().t0<ctx().budget) return false; ctx().exhaustive=false; return true;}
    inline void sample(const std::string& s) {if(ctx().samples.size()<40 && std::find(ctx().samples.begin(),ctx().samples.end(),s.substr(0,300))==ctx().samples.end()) ctx().samples.push_back(s.substr(0,300));}
    inline void nontrivial(const std::string& k) {if(ctx().distinct.size()<2000000) ctx().distinct.insert(k);}
    inline void violation(const std::string& key, const std::string& msg, const std::string& replay="") {
        Ctx& c=ctx();
        for(auto& v : c.viols) if(v.key==key) return;
        c.viols.push_back(Viol{key,msg.substr(0,4000),replay});
        fprintf(stderr,"violation [%s] %s\n",key.c_str(),msg.substr(0,2000).c_str());
        dump();
        if(c.viols.size()>=c.maxviols) _exit(3);
    }
    // plain enumerations: a state is an enumerated case, a transition a call evaluated on one, a trace an execution compared with the reference
    inline int finish() {Ctx& c=ctx(); if(!c.states) c.states=c.evals; if(!c.transitions) c.transitions=std::max(c.calls,c.evals); if(!c.traces) c.traces=c.evals; dump(); fflush(stdout); fflush(stderr); _exit(ctx().viols.empty()?0:3);}
}
#define VCHECK(cond,key,...) do {if(!(cond)) vr::violation(key,vr::fmt(__VA_ARGS__));} while(0)
