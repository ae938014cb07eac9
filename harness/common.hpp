// Case framework: deterministic cases, counters, violations, per-case CPU budget.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <memory>
#include <stdexcept>
#include <new>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

typedef long double ld;
using std::string; using std::vector; using std::map; using std::pair;

inline uint64_t mix64(uint64_t x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed=1):s(mix64(seed)){}
    uint64_t next(){ s+=0x9E3779B97F4A7C15ull; uint64_t x=s; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
    double u(){ return (next()>>11)*(1.0/9007199254740992.0); }
    // 0..n-1
    int below(int n){ return n<=1?0:(int)(next()%(uint64_t)n); }
    int range(int a,int b){ return a+below(b-a+1); }
    bool coin(double p=0.5){ return u()<p; }
    double logu(double a,double b){ return std::exp(std::log(a)+u()*(std::log(b)-std::log(a))); }
    template<class T> const T& pick(const vector<T>&v){ return v[below((int)v.size())]; }
    template<class T> void shuffle(vector<T>&v){ for(int i=(int)v.size()-1;i>0;i--) std::swap(v[i],v[below(i+1)]); }
};

struct Hash { uint64_t h=0xcbf29ce484222325ull;
    void b(const void*p,size_t n){ const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++){h^=c[i];h*=0x100000001b3ull;} }
    void i(long long x){ b(&x,sizeof x);} void d(double x){ b(&x,sizeof x);} void q(ld x){ b(&x,10);} void s(const string&x){ b(x.data(),x.size()); i(x.size()); }
    uint64_t v() const { return mix64(h);} };

inline string fmtv(const char*f,va_list ap){ va_list a2; va_copy(a2,ap); int n=vsnprintf(nullptr,0,f,a2); va_end(a2); string s(n,'\0'); vsnprintf(&s[0],n+1,f,ap); return s; }
inline string fmt(const char*f,...) __attribute__((format(printf,1,2)));
inline string fmt(const char*f,...){ va_list ap; va_start(ap,f); string s=fmtv(f,ap); va_end(ap); return s; }

inline string jstr(const string&s){ string o="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n')o+="\\n"; else if(c<32||c>126)o+=fmt("\\u%04x",c); else o+=c;} return o+"\""; }

struct Violation : std::exception { string key,msg; Violation(string k,string m):key(k),msg(m){} const char*what() const noexcept override {return msg.c_str();} };

struct Ctx {
    Rng rng; uint64_t idx=0, seed=1; bool thorough=false; bool verbose=false;
    int nshards=1, shard=0;
    map<string,uint64_t> counters; vector<uint64_t> hashes; vector<string> samples;
    uint64_t caseHash=0; bool nontrivial=false; uint64_t evaluations=0;
    string desc;   // description of the current case, quoted in violations
    vector<pair<string,string>> viol; uint64_t violIdx=0;
    void count(const string&c,uint64_t n=1){ counters[c]+=n; }
    void maxi(const string&c,uint64_t n){ uint64_t&x=counters["max "+c]; if(n>x)x=n; }
    void fail(const string&key,const char*f,...) __attribute__((format(printf,3,4))) { va_list ap; va_start(ap,f); string m=fmtv(f,ap); va_end(ap); throw Violation(key,m); }
    void distinct(uint64_t h,bool nontriv){ evaluations++; if(nontriv) hashes.push_back(h); }
};
#define REQ(ctx,cond,key,...) do{ if(!(cond)) (ctx).fail(key,__VA_ARGS__); }while(0)

// Each property file defines these.
extern const char* PROP;
extern const char* RULE;
uint64_t prop_cases(bool thorough);
void prop_case(Ctx&c);
// Optional hooks (weak).
void prop_begin(Ctx&) __attribute__((weak));
void prop_end(Ctx&) __attribute__((weak));

namespace vh {
static volatile uint64_t* progress=nullptr; // [0]=idx+1 [1]=done count
static volatile sig_atomic_t budget=20;
static void onprof(int){ const char m[]="\nCPU-BUDGET-EXCEEDED\n"; (void)!write(2,m,sizeof m-1); _exit(98); }
inline void arm(int sec){ struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=sec; setitimer(ITIMER_PROF,&t,nullptr); }
inline string json(Ctx&c,uint64_t ncases){
    string o="{\"prop\":"+jstr(PROP)+",\"rule\":"+jstr(RULE)+fmt(",\"cases\":%llu,\"evaluations\":%llu,\"counters\":{",(unsigned long long)ncases,(unsigned long long)c.evaluations);
    bool f=true; for(auto&kv:c.counters){ o+=(f?"":",")+jstr(kv.first)+":"+std::to_string(kv.second); f=false; }
    o+="},\"hashes\":["; f=true; for(auto h:c.hashes){ o+=(f?"\"":",\"")+fmt("%016llx",(unsigned long long)h)+"\""; f=false; }
    o+="],\"samples\":["; f=true; for(auto&s:c.samples){ o+=(f?"":",")+jstr(s); f=false; }
    o+="],\"violations\":["; f=true; 
    for(auto&v:c.viol){ o+=(f?"":","); o+="{\"key\":"+jstr(v.first)+",\"msg\":"+jstr(v.second)+"}"; f=false; }
    return o+"]}";
}
}

#ifndef VH_NO_MAIN
int main(int argc,char**argv){
    Ctx c; string out; long long only=-1; long long ncase=-1; string prog; int cpu=20; long long asmb=0; double mult=1; double wall=0;
    for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ if(i+1>=argc){fprintf(stderr,"missing value for %s\n",a.c_str());exit(3);} return string(argv[++i]); };
        if(a=="--seed") c.seed=strtoull(nx().c_str(),0,10); else if(a=="--tier") c.thorough=nx()=="thorough";
        else if(a=="--shard") c.shard=atoi(nx().c_str()); else if(a=="--nshards") c.nshards=atoi(nx().c_str());
        else if(a=="--out") out=nx(); else if(a=="--only") only=atoll(nx().c_str()); else if(a=="--cases") ncase=atoll(nx().c_str());
        else if(a=="--progress") prog=nx(); else if(a=="--cpu") cpu=atoi(nx().c_str()); else if(a=="--as") asmb=atoll(nx().c_str()); else if(a=="--mult") mult=atof(nx().c_str()); else if(a=="--wall") wall=atof(nx().c_str()); else if(a=="-v") c.verbose=true;
        else { fprintf(stderr,"unknown argument %s\n",a.c_str()); return 3; } }
    static uint64_t dummy[2]; vh::progress=dummy;
    if(!prog.empty()){ int fd=open(prog.c_str(),O_RDWR|O_CREAT|O_TRUNC,0644); if(fd<0||ftruncate(fd,16)) {perror("progress");return 3;} vh::progress=(volatile uint64_t*)mmap(0,16,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); }
    if(asmb>0){ struct rlimit r; r.rlim_cur=r.rlim_max=(rlim_t)asmb<<20; setrlimit(RLIMIT_AS,&r); }
    struct rlimit rc={0,0}; setrlimit(RLIMIT_CORE,&rc);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=vh::onprof; sigaction(SIGPROF,&sa,nullptr);
    vh::budget=cpu;
    uint64_t n=ncase>=0?(uint64_t)ncase:(uint64_t)(prop_cases(c.thorough)*mult+0.5); if(only>=0&&(uint64_t)only>=n) n=only+1;
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0);
    string h=PROP; uint64_t ps=0; for(char ch:h) ps=ps*131+ch;
    if(prop_begin) prop_begin(c);
    uint64_t done=0;
    for(uint64_t i=0;i<n;i++){
        if(only>=0? (uint64_t)only!=i : (int)(i%c.nshards)!=c.shard) continue;
        if(wall>0&&only<0&&(done&7)==0){ struct timespec t1; clock_gettime(CLOCK_MONOTONIC,&t1); if((t1.tv_sec-t0.tv_sec)+(t1.tv_nsec-t0.tv_nsec)*1e-9>wall){ c.count("shards stopped at the time limit"); break; } }
        c.idx=i; c.rng=Rng(mix64(c.seed*0x100000001b3ull+ps)^mix64(i*2654435761ull+77)); c.desc.clear();
        vh::progress[0]=i+1; vh::arm(cpu);
        try { prop_case(c); }
        catch(Violation&v){ if(c.viol.size()<20) c.viol.push_back({v.key,fmt("case %llu: ",(unsigned long long)i)+v.msg+(c.desc.empty()?"":"\ninput: "+c.desc)}); c.violIdx=i; c.count("violating cases"); }
        catch(std::bad_alloc&){ // a case whose results really fill the allowed address space is too large, not wrong; whether a sweep ends is C08's question
            struct rusage u; getrusage(RUSAGE_SELF,&u); if(asmb>0&&h!="C08"&&(u.ru_maxrss>>10)>asmb/2) c.count("cases stopped at the memory limit"); else { if(c.viol.size()<20) c.viol.push_back({"exception",fmt("case %llu: unexpected exception: std::bad_alloc",(unsigned long long)i)+(c.desc.empty()?"":"\ninput: "+c.desc)}); c.count("violating cases"); } }
        catch(std::exception&e){ if(c.viol.size()<20) c.viol.push_back({"exception",fmt("case %llu: unexpected exception: ",(unsigned long long)i)+e.what()+(c.desc.empty()?"":"\ninput: "+c.desc)}); c.count("violating cases"); }
        done++; vh::progress[1]=done;
        if(c.viol.size()>=5&&only<0) break;
    }
    vh::arm(0);
    if(prop_end) { try { prop_end(c); } catch(Violation&v){ c.viol.push_back({v.key,v.msg}); } }
    string j=vh::json(c,done);
    if(out.empty()){ printf("%s\n",j.c_str()); } else { FILE*f=fopen(out.c_str(),"w"); if(!f){perror("out");return 3;} fputs(j.c_str(),f); if(fclose(f)){perror("out");return 3;} }
    if(c.verbose) for(auto&v:c.viol) fprintf(stderr,"%s: %s\n",v.first.c_str(),v.second.c_str());
    vh::progress[0]=0;
    return 0;
}
#endif
