#include "../exercise.hpp"
const char*PROP="C17";
const char*RULE="random walks of 10 to 120 public operations over up to five live analyses, objects dropped in any order and results outliving their makers, run under AddressSanitizer+UBSan+LeakSanitizer with the checked standard library, under memcheck, and twice per case with different heap and stack fill with the number of live blocks counted; non-trivial: the walk queries a partitioner and destroys or copies objects";
#ifdef VH_MEM
// Every heap block is filled before use and after release with a pattern the case chooses, and counted.
static unsigned char g_fill=0; static long g_live=0; static bool g_count=false;
struct Hdr { size_t n; long mine; };
static void* vh_new(size_t n){ Hdr*h=(Hdr*)malloc(n+sizeof(Hdr)); if(!h) throw std::bad_alloc(); h->n=n; h->mine=g_count; if(g_count){ g_live++; memset(h+1,g_fill,n);} return h+1; }
static void vh_del(void*p){ if(!p) return; Hdr*h=(Hdr*)p-1; if(h->mine){ g_live--; memset(p,(unsigned char)~g_fill,h->n);} free(h); }
void* operator new(size_t n){ return vh_new(n); } void* operator new[](size_t n){ return vh_new(n); }
void operator delete(void*p) noexcept { vh_del(p); } void operator delete[](void*p) noexcept { vh_del(p); }
void operator delete(void*p,size_t) noexcept { vh_del(p); } void operator delete[](void*p,size_t) noexcept { vh_del(p); }
static void __attribute__((noinline)) dirty(unsigned char c){ volatile unsigned char b[200000]; for(size_t i=0;i<sizeof b;i++) b[i]=c; }
uint64_t prop_cases(bool th){ return th?60000:4000; }
#else
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif
uint64_t prop_cases(bool th){ return th?60000:2500; }
#endif
static volatile uint64_t sink;
void prop_case(Ctx&c){ Rng&r=c.rng; uint64_t s=r.next(); int n=r.range(10,120);
#ifdef VH_VALGRIND
    int mz=r.coin(0.9)?0:1; n=std::min(n,50);
#else
    int mz=r.coin(0.85)?1:r.coin(0.9)?2:3; if(mz==3) n=std::min(n,40);
#endif
    c.desc=fmt("walk of %d operations, generator seed %llu, size class %d",n,(unsigned long long)s,mz); uint64_t ops[24]; uint64_t h=0;
#ifdef VH_MEM
    uint64_t h2=0; auto once=[&](int pass){ g_fill=pass?0xA5:0x00; dirty(g_fill); long before=g_live; uint64_t v; g_count=true; { Ex e(s,mz); v=e.run(n); memcpy(ops,e.ops,sizeof ops); } g_count=false; (pass?h2:h)=v; return g_live-before; };
    // a block kept by the first call of a function (a static object) is not a leak; one kept by every call is
    long l0=once(0),l1=once(1); if(l1>0) l1=std::min(l1,once(1)); (void)l0; REQ(c,l1<=0,"leak","%ld blocks are still allocated after every object was destroyed, each time the walk is run",l1);
    REQ(c,h==h2,"uninitialised","the results depend on what memory held before (fill 00 and A5)"); c.count("walks run with two memory fills");
#else
    { Ex e(s,mz); h=e.run(n); memcpy(ops,e.ops,sizeof ops); }
    if((h&0xffffffff)==0x12345678) c.count("a branch on every result"); // makes memcheck examine the results
#if defined(__SANITIZE_ADDRESS__)
    if(c.idx%64==0) c.count("leak checks"), (__lsan_do_recoverable_leak_check()? c.fail("leak","LeakSanitizer reports leaked memory within the last 64 walks of this shard") : (void)0);
#endif
#endif
    sink=h; uint64_t tot=0; for(int i=0;i<15;i++){ c.count(Ex::name(i),ops[i]); tot+=ops[i]; } bool nt=ops[Ex::BEST]+ops[Ex::SWEEP]>0&&(ops[Ex::DROP]+ops[Ex::COPY]>0); c.distinct(h,nt); if(c.samples.size()<2&&nt){ string d=c.desc+": "; for(int i=0;i<15;i++) if(ops[i]) d+=fmt("%s %llu, ",Ex::name(i),(unsigned long long)ops[i]); c.samples.push_back(d); } }
