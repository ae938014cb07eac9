#include "../oracle.hpp"
#include <sys/wait.h>
const char*PROP="C19";
const char*RULE="one public operation (building values, metadata, tables, partitioners; best partition; sweep; summaries; listed results; aggregation; reading a partition; a whole analysis) on random small data, with the n-th allocation inside it failing, alone or together with all later ones: every n up to 500 allocations, a sample beyond; outcome, inputs, retry and live blocks checked; non-trivial: a fault that was delivered inside an operation making at least five allocations";
static long g_live=0,g_n=0,g_failAt=-1; static bool g_persist=false,g_armed=false; static long g_delivered=0;
struct Hdr { size_t n,pad; };
static void* vh_new(size_t n){ if(g_armed){ long k=g_n++; if(g_failAt>=0&&(g_persist?k>=g_failAt:k==g_failAt)){ g_delivered++; throw std::bad_alloc(); } } void*h=malloc(n+1); if(!h) throw std::bad_alloc(); g_live++; return h; }
void* operator new(size_t n){ return vh_new(n); } void* operator new[](size_t n){ return vh_new(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { try { return vh_new(n); } catch(...) { return nullptr; } } void* operator new[](size_t n,const std::nothrow_t&) noexcept { try { return vh_new(n); } catch(...) { return nullptr; } }
static void vh_del(void*p){ if(p){ g_live--; free(p);} }
void operator delete(void*p) noexcept { vh_del(p); } void operator delete[](void*p) noexcept { vh_del(p); } void operator delete(void*p,size_t) noexcept { vh_del(p); } void operator delete[](void*p,size_t) noexcept { vh_del(p); }
#if defined(__SANITIZE_ADDRESS__) || defined(VH_ASAN)
uint64_t prop_cases(bool th){ return th?2500:200; }
#else
uint64_t prop_cases(bool th){ return th?16000:1200; }
#endif
enum Op { VNEST, VSIZED, META, QUALS, COMPUTE, NORMALIZE, PARTER, BEST, SWEEP, SUMM, LISTED, AGGR, PREAD, TREAD, ALL, NOPS };
static const char*opn[]={"values from nested vectors","values from sizes","hierarchy metadata","quality tables object","computing qualities","normalising","partitioner","best partition","sweep","summaries","listed results","aggregation","reading a partition","reading a table","whole analysis"};
struct In { Data d; bool user=false,norm=false; Table ut; float p=0,th=0,mn=0,mx=1; uint64_t seed=0; };
struct State { Vals v; Quals q; RawTab raw; Parter p; PView pv; };
struct Res { Vals v; Quals q; RawTab raw; Parter p; shared_ptr<L::OPartition> o; shared_ptr<L::HPartition> h; shared_ptr<L::DPartition> d; vector<AggRec> ag; PView pv; SView sv; Table t; vector<float> f; std::unique_ptr<L::HValuesMetaData> md; };
static void setup(State&s,const In&i,Op op){ if(op==VNEST||op==VSIZED||op==META||op==ALL) return; if(i.user&&op!=QUALS&&op!=COMPUTE&&op!=AGGR){ s.raw=rawFrom(i.d.kind,i.ut); s.q=qualsFrom(s.raw,i.d.tree); } else { s.v=valsNested(i.d); if(op==QUALS) return; s.q=qualsOf(s.v); s.q.compute(); } if(i.norm&&op!=COMPUTE) s.q.normalize(); s.raw=rawOf(s.q); s.p=parterQ(s.q); if(op==SUMM||op==LISTED) s.p.sweep(i.th,i.mn,i.mx); if(op==AGGR||op==PREAD) s.pv=s.p.best(i.p); }
static void bestRaw(const Parter&p,float x,Res&r){ if(p.o) r.o=p.o->computeBestPartition(x); else if(p.h) r.h=p.h->computeBestPartition(x); else r.d=p.d->computeBestPartition(x); }
static void run(State&s,const In&i,Op op,Res&r){ switch(op){
    case VNEST: r.v=valsNested(i.d); break; case VSIZED: { r.v=valsSized(i.d); break; } case META: r.md.reset(new L::HValuesMetaData(i.d.L,i.d.tree.par)); break; case QUALS: r.q=qualsOf(s.v); break; case COMPUTE: s.q.compute(); break; case NORMALIZE: s.q.normalize(); break;
    case PARTER: r.p=i.seed&1?parterQ(s.q):parterRaw(s.raw,i.d.tree); break; case BEST: bestRaw(s.p,i.p,r); break; case SWEEP: s.p.sweep(i.th,i.mn,i.mx); break;
    case SUMM: { auto&b=s.p.base(); vector<float> f; f.push_back(b.getP(P_OPT)); f.push_back(b.getP(P_MAX)); f.push_back(b.computeAUC()); r.f=f; break; } case LISTED: r.sv=s.p.read(); break; case AGGR: r.ag=aggregate(s.v,s.pv); break; case PREAD: r.pv=reread(s.pv); break; case TREAD: r.t=readTable(rawOf(s.q)); break;
    case ALL: { Vals v=valsNested(i.d); Quals q=qualsOf(v); q.compute(); if(i.norm) q.normalize(); Parter p=parterQ(q); PView b=p.best(i.p); auto ag=aggregate(v,b); p.sweep(i.th,i.mn,i.mx); SView sv=p.read(); r.v=v; r.q=q; r.p=p; r.pv=b; r.ag=ag; r.sv=sv; break; } default: break; } }
static uint64_t resHash(State&s,const In&i,Op op,Res&r){ Hash h; auto vals=[&](const Vals&v){ for(int l=0;l<v.L;l++)for(int k=0;k<v.V;k++)for(int t=0;t<v.T;t++) h.d(v.get(l,k,t)); }; auto agh=[&]{ for(auto&g:r.ag){ h.i(g.part.h);h.i(g.part.s);h.i(g.part.e); for(double d:g.sum)h.d(d); for(double d:g.mean)h.d(d);} }; switch(op){
    case VNEST: case VSIZED: vals(r.v); break; case META: for(int x:r.md->getPath())h.i(x); for(auto&kv:r.md->getSize()){h.i(kv.first);h.i(kv.second);} h.i(r.md->getRoot()); break; case QUALS: r.q.compute(); h.i((long long)readTable(rawOf(r.q)).hash()); break; case COMPUTE: case NORMALIZE: h.i((long long)readTable(rawOf(s.q)).hash()); break;
    case PARTER: r.p.best(i.p).hash(h); break; case BEST: if(r.o)view(r.o).hash(h); if(r.h)view(r.h).hash(h); if(r.d)view(r.d).hash(h); break; case SWEEP: s.p.read().hash(h); break; case SUMM: for(float f:r.f) h.d(f); break; case LISTED: r.sv.hash(h); break; case AGGR: agh(); break; case PREAD: r.pv.hash(h); break; case TREAD: h.i((long long)r.t.hash()); break;
    case ALL: vals(r.v); r.pv.hash(h); agh(); r.sv.hash(h); h.i((long long)readTable(rawOf(r.q)).hash()); break; default: break; } return h.v(); }
// what the operation only reads
static uint64_t inputHash(State&s,Op op){ Hash h; if(s.v.V&&s.v.kind==s.q.kind) {} if(s.v.o1||s.v.o2||s.v.o3||s.v.o4||s.v.h1||s.v.h2||s.v.h3||s.v.h4||s.v.d2||s.v.d3||s.v.d4) for(int l=0;l<s.v.L;l++)for(int k=0;k<s.v.V;k++)for(int t=0;t<s.v.T;t++) h.d(s.v.get(l,k,t));
    if(op!=NORMALIZE&&op!=COMPUTE&&(s.raw.o||s.raw.h||s.raw.d)) h.i((long long)readTable(s.raw).hash()); if(op==AGGR||op==PREAD) reread(s.pv).hash(h); if(op==LISTED||op==SUMM) s.p.read().hash(h); return h.v(); }
void prop_case(Ctx&c){ Rng&r=c.rng; Op op=(Op)(c.idx%NOPS); Kind k=(Kind)((c.idx/NOPS)%3); In i; i.d=genData(r,k,r.coin(0.6)?0:r.coin(0.8)?1:(k==D?1:2)); if((op==SWEEP||op==ALL)&&i.d.cells()*i.d.V>60) i.d=genData(r,k,0); const bool large=c.idx/(NOPS*3)%13==5&&op!=SWEEP&&op!=ALL&&op!=LISTED&&op!=SUMM; if(large) i.d=largeData(r,k,r.below(6),pickCls(r)); i.user=r.coin(0.3); if(i.user) i.ut=genTable(r,k,i.d.tree,i.d.T,r.below(TC)); i.norm=r.coin(0.3); i.p=genP(r); i.th=(float)r.logu(0.02,0.6); if(r.coin(0.2)){ i.mn=genP(r);i.mx=genP(r); if(i.mn>i.mx)std::swap(i.mn,i.mx);} i.seed=r.next();
    c.desc=fmt("%s, p=%.9g threshold=%.9g range [%.9g,%.9g] norm=%d ",opn[op],i.p,i.th,i.mn,i.mx,i.norm)+(i.user?"user "+i.ut.str()+" ":"")+i.d.str();
    // the normal run, and how many allocations it makes
    long total=0; uint64_t ref=0,tabHash=0; { State s; setup(s,i,op); Res x; g_n=0; g_failAt=-1; g_armed=true; run(s,i,op,x); g_armed=false; total=g_n; ref=resHash(s,i,op,x); }
    vector<long> idx; if(total<=500) for(long n=0;n<total;n++) idx.push_back(n); else { for(int n=0;n<150;n++) idx.push_back(r.below((int)total)); for(int n=0;n<20;n++){ idx.push_back(n); idx.push_back(total-1-n);} } c.maxi("allocations in one operation",total); c.count(total<=500?"operations with every allocation failed":"operations with sampled allocations failed");
    bool both=total<=120; uint64_t nrm=0; uint64_t fDel=0,fBad=0,fNormal=0;
    for(long n:idx) for(int m=0;m<2;m++){ if(!both&&m!=(int)((n+c.idx)&1)) continue; 
        long before=g_live; string err; string key; { State s; setup(s,i,op); uint64_t in0=inputHash(s,op); uint64_t got=0; bool bad=false; int other=0; g_delivered=0;
            { Res x; g_n=0; g_failAt=n; g_persist=m==1; g_armed=true; try { run(s,i,op,x); } catch(std::bad_alloc&){ bad=true; } catch(...){ other=1; } g_armed=false; g_failAt=-1;
              if(other){ key="other-exception"; err="ends with an exception that is not an out-of-memory one"; }
              else if(!bad){ got=resHash(s,i,op,x); if(got!=ref){ key="wrong-result"; err="ends normally with another result"; } else fNormal++; } else fBad++; }
            if(g_delivered) fDel++;
            if(key.empty()&&inputHash(s,op)!=in0){ key="input-changed"; err="changed what it only reads"; }
            if(key.empty()&&op!=NORMALIZE){ Res y; run(s,i,op,y); if(resHash(s,i,op,y)!=ref){ key="retry"; err="gives another result when repeated with memory available"; } }
            else if(key.empty()&&bad){ Res y; run(s,i,op,y); if(resHash(s,i,op,y)!=ref){ key="retry"; err="gives another result when repeated with memory available"; } } }
        long leak=g_live-before; // strings of this harness: none alive here
        if(!key.empty()) c.fail(key,"%s with allocation %ld of %ld failing (%s): %s",opn[op],n,total,m?"and all later ones":"alone",err.c_str());
        if(leak>0){ // once more: a block kept by a first call is not a leak
            long b2=g_live; { State s; setup(s,i,op); { Res x; g_n=0; g_failAt=n; g_persist=m==1; g_armed=true; try { run(s,i,op,x); } catch(...){ } g_armed=false; g_failAt=-1; } } if(g_live>b2) c.fail("leak","%s with allocation %ld of %ld failing (%s): %ld blocks are never released",opn[op],n,total,m?"and all later ones":"alone",g_live-b2); }
        Hash h; h.s(c.desc); h.i(n); h.i(m); c.distinct(h.v(),total>=5); nrm++; }
    (void)tabHash; c.count("faults delivered",fDel); c.count("ended with bad_alloc",fBad); c.count("delivered the normal result all the same",fNormal); c.count(string("faulted: ")+opn[op],nrm); if(total==0) c.count("operations without allocation");
    if(c.samples.size()<2&&total>=5&&total<200&&c.desc.size()<600) c.samples.push_back(fmt("%ld allocations, each failed: ",total)+c.desc); }
