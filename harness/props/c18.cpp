#include "../oracle.hpp"
#include <thread>
#include <atomic>
const char*PROP="C18";
const char*RULE="2 to 6 threads released together, each running complete analyses on objects of its own (often of the same kind and size as its neighbours') or querying its own partitioner over one shared table, building its own tables and aggregates from one shared dataset, or reading one shared best partition and finished sweep; every result compared with the same work done alone before or after; ThreadSanitizer build and plain build; non-trivial: at least two threads computed best partitions with several parts";
#if defined(__SANITIZE_THREAD__)
uint64_t prop_cases(bool th){ return th?8000:320; }
#else
uint64_t prop_cases(bool th){ return th?20000:1500; }
#endif
struct Job { int mode=0; Data data; Kind kind; Tree tree; bool norm=false; uint64_t seed=0; int steps=1; bool large=false; }; // mode 0 own analysis, 1 shared table, 2 shared dataset, 3 shared results (read only)
struct Shared { RawTab raw; Quals q; bool haveQ=false; Vals v; bool haveV=false; Parter swept; PView part, other; };
struct Res { uint64_t h=0; int parts=0; string err; };
static void pathInto(const Tree&t,Hash&h){ auto m=meta(t); vector<int> p=m.getPath(); for(int x:p) h.i(x); }
static bool samePart(const PView&a,const PView&b){ return a.o?*a.o==*b.o:a.h?*a.h==*b.h:*a.d==*b.d; }
static void hashAgg(const vector<AggRec>&v,Hash&h){ for(auto&g:v){ for(double d:g.sum)h.b(&d,8); for(double d:g.mean)h.b(&d,8); } }
static Res readShared(const Job&j,const Shared&S,std::atomic<int>*ops){ Res o; Rng r(j.seed); Hash h; try {
    for(int s=0;s<j.steps;s++){ if(ops) ops->fetch_add(1,std::memory_order_relaxed); int a=r.below(4);
        if(a==0){ PView x=reread(S.part); x.hash(h); o.parts=std::max(o.parts,(int)x.parts.size()); }
        else if(a==1){ h.i(samePart(S.part,S.other)); h.i(samePart(S.part,S.part)); o.parts=std::max(o.parts,(int)S.part.parts.size()); }
        else if(a==2){ SView x=S.swept.read(); x.hash(h); for(auto&e:x.parts) o.parts=std::max(o.parts,(int)e.second.parts.size()); }
        else if(S.haveV) hashAgg(aggregate(S.v,S.part),h); else h.i((long long)readTable(S.raw).hash()); }
    } catch(std::exception&e){ o.err=e.what(); } o.h=h.v(); return o; }
// S: what all threads of a case may read
static Res work(const Job&j,const Shared&S,std::atomic<int>*ops){ if(j.mode==3) return readShared(j,S,ops); const RawTab*shared=&S.raw; const Quals*sharedQ=S.haveQ?&S.q:nullptr; Res o; Rng r(j.seed); Hash h; try {
    Parter p; Vals v; Quals q;
    if(j.mode==1){ p=sharedQ&&r.coin()?parterQ(*sharedQ):parterRaw(*shared,j.tree); h.i((long long)readTable(*shared).hash()); }
    else { v=j.mode==2?S.v:makeVals(j.data,r); q=qualsOf(v); q.compute(); if(j.norm) q.normalize(); h.i((long long)readTable(rawOf(q)).hash()); p=parterQ(q); }
    for(int s=0;s<j.steps;s++){ int a=r.below(5); if(ops) ops->fetch_add(1,std::memory_order_relaxed);
        if(a<2){ PView x=p.best(genP(r,false)); x.hash(h); o.parts=std::max(o.parts,(int)x.parts.size()); if(j.mode!=1&&r.coin()) hashAgg(aggregate(v,x),h); }
        else if(a<4){ p.sweep((float)r.logu(j.large?0.1:5e-3,0.5),0,1); SView x=p.read(); x.hash(h); for(auto&e:x.parts) o.parts=std::max(o.parts,(int)e.second.parts.size()); auto&b=p.base(); h.d(b.getP(P_OPT)); h.d(b.getP(P_MAX)); float u=b.computeAUC(); h.b(&u,4); }
        else if(j.mode==0){ v.set(r.below(j.data.L),r.below(j.data.V),r.below(j.data.T),r.u()); q.compute(); p=parterQ(q); h.i((long long)readTable(rawOf(q)).hash()); if(j.kind!=O) pathInto(j.tree,h); }
        else if(j.kind!=O) pathInto(j.tree,h); }
    } catch(std::exception&e){ o.err=e.what(); } o.h=h.v(); return o; }
static const char*const modeName[4]={"own objects","a shared table","a shared dataset","shared results"};
void prop_case(Ctx&c){ Rng&r=c.rng; int nt=r.range(2,6); Kind k=(Kind)r.below(3); int sz=r.coin(0.5)?1:r.coin(0.8)?0:2; if(k==D&&sz==2) sz=1; bool sharedMode=r.coin(0.6), same=r.coin(0.6), user=r.coin(0.3);
    const int how=r.below(3); vector<Job> jobs; const bool large=c.idx%25==3; Data base=large?largeData(r,k,r.below(6),pickCls(r)):genData(r,k,sz); Shared S; RawTab&raw=S.raw; Quals&sq=S.q; bool&haveQ=S.haveQ; Vals&sv=S.v;
    if(sharedMode){ if(user) raw=rawFrom(k,genTable(r,k,base.tree,base.T,r.below(TC))); else { sv=makeVals(base,r); sq=qualsOf(sv); sq.compute(); if(r.coin(0.4)) sq.normalize(); raw=rawOf(sq); haveQ=S.haveV=true; }
        if(how==2){ S.swept=parterRaw(raw,base.tree); S.swept.sweep(large?0.1f:0.01f,0,1); S.part=S.swept.best(genP(r,false)); S.other=S.swept.best(genP(r,false)); } }
    for(int i=0;i<nt;i++){ Job j; j.seed=r.next(); j.steps=large?r.range(2,4):r.range(2,8); j.large=large; j.kind=k; j.tree=base.tree; j.data=base;
        if(sharedMode&&(i<2||r.coin(0.8))) j.mode=how==2?3:how==1&&S.haveV?2:1; else { if(!same){ j.data=genData(r,(Kind)r.below(3),sz==2?1:sz); } else fillValues(j.data,r,pickCls(r)); j.kind=j.data.kind; j.tree=j.data.tree; j.norm=r.coin(0.4); }
        jobs.push_back(j); }
    c.desc=fmt("%d threads, %s, %s ",nt,sharedMode?how==2?"some reading shared results":how==1&&S.haveV?"some on one shared dataset":"some on one shared table":"own objects",same?"same shape":"different shapes")+base.str();
    Table t0; if(sharedMode) t0=readTable(raw);
    vector<Res> alone(nt),conc(nt); bool first=r.coin(); auto seq=[&]{ for(int i=0;i<nt;i++) alone[i]=work(jobs[i],S,nullptr); }; if(first) seq();
    std::atomic<int> ready(0),ops(0),running(0); std::atomic<bool> go(false); std::atomic<int> overlap(0);
    vector<std::thread> th; for(int i=0;i<nt;i++) th.emplace_back([&,i]{ ready++; while(!go.load()) sched_yield(); int n=++running; int m=overlap.load(); while(n>m&&!overlap.compare_exchange_weak(m,n)); conc[i]=work(jobs[i],S,&ops); --running; });
    while(ready.load()<nt) sched_yield(); go=true; for(auto&t:th) t.join(); if(!first) seq();
    int multi=0; for(int i=0;i<nt;i++){ REQ(c,conc[i].err.empty(),"exception","thread %d: %s",i,conc[i].err.c_str()); REQ(c,alone[i].err.empty(),"exception","alone: %s",alone[i].err.c_str()); REQ(c,conc[i].h==alone[i].h,"result","thread %d of %d (%s) obtains another result than running alone",i,nt,modeName[jobs[i].mode]); if(conc[i].parts>1) multi++; c.count(string("threads on ")+modeName[jobs[i].mode]); }
    if(sharedMode) REQ(c,readTable(raw).same(t0),"shared-table","the shared table changed");
    if(S.haveV) for(int l=0;l<base.L;l++) for(int k2=0;k2<base.V;k2++) for(int t=0;t<base.T;t++) REQ(c,S.v.get(l,k2,t)==base.at(l,k2,t),"shared-dataset","the shared dataset changed");
    c.count("operations run concurrently",ops.load()); if(overlap.load()>=2) c.count("cases with threads running at the same time"); c.maxi("threads at the same time",overlap.load()); Hash h; for(auto&x:conc) h.i((long long)x.h); c.distinct(h.v(),multi>=2); if(c.samples.size()<2&&multi>=2&&base.v.size()<30) c.samples.push_back(c.desc); }
