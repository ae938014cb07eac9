#include "../oracle.hpp"
#include <sys/wait.h>
const char*PROP="C16";
const char*RULE="histories of 4 to 30 operations, some of up to 400 (best partitions, sweeps and their summaries, table and structure reads, aggregations, cell updates, recomputation, normalisation, new partitioners, analyses replaced by others of the same shape) over one to three live analyses; every result is recorded and compared bit for bit with the same query asked first in a process forked before any library call; results kept from earlier are read again at the end; non-trivial: an analysis gets at least three queries of two kinds and some compared partition has several parts";
uint64_t prop_cases(bool th){ return th?20000:900; }

// A table: the data it was computed from (or the caller's), and whether it has been normalised.
struct Ent { int an=0; Data data; bool user=false; Table ut; bool norm=false; };
struct An { bool user=false; Data init; Tree tree; Kind kind; };
enum Op { BEST, SWEEP, SUMMARY, TABLE, AGG, RECOMPUTE, NORMALIZE, SETCELL, META, VALUES, NEWPART, AGGPART, REPLACE, NOPS };
static const char*opn[]={"best partition","sweep","summaries","table","aggregation","recompute","normalise","set cell","structure","values","new partitioner","aggregation of an older partition","replace by a new analysis"};
struct Step { Op op; int an=0; float p=0,th=0,mn=0,mx=0; int l=0,k=0,t=0; double x=0; int prefixSweep=-1; Data nd; bool drop=false, nnorm=false; };
// the state a step sees, kept by the parent without calling the library
struct St { Data cur; int qent=-1, pent=-1; int lastSweep=-1; };

struct Cell { uint64_t h; int parts; };
struct Shm { volatile int fail; char key[64]; char msg[6000]; Cell cell[512]; };
static Shm*shm=nullptr;
static void put(int i,uint64_t h,int parts=0){ shm->cell[i].h=h; shm->cell[i].parts=parts; }

static void hmeta(Hash&h,const L::HValuesMetaData&m){ h.i(m.getHsize()); h.i(m.getRoot()); h.i(m.getLeaveSize()); for(int p:m.getParents())h.i(p); for(auto&c:m.getChildren()){ h.i(-7); for(int x:c)h.i(x);} for(auto&kv:m.getSize()){h.i(kv.first);h.i(kv.second);} for(int x:m.getPath())h.i(x); }
static uint64_t summary(const Parter&p){ Hash h; auto&b=p.base(); h.d(b.getP(P_MIN)); h.d(b.getP(P_MAX)); h.d(b.getP(P_OPT)); float a=b.computeAUC(); h.b(&a,4); SView v=p.read(); v.hash(h); return h.v(); }
static uint64_t aggHash(const vector<AggRec>&a){ Hash h; for(auto&x:a){ h.i(x.part.h);h.i(x.part.s);h.i(x.part.e);h.i(x.part.sz); h.q(x.part.g);h.q(x.part.l); for(double d:x.sum)h.b(&d,8); for(double d:x.mean)h.b(&d,8); for(int s:x.shape)h.i(s);} return h.v(); }
static uint64_t pvh(const PView&v){ Hash h; v.hash(h); return h.v(); }

struct Live { Vals vals; Quals quals; RawTab raw; Parter parter; };
static Live freshFor(const Ent&e,const An&a,bool needParter=true){ Live l; if(e.user){ l.raw=rawFrom(a.kind,e.ut); l.quals=qualsFrom(l.raw,a.tree); if(e.norm) l.quals.normalize(); } else { l.vals=valsNested(e.data); l.quals=qualsOf(l.vals); l.quals.compute(); if(e.norm) l.quals.normalize(); l.raw=rawOf(l.quals); } if(needParter) l.parter=parterRaw(l.raw,a.tree); return l; }

// fork, run f in the child; returns false when the child failed
static void inChild(Ctx&c,const char*what,std::function<void()> f){ fflush(stdout); fflush(stderr); pid_t pid=fork(); if(pid<0){ fprintf(stderr,"fork failed\n"); _exit(3);} if(!pid){ int rc=0; vh::arm(60); try{ f(); }catch(Violation&v){ shm->fail=1; snprintf((char*)shm->key,64,"%s",v.key.c_str()); snprintf((char*)shm->msg,6000,"%s",v.msg.c_str()); rc=9; } catch(std::exception&e){ shm->fail=1; snprintf((char*)shm->key,64,"exception"); snprintf((char*)shm->msg,6000,"%s: exception %s",what,e.what()); rc=9; } _exit(rc); }
    int st; while(waitpid(pid,&st,0)<0){} if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return; if(WIFEXITED(st)&&WEXITSTATUS(st)==9){ string m=(char*)shm->msg,k=(char*)shm->key; throw Violation(k,string(what)+": "+m); }
    if(WIFEXITED(st)&&WEXITSTATUS(st)==98) throw Violation("hang",string(what)+": no end within 60 s of processor time");
    if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL){ fprintf(stderr,"child killed\n"); _exit(3); }
    throw Violation("crash",fmt("%s: ended with status %d",what,st)); }

void prop_case(Ctx&c){ Rng&r=c.rng;
    if(!shm){ shm=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
    memset((void*)shm,0,sizeof(Shm));
    const bool large=c.idx%40==7, longh=c.idx%40==23; int na=large?1+(int)(c.idx/40%2):r.coin(0.5)?1:r.range(2,3); vector<An> an; vector<Ent> ents; vector<St> st(na);
    for(int i=0;i<na;i++){ An a; a.kind=(Kind)((c.idx+i*r.range(0,2))%3); a.user=r.coin(0.25); int sz=longh||r.below(100)<30?0:r.below(100)<85?1:2; if(sz==2&&a.kind==D) sz=1; a.init=large?largeData(r,a.kind,r.below(6),pickCls(r)):genData(r,a.kind,sz); if(i&&r.coin()){ a.kind=an[0].kind; a.init=an[0].init; fillValues(a.init,r,pickCls(r)); } a.tree=a.init.tree; Ent e; e.an=i; e.data=a.init; e.user=a.user; if(a.user) e.ut=genTable(r,a.kind,a.tree,a.init.T,r.below(TC)); if(!a.user&&r.coin(0.3)) e.norm=true; st[i].cur=a.init; st[i].qent=st[i].pent=(int)ents.size(); ents.push_back(e); an.push_back(a); }
    vector<bool> startNorm; for(auto&e:ents) startNorm.push_back(e.norm&&!e.user);
    int n=large?r.range(4,12):longh?r.range(120,400):r.range(4,30); vector<Step> steps; vector<int> entAt(n,-1), curIdx(n,-1); vector<Data> curAt(n); vector<Ent> entSnap(n); vector<int> sweepOf(n,-1); vector<Ent> entAgg(n);
    vector<int> lastBest(na,-1); struct BestRef{ int step; };
    map<int,set<int>> kinds; map<int,int> nq; vector<pair<int,int>> normAfter; // (step,entity)
    vector<float> favP; for(int i=0;i<3;i++) favP.push_back(genP(r));
    for(int s=0;s<n;s++){ Step x; x.an=r.below(na); An&a=an[x.an]; St&S=st[x.an]; static const Op w[]={BEST,BEST,BEST,BEST,SWEEP,SWEEP,SWEEP,SUMMARY,SUMMARY,TABLE,AGG,AGG,AGG,RECOMPUTE,NORMALIZE,SETCELL,SETCELL,META,VALUES,NEWPART,AGGPART,REPLACE,REPLACE}; x.op=w[r.below(sizeof w/sizeof*w)];
        if(a.user&&(x.op==AGG||x.op==RECOMPUTE||x.op==SETCELL||x.op==VALUES||x.op==AGGPART||x.op==REPLACE)) x.op=BEST;
        if(x.op==META&&a.kind==O) x.op=TABLE; if(x.op==SUMMARY&&S.lastSweep<0&&r.coin(0.7)) x.op=SWEEP; if(x.op==AGGPART&&lastBest[x.an]<0) x.op=AGG;
        x.p=r.coin(0.4)?r.pick(favP):genP(r,r.coin(0.8)); x.th=(float)r.logu(large?0.08:1e-3,0.5); x.mn=0;x.mx=1; if(r.coin(0.3)){ x.mn=genP(r);x.mx=r.coin(0.1)?x.mn:genP(r); if(x.mn>x.mx)std::swap(x.mn,x.mx);} x.l=r.below(a.init.L);x.k=r.below(a.init.V);x.t=r.below(a.init.T); x.x=r.coin(0.2)?0:r.logu(1e-2,1e3);
        if(x.op==SETCELL) S.cur.at(x.l,x.k,x.t)=x.x;
        if(x.op==RECOMPUTE){ Ent e; e.an=x.an; e.data=S.cur; S.qent=(int)ents.size(); ents.push_back(e); }
        if(x.op==NORMALIZE){ ents[S.qent].norm=true; normAfter.push_back({s,S.qent}); }
        if(x.op==REPLACE){ x.nd=a.init; fillValues(x.nd,r,pickCls(r)); x.drop=r.coin(0.7); x.nnorm=r.coin(0.3); Ent e; e.an=x.an; e.data=x.nd; e.norm=x.nnorm; S.cur=x.nd; S.qent=S.pent=(int)ents.size(); S.lastSweep=-1; lastBest[x.an]=-1; ents.push_back(e); }
        if(x.op==NEWPART){ S.pent=S.qent; S.lastSweep=-1; }
        entAt[s]=(x.op==TABLE||x.op==RECOMPUTE||x.op==NORMALIZE)?S.qent:S.pent; entSnap[s]=ents[entAt[s]]; curAt[s]=S.cur;
        if(x.op==SWEEP) S.lastSweep=s; sweepOf[s]=S.lastSweep;
        if(x.op==AGGPART) x.prefixSweep=lastBest[x.an];
        if(x.op==BEST||x.op==AGG) lastBest[x.an]=s;
        kinds[x.an].insert(x.op); nq[x.an]++; steps.push_back(x); }
    c.desc=""; for(int i=0;i<na;i++) c.desc+=fmt("analysis %d: ",i)+(an[i].user?"user "+ents[i].ut.str()+" ":"")+an[i].init.str()+(startNorm[i]?" normalised":"")+"; ";
    for(int s=0;s<n;s++){ Step&x=steps[s]; c.desc+=fmt("%d:%s(%d",s,opn[x.op],x.an); if(x.op==BEST||x.op==AGG)c.desc+=fmt(",p=%.9g",x.p); if(x.op==SWEEP)c.desc+=fmt(",%.9g,%.9g,%.9g",x.th,x.mn,x.mx); if(x.op==REPLACE)c.desc+=fmt(",drop=%d,norm=%d,",x.drop,x.nnorm)+x.nd.str(); if(x.op==SETCELL)c.desc+=fmt(",%d,%d,%d=%.17g",x.l,x.k,x.t,x.x); c.desc+="); "; }
    uint64_t rs=r.next();
    // the history, in one process
    inChild(c,"history",[&]{ Rng q(rs); vector<Live> L(na); struct Kept{ int step; PView pv; PView first; bool hasP=false; vector<AggRec> ag; }; vector<Kept> kept; struct KA{ int step; vector<AggRec> a; std::function<vector<AggRec>()> again; }; vector<KA> ka; struct KS{ int step; SView v; map<float,PView> re; }; vector<KS> ks; struct KT { int ent; RawTab raw; Table t; }; vector<KT> kt; vector<pair<int,L::HValuesMetaData>> km; vector<uint64_t> kmh;
        for(int i=0;i<na;i++){ if(an[i].user){ L[i].raw=rawFrom(an[i].kind,ents[i].ut); L[i].quals=qualsFrom(L[i].raw,an[i].tree); } else { L[i].vals=makeVals(an[i].init,q); L[i].quals=qualsOf(L[i].vals); L[i].quals.compute(); if(startNorm[i]) L[i].quals.normalize(); L[i].raw=rawOf(L[i].quals); } L[i].parter=q.coin()?parterQ(L[i].quals):parterRaw(L[i].raw,an[i].tree); }
        map<int,PView> bestOf; vector<int> entNormStep(ents.size(),-1);
        for(int s=0;s<n;s++){ Step&x=steps[s]; Live&l=L[x.an]; Kind k=an[x.an].kind;
            switch(x.op){
            case BEST: { PView v=l.parter.best(x.p); put(s,pvh(v),(int)v.parts.size()); Kept e; e.step=s; e.pv=v; e.hasP=true; kept.push_back(e); bestOf[s]=v; break; }
            case SWEEP: { l.parter.sweep(x.th,x.mn,x.mx); SView v=l.parter.read(); Hash h; v.hash(h); put(s,h.v(),v.parts.empty()?0:(int)v.parts[0].second.parts.size()); ks.push_back({s,v,{}}); break; }
            case SUMMARY: put(s,summary(l.parter)); break;
            case TABLE: { RawTab rt=rawOf(l.quals); Table t=readTable(rt); put(s,t.hash()); kt.push_back({entAt[s],rt,t}); break; }
            case AGG: { PView v=l.parter.best(x.p); ka.push_back({s,{},{}}); auto a=aggregateKept(l.vals,v,ka.back().again); ka.back().a=a; put(s,aggHash(a),(int)v.parts.size()); bestOf[s]=v; Kept e; e.step=s; e.pv=v; e.hasP=true; kept.push_back(e); break; }
            case AGGPART: { PView v=bestOf[x.prefixSweep]; ka.push_back({s,{},{}}); auto a=aggregateKept(l.vals,v,ka.back().again); ka.back().a=a; Hash h; for(auto&y:a){ h.i(y.part.h);h.i(y.part.s);h.i(y.part.e); for(double d:y.sum)h.b(&d,8); for(double d:y.mean)h.b(&d,8);} put(s,h.v(),(int)v.parts.size()); break; }
            case RECOMPUTE: { l.quals.compute(); l.raw=rawOf(l.quals); Table t=readTable(l.raw); put(s,t.hash()); kt.push_back({entAt[s],l.raw,t}); break; }
            case NORMALIZE: { l.quals.normalize(); RawTab rt=rawOf(l.quals); Table t=readTable(rt); put(s,t.hash()); for(auto&z:kt) if(z.ent==entAt[s]) z.t=readTable(z.raw); kt.push_back({entAt[s],rt,t}); entNormStep[entAt[s]]=s; break; }
            case SETCELL: l.vals.set(x.l,x.k,x.t,x.x); put(s,1); break;
            case META: { Hash h; hmeta(h,l.quals.h?l.quals.h->getMetaData():l.quals.d->getMetaData()); put(s,h.v()); break; }
            case VALUES: { Hash h; for(int a=0;a<an[x.an].init.L;a++)for(int b=0;b<an[x.an].init.V;b++)for(int t=0;t<an[x.an].init.T;t++){ double y=l.vals.get(a,b,t),z=l.vals.flat(a,b,t); h.b(&y,8); h.b(&z,8);} put(s,h.v()); break; }
            case NEWPART: l.parter=q.coin()?parterQ(l.quals):parterRaw(rawOf(l.quals),an[x.an].tree); put(s,1); break;
            case REPLACE: { if(x.drop){ auto mine=[&](int st){ return steps[st].an==x.an; }; kept.erase(std::remove_if(kept.begin(),kept.end(),[&](const Kept&e){return mine(e.step);}),kept.end()); ka.erase(std::remove_if(ka.begin(),ka.end(),[&](const KA&e){return mine(e.step);}),ka.end()); ks.erase(std::remove_if(ks.begin(),ks.end(),[&](const KS&e){return mine(e.step);}),ks.end()); kt.erase(std::remove_if(kt.begin(),kt.end(),[&](const KT&e){return ents[e.ent].an==x.an;}),kt.end()); for(auto it=bestOf.begin();it!=bestOf.end();) it=mine(it->first)?bestOf.erase(it):std::next(it); }
                l=Live(); l.vals=makeVals(x.nd,q); l.quals=qualsOf(l.vals); l.quals.compute(); if(x.nnorm) l.quals.normalize(); l.raw=rawOf(l.quals); l.parter=q.coin()?parterQ(l.quals):parterRaw(l.raw,an[x.an].tree); put(s,1); break; }
            default: break; }
            (void)k; }
        // everything handed out earlier, read again
        auto normedAfter=[&](int ent,int step){ return entNormStep[ent]>step; };
        auto strip=[](PView v){ for(auto&p:v.parts) p.g=p.l=0; return v; };
        for(auto&e:kept){ PView w=reread(e.pv); bool nm=normedAfter(entAt[e.step],e.step); PView a=nm?strip(e.pv):e.pv,b=nm?strip(w):w; if(!a.same(b)) throw Violation("retained-partition",fmt("the partition returned by step %d was %s and is now %s",e.step,e.pv.str().c_str(),w.str().c_str())); shm->cell[511].parts++; }
        for(auto&e:ks) for(auto&kv:e.v.parts){ PView w=reread(kv.second); bool nm=normedAfter(entAt[e.step],e.step); PView a=nm?strip(kv.second):kv.second,b=nm?strip(w):w; if(!a.same(b)) throw Violation("retained-partition",fmt("the partition of %.9g listed by step %d was %s and is now %s",kv.first,e.step,kv.second.str().c_str(),w.str().c_str())); shm->cell[511].parts++; }
        for(auto&e:ka){ vector<AggRec> b=e.again(); bool same=b.size()==e.a.size(); for(size_t i=0;same&&i<b.size();i++) same=b[i].sum==e.a[i].sum&&b[i].mean==e.a[i].mean&&b[i].shape==e.a[i].shape&&b[i].part.h==e.a[i].part.h&&b[i].part.s==e.a[i].part.s&&b[i].part.e==e.a[i].part.e; if(!same) throw Violation("retained-aggregate",fmt("the aggregation returned by step %d (%s) holds other values now",e.step,opn[steps[e.step].op])); shm->cell[511].parts++; }
        for(auto&e:kt){ Table t=readTable(e.raw); if(!t.same(e.t)) throw Violation("retained-table",fmt("a table read earlier was %s and is now %s",e.t.str().c_str(),t.str().c_str())); shm->cell[511].parts++; }
        for(int i=0;i<na;i++) if(!an[i].user){ const Data&d=st[i].cur; for(int a=0;a<d.L;a++)for(int b=0;b<d.V;b++)for(int t=0;t<d.T;t++) if(L[i].vals.get(a,b,t)!=d.at(a,b,t)) throw Violation("input-changed",fmt("analysis %d: cell (%d,%d,%d) holds %.17g, stored %.17g",i,a,b,t,L[i].vals.get(a,b,t),d.at(a,b,t))); }
    });
    vector<Cell> got(n); for(int s=0;s<n;s++) got[s]=shm->cell[s]; c.count("retained results read again",shm->cell[511].parts);
    // each query alone, in a process that has not used the library
    bool multi=false; 
    for(int s=0;s<n;s++){ Step&x=steps[s]; if(x.op==SETCELL||x.op==NEWPART||x.op==REPLACE) continue; if(longh?s<n-4&&r.coin(0.93):n>12&&r.coin(0.35)&&x.op!=SUMMARY) { c.count("steps not compared"); continue; }
        const An&a=an[x.an]; const Ent&e=entSnap[s]; shm->cell[s].h=0;
        inChild(c,"the same query asked first",[&]{ 
            if(x.op==VALUES){ Vals v=valsNested(curAt[s]); Hash h; for(int p=0;p<v.L;p++)for(int b=0;b<v.V;b++)for(int t=0;t<v.T;t++){ double y=v.get(p,b,t),z=v.flat(p,b,t); h.b(&y,8); h.b(&z,8);} put(s,h.v()); return; }
            if(x.op==META){ Hash h; hmeta(h,meta(a.tree)); put(s,h.v()); return; }
            if(x.op==AGGPART){ Live l=freshFor(entSnap[x.prefixSweep],a); PView v=l.parter.best(steps[x.prefixSweep].p); Vals cv=valsNested(curAt[s]); auto g=aggregate(cv,v); Hash h; for(auto&y:g){ h.i(y.part.h);h.i(y.part.s);h.i(y.part.e); for(double d:y.sum)h.b(&d,8); for(double d:y.mean)h.b(&d,8);} put(s,h.v()); return; }
            Live l=freshFor(e,a,!(x.op==TABLE||x.op==RECOMPUTE||x.op==NORMALIZE));
            switch(x.op){ case BEST: put(s,pvh(l.parter.best(x.p))); break;
            case SWEEP: { l.parter.sweep(x.th,x.mn,x.mx); SView v=l.parter.read(); Hash h; v.hash(h); put(s,h.v()); break; }
            case SUMMARY: { int q=sweepOf[s]; if(q>=0){ 
                    // the sweep saw its table as it was then; later normalisation changes the qualities of the listed parts
                    if(entSnap[q].norm!=e.norm){ put(s,got[s].h); return; } l.parter.sweep(steps[q].th,steps[q].mn,steps[q].mx); } put(s,summary(l.parter)); break; }
            case TABLE: case RECOMPUTE: case NORMALIZE: put(s,readTable(l.raw).hash()); break;
            case AGG: { PView v=l.parter.best(x.p); Vals cv=valsNested(curAt[s]); put(s,aggHash(aggregate(cv,v))); break; }
            default: break; } });
        REQ(c,shm->cell[s].h==got[s].h,x.op==TABLE||x.op==RECOMPUTE||x.op==NORMALIZE?"table":x.op==SWEEP||x.op==SUMMARY?"sweep":x.op==BEST?"partition":x.op==META?"structure":x.op==VALUES?"values":"aggregate","step %d (%s) gives another result than the same query asked first on fresh objects",s,opn[x.op]);
        c.count(string("compared: ")+opn[x.op]); if(got[s].parts>1) multi=true; }
    c.count("steps run",n); bool nt=false; for(auto&kv:kinds) if(kv.second.size()>=2&&nq[kv.first]>=3) nt=true; Hash h; h.s(c.desc); c.distinct(h.v(),nt&&multi); if(na>1) c.count("histories over several analyses"); if(large) c.count("histories over large analyses"); if(longh) c.count("histories of more than a hundred steps"); if(c.samples.size()<2&&nt&&multi&&c.desc.size()<1800) c.samples.push_back(c.desc); }
