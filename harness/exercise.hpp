// A random walk over the public interface: objects of every class are made, queried, copied and destroyed in any order the interface allows.
#pragma once
#include "oracle.hpp"
#include <sstream>

struct Ex {
    Rng r; Hash out; uint64_t ops[24]; int maxSz; 
    struct Item { Tree tree; Kind kind; int T=1; bool user=false; Data data; bool hv=false,hq=false,hr=false,hp=false,swept=false; Vals vals; Quals quals; RawTab raw; Parter parter; vector<PView> pv; vector<shared_ptr<std::function<void(Hash&)>>> agg; vector<SView> sv; vector<map<float,shared_ptr<L::Quality>>> ql; };
    vector<Item> it;
    Ex(uint64_t seed,int maxSz):r(seed),maxSz(maxSz){ memset(ops,0,sizeof ops); }
    enum { MAKE, TABLE, PRESWEEP, BEST, SWEEP, AGG, AGGONE, DROP, MISC, COPY, NORM, STORE, READ, EQUAL, META, NOP };
    static const char* name(int o){ static const char*n[]={"analyses made","tables read","queries before a sweep","best partitions","sweeps","aggregations","aggregates of caller-made parts","objects destroyed","partition getters","copies","normalisations","stores","value reads","comparisons","structure reads"}; return n[o]; }
    Item& any(){ return it[r.below((int)it.size())]; }
    void make(){ ops[MAKE]++; Item x; x.kind=(Kind)r.below(3); int sz=std::min(maxSz,pickSize(r)); x.user=r.coin(0.3); x.data=genData(r,x.kind,sz); x.tree=x.data.tree; x.T=x.data.T;
        if(x.user){ x.raw=rawFrom(x.kind,genTable(r,x.kind,x.tree,x.T,r.below(TC))); x.hr=true; if(r.coin()){ x.quals=qualsFrom(x.raw,x.tree); x.hq=true; if(r.coin(0.3)) x.quals.compute(); if(r.coin(0.3)) x.quals.normalize(); out.i(x.quals.size()); } if(r.coin()) { x.parter=x.hq&&r.coin()?parterQ(x.quals):parterRaw(x.raw,x.tree); x.hp=true; } }
        else { x.vals=makeVals(x.data,r); x.hv=true; if(r.coin(0.9)){ x.quals=qualsOf(x.vals); x.hq=true; x.quals.compute(); if(r.coin(0.4)) x.quals.normalize(); out.i(x.quals.size()); x.raw=rawOf(x.quals); x.hr=true; x.parter=r.coin()?parterQ(x.quals):parterRaw(x.raw,x.tree); x.hp=true; } }
        it.push_back(std::move(x)); }
    void rq(const shared_ptr<L::Quality>&q){ if(q){ out.q(q->getGain()); out.q(q->getLoss()); } }
    void best(Item&x){ if(!x.hp) return; ops[BEST]++; PView v=x.parter.best(genP(r,false)); v.hash(out); if(r.coin(0.6)) x.pv.push_back(v); }
    void summaries(Item&x){ auto&b=x.parter.base(); out.d(b.getP(P_MIN)); out.d(b.getP(P_MAX)); out.d(b.getP(P_OPT)); out.d(b.getP(r.range(3,9))); float a=b.computeAUC(); out.b(&a,4); for(float f:b.getPList()) out.d(f); for(auto&kv:b.getQualityList()) rq(kv.second); }
    void sweep(Item&x){ if(!x.hp) return; if(!x.swept&&r.coin(0.3)){ ops[PRESWEEP]++; summaries(x); SView v=x.parter.read(); v.hash(out); }
        ops[SWEEP]++; x.swept=true; double work=(double)(x.kind==O?1:x.tree.n())*x.T*x.T*(x.kind==H?1:x.T); // one best partition costs about this much
        float th=r.coin(0.1)?1.f:(float)r.logu(2e-3,0.5); if(work>1e5) th=std::max(th,0.06f); if(work>1e6) th=std::max(th,0.4f);
        if(work<=2e3&&r.coin(0.05)){ float a=genP(r,false),b=a; for(int i=r.range(0,200);i>0&&b<1;i--) b=std::nextafter(b,1.f); x.parter.sweep((float)r.logu(1e-12,1e-6),a,b); } // down to the resolution of the parameter, over a range that holds few values whatever ties there are
        else if(r.coin(0.4)){ x.parter.sweepDefault(th); } else { float a=genP(r,false),b=r.coin(0.2)?a:genP(r,false); if(a>b)std::swap(a,b); x.parter.sweep(th,a,b); }
        SView v=x.parter.read(); v.hash(out); if(r.coin(0.5)) x.sv.push_back(v); if(r.coin(0.7)) summaries(x); if(r.coin(0.3)) x.ql.push_back(x.parter.base().getQualityList()); }
    template<class A,class P,class W> void keep(Item&x,P p,W w){ auto a=make_shared<A>(p,w); auto f=make_shared<std::function<void(Hash&)>>([a](Hash&h){ for(auto&g:aggRecs(*a)){ h.i(g.part.h);h.i(g.part.s);h.i(g.part.e);h.q(g.part.g); for(double d:g.sum)h.d(d); for(double d:g.mean)h.d(d);} }); (*f)(out); if(r.coin(0.5)) x.agg.push_back(f); }
    void agg(Item&x){ if(!x.hv||x.pv.empty()) return; ops[AGG]++; const PView&p=r.pick(x.pv); auto&v=x.vals;
        if(v.o1)keep<L::OAggregationN1>(x,p.o,v.o1); if(v.o2)keep<L::OAggregationN2>(x,p.o,v.o2); if(v.o3)keep<L::OAggregationN3>(x,p.o,v.o3); if(v.o4)keep<L::OAggregationN4>(x,p.o,v.o4);
        if(v.h1)keep<L::HAggregationN1>(x,p.h,v.h1); if(v.h2)keep<L::HAggregationN2>(x,p.h,v.h2); if(v.h3)keep<L::HAggregationN3>(x,p.h,v.h3); if(v.h4)keep<L::HAggregationN4>(x,p.h,v.h4);
        if(v.d2)keep<L::DAggregationN2>(x,p.d,v.d2); if(v.d3)keep<L::DAggregationN3>(x,p.d,v.d3); if(v.d4)keep<L::DAggregationN4>(x,p.d,v.d4); }
    void aggone(Item&x){ if(!x.hv) return; ops[AGGONE]++; int h=r.below(x.kind==O?1:x.tree.n()); int s=r.below(x.T),e=r.range(s,x.T-1); AggRec a=aggregateOne(x.vals,h,x.kind==O?1:x.tree.nl[h],s,e); for(double d:a.sum)out.d(d); for(double d:a.mean)out.d(d); }
    void drop(){ ops[DROP]++; if(r.coin(0.3)){ int i=r.below((int)it.size()); std::swap(it[i],it.back()); it.pop_back(); return; } Item&x=any(); switch(r.below(8)){
        case 0: x.vals=Vals(); x.hv=false; break; case 1: x.quals=Quals(); x.hq=false; break; case 2: x.raw=RawTab(); x.hr=false; break; case 3: x.parter=Parter(); x.hp=x.swept=false; break;
        case 4: x.pv.clear(); break; case 5: x.agg.clear(); break; case 6: x.sv.clear(); break; case 7: x.ql.clear(); break; } }
    void hmeta(const L::HValuesMetaData&m){ out.i(m.getHsize()); out.i(m.getRoot()); out.i(m.getLeaveSize()); for(int p:m.getParents())out.i(p); for(auto&c:m.getChildren())for(int q:c)out.i(q); for(auto&kv:m.getSize()){out.i(kv.first);out.i(kv.second);} for(int q:m.getPath())out.i(q); }
    void misc(Item&x){ if(x.pv.empty()) return; ops[MISC]++; PView&p=x.pv[r.below((int)x.pv.size())]; PView w=reread(p); w.hash(out);
        if(p.o){ for(int c:p.o->getCuts())out.i(c); rq((*p.o->getQualities())(0,x.T-1)); }
        if(p.h){ for(bool b:p.h->getAggregated())out.i(b); hmeta(p.h->getMetaData()); for(auto&q:*p.h->getQualities()) rq(q); }
        if(p.d){ for(auto&m:p.d->getCuts()) for(int i=0;i<m->getElements();i++) out.i((*m)[i]); hmeta(p.d->getMetaData()); for(auto&q:*p.d->getQualities()) rq((*q)(0,x.T-1)); } }
    void equal(Item&x){ if(x.pv.size()<2) return; ops[EQUAL]++; PView&a=x.pv[r.below((int)x.pv.size())],&b=x.pv[r.below((int)x.pv.size())]; if(a.o) out.i((*a.o==*b.o)*2+(*a.o!=*b.o)); if(a.h) out.i((*a.h==*b.h)*2+(*a.h!=*b.h)); if(a.d) out.i((*a.d==*b.d)*2+(*a.d!=*b.d));
        if(a.o&&b.o){ auto u=a.o->getParts(),v=b.o->getParts(); out.i(u[0]==v[0]); out.i(u.back()!=v.back()); } if(a.h&&b.h){ auto u=a.h->getParts(),v=b.h->getParts(); out.i(u[0]==v[0]); } if(a.d&&b.d){ auto u=a.d->getParts(),v=b.d->getParts(); out.i(u[0]==v[0]); }
        auto qa=a.o?a.o->getQuality():a.h?a.h->getQuality():a.d->getQuality(), qb=b.o?b.o->getQuality():b.h?b.h->getQuality():b.d->getQuality(); out.i(*qa==*qb); L::Quality s=*qa+*qb,d=*qa-*qb,m=*qa**qb; out.q(s.getGain()); out.q(d.getLoss()); out.q(m.getGain()); std::ostringstream os; os<<s; out.s(os.str());
        L::Tradeoff t(qa,0.25f),u(qb,0.25f),w; w=t; w+=u; L::Tradeoff z(w); z-=t; z*=u; out.q(z.getValue()); rq(z.getQuality()); L::Tradeoff y=t+u; y.set(qa,0.75f); y.computePIC(0.5f); out.q(y.getValue()); out.i((t<u)+2*(t>u)+4*(t<=u)+8*(t>=u)+16*(t==u)+32*(t!=u)); L::Tradeoff e(3.0L,qb); out.q(e.getValue()); L::Tradeoff f(qb); out.q(f.getValue()); }
    void copy(Item&x){ ops[COPY]++; switch(r.below(3)){
        case 0: if(x.hq){ if(x.quals.o){ auto c=make_shared<L::OQualities>(*x.quals.o); if(r.coin()) x.quals.o=c; } else if(x.quals.h){ auto c=make_shared<L::HQualities>(*x.quals.h); if(r.coin()) x.quals.h=c; } else { auto c=make_shared<L::DQualities>(*x.quals.d); if(r.coin()) x.quals.d=c; } } break;
        case 1: if(x.hp){ if(x.parter.o) x.parter.o=make_shared<L::OPartitioner>(*x.parter.o); else if(x.parter.h) x.parter.h=make_shared<L::HPartitioner>(*x.parter.h); else x.parter.d=make_shared<L::DPartitioner>(*x.parter.d); summaries(x); } break;
        case 2: if(!x.pv.empty()){ PView&p=x.pv.back(); if(p.o) p.o=make_shared<L::OPartition>(*p.o); else if(p.h) p.h=make_shared<L::HPartition>(*p.h); else p.d=make_shared<L::DPartition>(*p.d); reread(p).hash(out); } break; } }
    void step(){ if(it.empty()||(it.size()<4&&r.coin(0.2))) { make(); return; } Item&x=any(); switch(r.below(22)){
        case 0: if(it.size()<5) make(); break; case 1: case 2: case 3: best(x); break; case 4: case 5: sweep(x); break; case 6: case 7: agg(x); break; case 8: aggone(x); break; case 9: case 10: drop(); break; case 11: misc(x); break; case 12: case 13: equal(x); break; case 14: copy(x); break;
        case 15: if(x.hq){ ops[NORM]++; x.quals.normalize(); } break; case 16: if(x.hv){ ops[STORE]++; x.vals.set(r.below(x.data.L),r.below(x.data.V),r.below(x.data.T),r.u()); if(x.hq&&r.coin(0.6)){ x.quals.compute(); x.raw=rawOf(x.quals); x.hr=true; if(r.coin()){ x.parter=parterQ(x.quals); x.hp=true; x.swept=false; } } } break;
        case 17: if(x.hv){ ops[READ]++; for(int l=0;l<x.data.L;l++)for(int k=0;k<x.data.V;k++)for(int t=0;t<x.data.T;t++){ out.d(x.vals.get(l,k,t)); if(x.data.v.size()<400) out.d(x.vals.flat(l,k,t)); } out.i(x.vals.libV()); out.i(x.vals.libT()); } break;
        case 18: if(x.hr){ ops[TABLE]++; out.i((long long)readTable(x.raw).hash()); } break; case 19: if(x.kind!=O){ ops[META]++; hmeta(meta(x.tree)); if(x.hv) hmeta(x.kind==H?x.vals.h()->getMetaData():x.vals.d()->getMetaData()); if(x.hq) hmeta(x.kind==H?x.quals.h->getMetaData():x.quals.d->getMetaData()); } break;
        case 20: for(auto&f:x.agg) (*f)(out); break; case 21: for(auto&v:x.sv) for(auto&kv:v.parts) reread(kv.second).hash(out); for(auto&m:x.ql) for(auto&kv:m) rq(kv.second); break; } }
    uint64_t run(int n){ for(int i=0;i<n;i++) step(); while(!it.empty()) { if(r.coin(0.6)) drop(); else step(); if(it.empty()||r.coin(0.1)) break; } it.clear(); return out.v(); }
};
