// Uniform view of the three algorithms, through the public interface only.
#pragma once
#include <functional>
#include "common.hpp"
#include "ovaluesn.h"
#include "oqualities.h"
#include "opartitioner.h"
#include "oaggregationn.h"
#include "hvaluesn.h"
#include "hqualities.h"
#include "hpartitioner.h"
#include "haggregationn.h"
#include "dvaluesn.h"
#include "dqualities.h"
#include "dpartitioner.h"
#include "daggregationn.h"
namespace L = lpaggreg;
using std::shared_ptr; using std::make_shared;

enum Kind { O=0, H=1, D=2 };
inline char kch(Kind k){ return "OHD"[k]; }

// A hierarchy, with everything derived by this harness from the parents alone.
struct Tree {
    int L=1; vector<int> par; vector<vector<int>> ch; vector<int> nl; vector<int> order; int root=0; vector<vector<int>> leaves;
    int n() const { return (int)par.size(); }
    void derive(bool wantLeaves=true){
        int N=n(); ch.assign(N,{}); nl.assign(N,0); order.clear(); root=-1;
        for(int i=0;i<N;i++){ if(par[i]<0) root=i; else ch[par[i]].push_back(i); }
        vector<int> st{root}, pre; while(!st.empty()){ int x=st.back(); st.pop_back(); pre.push_back(x); for(int c:ch[x]) st.push_back(c); }
        order.assign(pre.rbegin(),pre.rend());
        leaves.assign(N,{});
        for(int x:order){ if(x<L){ nl[x]=1; if(wantLeaves) leaves[x]={x}; } else for(int c:ch[x]){ nl[x]+=nl[c]; if(wantLeaves) leaves[x].insert(leaves[x].end(),leaves[c].begin(),leaves[c].end()); } }
        if(wantLeaves) for(auto&l:leaves) std::sort(l.begin(),l.end());
    }
    string str() const { string s=fmt("L=%d parents=[",L); for(size_t i=0;i<par.size();i++){ if(i>120){s+="...";break;} s+=(i?",":"")+std::to_string(par[i]); } return s+"]"; }
};
inline Tree singleTree(){ Tree t; t.L=1; t.par={-1}; t.derive(); return t; }

struct Data {
    Kind kind=O; Tree tree; int L=1,T=1,V=1; vector<int> dims; vector<double> v;
    int N() const { return (kind==O?0:kind==H?0:0)+0; }
    void init(Kind k,const Tree&t,int T_,const vector<int>&d){ kind=k; tree=t; L=t.L; T=T_; dims=d; V=1; for(int x:d)V*=x; v.assign((size_t)L*V*T,0); }
    double& at(int l,int k,int t){ return v[((size_t)l*V+k)*T+t]; }
    double at(int l,int k,int t) const { return v[((size_t)l*V+k)*T+t]; }
    int cells() const { return L*T; }
    string str() const { string s=fmt("%c L=%d T=%d V=%d dims=[",kch(kind),L,T,V); for(size_t i=0;i<dims.size();i++) s+=(i?",":"")+std::to_string(dims[i]); s+="] "; if(kind!=O) s+=tree.str()+" "; s+="v[leaf][var][t]=["; for(size_t i=0;i<v.size();i++){ if(i>160){s+="...";break;} s+=(i?",":"")+fmt("%.17g",v[i]); } return s+"]"; }
    uint64_t hash() const { Hash h; h.i(kind);h.i(L);h.i(T);h.i(V); for(int d:dims)h.i(d); for(int p:tree.par)h.i(p); h.b(v.data(),v.size()*8); return h.v(); }
};

struct Table { // gain and loss of every candidate part
    int N=1,T=1; vector<ld> g,l;
    void init(int n,int t){ N=n;T=t; size_t z=(size_t)n*t*(t+1)/2; g.assign(z,0); l.assign(z,0); }
    size_t ix(int h,int i,int j) const { return (size_t)h*T*(T+1)/2 + (size_t)i*T-(size_t)i*(i-1)/2+(j-i); }
    ld G(int h,int i,int j) const { return g[ix(h,i,j)]; } ld Lo(int h,int i,int j) const { return l[ix(h,i,j)]; }
    string str() const { string s=fmt("table N=%d T=%d (gain,loss) by node,i,j: ",N,T); for(size_t k=0;k<g.size();k++){ if(k>80){s+="...";break;} s+=fmt("(%.17Lg,%.17Lg)",g[k],l[k]); } return s; }
    uint64_t hash() const { Hash h; h.i(N);h.i(T); for(size_t k=0;k<g.size();k++){h.q(g[k]);h.q(l[k]);} return h.v(); }
    bool same(const Table&o) const { if(N!=o.N||T!=o.T) return false; for(size_t k=0;k<g.size();k++) if(!(g[k]==o.g[k]&&l[k]==o.l[k])) return false; return true; }
};

// ---- values ----
struct Vals { Kind kind; int nd; int L,T,V; vector<int> dims;
    shared_ptr<L::OValuesN1> o1; shared_ptr<L::OValuesN2> o2; shared_ptr<L::OValuesN3> o3; shared_ptr<L::OValuesN4> o4;
    shared_ptr<L::HValuesN1> h1; shared_ptr<L::HValuesN2> h2; shared_ptr<L::HValuesN3> h3; shared_ptr<L::HValuesN4> h4;
    shared_ptr<L::DValuesN2> d2; shared_ptr<L::DValuesN3> d3; shared_ptr<L::DValuesN4> d4;
    shared_ptr<L::OValues> o() const { if(o1)return o1; if(o2)return o2; if(o3)return o3; return o4; }
    shared_ptr<L::HValues> h() const { if(h1)return h1; if(h2)return h2; if(h3)return h3; return h4; }
    shared_ptr<L::DValues> d() const { if(d2)return d2; if(d3)return d3; return d4; }
    void coord(int k,int&a,int&b,int&c) const { a=b=c=0; if(dims.size()==1) a=k; else if(dims.size()==2){ a=k/dims[1]; b=k%dims[1]; } else if(dims.size()==3){ c=k%dims[2]; b=(k/dims[2])%dims[1]; a=k/(dims[1]*dims[2]); } }
    double get(int l,int k,int t) const { int a,b,c; coord(k,a,b,c);
        if(o1) return (*o1)(t); if(o2) return (*o2)(a,t); if(o3) return (*o3)(a,b,t); if(o4) return (*o4)(a,b,c,t);
        if(h1) return (*h1)(l); if(h2) return (*h2)(l,a); if(h3) return (*h3)(l,a,b); if(h4) return (*h4)(l,a,b,c);
        if(d2) return (*d2)(l,t); if(d3) return (*d3)(l,a,t); return (*d4)(l,a,b,t); }
    void set(int l,int k,int t,double x) const { int a,b,c; coord(k,a,b,c);
        if(o1) (*o1)(t,x); else if(o2) (*o2)(a,t,x); else if(o3) (*o3)(a,b,t,x); else if(o4) (*o4)(a,b,c,t,x);
        else if(h1) (*h1)(l,x); else if(h2) (*h2)(l,a,x); else if(h3) (*h3)(l,a,b,x); else if(h4) (*h4)(l,a,b,c,x);
        else if(d2) (*d2)(l,t,x); else if(d3) (*d3)(l,a,t,x); else (*d4)(l,a,b,t,x); }
    double flat(int l,int k,int t) const { if(kind==O) return (*o())[k][t]; if(kind==H) return (*h())[l][k]; return (*d())[l][k][t]; }
    int libV() const { return kind==O?o()->getVsize():kind==H?h()->getVsize():d()->getVsize(); }
    int libT() const { return kind==O?o()->getOsize():kind==H?1:d()->getOsize(); }
};
inline Vals valsShell(const Data&x){ Vals r; r.kind=x.kind; r.L=x.L; r.T=x.T; r.V=x.V; r.dims=x.dims; r.nd=(int)x.dims.size()+(x.kind==D?2:1); return r; }
// container built from nested vectors
inline Vals valsNested(const Data&x){ Vals r=valsShell(x); const vector<int>&m=x.dims; auto&p=x.tree.par;
    auto ser=[&](int l,int k){ vector<double> s(x.T); for(int t=0;t<x.T;t++) s[t]=x.at(l,k,t); return s; };
    if(x.kind==O){
        if(m.size()==0) r.o1=make_shared<L::OValuesN1>(ser(0,0));
        else if(m.size()==1){ vector<vector<double>> w; for(int a=0;a<m[0];a++) w.push_back(ser(0,a)); r.o2=make_shared<L::OValuesN2>(w); }
        else if(m.size()==2){ vector<vector<vector<double>>> w(m[0]); for(int a=0;a<m[0];a++) for(int b=0;b<m[1];b++) w[a].push_back(ser(0,a*m[1]+b)); r.o3=make_shared<L::OValuesN3>(w); }
        else { vector<vector<vector<vector<double>>>> w(m[0],vector<vector<vector<double>>>(m[1])); for(int a=0;a<m[0];a++) for(int b=0;b<m[1];b++) for(int c=0;c<m[2];c++) w[a][b].push_back(ser(0,(a*m[1]+b)*m[2]+c)); r.o4=make_shared<L::OValuesN4>(w); }
    } else if(x.kind==H){
        if(m.size()==0){ vector<double> w(x.L); for(int l=0;l<x.L;l++) w[l]=x.at(l,0,0); r.h1=make_shared<L::HValuesN1>(w,p); }
        else if(m.size()==1){ vector<vector<double>> w(x.L); for(int l=0;l<x.L;l++) for(int a=0;a<m[0];a++) w[l].push_back(x.at(l,a,0)); r.h2=make_shared<L::HValuesN2>(w,p); }
        else if(m.size()==2){ vector<vector<vector<double>>> w(x.L,vector<vector<double>>(m[0])); for(int l=0;l<x.L;l++) for(int a=0;a<m[0];a++) for(int b=0;b<m[1];b++) w[l][a].push_back(x.at(l,a*m[1]+b,0)); r.h3=make_shared<L::HValuesN3>(w,p); }
        else { vector<vector<vector<vector<double>>>> w(x.L,vector<vector<vector<double>>>(m[0],vector<vector<double>>(m[1]))); for(int l=0;l<x.L;l++) for(int a=0;a<m[0];a++) for(int b=0;b<m[1];b++) for(int c=0;c<m[2];c++) w[l][a][b].push_back(x.at(l,(a*m[1]+b)*m[2]+c,0)); r.h4=make_shared<L::HValuesN4>(w,p); }
    } else {
        if(m.size()==0){ vector<vector<double>> w; for(int l=0;l<x.L;l++) w.push_back(ser(l,0)); r.d2=make_shared<L::DValuesN2>(w,p); }
        else if(m.size()==1){ vector<vector<vector<double>>> w(x.L); for(int l=0;l<x.L;l++) for(int a=0;a<m[0];a++) w[l].push_back(ser(l,a)); r.d3=make_shared<L::DValuesN3>(w,p); }
        else { vector<vector<vector<vector<double>>>> w(x.L,vector<vector<vector<double>>>(m[0])); for(int l=0;l<x.L;l++) for(int a=0;a<m[0];a++) for(int b=0;b<m[1];b++) w[l][a].push_back(ser(l,a*m[1]+b)); r.d4=make_shared<L::DValuesN4>(w,p); }
    }
    return r; }
// container of the given sizes (all zeros)
inline Vals valsSized(const Data&x){ Vals r=valsShell(x); const vector<int>&m=x.dims; auto&p=x.tree.par; unsigned l=x.L,t=x.T;
    if(x.kind==O){ if(m.size()==0) r.o1=make_shared<L::OValuesN1>(t); else if(m.size()==1) r.o2=make_shared<L::OValuesN2>(m[0],t); else if(m.size()==2) r.o3=make_shared<L::OValuesN3>(m[0],m[1],t); else r.o4=make_shared<L::OValuesN4>(m[0],m[1],m[2],t); }
    else if(x.kind==H){ if(m.size()==0) r.h1=make_shared<L::HValuesN1>(l,p); else if(m.size()==1) r.h2=make_shared<L::HValuesN2>(l,m[0],p); else if(m.size()==2) r.h3=make_shared<L::HValuesN3>(l,m[0],m[1],p); else r.h4=make_shared<L::HValuesN4>(l,m[0],m[1],m[2],p); }
    else { if(m.size()==0) r.d2=make_shared<L::DValuesN2>(l,t,p); else if(m.size()==1) r.d3=make_shared<L::DValuesN3>(l,m[0],t,p); else r.d4=make_shared<L::DValuesN4>(l,m[0],m[1],t,p); }
    return r; }
inline Vals valsFilled(const Data&x,Rng&rng){ Vals r=valsSized(x); vector<int> ord(x.v.size()); for(size_t i=0;i<ord.size();i++) ord[i]=(int)i; if(rng.coin()) rng.shuffle(ord);
    for(int i:ord){ int t=i%x.T; int k=(i/x.T)%x.V; int l=i/x.T/x.V; r.set(l,k,t,x.v[i]); } return r; }
inline Vals makeVals(const Data&x,Rng&rng){ return rng.coin(0.7)?valsNested(x):valsFilled(x,rng); }

// ---- qualities ----
struct Quals { Kind kind; shared_ptr<L::OQualities> o; shared_ptr<L::HQualities> h; shared_ptr<L::DQualities> d;
    void compute(){ if(o)o->computeQualities(); else if(h)h->computeQualities(); else d->computeQualities(); }
    void normalize(){ if(o)o->normalize(); else if(h)h->normalize(); else d->normalize(); }
    unsigned size(){ return o?o->size():h?h->size():d->size(); } };
inline Quals qualsOf(const Vals&v){ Quals q; q.kind=v.kind; if(v.kind==O) q.o=make_shared<L::OQualities>(v.o()); else if(v.kind==H) q.h=make_shared<L::HQualities>(v.h()); else q.d=make_shared<L::DQualities>(v.d()); return q; }

struct RawTab { Kind kind; oqualities o; hqualities h; dqualities d; };
inline RawTab rawOf(const Quals&q){ RawTab r; r.kind=q.kind; if(q.o) r.o=q.o->getQualities(); else if(q.h) r.h=q.h->getQualities(); else r.d=q.d->getQualities(); return r; }
inline Table readTable(const RawTab&r){ Table t;
    if(r.kind==O){ int n=r.o->getSize(); t.init(1,n); for(int i=0;i<n;i++) for(int j=i;j<n;j++){ auto q=(*r.o)(i,j); t.g[t.ix(0,i,j)]=q->getGain(); t.l[t.ix(0,i,j)]=q->getLoss(); } }
    else if(r.kind==H){ int n=(int)r.h->size(); t.init(n,1); for(int h=0;h<n;h++){ auto q=(*r.h)[h]; t.g[h]=q->getGain(); t.l[h]=q->getLoss(); } }
    else { int n=(int)r.d->size(); int T=(*r.d)[0]->getSize(); t.init(n,T); for(int h=0;h<n;h++) for(int i=0;i<T;i++) for(int j=i;j<T;j++){ auto q=(*(*r.d)[h])(i,j); t.g[t.ix(h,i,j)]=q->getGain(); t.l[t.ix(h,i,j)]=q->getLoss(); } }
    return t; }
inline oqualities mkTri(const Table&t,int h){ oqualities m(new L::UpperTriangularMatrix<shared_ptr<L::Quality>>(t.T)); for(int i=0;i<t.T;i++) for(int j=i;j<t.T;j++) (*m)(i,j,shared_ptr<L::Quality>(new L::Quality(t.G(h,i,j),t.Lo(h,i,j)))); return m; }
// the caller's own table, given other numbers in place
inline void refill(const RawTab&r,const Table&t){ auto set=[&](L::Quality&q,size_t x){ q.setGain(t.g[x]); q.setLoss(t.l[x]); }; for(int h=0;h<t.N;h++)for(int i=0;i<t.T;i++)for(int j=i;j<t.T;j++) set(r.kind==O?*(*r.o)(i,j):r.kind==H?*(*r.h)[h]:*(*(*r.d)[h])(i,j),t.ix(h,i,j)); }
inline RawTab rawFrom(Kind k,const Table&t){ RawTab r; r.kind=k;
    if(k==O) r.o=mkTri(t,0);
    else if(k==H){ r.h=hqualities(new vector<shared_ptr<L::Quality>>()); for(int h=0;h<t.N;h++) r.h->push_back(shared_ptr<L::Quality>(new L::Quality(t.g[h],t.l[h]))); }
    else { r.d=dqualities(new vector<shared_ptr<L::UpperTriangularMatrix<shared_ptr<L::Quality>>>>()); for(int h=0;h<t.N;h++) r.d->push_back(mkTri(t,h)); }
    return r; }
inline L::HValuesMetaData meta(const Tree&t){ return L::HValuesMetaData(t.L,t.par); }
inline Quals qualsFrom(const RawTab&r,const Tree&t){ Quals q; q.kind=r.kind; if(r.kind==O) q.o=make_shared<L::OQualities>(r.o); else if(r.kind==H) q.h=make_shared<L::HQualities>(r.h,meta(t)); else q.d=make_shared<L::DQualities>(r.d,meta(t)); return q; }

// ---- partitions ----
struct PartRec { int h=0,hs=1,s=0,e=0,osz=1,sz=1; ld g=0,l=0;
    bool sameExtent(const PartRec&o) const { return h==o.h&&s==o.s&&e==o.e; }
    bool operator==(const PartRec&o) const { return h==o.h&&hs==o.hs&&s==o.s&&e==o.e&&osz==o.osz&&sz==o.sz&&g==o.g&&l==o.l; }
    string str() const { return fmt("(h=%d,hs=%d,[%d,%d],size=%d,g=%.17Lg,l=%.17Lg)",h,hs,s,e,sz,g,l); } };
struct PView { Kind kind=O; float p=0; ld g=0,l=0; vector<PartRec> parts; shared_ptr<L::OPartition> o; shared_ptr<L::HPartition> h; shared_ptr<L::DPartition> d;
    bool same(const PView&x) const { return p==x.p&&g==x.g&&l==x.l&&parts==x.parts; }
    bool sameResult(const PView&x) const { return g==x.g&&l==x.l&&parts==x.parts; }
    string str() const { string s=fmt("p=%.9g g=%.17Lg l=%.17Lg parts:",p,g,l); for(size_t i=0;i<parts.size();i++){ if(i>40){s+="...";break;} s+=parts[i].str(); } return s; }
    void hash(Hash&x) const { x.d(p); x.q(g); x.q(l); for(auto&a:parts){ x.i(a.h);x.i(a.hs);x.i(a.s);x.i(a.e);x.i(a.osz);x.i(a.sz);x.q(a.g);x.q(a.l);} } 
    uint64_t shape() const { Hash x; for(auto&a:parts){x.i(a.h);x.i(a.s);x.i(a.e);} return x.v(); } };
inline PartRec recOf(L::OPart a){ PartRec r; r.s=a.getStart(); r.e=a.getEnd(); r.osz=r.sz=a.getSize(); r.g=a.getQuality()->getGain(); r.l=a.getQuality()->getLoss(); return r; }
inline PartRec recOf(L::HPart a){ PartRec r; r.h=a.getH(); r.hs=r.sz=a.getSize(); r.g=a.getQuality()->getGain(); r.l=a.getQuality()->getLoss(); return r; }
inline PartRec recOf(L::DPart a){ PartRec r; r.h=a.getH(); r.hs=a.getHSize(); r.s=a.getStart(); r.e=a.getEnd(); r.osz=a.getOSize(); r.sz=a.getSize(); r.g=a.getQuality()->getGain(); r.l=a.getQuality()->getLoss(); return r; }
template<class P> void fillView(PView&v,const shared_ptr<P>&p){ v.p=p->getParameter(); v.g=p->getQuality()->getGain(); v.l=p->getQuality()->getLoss(); for(auto a:p->getParts()) v.parts.push_back(recOf(a)); }
inline PView view(const shared_ptr<L::OPartition>&p){ PView v; v.kind=O; v.o=p; fillView(v,p); return v; }
inline PView view(const shared_ptr<L::HPartition>&p){ PView v; v.kind=H; v.h=p; fillView(v,p); return v; }
inline PView view(const shared_ptr<L::DPartition>&p){ PView v; v.kind=D; v.d=p; fillView(v,p); return v; }
inline PView reread(const PView&x){ return x.o?view(x.o):x.h?view(x.h):view(x.d); }

struct TupRec { float p; int h,size,s,e; ld g,l; bool operator==(const TupRec&o) const { return p==o.p&&h==o.h&&size==o.size&&s==o.s&&e==o.e&&g==o.g&&l==o.l; } 
    string str() const { return fmt("(p=%.9g h=%d size=%d [%d,%d] g=%.17Lg l=%.17Lg)",p,h,size,s,e,g,l);} };
struct SView { vector<float> pl; vector<pair<float,PView>> parts; vector<TupRec> tup; vector<pair<float,pair<ld,ld>>> ql;
    bool same(const SView&o) const { if(pl!=o.pl||ql!=o.ql||!(tup==o.tup)||parts.size()!=o.parts.size()) return false; for(size_t i=0;i<parts.size();i++) if(parts[i].first!=o.parts[i].first||!parts[i].second.same(o.parts[i].second)) return false; return true; }
    void hash(Hash&x) const { for(float f:pl)x.d(f); for(auto&a:parts){x.d(a.first);a.second.hash(x);} for(auto&a:tup){x.d(a.p);x.i(a.h);x.i(a.size);x.i(a.s);x.i(a.e);x.q(a.g);x.q(a.l);} for(auto&a:ql){x.d(a.first);x.q(a.second.first);x.q(a.second.second);} }
    string str() const { string s="pList=["; for(float f:pl) s+=fmt("%.9g,",f); return s+"]"; } };

struct Parter { Kind kind; shared_ptr<L::OPartitioner> o; shared_ptr<L::HPartitioner> h; shared_ptr<L::DPartitioner> d;
    L::Partitioner& base() const { if(o) return *o; if(h) return *h; return *d; }
    PView best(float p) const { return o?view(o->computeBestPartition(p)):h?view(h->computeBestPartition(p)):view(d->computeBestPartition(p)); }
    void sweep(float th,float mn,float mx) const { base().computeBestPartitions(th,mn,mx); }
    void sweepDefault(float th) const { if(o)o->computeBestPartitions(th); else if(h)h->computeBestPartitions(th); else d->computeBestPartitions(th); }
    SView read() const { SView v; v.pl=base().getPList(); for(auto&kv:base().getQualityList()) v.ql.push_back({kv.first,{kv.second->getGain(),kv.second->getLoss()}});
        if(o){ for(auto&kv:o->getPartitions()) v.parts.push_back({kv.first,view(kv.second)}); for(auto&t:o->getPartitionsTuples()) v.tup.push_back({std::get<0>(t),0,std::get<2>(t)-std::get<1>(t)+1,std::get<1>(t),std::get<2>(t),std::get<3>(t),std::get<4>(t)}); }
        else if(h){ for(auto&kv:h->getPartitions()) v.parts.push_back({kv.first,view(kv.second)}); for(auto&t:h->getPartitionsTuples()) v.tup.push_back({std::get<0>(t),std::get<1>(t),std::get<2>(t),0,0,std::get<3>(t),std::get<4>(t)}); }
        else { for(auto&kv:d->getPartitions()) v.parts.push_back({kv.first,view(kv.second)}); for(auto&t:d->getPartitionsTuples()) v.tup.push_back({std::get<0>(t),std::get<1>(t),std::get<2>(t),std::get<3>(t),std::get<4>(t),std::get<5>(t),std::get<6>(t)}); }
        return v; } };
inline Parter parterRaw(const RawTab&r,const Tree&t){ Parter p; p.kind=r.kind; if(r.kind==O) p.o=make_shared<L::OPartitioner>(r.o); else if(r.kind==H) p.h=make_shared<L::HPartitioner>(r.h,meta(t)); else p.d=make_shared<L::DPartitioner>(r.d,meta(t)); return p; }
inline Parter parterQ(const Quals&q){ Parter p; p.kind=q.kind; if(q.o) p.o=make_shared<L::OPartitioner>(*q.o); else if(q.h) p.h=make_shared<L::HPartitioner>(*q.h); else p.d=make_shared<L::DPartitioner>(*q.d); return p; }

// A table with exact ties can make a correct sweep list a new partition at every parameter it tries; a fine threshold is kept only where coarser sweeps by a partitioner of its own stay short.
inline float gentle(const RawTab&r,const Tree&t,float th,float mn,float mx){ static const float lev[2]={1e-3f,1e-5f}; static const size_t most[2]={60,300}; for(int i=0;i<2;i++){ if(th>=lev[i]) return th; Parter f=parterRaw(r,t); f.sweep(lev[i],mn,mx); if(f.base().getPList().size()>most[i]) return lev[i]; } return th; }

// ---- aggregates ----
struct AggRec { PartRec part; vector<double> sum,mean; vector<int> shape; };
inline void flat(double x,vector<double>&o,vector<int>&,int){ o.push_back(x); }
template<class T> void flat(const vector<T>&x,vector<double>&o,vector<int>&sh,int lev){ if((int)sh.size()<=lev) sh.push_back((int)x.size()); else if(sh[lev]!=(int)x.size()) sh[lev]=-1; for(auto&y:x) flat(y,o,sh,lev+1); }
template<class A> AggRec aggRec(const A&a){ AggRec r; r.part=recOf(a.getPart()); vector<int> s2; flat(a.getSum(),r.sum,r.shape,0); flat(a.getMean(),r.mean,s2,0); if(s2!=r.shape) r.shape={-2}; return r; }
template<class A> vector<AggRec> aggRecs(const A&a){ vector<AggRec> r; for(auto&x:a.getAggregates()) r.push_back(aggRec(x)); return r; }
inline vector<AggRec> aggregate(const Vals&v,const PView&p){
    if(v.o1) return aggRecs(L::OAggregationN1(p.o,v.o1)); if(v.o2) return aggRecs(L::OAggregationN2(p.o,v.o2)); if(v.o3) return aggRecs(L::OAggregationN3(p.o,v.o3)); if(v.o4) return aggRecs(L::OAggregationN4(p.o,v.o4));
    if(v.h1) return aggRecs(L::HAggregationN1(p.h,v.h1)); if(v.h2) return aggRecs(L::HAggregationN2(p.h,v.h2)); if(v.h3) return aggRecs(L::HAggregationN3(p.h,v.h3)); if(v.h4) return aggRecs(L::HAggregationN4(p.h,v.h4));
    if(v.d2) return aggRecs(L::DAggregationN2(p.d,v.d2)); if(v.d3) return aggRecs(L::DAggregationN3(p.d,v.d3)); return aggRecs(L::DAggregationN4(p.d,v.d4)); }
// the same, with the aggregation object kept so that it can be read again later
template<class A,class P,class W> vector<AggRec> keepAgg(const P&p,const W&w,std::function<vector<AggRec>()>&again){ auto a=make_shared<A>(p,w); again=[a]{ return aggRecs(*a); }; return aggRecs(*a); }
inline vector<AggRec> aggregateKept(const Vals&v,const PView&p,std::function<vector<AggRec>()>&f){
    if(v.o1) return keepAgg<L::OAggregationN1>(p.o,v.o1,f); if(v.o2) return keepAgg<L::OAggregationN2>(p.o,v.o2,f); if(v.o3) return keepAgg<L::OAggregationN3>(p.o,v.o3,f); if(v.o4) return keepAgg<L::OAggregationN4>(p.o,v.o4,f);
    if(v.h1) return keepAgg<L::HAggregationN1>(p.h,v.h1,f); if(v.h2) return keepAgg<L::HAggregationN2>(p.h,v.h2,f); if(v.h3) return keepAgg<L::HAggregationN3>(p.h,v.h3,f); if(v.h4) return keepAgg<L::HAggregationN4>(p.h,v.h4,f);
    if(v.d2) return keepAgg<L::DAggregationN2>(p.d,v.d2,f); if(v.d3) return keepAgg<L::DAggregationN3>(p.d,v.d3,f); return keepAgg<L::DAggregationN4>(p.d,v.d4,f); }
// one aggregate of a part made by the caller
inline AggRec aggregateOne(const Vals&v,int h,int hs,int s,int e){ auto q=shared_ptr<L::Quality>(new L::Quality());
    L::OPart op(s,e,q); L::HPart hp(h,hs,q); L::DPart dp(h,hs,s,e,q);
    if(v.o1) return aggRec(L::OAggregateN1(op,v.o1)); if(v.o2) return aggRec(L::OAggregateN2(op,v.o2)); if(v.o3) return aggRec(L::OAggregateN3(op,v.o3)); if(v.o4) return aggRec(L::OAggregateN4(op,v.o4));
    if(v.h1) return aggRec(L::HAggregateN1(hp,v.h1)); if(v.h2) return aggRec(L::HAggregateN2(hp,v.h2)); if(v.h3) return aggRec(L::HAggregateN3(hp,v.h3)); if(v.h4) return aggRec(L::HAggregateN4(hp,v.h4));
    if(v.d2) return aggRec(L::DAggregateN2(dp,v.d2)); if(v.d3) return aggRec(L::DAggregateN3(dp,v.d3)); return aggRec(L::DAggregateN4(dp,v.d4)); }

// a complete analysis
struct Sys { Data data; Vals vals; Quals quals; Parter parter; };
// Uses a partitioner before the call that is judged: queries, sweeps and reads, whose only legitimate effect is on the sweep results.
inline void warm(const Parter&p,Rng&r,size_t entries){ int n=r.range(1,4); for(int i=0;i<n;i++){ int w=r.below(10); if(w<6) p.best(r.coin(0.3)?0.f:r.coin(0.4)?1.f:(float)r.u()); else if(w<8&&entries<3000){ float a=(float)r.u(),b=(float)r.u(); if(a>b) std::swap(a,b); if(r.coin()) p.sweepDefault((float)r.logu(0.08,1)); else p.sweep((float)r.logu(0.08,1),a,b); } else if(w==8) p.read(); else { auto&b=p.base(); b.getP(P_MIN); b.getP(P_MAX); b.getP(P_OPT); b.computeAUC(); } } }
inline void overwrite(const Vals&v,const Data&x,Rng&rng){ vector<int> ord(x.v.size()); for(size_t i=0;i<ord.size();i++) ord[i]=(int)i; if(rng.coin()) rng.shuffle(ord); for(int i:ord) v.set(i/x.T/x.V,(i/x.T)%x.V,i%x.T,x.v[i]); }
// Values and the qualities computed from them (not normalised), reached directly or through a longer history of the same objects: other content, its
// qualities computed and normalised, partitions, sweeps and aggregates of it, then every cell stored again and the qualities computed again.
inline Sys history(const Data&x,Rng&rng,double prob=0.3){ Sys s; s.data=x; size_t entries=(size_t)(x.kind==O?1:x.tree.n())*x.T*(x.T+1)/2;
    if(entries>6000||!rng.coin(prob)){ s.vals=makeVals(x,rng); s.quals=qualsOf(s.vals); s.quals.compute(); return s; }
    Data o=x; switch(rng.below(5)){ case 0: for(double&d:o.v) d=0; break; case 1: for(double&d:o.v) d=rng.range(0,6); break; case 2: rng.shuffle(o.v); break; case 3: for(double&d:o.v) d=rng.coin(0.5)?d:rng.logu(1e-3,1e3); break; default: break; }
    s.vals=makeVals(o,rng); s.quals=qualsOf(s.vals); vector<Parter> keep; int n=rng.range(1,5); bool comp=false;
    for(int i=0;i<n;i++) switch(rng.below(7)){
        case 0: case 1: s.quals.compute(); comp=true; break;
        case 2: if(comp) s.quals.normalize(); break;
        case 3: if(comp){ Parter p=rng.coin()?parterQ(s.quals):parterRaw(rawOf(s.quals),x.tree); warm(p,rng,entries); keep.push_back(p); } break;
        case 4: if(comp){ PView p=parterQ(s.quals).best((float)rng.u()); aggregate(s.vals,p); } break;
        case 5: { Data y=o; for(double&d:y.v) d=rng.range(0,9); overwrite(s.vals,y,rng); } break;
        default: if(rng.coin()){ s.quals=qualsOf(s.vals); comp=false; } else if(comp) readTable(rawOf(s.quals)); }
    if(rng.coin()) keep.clear();
    overwrite(s.vals,x,rng); if(rng.coin(0.2)) s.quals=qualsOf(s.vals);
    s.quals.compute(); if(rng.coin(0.2)) s.quals.compute(); return s; }
inline Sys makeSys(const Data&x,Rng&rng,bool norm){ Sys s=history(x,rng); size_t entries=(size_t)(x.kind==O?1:x.tree.n())*x.T*(x.T+1)/2;
    if(entries<=6000&&rng.coin(0.2)){ Parter p=rng.coin()?parterQ(s.quals):parterRaw(rawOf(s.quals),x.tree); warm(p,rng,entries); }
    if(norm) s.quals.normalize();
    s.parter=rng.coin()?parterQ(s.quals):parterRaw(rawOf(s.quals),x.tree);
    if(entries<=6000&&rng.coin(0.2)) warm(s.parter,rng,entries); return s; }
