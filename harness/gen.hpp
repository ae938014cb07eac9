// Workload generators: hierarchies, measurements, quality tables, parameters.
#pragma once
#include "lib.hpp"

// relabel the grouping nodes: ids L.. of t are permuted by perm (perm[k] = new id - L)
inline Tree relabel(const Tree&t,const vector<int>&leafPerm,const vector<int>&nodePerm){ // new = perm[old]
    Tree r; r.L=t.L; r.par.assign(t.n(),-1); auto m=[&](int x){ return x<t.L?leafPerm[x]:t.L+nodePerm[x-t.L]; };
    for(int i=0;i<t.n();i++) r.par[m(i)]=t.par[i]<0?-1:m(t.par[i]); r.derive(); return r; }
inline vector<int> iota(int n){ vector<int> v(n); for(int i=0;i<n;i++) v[i]=i; return v; }

inline Tree genTree(Rng&rng,int nl,int style=-1,int numbering=-1){
    Tree t; t.L=nl; vector<vector<int>> kids; // kids[k] of node nl+k
    vector<int> roots=iota(nl); auto mk=[&](const vector<int>&c){ kids.push_back(c); return nl+(int)kids.size()-1; };
    if(style<0) style=rng.below(9);
    if(nl==1){ int c=style%4==0?0:rng.range(0,5); int x=0; for(int i=0;i<c;i++) x=mk({x}); }
    else switch(style){
    case 0: case 8: { // random agglomeration, possibly with one-child nodes
        double chain=rng.coin()?0.15:0; while(roots.size()>1||(chain>0&&rng.coin(0.2))){ int k; if(rng.coin(chain)||roots.size()==1) k=1; else k=rng.range(2,std::max(2,std::min((int)roots.size(),rng.range(2,5)))); rng.shuffle(roots); vector<int> c(roots.end()-k,roots.end()); roots.resize(roots.size()-k); roots.push_back(mk(c)); if((int)kids.size()>4*nl+20) chain=0; } break; }
    case 1: { int k=rng.range(2,4); while(roots.size()>1){ vector<int> nx; for(size_t i=0;i<roots.size();i+=k){ vector<int> c; for(size_t j=i;j<std::min(roots.size(),i+k);j++) c.push_back(roots[j]); nx.push_back(c.size()==1&&rng.coin()?c[0]:mk(c)); } roots=nx; } break; }
    case 2: { int x=roots[0]; for(int i=1;i<nl;i++) x=mk(rng.coin()?vector<int>{x,roots[i]}:vector<int>{roots[i],x}); break; } // caterpillar
    case 3: mk(roots); break; // star
    case 4: { vector<int> c; for(int r:roots){ int d=rng.range(0,3); for(int i=0;i<d;i++) r=mk({r}); c.push_back(r);} mk(c); break; } // star of chains
    case 5: { int x=mk(roots); int d=rng.range(1,4); for(int i=0;i<d;i++) x=mk({x}); break; } // chain above a star
    case 6: { int k=rng.range(1,std::max(1,nl-1)); vector<int> a(roots.begin(),roots.begin()+k), b(roots.begin()+k,roots.end()); int x=mk(a); b.push_back(x); mk(b); break; } // leaves at different depths
    case 7: { rng.shuffle(roots); while(roots.size()>1){ int k=rng.range(1,std::max(1,(int)roots.size()/2)); vector<int> c(roots.end()-k-1,roots.end()); roots.resize(roots.size()-k-1); int x=mk(c); if(rng.coin(0.3)) x=mk({x}); roots.insert(roots.begin(),x); } break; }
    }
    int m=(int)kids.size(); t.par.assign(nl+m,-1); for(int k=0;k<m;k++) for(int c:kids[k]) t.par[c]=nl+k; t.derive();
    vector<int> lp=iota(nl), np=iota(m); if(numbering<0) numbering=rng.below(4);
    if(numbering==1||numbering==3) rng.shuffle(np); else if(numbering==2) std::reverse(np.begin(),np.end());
    if(numbering>=2) rng.shuffle(lp);
    return relabel(t,lp,np);
}

enum { VC=20 };
inline const char* vclsName(int c){ static const char*n[VC]={"uniform","sparse","constant","blocks","heavy-tail","tiny","huge","small-int","all-zero","spike","proportions","pow2","mixed-scale-vars","zero-leaf-or-slice","ramp","counts","sub-unit","repeating","noisy-blocks","zero-variable"}; return n[c]; }
inline void fillValues(Data&x,Rng&r,int c){
    auto each=[&](std::function<double(int,int,int)> f){ for(int l=0;l<x.L;l++)for(int k=0;k<x.V;k++)for(int t=0;t<x.T;t++) x.at(l,k,t)=f(l,k,t); };
    switch(c){
    case 0: each([&](int,int,int){return r.u();}); break;
    case 1: { double z=r.u()*0.6+0.35; each([&](int,int,int){return r.coin(z)?0.0:r.u()*10;}); break; }
    case 2: { double k0=r.coin()?1.0:r.logu(1e-6,1e6); each([&](int,int,int){return k0;}); break; }
    case 3: case 18: { int bt=r.range(1,std::max(1,x.T/2)), bl=r.range(1,std::max(1,x.L/2)); uint64_t sd=r.next(); double nz=c==18?0.05:0; each([&](int l,int k,int t){ Rng q(sd^mix64((l/bl)*1000003ull+(t/bt)*7919ull+k)); double b=q.range(0,5); return b*(1+nz*r.u()); }); break; }
    case 4: each([&](int,int,int){return r.logu(1e-6,1e9);}); break;
    case 5: { double s=r.coin(0.2)?1e-320:r.logu(1e-300,1e-20); each([&](int,int,int){return r.coin(0.1)?0.0:s*(1+r.below(100));}); break; }
    case 6: { double s=r.logu(1e15,1e200); each([&](int,int,int){return s*(r.coin(0.1)?0.0:r.u());}); break; }
    case 7: each([&](int,int,int){return (double)r.below(4);}); break;
    case 8: break;
    case 9: x.v[r.below((int)x.v.size())]=r.logu(1e-3,1e3); break;
    case 10: each([&](int,int,int){return r.u();}); for(int l=0;l<x.L;l++)for(int t=0;t<x.T;t++){ double s=0; for(int k=0;k<x.V;k++) s+=x.at(l,k,t); if(s>0&&x.V>1) for(int k=0;k<x.V;k++) x.at(l,k,t)/=s; } break;
    case 11: each([&](int,int,int){return std::ldexp(1.0,r.range(-6,6));}); break;
    case 12: { vector<double> s; for(int k=0;k<x.V;k++) s.push_back(r.logu(1e-9,1e9)); each([&](int,int k,int){return s[k]*r.u();}); break; }
    case 13: { int zl=r.below(x.L), zt=r.below(x.T); bool wl=r.coin(); each([&](int l,int,int t){return (wl?l==zl:t==zt)?0.0:1+r.u();}); break; }
    case 14: { double a=r.u()*2; each([&](int l,int k,int t){return a*t+l*0.5+k;}); break; }
    case 15: each([&](int,int,int){return std::floor(r.logu(1,1e10));}); break;
    case 16: each([&](int,int,int){return r.u()*1e-3;}); break;
    case 17: { int m=r.range(1,4); each([&](int l,int k,int t){return 1.0+((l*3+k*5+t)%m)*2.5;}); break; }
    case 19: { int z=r.below(x.V); each([&](int,int k,int){return k==z?0.0:r.u()*5;}); break; }
    }
}
inline int pickCls(Rng&r){ static const vector<int> w={0,0,0,1,1,2,3,3,4,4,5,6,7,7,8,9,10,11,12,13,14,15,16,17,18,18,19}; return r.pick(w); }

inline vector<int> genDims(Rng&r,Kind k,int maxV){ int nd=k==D?r.below(3):r.below(4); vector<int> d; int budget=maxV; for(int i=0;i<nd;i++){ int m=std::max(1,budget); int x=r.range(1,std::min(m,nd==1?maxV:std::max(2,std::min(5,m)))); x=std::min(x,m); d.push_back(x); budget/=x; } r.shuffle(d); return d; }

struct Sizes { int maxL,maxT,maxV; };
// sz 0 tiny, 1 small, 2 medium, 3 large
inline Data genData(Rng&r,Kind k,int sz,int cls=-1){
    static const int ol[4]={4,12,40,160}, hl[4]={3,8,40,200}, dl[4]={2,5,8,14}, dt[4]={3,6,12,26};
    Data x; Tree t=singleTree(); int T=1; bool huge=sz==3&&r.coin(0.05);
    if(huge){ if(k==O) T=r.range(200,600); else if(k==H) t=genTree(r,r.range(200,700)); else if(r.coin()){ t=genTree(r,r.range(15,50)); T=r.range(3,9); } else { t=genTree(r,r.range(1,4)); T=r.range(30,80); } }
    else if(k==O) T=r.range(1,ol[sz]); else if(k==H) t=genTree(r,r.range(1,hl[sz])); else { t=genTree(r,r.range(1,dl[sz])); T=r.range(1,dt[sz]); }
    if(sz>0&&sz<3&&r.coin(0.006)){ if(k==O) T=r.range(1,6); else if(k==H) t=genTree(r,r.range(1,6)); else { t=genTree(r,r.range(1,4)); T=r.range(1,4); } int nv=r.range(100,400); vector<int> d; int nd=k==D?r.range(1,2):r.range(1,3); if(nd==1) d={nv}; else if(nd==2) d={r.range(2,24),nv/16}; else d={r.range(2,8),r.range(2,8),nv/12}; x.init(k,t,T,d); fillValues(x,r,cls<0?pickCls(r):cls); return x; } // hundreds of variables
    if(sz>0&&sz<3&&r.coin(0.03)){ x.init(k,t,T,genDims(r,k,40)); fillValues(x,r,cls<0?pickCls(r):cls); return x; } // many variables
    x.init(k,t,T,genDims(r,k,huge?2:sz==0?2:sz==3?(k==D?4:12):8)); fillValues(x,r,cls<0?pickCls(r):cls); return x; }
// Very large inputs: more leaves, slices, cells, variables or nodes than 8- and 16-bit counts can hold.
enum { XL=5 };
inline Data xlData(Rng&r,Kind k,int w,int cls){ Data x; w%=XL;
    if(k==O){ static const int T[XL]={1000,3,2,300,270}; static const vector<int> d[XL]={{},{300,230},{70000},{3,2,50},{2,2}}; x.init(k,singleTree(),T[w],d[w]); }
    else if(k==H){ static const int n[XL]={33000,300,2,70000,260}, st[XL]={6,1,0,5,0}; static const vector<int> d[XL]={{},{2},{300,120},{},{2,2,3}}; x.init(k,genTree(r,n[w],st[w]),1,d[w]); }
    else { static const int n[XL]={1700,257,2,2,2200}, st[XL]={6,6,3,0,5}, T[XL]={20,5,257,2,30}; static const vector<int> d[XL]={{},{2},{},{40000},{}}; x.init(k,genTree(r,n[w],st[w]),T[w],d[w]); }
    fillValues(x,r,cls); return x; }
// a few hundred cells and a few variables: O up to 300 slices, H up to 300 leaves, D up to 40 leaves or 40 slices
inline Data largeData(Rng&r,Kind k,int b,int cls){ Data x; static const int lo[6]={129,200,300,150,260,130}, lh[6]={100,140,257,128,70,180}, ld_[6]={3,40,10,2,20,8}, ldt[6]={40,4,16,30,8,20}; b%=6;
    Tree t=singleTree(); int T=1; if(k==O) T=lo[b]; else if(k==H) t=genTree(r,lh[b]); else { t=genTree(r,ld_[b]); T=ldt[b]; }
    vector<int> d; if(b%3==1) d={2}; else if(b%3==2&&k!=O) d={2,2}; x.init(k,t,T,d); fillValues(x,r,cls); return x; }
// a few long blocks: a best partition cuts at large offsets. O up to 2000 slices, H up to 1500 leaves, D up to 110 slices
inline Data stepData(Rng&r,Kind k,int b){ Data x; b%=6; static const int to[6]={1100,1500,1250,1040,2000,1300}, td[6]={60,110,52,90,75,100}, hl[6]={300,1500,700,512,257,1000}, dl[6]={1,2,3,1,4,2}; Tree t=singleTree(); int T=1,top=0; vector<int> grp;
    if(k==O){ T=to[b]; grp={0}; } else { int L=k==H?hl[b]:dl[b]; int m=k==H?r.range(2,5):std::max(1,std::min(2,L-1)); t.L=L; t.par.assign(L+m+1,-1); top=L+m; grp.resize(L); for(int i=0;i<L;i++){ grp[i]=i<m?i:r.below(m); t.par[i]=L+grp[i]; } for(int g=0;g<m;g++) t.par[L+g]=top; t.derive(); if(k==D) T=td[b]; }
    x.init(k,t,T,{}); int nb=r.range(2,5); vector<int> cut; for(int i=1;i<nb;i++) cut.push_back(r.below(3)?(int)((long)T*i/nb)+r.range(-T/12-1,T/12+1):r.range(1,std::max(1,T-1))); uint64_t sd=r.next(); double nz=r.coin()?0.05:0.4;
    for(int l=0;l<x.L;l++)for(int q=0;q<T;q++){ int bi=0; for(int z:cut) bi+=q>=z; Rng y(sd^mix64(grp[l]*1000003ull+bi)); double base=1+y.below(40); x.at(l,0,q)=base*(1+nz*r.u()); }
    return x; }
inline int pickSize(Rng&r){ int a=r.below(100); return a<25?0:a<70?1:a<95?2:3; }

// ---- tables supplied by the caller ----
enum { TC=9, NEAR=9 }; // class 9, near-tie, only where asked for: rounding decides between its covers, and a fine sweep lists a partition for almost every float
inline const char* tclsName(int c){ static const char*n[TC+1]={"small-int","tiny-int(ties)","additive(all tie)","big-int","planted","real","signed-int","binary","monotone-int","near-tie"}; return n[c]; }
inline bool tclsExact(int c){ return c!=5; }
inline Table genTable(Rng&r,Kind k,const Tree&t,int T,int c){
    int all=(k==O?1:t.L)*T; ld unit=std::floor((0.5L+r.u()/2)*std::ldexp(1.0L,54)/all); // near-tie: additive up to a few units in 2^55, beyond double precision
    Table tb; tb.init(k==O?1:t.n(),T); bool leafZero=r.coin();
    for(int h=0;h<tb.N;h++)for(int i=0;i<T;i++)for(int j=i;j<T;j++){ size_t x=tb.ix(h,i,j); int cells=(k==O?1:t.nl[h])*(j-i+1); ld g=0,l=0;
        switch(c){
        case 0: g=r.below(cells*2+2); l=r.below(cells*2+2); break;
        case 1: g=r.below(3); l=r.below(3); break;
        case 2: g=cells; l=cells; break;
        case 3: g=(ld)(r.next()>>24); l=(ld)(r.next()>>24); break;
        case 4: g=r.below(2); l=cells+r.below(2); break;
        case 5: g=r.u()*cells; l=r.u()*cells; break;
        case 6: g=r.range(-3,3); l=r.range(-3,3); break;
        case 7: g=r.below(2); l=r.below(2); break;
        case 8: g=(ld)cells*(cells-1)/2+r.below(2); l=(ld)cells*(cells-1)/2*r.range(0,2); break;
        case 9: g=unit*cells; l=unit*cells; if(r.coin(0.3)) g+=r.range(-2,2); if(r.coin(0.3)) l+=r.range(-2,2); break;
        }
        if(leafZero&&cells==1&&c!=2&&c!=9){ g=0; l=0; }
        tb.g[x]=g; tb.l[x]=l; }
    if(c==4){ // plant one cover with high values: cut recursively
        std::function<void(int,int,int)> rec=[&](int h,int i,int j){ bool canT=j>i, canS=k!=O&&h>=t.L; int a=r.below(4);
            if(a<=1&&canS&&!t.ch[h].empty()){ for(int ch:t.ch[h]) rec(ch,i,j); return; }
            if((a==2||a==1)&&canT){ int m=r.range(i,j-1); rec(h,i,m); rec(h,m+1,j); return; }
            int cells=(k==O?1:t.nl[h])*(j-i+1); tb.g[tb.ix(h,i,j)]=cells*3; tb.l[tb.ix(h,i,j)]=0; };
        rec(k==O?0:t.root,0,T-1); }
    return tb; }

// Staircase: m pairs of cells, pair i better merged above parameter (i+1/2)/m only, nothing else ever merged: every sweep lists up to m+1 partitions.
inline Tree stairTree(Rng&r,int m){ Tree t; t.L=2*m; t.par.assign(3*m+1,3*m); t.par[3*m]=-1; vector<int> lp=iota(2*m); r.shuffle(lp); for(int i=0;i<2*m;i++) t.par[lp[i]]=2*m+i/2; t.derive(); return t; }
inline Table stairTable(Rng&r,Kind k,const Tree&t,int T,int m){ Table tb; tb.init(k==O?1:t.n(),T); vector<int> ord=iota(m); r.shuffle(ord); auto loss=[&](int i){ ld p=(ord[i]+0.3L+0.4L*r.u())/m; return p/(1-p); };
    for(int h=0;h<tb.N;h++)for(int i=0;i<T;i++)for(int j=i;j<T;j++){ size_t x=tb.ix(h,i,j); int cells=(k==O?1:t.nl[h])*(j-i+1); tb.g[x]=0; tb.l[x]=cells==1?0:1e9L; }
    if(k==O) for(int i=0;i<m;i++){ size_t x=tb.ix(0,2*i,2*i+1); tb.g[x]=1; tb.l[x]=loss(i); } else for(int i=0;i<m;i++){ size_t x=tb.ix(2*m+i,0,0); tb.g[x]=1; tb.l[x]=loss(i); }
    return tb; }

// the same along a chain of nodes that cover the same leaves: node i better than the one below it above parameter (i+1/2)/m
inline Tree chainTree(Rng&r,int m){ Tree t; t.L=2; vector<int> id=iota(m); r.shuffle(id); t.par.assign(m+2,-1); t.par[0]=t.par[1]=2+id[0]; for(int i=0;i+1<m;i++) t.par[2+id[i]]=2+id[i+1]; t.derive(); return t; }
inline Table chainTable(Rng&r,const Tree&t){ Table tb; tb.init(t.n(),1); int m=t.n()-2,h=t.par[0]; ld g=0,l=0; for(int i=0;h>=0;i++,h=t.par[h]){ ld p=(i+0.3L+0.4L*r.u())/m; g+=1; l+=p/(1-p); tb.g[tb.ix(h,0,0)]=g; tb.l[tb.ix(h,0,0)]=l; } for(int x=0;x<2;x++) tb.g[tb.ix(x,0,0)]=tb.l[tb.ix(x,0,0)]=0; return tb; }

// exact: p and 1-p both exact in single precision
inline float genP(Rng&r,bool exact=true){ int a=r.below(20);
    if(a<2) return 0.f; if(a<4) return 1.f; if(a<12) return r.range(0,64)/64.f; if(a<13) return 0.5f;
    if(a<16||exact&&a<18) return (float)std::ldexp((double)r.range(0,1<<24),-24);
    if(a==18) return (float)std::ldexp((double)r.range(0,64),-24); if(a==19) return (float)(1-std::ldexp((double)r.range(0,64),-24));
    return r.coin()?(float)r.u():(float)r.logu(1e-20,1); }
inline bool pExact(float p){ return p==0||(p>=5.9e-8f&&(ld)(float)(1-p)==1.0L-(ld)p); }
