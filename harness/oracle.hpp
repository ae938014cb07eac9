// Reference definitions, independent of the library.
#pragma once
#include "gen.hpp"

// ---- information measures of one candidate part ----
struct Meas { ld g=0,l=0,mag=0; };
inline ld xlog2x(ld x){ return x>0?x*log2l(x):0; }
// full table of definitions for a dataset; mag = magnitude used for tolerances
struct Defs { Table t; vector<ld> mag; };
inline Defs defs(const Data&x){ Defs r; int N=x.kind==O?1:x.tree.n(); int T=x.T; r.t.init(N,T); r.mag.assign(r.t.g.size(),0);
    for(int h=0;h<N;h++){ vector<int> lv=x.kind==O?vector<int>{0}:x.tree.leaves[h];
        for(int k=0;k<x.V;k++) for(int i=0;i<T;i++){ ld s=0,in=0,ab=0; for(int j=i;j<T;j++){
            for(int l:lv){ ld v=x.at(l,k,j); s+=v; ld e=xlog2x(v); in+=e; ab+=fabsl(e); }
            ld n=(ld)lv.size()*(j-i+1); size_t ix=r.t.ix(h,i,j); if(s>0){ ld e=xlog2x(s); r.t.g[ix]+=e-in; r.t.l[ix]+=s*log2l(n)-e+in; r.mag[ix]+=fabsl(e)+ab+s*log2l(n)+s; } } } }
    return r; }
// one entry, straight from the statement (slow; used to cross-check defs and for samples of large data)
inline Meas defOne(const Data&x,int h,int i,int j){ Meas m; vector<int> lv=x.kind==O?vector<int>{0}:x.tree.leaves[h];
    for(int k=0;k<x.V;k++){ ld s=0,in=0,ab=0; for(int l:lv)for(int t=i;t<=j;t++){ ld v=x.at(l,k,t); s+=v; in+=xlog2x(v); ab+=fabsl(xlog2x(v)); } ld n=(ld)lv.size()*(j-i+1); if(s>0){ m.g+=xlog2x(s)-in; m.l+=s*log2l(n)-xlog2x(s)+in; m.mag+=fabsl(xlog2x(s))+ab+s*log2l(n)+s; } }
    return m; }

// ---- covers ----
inline string coverError(Kind k,const Tree&t,int T,const vector<PartRec>&ps){
    if(ps.empty()) return "no part";
    if(k==O){ int nx=0; for(auto&p:ps){ if(p.s!=nx) return fmt("part starts at %d where %d is expected",p.s,nx); if(p.e<p.s||p.e>=T) return fmt("part [%d,%d] is not an interval of 0..%d",p.s,p.e,T-1); nx=p.e+1; } if(nx!=T) return fmt("parts end at %d of %d",nx-1,T-1); return ""; }
    vector<int> cov((size_t)t.L*T,0);
    for(auto&p:ps){ if(p.h<0||p.h>=t.n()) return fmt("part names node %d",p.h); int s=k==D?p.s:0,e=k==D?p.e:0; if(s<0||e>=T||s>e) return fmt("part interval [%d,%d]",s,e); for(int l:t.leaves[p.h]) for(int q=s;q<=e;q++) cov[(size_t)l*T+q]++; }
    for(int l=0;l<t.L;l++)for(int q=0;q<T;q++) if(cov[(size_t)l*T+q]!=1) return fmt("cell (leaf %d, slice %d) is covered %d times",l,q,cov[(size_t)l*T+q]);
    return ""; }

// ---- optimal covers ----
struct Val { ld v=0,g=0,l=0; };
inline bool better(const Val&a,const Val&b){ if(a.v!=b.v) return a.v>b.v; if(a.g!=b.g) return a.g>b.g; return a.l<b.l; }
inline Val add(const Val&a,const Val&b){ return {a.v+b.v,a.g+b.g,a.l+b.l}; }
inline Val cell(const Table&t,int h,int i,int j,ld p){ ld g=t.G(h,i,j),l=t.Lo(h,i,j); return {p*g-(1-p)*l,g,l}; }
// timeOnly: only time cuts at the root; spaceOnly: only hierarchy splits
inline Val optO(const Table&t,ld p,int h=0){ int n=t.T; vector<Val> b(n+1); for(int e=1;e<=n;e++){ bool f=true; for(int s=0;s<e;s++){ Val c=add(b[s],cell(t,h,s,e-1,p)); if(f||better(c,b[e])){b[e]=c;f=false;} } } return b[n]; }
inline Val optH(const Table&t,const Tree&tr,ld p,int i=0,int j=0){ vector<Val> b(tr.n()); for(int x:tr.order){ b[x]=cell(t,x,i,j,p); if(x>=tr.L){ Val s; for(int c:tr.ch[x]) s=add(s,b[c]); if(better(s,b[x])) b[x]=s; } } return b[tr.root]; }
inline Val optD(const Table&t,const Tree&tr,ld p){ int T=t.T; vector<vector<Val>> b(tr.n(),vector<Val>((size_t)T*T));
    for(int x:tr.order) for(int len=1;len<=T;len++) for(int i=0;i+len<=T;i++){ int j=i+len-1; Val best=cell(t,x,i,j,p);
        if(x>=tr.L){ Val s; for(int c:tr.ch[x]) s=add(s,b[c][(size_t)i*T+j]); if(better(s,best)) best=s; }
        for(int m=i;m<j;m++){ Val s=add(b[x][(size_t)i*T+m],b[x][(size_t)(m+1)*T+j]); if(better(s,best)) best=s; }
        b[x][(size_t)i*T+j]=best; }
    return b[tr.root][T-1]; }
inline Val opt(Kind k,const Table&t,const Tree&tr,ld p){ return k==O?optO(t,p):k==H?optH(t,tr,p):optD(t,tr,p); }
inline Val valueOf(const Table&t,Kind k,const vector<PartRec>&ps,ld p){ Val s; for(auto&q:ps) s=add(s,cell(t,k==O?0:q.h,k==H?0:q.s,k==H?0:q.e,p)); return s; }
// brute force: every cover (as the statement has it), counts them; returns the best, stops at lim
inline Val brute(Kind k,const Table&t,const Tree&tr,ld p,long&count,long lim){
    // cover the cells in order: pick for the first uncovered cell every rectangle with that cell as its first cell
    int Lf=k==O?1:tr.L, T=t.T; vector<char> cov((size_t)Lf*T,0); Val best; bool have=false; count=0;
    vector<vector<int>> nodesOf(Lf); for(int h=0;h<(k==O?1:tr.n());h++){ const vector<int> lv=k==O?vector<int>{0}:tr.leaves[h]; nodesOf[lv[0]].push_back(h); }
    std::function<void(Val)> rec=[&](Val acc){ if(count>lim) return; int c=-1; for(int l=0;l<Lf&&c<0;l++)for(int q=0;q<T;q++) if(!cov[(size_t)l*T+q]){c=l*T+q;break;}
        if(c<0){ count++; if(!have||better(acc,best)){best=acc;have=true;} return; }
        int l0=c/T,q0=c%T; for(int h:nodesOf[l0]){ const vector<int> lv=k==O?vector<int>{0}:tr.leaves[h];
            for(int e=q0;e<T;e++){ bool free=true; for(int l:lv) if(cov[(size_t)l*T+e]) free=false; if(!free) break;
                bool all=true; for(int l:lv) for(int q=q0;q<=e;q++) if(cov[(size_t)l*T+q]) all=false; if(!all) break;
                for(int l:lv) for(int q=q0;q<=e;q++) cov[(size_t)l*T+q]=1;
                rec(add(acc,cell(t,h,q0,e,p)));
                for(int l:lv) for(int q=q0;q<=e;q++) cov[(size_t)l*T+q]=0; } } };
    rec(Val()); return best; }
// rounding allowance for the value of a cover of this table (long double sums over at most `cells` parts)
inline ld tmax(const Table&t){ ld m=0; for(size_t i=0;i<t.g.size();i++) m=std::max(m,fabsl(t.g[i])+fabsl(t.l[i])); return m; }
inline int tcells(const Table&t,Kind k,const Tree&tr){ return (k==O?1:tr.L)*t.T; }
inline ld vtol(ld tm,int cells,float p,ld loss1=0,ld loss2=0){ return 5e-19L*(cells+20)*cells*tm + (pExact(p)?0:1.5e-7L*(fabsl(loss1)+fabsl(loss2))); }

// A problem for a partitioner: a dataset's own table or one supplied by the caller.
struct Problem { Kind kind; Tree tree; int T; bool user=false, exact=false, norm=false; Data data; Sys sys; RawTab raw; Table tab; Parter parter; string cls; ld tm=0; mutable ld sb=-1; int cells=1;
    int nodes() const { return tab.N; }
    string str() const { return (user?fmt("%c ",kch(kind))+(kind==O?"":tree.str()+" ")+"user table "+cls+": "+tab.str():fmt("norm=%d ",norm)+cls+" "+data.str()); }
    uint64_t hash() const { Hash h; h.i(kind); for(int p:tree.par)h.i(p); h.i((long long)tab.hash()); return h.v(); } };
// is p*gain-(1-p)*loss, summed over any cover of this integer table, free of rounding in long double?
inline bool exactAt(const Problem&P,float p){ if(!P.exact||!pExact(p)) return false; int k=0; double x=p; while(x!=std::floor(x)){x*=2;k++; if(k>40) return false;} if(k+log2l(P.tm*P.cells+1)<=62) return true; if(P.cls!="near-tie") return false;
    if(P.sb<0){ Table a=P.tab; for(size_t i=0;i<a.g.size();i++){ a.g[i]=fabsl(a.g[i])+fabsl(a.l[i]); a.l[i]=0; } P.sb=opt(P.kind,a,P.tree,1).v; } /* the largest sum over any cover */ return k+log2l(P.sb+1)<=62; }
inline Problem userProblem(Rng&r,Kind k,const Tree&t,const Table&tb,bool exact,const string&cls){ Problem P; P.kind=k; P.tree=t; P.T=tb.T; P.user=true; P.exact=exact; P.cls=cls; P.tab=tb; P.raw=rawFrom(k,tb); P.parter=r.coin()?parterRaw(P.raw,t):parterQ(qualsFrom(P.raw,t)); P.tm=tmax(tb); P.cells=tcells(tb,k,t); if(tb.g.size()<=6000&&r.coin(0.2)) warm(P.parter,r,tb.g.size()); return P; }
inline Problem dataProblem(Rng&r,const Data&d,bool norm,const string&cls){ Problem P; P.kind=d.kind; P.tree=d.tree; P.T=d.T; P.data=d; P.norm=norm; P.cls=cls; P.sys=makeSys(d,r,norm); P.raw=rawOf(P.sys.quals); P.tab=readTable(P.raw); P.parter=P.sys.parter; P.tm=tmax(P.tab); P.cells=tcells(P.tab,P.kind,P.tree); return P; }
inline Problem genProblem(Rng&r,Kind k,int sz,double userProb=0.5,int tcls=-1){
    static const int ol[4]={4,12,40,160}, hl[4]={3,8,40,200}, dl[4]={2,5,8,14}, dt[4]={3,6,12,26};
    if(r.coin(userProb)){ Tree t=singleTree(); int T=1; if(k==O) T=r.range(1,ol[sz]); else if(k==H) t=genTree(r,r.range(1,hl[sz])); else { t=genTree(r,r.range(1,dl[sz])); T=r.range(1,dt[sz]); }
        int c=tcls>=0?tcls:r.below(TC); return userProblem(r,k,t,genTable(r,k,t,T,c),tclsExact(c),tclsName(c)); }
    int c=pickCls(r); Data d=genData(r,k,sz,c); return dataProblem(r,d,r.coin(0.4),vclsName(c)); }
inline Problem chainProblem(Rng&r,Kind k,int m){ Tree t=chainTree(r,m); return userProblem(r,k,t,chainTable(r,t),false,"chain staircase"); }
inline Problem stairProblem(Rng&r,Kind k,int m){ Tree t=k==O?singleTree():stairTree(r,m); int T=k==O?2*m:1; return userProblem(r,k,t,stairTable(r,k,t,T,m),false,"staircase"); }
// b=0..11: problems of a few hundred cells (O and H up to 400, D up to 900 node-interval cells), alternately data and caller tables
inline Problem largeProblem(Rng&r,Kind k,int b){ bool user=b%2; Tree t=singleTree(); int T=1; b%=12;
    if(k==O){ static const int n[12]={160,257,300,180,140,260,150,330,129,400,200,128}; T=n[b]; }
    else if(k==H){ static const int n[12]={200,300,260,180,400,150,257,280,200,350,128,500},st[12]={0,1,2,3,4,7,0,1,5,6,7,3}; t=genTree(r,st[b]==2?160:n[b],st[b]); }
    else { static const int n[12]={3,40,2,12,1,30,5,20,60,10,6,8},s[12]={40,5,50,16,60,8,30,10,4,18,25,20}; t=genTree(r,n[b]); T=s[b]; }
    if(user){ static const int cs[6]={0,4,8,5,7,6}; int c=cs[(b/2)%6]; return userProblem(r,k,t,genTable(r,k,t,T,c),tclsExact(c),tclsName(c)); }
    static const int cs[6]={3,18,0,13,3,9}; int cl=cs[(b/2)%6]; Data d; d.init(k,t,T,(b/2)%3==1?vector<int>{2}:vector<int>{}); fillValues(d,r,cl); return dataProblem(r,d,(b/2)%3==2,vclsName(cl)); }
