#include "../oracle.hpp"
const char*PROP="C06";
const char*RULE="tables computed from 20 classes of data (homogeneous, all-zero and single-element included) and tables supplied by the caller, any numbering of the hierarchy; expectation computed from the raw table read before normalising; non-trivial: at least one part has gain or loss strictly between 0 and 1 afterwards";
uint64_t prop_cases(bool th){ return th?120000:7000; }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); bool user=c.idx/3>=XL&&r.coin(0.35); Quals q; Data d; Tree t=singleTree(); int T=1; string cls; Vals v; Table keep;
    if(user){ static const int ol[4]={4,12,40,120}, hl[4]={3,8,40,200}, dl[4]={2,5,8,14}, dt[4]={3,6,12,20}; int sz=pickSize(r);
        if(k==O) T=r.range(1,ol[sz]); else if(k==H) t=genTree(r,r.range(1,hl[sz])); else { t=genTree(r,r.range(1,dl[sz])); T=r.range(1,dt[sz]); }
        int cl=r.below(TC+1); cls=string("user ")+tclsName(cl); Table tb=genTable(r,k,t,T,cl); size_t x=tb.ix(k==O?0:t.root,0,T-1);
        if(r.coin(0.6)){ if(!(tb.g[x]>0)) tb.g[x]=r.range(1,50); if(!(tb.l[x]>0)) tb.l[x]=r.range(1,50); } else { if(r.coin(0.15)) tb.g[x]=0; if(r.coin(0.15)) tb.l[x]=0; }
        if(r.coin(0.15)){ ld f=r.logu(1e-30,1e30); if(r.coin()) for(auto&y:tb.g) y*=f; else for(auto&y:tb.l) y*=f; }
        bool two=r.coin(0.25); RawTab raw=rawFrom(k,two?genTable(r,k,t,T,r.below(TC)):tb); q=qualsFrom(raw,t); if(two){ q.normalize(); if(r.coin(0.3)) parterQ(q).best(0.5f); refill(raw,tb); c.count("tables changed in place after normalising"); } c.desc=cls+fmt(" %c ",kch(k))+t.str()+" "+tb.str(); if(r.coin(0.3)) { q.compute(); c.count("computeQualities on a caller-supplied table"); } }
    else if(c.idx/3<XL){ int cl=c.idx%2?3:0; cls=vclsName(cl); d=xlData(r,k,(int)(c.idx/3),cl); t=d.tree; T=d.T; Sys S=history(d,r,0.4); v=S.vals; q=S.quals; c.desc=cls+" "+d.str(); c.count("very large datasets"); }
    else { int cl=r.coin(0.25)?r.pick(vector<int>{2,8,9,3,17,11}):pickCls(r); cls=vclsName(cl); d=genData(r,k,pickSize(r),cl); t=d.tree; T=d.T; Sys S=history(d,r,0.4); v=S.vals; q=S.quals; c.desc=cls+" "+d.str(); }
    Table raw=readTable(rawOf(q)); int N=raw.N; size_t fx=raw.ix(k==O?0:t.root,0,T-1); ld mg=raw.g[fx],ml=raw.l[fx];
    auto edge=[&](ld a,ld b){ a=fabsl(a);b=fabsl(b); return fabsl(a-1e-13L*b)<=1e-6L*fabsl(1e-13L*b)&&b!=0; };
    if(edge(mg,ml)||edge(ml,mg)){ c.count("skipped at the edge of residue"); return; }
    bool zg=!(fabsl(mg)>1e-13L*fabsl(ml)), zl=!(fabsl(ml)>1e-13L*fabsl(mg)); if(mg<0||ml<0) c.count("full gain or loss negative"); if(zg) c.count("full gain null or residue"); if(zl) c.count("full loss null or residue");
    // what was built before normalising shares the table
    Parter before=parterRaw(rawOf(q),t);
    q.normalize(); Table n=readTable(rawOf(q)); Defs e; if(!user) e=defs(d); bool mid=false;
    REQ(c,n.N==raw.N&&n.T==raw.T,"shape","normalising changed the shape of the table");
    for(int h=0;h<N;h++)for(int i=0;i<T;i++)for(int j=i;j<T;j++){ size_t x=n.ix(h,i,j); ld g=zg?0:raw.g[x]/mg,l=zl?0:raw.l[x]/ml;
        REQ(c,std::isfinite(n.g[x])&&std::isfinite(n.l[x]),"not-finite","node %d [%d,%d]: (%Lg,%Lg)",h,i,j,n.g[x],n.l[x]);
        REQ(c,fabsl(n.g[x]-g)<=4e-18L*fabsl(g),"gain","node %d [%d,%d]: gain %.20Lg of %.20Lg becomes %.20Lg, expected %.20Lg",h,i,j,raw.g[x],mg,n.g[x],g);
        REQ(c,fabsl(n.l[x]-l)<=4e-18L*fabsl(l),"loss","node %d [%d,%d]: loss %.20Lg of %.20Lg becomes %.20Lg, expected %.20Lg",h,i,j,raw.l[x],ml,n.l[x],l);
        if(!user){ ld tg=zg?0:2e-13L*(e.mag[x]+e.mag[fx])/mg, tl=zl?0:2e-13L*(e.mag[x]+e.mag[fx])/ml; REQ(c,n.g[x]>=-tg&&n.g[x]<=1+tg&&n.l[x]>=-tl&&n.l[x]<=1+tl,"range","node %d [%d,%d]: (%.20Lg,%.20Lg) outside [0,1]",h,i,j,n.g[x],n.l[x]); }
        if((n.g[x]>1e-6L&&n.g[x]<1-1e-6L)||(n.l[x]>1e-6L&&n.l[x]<1-1e-6L)) mid=true; c.count("entries compared"); }
    if(!zg) REQ(c,fabsl(n.g[fx]-1)<=4e-19L,"full","full aggregation gain is %.20Lg after normalising",n.g[fx]); if(!zl) REQ(c,fabsl(n.l[fx]-1)<=4e-19L,"full","full aggregation loss is %.20Lg after normalising",n.l[fx]);
    q.normalize(); Table n2=readTable(rawOf(q));
    for(size_t x=0;x<n.g.size();x++) REQ(c,fabsl(n2.g[x]-n.g[x])<=1e-18L*fabsl(n.g[x])&&fabsl(n2.l[x]-n.l[x])<=1e-18L*fabsl(n.l[x]),"again","normalising again turns (%.20Lg,%.20Lg) into (%.20Lg,%.20Lg)",n.g[x],n.l[x],n2.g[x],n2.l[x]);
    // the partition found on the normalised table is optimal for it
    if(raw.g.size()<400){ float p=genP(r); PView b=parterQ(q).best(p); Val got=valueOf(n,k,b.parts,p),best=opt(k,n,t,p); REQ(c,got.v>=best.v-vtol(tmax(n),tcells(n,k,t),p,got.l,best.l),"partition","partition on the normalised table has value %.20Lg, best %.20Lg",got.v,best.v); }
    c.count("class "+cls); c.count(k!=O&&t.root!=t.n()-1?"root not numbered last":"root last"); Hash hh; hh.i((long long)raw.hash()); hh.i(k); for(int p:t.par)hh.i(p); c.distinct(hh.v(),mid); if(c.samples.size()<3&&mid&&raw.g.size()<12) c.samples.push_back(c.desc); }
