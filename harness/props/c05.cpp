#include "../oracle.hpp"
const char*PROP="C05";
const char*RULE="datasets of 20 value classes, dimensionality 1..4 of O, H, D, any tree shape, sizes 1..~700 slices / ~500 nodes / 64 variables; every entry of the table compared with the definition; non-trivial: some candidate part has positive gain and positive loss";
uint64_t prop_cases(bool th){ return th?120000:6000; }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); uint64_t b=c.idx/3; Data d; string cls;
    if(b<8){ int cl[8]={0,4,1,18,15,5,6,12}; cls=vclsName(cl[b]);
        if(k==O){ int n[8]={260,400,300,700,128,65,514,33}; int v[8]={1,1,2,1,5,30,1,64}; d.init(k,singleTree(),n[b],{v[b]}); }
        else if(k==H){ int n[8]={300,257,500,120,200,64,400,33}; int v[8]={1,2,1,12,3,30,1,64}; d.init(k,genTree(r,n[b],b),1,{v[b]}); }
        else { int n[8]={3,40,2,12,6,30,1,8}; int t[8]={70,6,130,20,33,8,64,16}; int v[8]={1,1,1,3,8,1,4,33}; d.init(k,genTree(r,n[b],b),t[b],{v[b]}); }
        fillValues(d,r,cl[b]); c.count("large datasets"); }
    else if(b<8+XL){ int cl=b%2?0:3; cls=vclsName(cl); d=xlData(r,k,(int)b-8,cl); c.count("very large datasets"); }
    else { int cl=pickCls(r); cls=vclsName(cl); d=genData(r,k,pickSize(r),cl); if(r.coin(0.05)) { d.init(k,d.tree,d.T,{r.range(10,64)}); if((long)d.v.size()*d.T>60000) d.init(k,d.tree,d.T,{2}); fillValues(d,r,cl);} }
    c.desc=cls+" "+d.str();
    Sys S=history(d,r,0.4); Quals q=S.quals; const Vals&v=S.vals; int N=k==O?1:d.tree.n();
    RawTab raw=rawOf(q);
    REQ(c,q.size()==(unsigned)(k==O?d.T:N),"table-size","size() is %u for %d",q.size(),k==O?d.T:N);
    if(k==O) REQ(c,raw.o->getSize()==d.T&&raw.o->getElements()==d.T*(d.T+1)/2,"table-size","triangular table of size %d with %d elements for %d slices",raw.o->getSize(),raw.o->getElements(),d.T);
    if(k==H) REQ(c,(int)raw.h->size()==N,"table-size","table of %zu entries for %d nodes",raw.h->size(),N);
    if(k==D){ REQ(c,(int)raw.d->size()==N,"table-size","table of %zu nodes for %d",raw.d->size(),N); for(auto&t:*raw.d) REQ(c,t->getSize()==d.T&&t->getElements()==d.T*(d.T+1)/2,"table-size","triangular table of size %d for %d slices",t->getSize(),d.T); }
    Table t=readTable(raw); Defs e=defs(d); bool pos=false;
    for(int h=0;h<N;h++)for(int i=0;i<d.T;i++)for(int j=i;j<d.T;j++){ size_t x=t.ix(h,i,j); ld tol=1e-13L*e.mag[x];
        REQ(c,std::isfinite(t.g[x])&&fabsl(t.g[x]-e.t.g[x])<=tol,"gain","node %d slices [%d,%d]: gain %.20Lg, definition %.20Lg",h,i,j,t.g[x],e.t.g[x]);
        REQ(c,std::isfinite(t.l[x])&&fabsl(t.l[x]-e.t.l[x])<=tol,"loss","node %d slices [%d,%d]: loss %.20Lg, definition %.20Lg",h,i,j,t.l[x],e.t.l[x]);
        int cells=(k==O?1:d.tree.nl[h])*(j-i+1); if(cells==1) { REQ(c,fabsl(t.g[x])<=1e-15L*e.mag[x]&&fabsl(t.l[x])<=1e-15L*e.mag[x],"single-cell","node %d slice %d covers one cell and has (%.20Lg,%.20Lg)",h,i,t.g[x],t.l[x]); c.count("single-cell entries"); }
        if(t.g[x]>1e-9L*e.mag[x]&&t.l[x]>1e-9L*e.mag[x]) pos=true; c.count("entries compared"); }
    for(int s=0;s<3;s++){ int h=r.below(N),i=r.below(d.T),j=r.range(i,d.T-1); Meas m=defOne(d,h,i,j); size_t x=t.ix(h,i,j); if(fabsl(m.g-e.t.g[x])>1e-14L*m.mag||fabsl(m.l-e.t.l[x])>1e-14L*m.mag){ fprintf(stderr,"HARNESS: two evaluations of the definition disagree\n"); exit(3);} }
    c.count(fmt("%c%d",kch(k),v.nd)); c.count("class "+cls); c.distinct(d.hash(),pos); if(c.samples.size()<3&&pos&&d.v.size()<20) c.samples.push_back(c.desc); }
