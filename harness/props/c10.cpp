#include "../oracle.hpp"
const char*PROP="C10";
const char*RULE="aggregations of best partitions (O1..O4, H1..H4, D2..D4) and aggregates of arbitrary single parts, 20 value classes, unequal dimensions; each sum and mean recomputed from the covered cells; non-trivial: a part covering several cells with a non-zero sum next to other parts";
uint64_t prop_cases(bool th){ return th?120000:6000; }
static void checkAgg(Ctx&c,const Data&d,const AggRec&a,int h,int s,int e,const string&w,ld*tot=nullptr){
    REQ(c,a.shape==d.dims,"shape","%s: sums have a shape of rank %zu, the data %zu variable dimensions",w.c_str(),a.shape.size(),d.dims.size()); REQ(c,(int)a.sum.size()==d.V&&(int)a.mean.size()==d.V,"shape","%s: %zu sums, %zu means for %d variables",w.c_str(),a.sum.size(),a.mean.size(),d.V);
    vector<int> lv=d.kind==O?vector<int>{0}:d.tree.leaves[h]; int n=(int)lv.size()*(e-s+1);
    for(int k=0;k<d.V;k++){ ld x=0,ax=0; for(int l:lv)for(int t=s;t<=e;t++){ x+=d.at(l,k,t); ax+=fabsl(d.at(l,k,t)); } ld tol=ax*(n+4)*2.3e-16L+1e-323L; 
        REQ(c,fabsl(a.sum[k]-x)<=tol,"sum","%s variable %d: sum %.17g, covered cells sum to %.20Lg",w.c_str(),k,a.sum[k],x); REQ(c,fabsl(a.mean[k]-x/n)<=tol/n+1e-323L,"mean","%s variable %d: mean %.17g, expected %.20Lg (%d cells)",w.c_str(),k,a.mean[k],x/n,n); if(tot) tot[k]+=a.sum[k]; c.count("sums compared"); } }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); uint64_t b=c.idx/3; Data d; int cl=pickCls(r);
    if(b<4){ int cls[4]={0,3,18,1}; cl=cls[b]; if(k==O) d.init(k,singleTree(),b==0?400:150,b<2?vector<int>{}:vector<int>{3,2}); else if(k==H) d.init(k,genTree(r,b==0?150:60,(int)b),1,b<2?vector<int>{2}:vector<int>{2,3,2}); else d.init(k,genTree(r,b==0?3:12,(int)b),b==0?40:10,b<2?vector<int>{}:vector<int>{3,2}); fillValues(d,r,cl); }
    else if(b<4+XL){ cl=b%2?3:18; if(k==H&&(b==4||b==7)){ d.init(k,genTree(r,b==4?1500:2500,b==4?6:3),1,{}); fillValues(d,r,cl); } else d=xlData(r,k,(int)b-4,cl); /* the library copies the whole hierarchy for each leaf it sums: larger ones take minutes */ c.count("very large datasets"); }
    else if(b<8+XL){ int i=(int)(b-4-XL); vector<int> dm=i%2?vector<int>{2,2}:vector<int>{3}; cl=i%2?3:18; /* parts of thousands of cells with several variables */
        if(k==O) d.init(k,singleTree(),i<2?1200:1800,dm); else if(k==H) d.init(k,genTree(r,i<2?1100:1400,i%3),1,dm); else d.init(k,genTree(r,i<2?60:14,i%3),i<2?32:130,dm); fillValues(d,r,cl); c.count("large datasets of several variables"); }
    else { int sz=pickSize(r); if(sz==3) sz=r.coin(0.2)?3:2; if(k!=O&&sz==3) sz=2; d=genData(r,k,sz,cl); if(r.coin(0.12)){ for(double&y:d.v) if(r.coin()) y=-y; /* sums are not bound to non-negative values; some cancel */ for(size_t i=0;i+1<d.v.size();i++) if(r.coin(0.3)) d.v[i+1]=-d.v[i]; c.count("datasets with negative values"); } }
    c.desc=string(vclsName(cl))+" "+d.str(); Sys S=makeSys(d,r,r.coin()); bool nt=false; int np=r.range(1,3);
    for(int i=0;i<np;i++){ float p=k!=O&&d.L>1000?1.f:r.coin(0.5)?(float)r.u():genP(r); PView v=S.parter.best(p); vector<AggRec> ag=aggregate(S.vals,v); string w0=fmt("p=%.9g",p);
        REQ(c,ag.size()==v.parts.size(),"count","%s: %zu aggregates for %zu parts",w0.c_str(),ag.size(),v.parts.size()); vector<ld> tot(d.V,0);
        for(size_t j=0;j<ag.size();j++){ REQ(c,ag[j].part==v.parts[j],"part","%s: aggregate %zu is of part %s, the partition has %s",w0.c_str(),j,ag[j].part.str().c_str(),v.parts[j].str().c_str()); auto&q=v.parts[j]; checkAgg(c,d,ag[j],q.h,q.s,q.e,w0+" part "+q.str(),tot.data()); if(q.sz>1&&v.parts.size()>1&&ag[j].sum[0]!=0) nt=true; }
        for(int x=0;x<d.V;x++){ ld t=0,at=0; for(int l=0;l<d.L;l++)for(int q=0;q<d.T;q++){ t+=d.at(l,x,q); at+=fabsl(d.at(l,x,q)); } REQ(c,fabsl(tot[x]-t)<=at*(d.cells()+8)*4e-16L+1e-322L,"total","%s variable %d: the parts sum to %.20Lg, the data to %.20Lg",w0.c_str(),x,tot[x],t); }
        c.count("aggregations"); }
    for(int i=0;i<3;i++){ int h=k==O?0:r.below(d.tree.n()); int s=r.below(d.T),e=r.range(s,d.T-1); int hs=k==O?1:d.tree.nl[h]; AggRec a=aggregateOne(S.vals,h,hs,s,e); checkAgg(c,d,a,h,s,e,fmt("single part h=%d [%d,%d]",h,s,e)); c.count("single aggregates"); }
    c.count(fmt("%c%d",kch(k),S.vals.nd)); c.distinct(d.hash(),nt); if(c.samples.size()<3&&nt&&d.v.size()<16) c.samples.push_back(c.desc); }
