#include "../oracle.hpp"
#include "../rshim/RcppArmadillo.h"
namespace bridge { RObj o(const RObj&m,const RObj&t); RObj h(const RObj&m,const RObj&h,const RObj&t); RObj d(const RObj&m,const RObj&h,const RObj&t); }
const char*PROP="C21";
const char*RULE="three-dimensional arrays of unequal sides (20 classes of values), random hierarchies and thresholds, passed to the three entry points of the C++ source embedded in R/lpaggreg.R (extracted at check time, compiled against stand-in R types) and, independently, to the library; non-trivial: at least two listed parameters and unequal dimensions";
uint64_t prop_cases(bool th){ return th?40000:2500; }
struct Row { double p; int node,size,s,e; double g,l; bool operator<(const Row&o) const { return std::tie(p,node,s,e)<std::tie(o.p,o.node,o.s,o.e); } };
static vector<double> col(Ctx&c,const RObj&df,const char*n,size_t want,bool integer){ REQ(c,df.has(n),"columns","no column %s",n); const RObj&x=df.at(n); REQ(c,(integer?x.k==RObj::INT:x.k==RObj::NUM),"columns","column %s has another type",n); REQ(c,want==(size_t)-1||x.len()==want,"rows","column %s has %zu rows, expected %zu",n,x.len(),want); vector<double> r; for(size_t i=0;i<x.len();i++) r.push_back(x.val(i)); return r; }
static bool sm(double a,double b){ return a==b||(a!=a&&b!=b); }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); int a,b,d; Tree t=singleTree(); bool big=r.coin(0.15); bool xl=c.idx<12; int xw=(int)(c.idx/3); if(k==O){ a=r.range(1,4);b=r.range(1,4);d=r.range(1,big?40:10); } else if(k==H){ t=genTree(r,r.range(1,big?40:9)); a=t.L;b=r.range(1,4);d=r.range(1,4); } else { t=genTree(r,r.range(1,big?8:5)); a=t.L;b=r.range(1,4);d=r.range(1,big?12:6); }
    if(xl){ static const int A[3][4]={{2,1,90,1},{300,3,2,1000},{257,2,400,1}}, B[3][4]={{3,1,100,2},{2,90,2,1},{2,3,1,2}}, D[3][4]={{257,300,2,260},{2,100,130,2},{3,257,4,300}}; a=A[k][xw]; b=B[k][xw]; d=D[k][xw]; if(k!=O) t=genTree(r,a,a>500?3:6); c.count("large arrays"); }
    bool lg=!xl&&c.idx<21; if(lg){ if(k==O){ a=1;b=1;d=r.range(100,150); } else if(k==H){ a=r.range(130,200); b=1; d=1; t=genTree(r,a,1); } else if(c.idx==20){ a=600; b=1; d=20; t=genTree(r,a,3); } else { a=r.range(90,130); b=1; d=2; t=genTree(r,a,1); } c.count("long lists"); }
    Data x; x.init(k,t,k==H?1:d,k==O?vector<int>{a,b}:k==H?vector<int>{b,d}:vector<int>{b}); int cl=lg?0:pickCls(r); fillValues(x,r,cl); if(!xl&&!lg&&r.coin(0.06)){ for(double&y:x.v) if(r.coin(0.3)) y=-y; c.count("arrays with negative values"); }
    auto arr=make_shared<vector<double>>((size_t)a*b*d); auto cell=[&](int i,int j,int q)->double{ return k==O?x.at(0,i*b+j,q):k==H?x.at(i,j*d+q,0):x.at(i,j,q); }; for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int q=0;q<d;q++) (*arr)[i+(size_t)a*(j+(size_t)b*q)]=cell(i,j,q);
    vector<double> before=*arr; Rcpp::NumericVector micro(arr,make_shared<vector<int>>(vector<int>{a,b,d})); auto hv=make_shared<vector<double>>(); for(int p:t.par) hv->push_back(p<0?0:p+1); vector<double> hb=*hv; Rcpp::NumericVector hier(hv,nullptr);
    double th=xl?0.5:lg&&c.idx==20?1:lg?r.logu(1e-3,4e-3):r.coin(0.1)?1:!big&&r.coin(0.25)?r.logu(1e-7,2e-3):r.logu(2e-3,0.5); Vals v=valsNested(x); Quals q=qualsOf(v); q.compute(); q.normalize(); { float gt=gentle(rawOf(q),t,(float)th,0,1); if(gt>(float)th) th=gt; } if(th<1e-4) c.count("fine thresholds"); RObj thr=Rcpp::toR(th); c.desc=fmt("array %dx%dx%d threshold %.17g ",a,b,d,th)+x.str();
    RObj res; try { if(k==O) res=bridge::o(micro,thr); else if(k==H) res=bridge::h(micro,hier,thr); else res=bridge::d(micro,hier,thr); } catch(rshim::Bounds&e){ c.fail("bounds","the bridge reads or writes outside an R vector: %s",e.what()); }
    REQ(c,*arr==before&&*hv==hb,"input","the bridge changed its input vectors");
    // the library, asked directly
    Parter p=parterQ(q); p.sweepDefault((float)th); SView s=p.read();
    REQ(c,res.has("Partitions")&&res.has("Qualities")&&res.has("POpt")&&res.has("AUC"),"items","an item is missing from the result");
    const RObj&P=res.at("Partitions"); auto pc=col(c,P,"Parameter",-1,false); size_t n=pc.size(); vector<double> g=col(c,P,"Gain",n,false),l=col(c,P,"Loss",n,false),nd,sz,st,en; if(k!=O){ nd=col(c,P,"Node",n,true); sz=col(c,P,"Size",n,true); } if(k!=H){ st=col(c,P,"Start",n,true); en=col(c,P,"End",n,true); }
    vector<Row> got,want; for(size_t i=0;i<n;i++){ got.push_back({pc[i],k==O?0:(int)nd[i],k==O?0:(int)sz[i],k==H?0:(int)st[i],k==H?0:(int)en[i],g[i],l[i]}); if(i) REQ(c,pc[i]>=pc[i-1],"order","parameters are not in increasing order"); }
    for(auto&e:s.parts) for(auto&y:e.second.parts) want.push_back({(double)e.first,k==O?0:y.h+1,k==O?0:y.sz,k==H?0:y.s+1,k==H?0:y.e+1,(double)y.g,(double)y.l});
    std::sort(got.begin(),got.end()); std::sort(want.begin(),want.end()); REQ(c,got.size()==want.size(),"rows","%zu rows, the library lists %zu parts",got.size(),want.size());
    for(size_t i=0;i<got.size();i++){ const Row&A=got[i],&B=want[i]; REQ(c,A.p==B.p&&A.node==B.node&&A.size==B.size&&A.s==B.s&&A.e==B.e&&sm(A.g,B.g)&&sm(A.l,B.l),"row","row (p=%.9g node %d size %d [%d,%d] %.17g %.17g), the library lists (p=%.9g node %d size %d [%d,%d] %.17g %.17g)",A.p,A.node,A.size,A.s,A.e,A.g,A.l,B.p,B.node,B.size,B.s,B.e,B.g,B.l); c.count("rows compared"); }
    const RObj&Q=res.at("Qualities"); auto qp=col(c,Q,"Parameter",s.ql.size(),false),qg=col(c,Q,"Gain",s.ql.size(),false),ql=col(c,Q,"Loss",s.ql.size(),false); for(size_t i=0;i<qp.size();i++){ REQ(c,qp[i]==(double)s.ql[i].first&&sm(qg[i],(double)s.ql[i].second.first)&&sm(ql[i],(double)s.ql[i].second.second),"quality","quality row %zu is %.9g %.17g %.17g, the library has %.9g %.17g %.17g",i,qp[i],qg[i],ql[i],s.ql[i].first,(double)s.ql[i].second.first,(double)s.ql[i].second.second); c.count("quality rows compared"); }
    REQ(c,res.at("POpt").val(0)==(double)p.base().getP(P_OPT),"popt","recommended parameter %.9g, the library recommends %.9g",res.at("POpt").val(0),p.base().getP(P_OPT)); float auc=p.base().computeAUC(); REQ(c,res.at("AUC").val(0)==(double)auc||auc!=auc,"auc","area %.9g, the library has %.9g",res.at("AUC").val(0),auc);
    c.count(k==O?"ordered calls":k==H?"hierarchical calls":"spatiotemporal calls"); c.distinct(x.hash()^mix64((uint64_t)(th*1e9)),s.pl.size()>=2&&!(a==b&&b==d)); if(c.samples.size()<3&&x.v.size()<20&&s.pl.size()>1) c.samples.push_back(c.desc); }
