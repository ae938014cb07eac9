#include "../oracle.hpp"
const char*PROP="C01";
const char*RULE="random datasets (20 value classes) and caller-supplied tables (9 classes) over O/H/D, sizes 1..~1500 cells in a row or ~600 nodes, several p each; non-trivial: a best partition that is neither one part nor all single cells";
uint64_t prop_cases(bool th){ return th?60000:4000; }
static void checkPart(Ctx&c,const Problem&P,const PView&v,float p){
    string e=coverError(P.kind,P.tree,P.T,v.parts); REQ(c,e.empty(),"cover","p=%.9g: %s; partition %s",p,e.c_str(),v.str().c_str());
    REQ(c,v.p==p,"parameter","partition asked for p=%.9g reports p=%.9g",p,v.p);
    ld g=0,l=0,m=0;
    for(auto&q:v.parts){ int hs=P.kind==O?1:P.tree.nl[q.h]; int os=P.kind==H?1:q.e-q.s+1; ld G=P.tab.G(P.kind==O?0:q.h,q.s,q.e),Lo=P.tab.Lo(P.kind==O?0:q.h,q.s,q.e);
        REQ(c,q.sz==hs*os,"part-size","p=%.9g part %s: size %d, covers %d cells",p,q.str().c_str(),q.sz,hs*os);
        if(P.kind!=O) REQ(c,q.hs==hs,"part-hsize","p=%.9g part %s: %d leaves reported, %d below the node",p,q.str().c_str(),q.hs,hs);
        if(P.kind!=H) REQ(c,q.osz==os,"part-osize","p=%.9g part %s: %d slices reported",p,q.str().c_str(),q.osz);
        REQ(c,q.g==G&&q.l==Lo,"part-quality","p=%.9g part %s: the table holds (%.20Lg,%.20Lg)",p,q.str().c_str(),G,Lo);
        g+=q.g; l+=q.l; m+=fabsl(q.g)+fabsl(q.l); c.count("parts checked"); }
    ld tol=1e-18L*(v.parts.size()+4)*m;
    REQ(c,fabsl(g-v.g)<=tol&&fabsl(l-v.l)<=tol,"partition-quality","p=%.9g: partition reports (%.20Lg,%.20Lg), its parts sum to (%.20Lg,%.20Lg)",p,v.g,v.l,g,l);
    c.count("partitions checked"); c.maxi("parts in one partition",v.parts.size()); }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); Problem P;
    uint64_t b=c.idx/3;
    if(b<6){ // large shapes
        int cls[6]={0,3,18,1,7,4}; Data d; Rng q=r; 
        if(k==O){ int n[6]={257,300,512,700,c.thorough?1500:260,1025}; d.init(k,singleTree(),n[b],{}); }
        else if(k==H){ int n[6]={300,257,500,400,150,600}; int st[6]={0,1,3,7,2,4}; d.init(k,genTree(r,n[b],st[b]),1,b%2?vector<int>{}:vector<int>{2}); }
        else { int n[6]={3,40,2,12,1,30}; int t[6]={40,4,60,16,50,8}; d.init(k,genTree(r,n[b]),t[b],{}); }
        fillValues(d,r,cls[b]); P=dataProblem(r,d,b%2,vclsName(cls[b])); c.count("large datasets"); }
    else if(b<6+XL){ static const int cl[XL]={3,0,18,4,7}; P=dataProblem(r,xlData(r,k,(int)b-6,cl[b-6]),b%2,vclsName(cl[b-6])); c.count("very large datasets"); }
    else if(b==6+XL&&k==D){ Tree t=genTree(r,33001,1); Table tb; tb.init(t.n(),1); for(auto&x:tb.g) x=0; for(auto&x:tb.l) x=1; tb.g[tb.ix(t.root,0,0)]=1; P=userProblem(r,k,t,tb,true,"one part of 33001 leaves"); c.count("very large datasets"); }
    else P=genProblem(r,k,pickSize(r),0.4);
    c.desc=P.str(); bool nt=false; bool lg=b<6+XL||P.cells>20000; int np=P.cells>20000&&k==D?1:lg?3:r.range(2,5);
    for(int i=0;i<np;i++){ float p=P.cells>20000&&k!=O?1.f:lg?(i==0?1.f:i==1?0.1f:(float)r.u()):genP(r,r.coin(0.7)); PView v=P.parter.best(p); checkPart(c,P,v,p); if(v.parts.size()>1&&(int)v.parts.size()<P.cells) nt=true; }
    if(r.coin(0.3)&&!(lg&&b>=6)){ // the partitions of a sweep are best partitions too
        float mn=r.coin()?0:genP(r),mx=r.coin()?1:genP(r); if(mn>mx)std::swap(mn,mx); P.parter.sweep(P.cells>150?0.1f:(float)r.logu(1e-3,1),mn,mx); SView s=P.parter.read(); for(auto&kv:s.parts) checkPart(c,P,kv.second,kv.first); c.count("sweeps"); }
    c.distinct(P.hash(),nt); if(c.samples.size()<3&&nt&&P.cells<12) c.samples.push_back(P.str()); }
