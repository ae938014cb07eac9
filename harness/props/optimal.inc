// C02, C03, C04: optimality and tie-breaking of one algorithm, against an independent dynamic programme
// (itself compared with enumeration of every cover on small inputs).
#include "../oracle.hpp"
const char*PROP=PNAME;
const char*RULE="caller-supplied tables (10 classes: small integers with ties, all-tie additive, covers that differ by a few units in 2^55, planted covers, 40-bit integers, signed, real) and tables computed from 20 classes of data, raw and normalised; parameters 0, 1, k/64, k/2^24 and arbitrary; non-trivial: several parts but not all single cells, or a tie-break decided by gain or loss";
uint64_t prop_cases(bool th){ return th?(KIND==D?40000:120000):(KIND==D?2400:6000); }
static void one(Ctx&c,Problem&P,float p,bool&nt,bool bf){
    PView v=P.parter.best(p); string e=coverError(P.kind,P.tree,P.T,v.parts); REQ(c,e.empty(),"cover","p=%.9g: %s; %s",p,e.c_str(),v.str().c_str());
    Val got=valueOf(P.tab,P.kind,v.parts,p), best=opt(P.kind,P.tab,P.tree,p);
    if(bf){ long n; Val b=brute(P.kind,P.tab,P.tree,p,n,60000); if(n<=60000){ c.count("covers enumerated",n); c.count("reference checked by enumeration"); 
        if(fabsl(b.v-best.v)>vtol(P.tm,P.cells,0.5f)||(exactAt(P,p)&&(b.v!=best.v||b.g!=best.g||b.l!=best.l))){ fprintf(stderr,"HARNESS: reference disagrees with enumeration\n"); exit(3);} } }
    bool ex=exactAt(P,p);
    if(ex){ REQ(c,got.v==best.v,"not-optimal","p=%.9g: value %.20Lg, the best cover has %.20Lg; %s",p,got.v,best.v,v.str().c_str());
        REQ(c,got.g==best.g,"tie-gain","p=%.9g: among covers of value %.20Lg the highest gain is %.20Lg, returned %.20Lg; %s",p,best.v,best.g,got.g,v.str().c_str());
        REQ(c,got.l==best.l,"tie-loss","p=%.9g: among covers of value %.20Lg and gain %.20Lg the lowest loss is %.20Lg, returned %.20Lg; %s",p,best.v,best.g,best.l,got.l,v.str().c_str());
        c.count("exact comparisons"); }
    else { ld tol=vtol(P.tm,P.cells,p,got.l,best.l); REQ(c,got.v>=best.v-tol,"not-optimal","p=%.9g: value %.20Lg, the best cover has %.20Lg (allowance %.3Lg); %s",p,got.v,best.v,tol,v.str().c_str()); c.count("comparisons with rounding allowance"); }
    c.count("partitions compared"); c.maxi("cells",P.cells); c.maxi("parts",v.parts.size()); if(v.parts.size()>1&&(int)v.parts.size()<P.cells) nt=true; }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=KIND; Problem P; uint64_t b=c.idx; bool bf=false; int np=r.range(2,5);
    if(b>=12&&b<12+XL){ np=2; int cl=b%2?3:18; P=dataProblem(r,xlData(r,k,(int)b-12,cl),b%3==0,vclsName(cl)); c.count("very large problems"); }
    else if(b>=12+XL&&b<18+XL){ np=2; P=dataProblem(r,stepData(r,k,(int)b-12-XL),b%2==0,"long-blocks"); c.count("problems with long blocks"); }
    else if(b<12){ // large
        np=2; bool user=b%2; Tree t=singleTree(); int T=1;
        if(k==O){ int n[12]={200,257,300,520,640,260,150,1030,129,400,333,511}; T=n[b]; }
        else if(k==H){ int n[12]={300,500,260,800,400,150,257,600,200,350,128,1000}; int st[12]={0,1,2,3,4,7,0,1,5,6,7,3}; t=genTree(r,st[b]==2?200:n[b],st[b]); }
        else { int n[12]={3,40,2,12,1,30,5,20,70,10,6,8}; int s[12]={40,5,60,16,70,8,33,10,4,20,25,24}; t=genTree(r,n[b]); T=s[b]; }
        if(user){ int cl=(b/2)%3==0?0:(b/2)%3==1?4:8; P=userProblem(r,k,t,genTable(r,k,t,T,cl),true,tclsName(cl)); }
        else { Data d; d.init(k,t,T,b%4?vector<int>{}:k==D?vector<int>{2}:vector<int>{2}); int cl=b%3==0?3:b%3==1?18:0; fillValues(d,r,cl); P=dataProblem(r,d,b%4==0,vclsName(cl)); }
        c.count("large problems"); }
    else { int sz=pickSize(r); if(k==D&&sz==3&&!r.coin(0.3)) sz=2; P=r.coin(0.06)?genProblem(r,k,sz,1,NEAR):genProblem(r,k,sz,0.6); bf=sz<=1&&P.cells<=12&&r.coin(0.4); }
    c.desc=P.str(); bool nt=false; if(k==H&&P.cells>20000){ one(c,P,1,nt,false); c.distinct(P.hash(),nt); return; }
    for(int i=0;i<np;i++) one(c,P,genP(r,P.exact?r.coin(0.97):r.coin(0.7)),nt,bf&&i==0);
    if(P.exact||r.coin(0.2)){ one(c,P,0,nt,false); one(c,P,1,nt,false); }
    // ties of the criterion: a parameter where two random covers have the same value
    if(P.user&&P.cells>1&&P.exact&&P.cls!="big-int"&&P.cls!="near-tie"){ ld dg=r.range(1,6),dl=r.range(1,6); float p=(float)(dl/(dl+dg)); if(pExact(p)) one(c,P,p,nt,false); }
    c.count("class "+P.cls); c.distinct(P.hash(),nt); if(c.samples.size()<3&&nt&&P.cells<12) c.samples.push_back(P.str()); }
