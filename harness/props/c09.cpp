#include "../oracle.hpp"
const char*PROP="C09";
const char*RULE="recommended parameter, largest parameter and area after one to three sweeps on raw and normalised tables of any magnitude, and before any sweep; recomputed from the listed qualities; non-trivial: at least three listed parameters";
uint64_t prop_cases(bool th){ return th?120000:6000; }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); int sz=r.below(100)<30?0:r.below(100)<80?1:2; bool large=c.idx/3<12; if(large) c.count("large problems"); bool stair=!large&&c.idx/3<14; bool chain=stair&&k!=O&&c.idx<39; int m=stair?(k==O?c.idx<39?280:100:chain?270:70)-r.range(0,20):0; if(stair) c.count("staircases"); Problem P=chain?chainProblem(r,k,m):stair?stairProblem(r,k,m):large?largeProblem(r,k,c.idx/3):genProblem(r,k,sz,0.35); c.desc=P.str(); bool before=r.coin(0.6); if(before) P.parter=r.coin()?parterRaw(P.raw,P.tree):parterQ(qualsFrom(P.raw,P.tree)); L::Partitioner&b=P.parter.base(); bool nt=false;
    if(before){ float a0=b.getP(P_MIN),a1=b.getP(P_MAX),a2=b.getP(P_OPT),u=b.computeAUC(); REQ(c,a0==0&&a1==0&&a2==0&&u==1,"before-sweep","before any sweep: P_MIN %g, P_MAX %g, P_OPT %g, area %g",a0,a1,a2,u); REQ(c,b.getPList().empty()&&b.getQualityList().empty(),"before-sweep","parameters listed before any sweep"); c.count("queried before any sweep");
        if(r.coin(0.3)){ P.parter.best(genP(r)); REQ(c,b.getP(P_OPT)==0&&b.getP(P_MAX)==0&&b.computeAUC()==1,"before-sweep","summaries changed by a best-partition query"); } }
    int ns=stair?1:r.range(1,3);
    for(int s=0;s<ns;s++){ float th=stair?0.3f/m:r.coin(0.2)?1.f:(float)r.logu(large?3e-3:1e-4,0.5),mn=0,mx=1; if(!stair&&r.coin(0.4)){ mn=genP(r); mx=r.coin(0.15)?mn:genP(r); if(mn>mx)std::swap(mn,mx); } P.parter.sweep(th,mn,mx);
        if(r.coin(0.2)) P.parter.best(genP(r));
        SView v=P.parter.read(); string ctx=fmt("sweep %d threshold=%.9g range [%.9g,%.9g]: ",s,th,mn,mx)+v.str(); REQ(c,!v.pl.empty()&&v.ql.size()==v.pl.size(),"list","%s",ctx.c_str());
        map<float,pair<ld,ld>> ql(v.ql.begin(),v.ql.end()); for(float p:v.pl) REQ(c,ql.count(p),"list","%s: no quality for %.9g",ctx.c_str(),p);
        auto score=[&](float p){ ld g=ql[p].first,l=ql[p].second; return (g-1)*(g-1)+l*l; }; ld best=INFINITY; for(float p:v.pl) best=std::min(best,score(p));
        float po=b.getP(P_OPT); REQ(c,ql.count(po),"popt-listed","%s: P_OPT is %.9g",ctx.c_str(),po); ld sc=score(po); REQ(c,sc<=best*(1+1e-15L),"popt","%s: P_OPT %.9g at squared distance %.20Lg, the closest is at %.20Lg",ctx.c_str(),po,sc,best);
        float pm=b.getP(P_MAX); REQ(c,pm==v.pl.back(),"pmax","%s: P_MAX is %.9g",ctx.c_str(),pm);
        ld area=0,abs=0; for(size_t i=0;i+1<v.pl.size();i++){ ld t=(ql[v.pl[i+1]].first-ql[v.pl[i]].first)*(ql[v.pl[i+1]].second+ql[v.pl[i]].second)/2; area+=t; abs+=fabsl(t); }
        float auc=b.computeAUC(); if(abs<1e36L){ ld tol=(v.pl.size()+4)*1.3e-7L*(abs+1); REQ(c,fabsl((1-area)-auc)<=tol,"auc","%s: area %.9g, from the list %.9Lg",ctx.c_str(),auc,1-area); c.count("areas compared"); }
        float again=b.getP(P_OPT); REQ(c,again==po&&b.computeAUC()==auc||auc!=auc,"unstable","asking twice gives different answers");
        c.count("sweeps"); c.maxi("listed parameters",v.pl.size()); if(v.pl.size()>=3) nt=true; if(po!=v.pl.front()&&po!=v.pl.back()) c.count("recommended parameter strictly inside the list"); if(abs>1e3) c.count("sweeps with large qualities"); }
    c.distinct(P.hash(),nt); if(c.samples.size()<3&&nt&&P.cells<10) c.samples.push_back(P.str()); }
