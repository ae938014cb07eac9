#include "../oracle.hpp"
const char*PROP="C08";
const char*RULE="sweeps with thresholds from 1 to 1e-45 over full and partial ranges; between listed parameters the listed partition is compared with an independent optimum at sampled parameters (ends, middle, random); non-trivial: a sweep listing at least three parameters";
uint64_t prop_cases(bool th){ return th?40000:2400; }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); float th; int a=r.below(12); bool tiny=false; if(a<2) th=(float)r.logu(0.05,1); else if(a<8) th=(float)r.logu(1e-6,0.3); else if(a<10){ th=(float)r.logu(1e-12,1e-6); tiny=true; } else { static const float z[5]={1e-45f,1e-30f,1e-20f,5.96e-8f,1.2e-38f}; th=z[r.below(5)]; tiny=true; }
    int sz=r.below(100)<35?0:r.below(100)<75?1:2; if(k==D&&sz==2&&r.coin()) sz=1; if(tiny&&sz==2&&!r.coin(0.03)) sz=1; /* at float resolution a sweep of a large table can list tens of thousands of parameters */ bool large=c.idx/3<12; if(large){ th=(float)r.logu(0.004,0.1); tiny=false; c.count("large problems"); } bool stair=!large&&c.idx/3<14; bool chain=stair&&k!=O&&c.idx<39; int m=stair?(k==O?c.idx<39?260:100:chain?270:60)-r.range(0,20):0; if(stair){ th=0.3f/m; tiny=false; c.count("staircases"); } Problem P=chain?chainProblem(r,k,m):stair?stairProblem(r,k,m):large?largeProblem(r,k,c.idx/3):genProblem(r,k,sz,0.4); c.desc=P.str();
    float mn=0,mx=1; if(!stair&&!r.coin(0.5)){ mn=genP(r); mx=genP(r); if(mn>mx)std::swap(mn,mx); }
    { float g=gentle(P.raw,P.tree,th,mn,mx); if(g!=th){ th=g; tiny=false; } } P.parter.sweep(th,mn,mx); SView v=P.parter.read(); string ctx=fmt("threshold=%.9g range [%.9g,%.9g]: ",th,mn,mx)+v.str();
    c.count("sweeps"); if(tiny) c.count("sweeps with a threshold near or below float resolution"); REQ(c,!v.pl.empty(),"empty","%s",ctx.c_str());
    int samples=0; size_t n=v.pl.size(); REQ(c,v.parts.size()==n,"list","%s: %zu partitions",ctx.c_str(),v.parts.size());
    for(size_t i=0;i<n;i++){ double lo=v.pl[i],hi; if(i+1<n){ float nx=v.pl[i+1]; double ulp=(double)nx-(double)std::nextafterf(nx,0.f); hi=(double)nx-(double)th-2*ulp; } else hi=mx; if(hi<lo) { c.count("gaps within the threshold"); hi=lo; }
        if(n>40&&!r.coin(40.0/n)&&i+1<n) continue; /* a sample of a long list */
        for(int s=0;s<5;s++){ double p=s==0?lo:s==1?hi:s==2?(lo+hi)/2:lo+(hi-lo)*r.u(); if(s>0&&hi==lo) break;
            Val got=valueOf(P.tab,k,v.parts[i].second.parts,(ld)p), best=opt(k,P.tab,P.tree,(ld)p); ld tol=vtol(P.tm,P.cells,0.5f)*4; float fl=v.pl[i], fn=i+1<n?v.pl[i+1]:mx; if(!pExact(fl)||!pExact(fn)||tiny) tol+=1.5e-7L*(fabsl(got.l)+fabsl(best.l)+fabsl(v.parts[i].second.l));
            REQ(c,got.v>=best.v-tol,"missed","%s: the partition listed at %.9g is not optimal at %.12g (next listed: %s): value %.20Lg, best %.20Lg",ctx.c_str(),v.pl[i],p,i+1<n?fmt("%.9g",v.pl[i+1]).c_str():"none",got.v,best.v);
            samples++; c.count("parameters sampled"); if(p!=lo) c.count("parameters sampled between listed ones"); } }
    c.maxi("listed parameters",n); c.distinct(P.hash()^mix64(th*1e9),n>=3); if(c.samples.size()<3&&n>=3&&P.cells<10) c.samples.push_back(P.str()+" "+ctx); }
