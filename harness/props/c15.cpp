#include "../oracle.hpp"
const char*PROP="C15";
const char*RULE="for each table 6-14 parameters queried in random order, compared in increasing order, and the lists of sweeps; extremes compared with independent optima; non-trivial: the partitions seen differ";
uint64_t prop_cases(bool th){ return th?80000:5000; }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); int sz=pickSize(r); if(sz==3&&k==D) sz=2; bool large=c.idx/3<12; if(large) c.count("large problems"); Problem P=large?largeProblem(r,k,c.idx/3):genProblem(r,k,sz,0.45); c.desc=P.str();
    vector<float> ps; int n=P.cells>100?6:r.range(5,13); for(int i=0;i<n;i++) ps.push_back(genP(r,r.coin(0.85))); ps.push_back(0); ps.push_back(1); if(r.coin(0.3)&&!ps.empty()){ float b=ps[r.below(n)]; for(int i=0;i<3;i++) ps.push_back(std::min(1.f,b+(float)std::ldexp(1.0,-r.range(4,20)))); } r.shuffle(ps); map<float,PView> seen; for(float p:ps) seen[p]=P.parter.best(p);
    auto mono=[&](const vector<std::pair<float,pair<ld,ld>>>&s,const char*w){ for(size_t i=0;i+1<s.size();i++){ float a=s[i].first,b=s[i+1].first; if(a==b) continue; bool ex=exactAt(P,a)&&exactAt(P,b); ld e=0; if(!ex){ e=vtol(P.tm,P.cells,0.5f)*2; if(!pExact(a)||!pExact(b)) e+=1.5e-7L*(fabsl(s[i].second.second)+fabsl(s[i+1].second.second)); e=4*e/((ld)b-a); }
            REQ(c,s[i+1].second.first>=s[i].second.first-e,"gain-drops","%s: gain %.20Lg at %.9g, %.20Lg at %.9g",w,s[i].second.first,a,s[i+1].second.first,b); REQ(c,s[i+1].second.second>=s[i].second.second-e,"loss-drops","%s: loss %.20Lg at %.9g, %.20Lg at %.9g",w,s[i].second.second,a,s[i+1].second.second,b); c.count(ex?"steps compared exactly":"steps compared"); } };
    vector<std::pair<float,pair<ld,ld>>> s; std::set<uint64_t> shapes; for(auto&kv:seen){ Val v=valueOf(P.tab,k,kv.second.parts,0); s.push_back({kv.first,{v.g,v.l}}); shapes.insert(kv.second.shape()); } mono(s,"queries");
    Val g1=opt(k,P.tab,P.tree,1), l0=opt(k,P.tab,P.tree,0); ld e=P.exact&&exactAt(P,1)?0:vtol(P.tm,P.cells,0.5f)*2; REQ(c,s.back().second.first>=g1.g-e,"max-gain","at parameter 1 the gain is %.20Lg, the largest is %.20Lg",s.back().second.first,g1.g); REQ(c,s.front().second.second<=l0.l+e,"min-loss","at parameter 0 the loss is %.20Lg, the smallest is %.20Lg",s.front().second.second,l0.l);
    bool full=r.coin(0.6); float mn=0,mx=1; if(!full){ mn=genP(r); mx=genP(r); if(mn>mx)std::swap(mn,mx); } P.parter.sweep(gentle(P.raw,P.tree,(float)(P.cells>100?0.05:r.logu(1e-5,1)),mn,mx),mn,mx); SView v=P.parter.read(); vector<std::pair<float,pair<ld,ld>>> w; for(auto&q:v.ql) w.push_back(q); mono(w,"sweep");
    if(full&&!P.user){ Defs de=defs(P.data); size_t fx=de.t.ix(k==O?0:P.tree.root,0,P.T-1); ld m=de.mag[fx]; const Table&t=P.tab; ld sg=1,sl=1; bool ok=true; if(P.norm){ sg=de.t.g[fx]; sl=de.t.l[fx]; ok=sg>1e-6L*m&&sl>1e-6L*m; }
        if(ok){ REQ(c,fabsl(w.back().second.first-t.g[fx])<=1e-12L*m/sg,"last-is-full","the last listed partition (%.9g) has gain %.20Lg, the full aggregation %.20Lg",w.back().first,w.back().second.first,t.g[fx]); REQ(c,fabsl(w.front().second.second)<=1e-12L*m/sl,"first-has-no-loss","the first listed partition (%.9g) has loss %.20Lg",w.front().first,w.front().second.second); c.count("full sweeps on data"); } }
    c.maxi("distinct partitions on one table",shapes.size()); c.distinct(P.hash(),shapes.size()>=2); if(c.samples.size()<3&&shapes.size()>=2&&P.cells<8) c.samples.push_back(P.str()); }
