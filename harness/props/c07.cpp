#include "../oracle.hpp"
const char*PROP="C07";
const char*RULE="sweeps over data and caller-supplied tables of O/H/D; thresholds 1 down to 1e-9, full ranges, sub-ranges and min=max, one to three sweeps per partitioner; each listed partition compared with a fresh best partition; non-trivial: a sweep listing at least three parameters";
uint64_t prop_cases(bool th){ return th?60000:3600; }
static vector<PartRec> sorted(vector<PartRec> v){ std::sort(v.begin(),v.end(),[](const PartRec&a,const PartRec&b){ return std::make_tuple(a.h,a.s,a.e)<std::make_tuple(b.h,b.s,b.e); }); return v; }
static bool sameExt(const vector<PartRec>&a,const vector<PartRec>&b){ if(a.size()!=b.size()) return false; auto x=sorted(a),y=sorted(b); for(size_t i=0;i<x.size();i++) if(!x[i].sameExtent(y[i])) return false; return true; }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); int sz=pickSize(r); if(sz==3&&(k!=H||r.coin(0.5))) sz=2; bool xl=c.idx<9; bool stair=!xl&&c.idx<15; bool chain=k!=O&&c.idx<12; int m=(k==O?c.idx<12?270:100:chain?270:60)-r.range(0,20); Problem P; if(xl){ int cl=k==D||c.idx%2?0:18; P=dataProblem(r,xlData(r,k,k==O?(int)(c.idx/3):k==H?(c.idx/3==1?4:1+(int)(c.idx/3)%2):(int)(c.idx/3),cl),r.coin(),vclsName(cl)); c.count("very large problems"); } else if(stair){ P=chain?chainProblem(r,k,m):stairProblem(r,k,m); c.count("staircases"); } else P=genProblem(r,k,sz,0.4); c.desc=P.str(); bool nt=false;
    int ns=xl||stair?1:r.range(1,3); SView last; bool have=false;
    for(int s=0;s<ns;s++){ float th,mn=0,mx=1; int a=r.below(6); th=stair?0.3f/m:a==0?1.f:a==1&&!xl?0.001f:xl?0.4f:(float)r.logu(sz>=2?1e-5:1e-9,0.9);
        bool full=stair||xl&&c.idx<6||r.coin(0.45); if(!full){ mn=genP(r,r.coin(0.8)); mx=r.coin(0.15)?mn:genP(r,r.coin(0.8)); if(mn>mx)std::swap(mn,mx); } th=gentle(P.raw,P.tree,th,mn,mx);
        if(full&&r.coin()) P.parter.sweepDefault(th); else P.parter.sweep(th,mn,mx);
        SView v=P.parter.read(); string ctx=fmt("sweep %d threshold=%.9g range [%.9g,%.9g]: ",s,th,mn,mx)+v.str();
        REQ(c,!v.pl.empty(),"empty","%s",ctx.c_str()); REQ(c,v.pl[0]==mn,"start","%s does not start at min",ctx.c_str());
        for(size_t i=0;i<v.pl.size();i++){ REQ(c,v.pl[i]>=mn&&v.pl[i]<=mx,"range","%s",ctx.c_str()); if(i) REQ(c,v.pl[i]>v.pl[i-1],"order","%s is not strictly increasing",ctx.c_str()); }
        REQ(c,v.parts.size()==v.pl.size(),"map","%s: the map has %zu partitions",ctx.c_str(),v.parts.size()); REQ(c,v.ql.size()==v.pl.size(),"quality-list","%s: the quality list has %zu entries",ctx.c_str(),v.ql.size());
        size_t ti=0; Parter fresh=parterRaw(P.raw,P.tree);
        for(size_t i=0;i<v.pl.size();i++){ float p=v.pl[i]; const PView&q=v.parts[i].second;
            REQ(c,v.parts[i].first==p,"map","%s: the map holds %.9g instead of %.9g",ctx.c_str(),v.parts[i].first,p); REQ(c,q.p==p,"parameter","%s: the partition of %.9g reports parameter %.9g",ctx.c_str(),p,q.p);
            PView b=fresh.best(p); REQ(c,b.sameResult(q),"not-best","%s: at %.9g the list has %s, the best partition is %s",ctx.c_str(),p,q.str().c_str(),b.str().c_str());
            if(i) REQ(c,!sameExt(q.parts,v.parts[i-1].second.parts),"repeated","%s: partitions of %.9g and %.9g are the same",ctx.c_str(),v.pl[i-1],p);
            REQ(c,v.ql[i].first==p&&v.ql[i].second.first==q.g&&v.ql[i].second.second==q.l,"quality-list","%s: entry %zu is %.9g (%.20Lg,%.20Lg), the partition has (%.20Lg,%.20Lg)",ctx.c_str(),i,v.ql[i].first,v.ql[i].second.first,v.ql[i].second.second,q.g,q.l);
            vector<PartRec> tp; for(;ti<v.tup.size()&&v.tup[ti].p==p;ti++){ PartRec a; a.h=v.tup[ti].h; a.s=v.tup[ti].s; a.e=v.tup[ti].e; a.sz=v.tup[ti].size; a.g=v.tup[ti].g; a.l=v.tup[ti].l; tp.push_back(a); }
            auto x=sorted(tp),y=sorted(q.parts); REQ(c,x.size()==y.size(),"tuples","%s: %zu rows for %.9g, the partition has %zu parts",ctx.c_str(),x.size(),p,y.size());
            for(size_t j=0;j<x.size();j++) REQ(c,x[j].sameExtent(y[j])&&x[j].sz==y[j].sz&&x[j].g==y[j].g&&x[j].l==y[j].l,"tuples","%s: row %s, part %s",ctx.c_str(),x[j].str().c_str(),y[j].str().c_str());
            c.count("listed partitions compared"); c.count("rows compared",x.size()); }
        REQ(c,ti==v.tup.size(),"tuples","%s: %zu rows beyond the listed partitions (first %s)",ctx.c_str(),v.tup.size()-ti,v.tup[ti].str().c_str());
        c.count("sweeps"); c.maxi("listed parameters",v.pl.size()); if(v.pl.size()>=3) nt=true; if(mn==mx) c.count("sweeps with min=max"); if(!full) c.count("partial sweeps");
        if(r.coin(0.3)){ auto&b=P.parter.base(); b.getP(P_OPT); b.getP(P_MAX); b.computeAUC(); REQ(c,P.parter.read().same(v),"changed","asking for the recommended parameter or the area changed the results of the sweep"); c.count("sweeps read again after summaries"); }
        if(r.coin(0.4)) { P.parter.best(genP(r)); REQ(c,P.parter.read().same(v),"changed","a best-partition query changed the results of the sweep"); } 
        last=v; have=true; }
    (void)have; c.distinct(P.hash(),nt); if(c.samples.size()<3&&nt&&P.cells<10) c.samples.push_back(P.str()+" "+last.str()); }
