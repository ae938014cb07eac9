#include "../oracle.hpp"
const char*PROP="C14";
const char*RULE="spatiotemporal analyses against ordered and hierarchical ones of the same data (one slice; one leaf; every leaf over time; every slice over the hierarchy; time-only and space-only restrictions), from data and from caller-supplied tables; non-trivial: more than one slice or leaf and a best partition with several parts";
uint64_t prop_cases(bool th){ return th?60000:4000; }
static Table rowTable(const Table&t,int h){ Table r; r.init(1,t.T); for(int i=0;i<t.T;i++)for(int j=i;j<t.T;j++){ r.g[r.ix(0,i,j)]=t.G(h,i,j); r.l[r.ix(0,i,j)]=t.Lo(h,i,j);} return r; }
static Table colTable(const Table&t,int i,int j){ Table r; r.init(t.N,1); for(int h=0;h<t.N;h++){ r.g[h]=t.G(h,i,j); r.l[h]=t.Lo(h,i,j);} return r; }
static void cmp(Ctx&c,const Table&a,const Table&b,const vector<ld>*mag,const Table&mt,std::function<size_t(size_t)> m,const char*w){ for(size_t x=0;x<b.g.size();x++){ ld tol=mag?2e-13L*(*mag)[m(x)]:0; REQ(c,fabsl(a.g[m(x)]-b.g[x])<=tol&&fabsl(a.l[m(x)]-b.l[x])<=tol,w,"spatiotemporal (%.20Lg,%.20Lg) against (%.20Lg,%.20Lg) at entry %zu",a.g[m(x)],a.l[m(x)],b.g[x],b.l[x],x); c.count("entries compared"); } (void)mt; }
void prop_case(Ctx&c){ Rng&r=c.rng; int mode=(int)(c.idx%4); int sz=pickSize(r); if(sz==3) sz=r.coin(0.3)?3:2; bool nt=false;
    static const int dl[4]={2,5,8,12}, dt[4]={3,6,12,22};
    Tree t=mode==1?genTree(r,1,0):genTree(r,r.range(1,mode==0?dl[sz]*3:dl[sz])); int T=mode==0?1:r.range(1,mode==1?dt[sz]*2:dt[sz]); if(mode==1&&t.n()>1) t=singleTree();
    bool user=r.coin(0.3); int cl=pickCls(r); Data d; vector<int> dims=genDims(r,D,6); d.init(D,t,T,dims); fillValues(d,r,cl);
    Problem P; bool norm=r.coin(0.3); if(user){ int tc=r.below(TC+1); P=userProblem(r,D,t,genTable(r,D,t,T,tc),tclsExact(tc),tclsName(tc)); } else P=dataProblem(r,d,norm,vclsName(cl)); c.desc=fmt("mode %d ",mode)+P.str();
    Defs de; if(!user&&!norm) de=defs(d); const vector<ld>*mag=user||norm?nullptr:&de.mag; const Table&tb=P.tab; size_t root=t.root;
    auto hdata=[&](int s){ Data x; x.init(H,t,1,dims); for(int l=0;l<d.L;l++)for(int k=0;k<d.V;k++) x.at(l,k,0)=d.at(l,k,s); return x; }; auto odata=[&](int l){ Data x; x.init(O,singleTree(),T,dims); for(int k=0;k<d.V;k++)for(int s=0;s<T;s++) x.at(0,k,s)=d.at(l,k,s); return x; };
    auto tabOf=[&](const Data&x){ return readTable(rawOf(history(x,r).quals)); };
    if(!user&&!norm){ // tables
        for(int s=0;s<T&&s<4;s++){ int i=T<=4?s:r.below(T); Table h=tabOf(hdata(i)); cmp(c,tb,h,mag,tb,[&](size_t x){return tb.ix((int)x,i,i);},"slice-vs-hierarchical"); }
        for(int s=0;s<d.L&&s<4;s++){ int l=d.L<=4?s:r.below(d.L); Table o=tabOf(odata(l)); size_t base=tb.ix(l,0,0); cmp(c,tb,o,mag,tb,[&](size_t x){return base+x;},"leaf-vs-ordered"); } }
    for(int q=0;q<3;q++){ float p=genP(r); PView v=P.parter.best(p); Val dv=valueOf(tb,D,v.parts,p); ld tol=2*vtol(P.tm,P.cells,p,dv.l,dv.l); if(v.parts.size()>1&&P.cells>1) nt=true;
        // the algorithms on the same table
        auto other=[&](Kind k,const Table&x,const Tree&tr,const char*w,bool eq){ Parter o=parterRaw(rawFrom(k,x),tr); PView b=o.best(p); Val ov=valueOf(x,k,b.parts,p); REQ(c,dv.v>=ov.v-tol,w,"p=%.9g: spatiotemporal value %.20Lg below %.20Lg",p,dv.v,ov.v); if(eq) REQ(c,ov.v>=dv.v-tol,w,"p=%.9g: values %.20Lg and %.20Lg differ",p,dv.v,ov.v); c.count(string(w)+(eq?" (equal)":" (bound)")); };
        other(O,rowTable(tb,root),singleTree(),"time-only",t.n()==1); other(H,colTable(tb,0,T-1),t,"space-only",T==1);
        // restrictions to one leaf, one slice inside the best partition of the whole: sum of independent optima is a cover too
        if(d.L>1&&T>1&&r.coin(0.5)){ Val s; for(int l=0;l<d.L;l++){ Table x=rowTable(tb,l); PView b=parterRaw(rawFrom(O,x),singleTree()).best(p); s=add(s,valueOf(x,O,b.parts,p)); } REQ(c,dv.v>=s.v-tol,"leaf-by-leaf","p=%.9g: %.20Lg below the leaf-by-leaf optimum %.20Lg",p,dv.v,s.v); Val u; for(int i=0;i<T;i++){ Table x=colTable(tb,i,i); PView b=parterRaw(rawFrom(H,x),t).best(p); u=add(u,valueOf(x,H,b.parts,p)); } REQ(c,dv.v>=u.v-tol,"slice-by-slice","p=%.9g: %.20Lg below the slice-by-slice optimum %.20Lg",p,dv.v,u.v); c.count("leaf-by-leaf and slice-by-slice bounds"); }
        // from the data, not the table
        if(!user&&!norm&&(T==1||t.n()==1)){ Kind k=T==1?H:O; Data x=T==1?hdata(0):odata(0); Sys S=makeSys(x,r,false); PView b=S.parter.best(p); Val ov=valueOf(readTable(rawOf(S.quals)),k,b.parts,p); ld m=0; for(auto y:de.mag) m=std::max(m,y); REQ(c,fabsl(ov.v-dv.v)<=tol+m*1e-12L,"end-to-end","p=%.9g: spatiotemporal value %.20Lg, %c value %.20Lg",p,dv.v,kch(k),ov.v); c.count("end-to-end agreements"); } }
    c.distinct(P.hash(),nt); if(c.samples.size()<3&&nt&&P.cells<8) c.samples.push_back(P.str()); }
