#include "../oracle.hpp"
const char*PROP="C13";
const char*RULE="pairs of a dataset and its transform (scaling by powers of two and arbitrary constants, time reversal, renumbering of leaves and of grouping nodes, permutation of variables, and combinations); non-trivial: the transform is not the identity and some candidate part has gain and loss";
uint64_t prop_cases(bool th){ return th?80000:5000; }
void prop_case(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)(c.idx%3); int cl=pickCls(r); int sz=pickSize(r); if(sz==3&&(k==D||r.coin(0.6))) sz=2; bool large=c.idx<30; Data d; if(large){ int b=c.idx/3; if(k==D){ static const int n[10]={3,40,2,12,1,30,5,20,60,10},q[10]={40,5,50,16,60,8,30,10,4,18}; d.init(k,genTree(r,n[b]),q[b],b%3?vector<int>{}:vector<int>{2}); } else if(k==H) d.init(k,genTree(r,r.range(150,500),b%8==2?0:b%8),1,b%3?vector<int>{}:vector<int>{2,2}); else d.init(k,singleTree(),r.range(130,400),b%3?vector<int>{}:vector<int>{2,2}); fillValues(d,r,cl); c.count("large datasets"); } else d=genData(r,k,sz,cl); if(cl==6&&r.coin()) fillValues(d,r,4);
    bool sc=r.coin(0.4),rev=k!=H&&r.coin(0.4),rl=k!=O&&r.coin(0.5),rn=k!=O&&r.coin(0.5),pv=d.V>1&&r.coin(0.5); if(!(sc||rev||rl||rn||pv)){ if(k==O) rev=true; else rn=rl=true; }
    double f=!sc?1:r.coin()?std::ldexp(1.0,r.range(-30,30)):r.logu(1e-6,1e6); vector<int> lp=iota(d.L),np=iota(d.tree.n()-d.L),vp=iota(d.V); if(rl) r.shuffle(lp); if(rn) r.shuffle(np); if(pv) r.shuffle(vp);
    Data e; Tree t2=k==O?d.tree:relabel(d.tree,lp,np); e.init(k,t2,d.T,d.dims); for(int l=0;l<d.L;l++)for(int v=0;v<d.V;v++)for(int t=0;t<d.T;t++) e.at(lp[l],vp[v],rev?d.T-1-t:t)=d.at(l,v,t)*f;
    { double lo=1e300,hi=0; for(const Data*q:{&d,&e}) for(double x:q->v){ if(!(x<=hi)) hi=x; if(x>0&&x<lo) lo=x; }
      bool lost=false; for(double x:d.v) if(x>0&&!(x*f>1e-290)) lost=true;
      if(lost||!(hi<1e290)||(sc&&lo<1e-290)) { c.count("skipped (scaled out of range)"); return; } }
    bool norm=r.coin(0.3); c.desc=fmt("scale=%.17g reverse=%d leaves=%d nodes=%d vars=%d norm=%d ",f,rev,rl,rn,pv,norm)+d.str();
    Sys A=makeSys(d,r,false),B=makeSys(e,r,false); Defs de=defs(d); bool nt=false; int N=k==O?1:d.tree.n(); auto mn=[&](int h){ return k==O?0:h<d.L?lp[h]:d.L+np[h-d.L]; };
    for(int pass=0;pass<2;pass++){ bool nm=pass==1; if(nm){ if(!norm) break; size_t fx=de.t.ix(k==O?0:d.tree.root,0,d.T-1); ld m=de.mag[fx]; if(!(de.t.g[fx]>1e-9L*m&&de.t.l[fx]>1e-9L*m)) break; A.quals.normalize(); B.quals.normalize(); c.count("normalised pairs"); }
        Table a=readTable(rawOf(A.quals)),b=readTable(rawOf(B.quals)); size_t fx=de.t.ix(k==O?0:d.tree.root,0,d.T-1); ld F=nm?1:f; ld mg=nm?de.t.g[fx]:1,ml=nm?de.t.l[fx]:1;
        for(int h=0;h<N;h++)for(int i=0;i<d.T;i++)for(int j=i;j<d.T;j++){ size_t x=a.ix(h,i,j),y=b.ix(mn(h),rev?d.T-1-j:i,rev?d.T-1-i:j); 
            // the scaled copy sums terms of another magnitude: v*f*log2(v*f)
            ld mag=de.mag[x]; if(f!=1){ ld s=0; (void)s; int cells=(k==O?1:d.tree.nl[h])*(j-i+1); ld tot=0; for(int v=0;v<d.V;v++) for(int l:(k==O?vector<int>{0}:d.tree.leaves[h])) for(int t=i;t<=j;t++) tot+=d.at(l,v,t); mag+=tot*(2*fabsl(log2l(f))+log2l(cells+1)+2); }
            if(nm) mag+=de.mag[fx]*(1+fabsl(log2l(f)))*4; ld tg=F*mag*3e-13L/mg,tl=F*mag*3e-13L/ml;
            REQ(c,fabsl(b.g[y]-F*a.g[x])<=tg&&fabsl(b.l[y]-F*a.l[x])<=tl,"table","node %d [%d,%d]: (%.20Lg,%.20Lg) becomes (%.20Lg,%.20Lg), factor %.20Lg",h,i,j,a.g[x],a.l[x],b.g[y],b.l[y],F); c.count("entries compared"); if(a.g[x]>1e-9L*mag/mg&&a.l[x]>1e-9L*mag/ml) nt=true; }
        ld scale=tmax(a); ld magAll=0; for(auto m:de.mag) magAll=std::max(magAll,m); int cells=d.cells(); magAll+= (f!=1? [&]{ ld t=0; for(double x:d.v) t+=x; return t*(4*fabsl(log2l(f))+12); }():0);
        for(int q=0;q<3;q++){ float p=genP(r); PView u=A.parter.best(p),w=B.parter.best(p); vector<PartRec> back; vector<int> inv(N); for(int h=0;h<N;h++) inv[mn(h)]=h; REQ(c,coverError(k,t2,d.T,w.parts).empty(),"cover","transformed data: %s",coverError(k,t2,d.T,w.parts).c_str());
            for(auto x:w.parts){ PartRec y=x; y.h=inv[x.h]; if(rev){ y.s=d.T-1-x.e; y.e=d.T-1-x.s; } back.push_back(y); }
            Val vu=valueOf(a,k,u.parts,p),vw=valueOf(a,k,back,p); ld tol=vtol(scale,cells,p,vu.l,vw.l)+ (nm?magAll/std::min(mg,ml):magAll)*1.2e-12L;
            REQ(c,fabsl(vu.v-vw.v)<=tol,"partition","p=%.9g: best partition of the original has value %.20Lg there, that of the transformed data has %.20Lg (allowance %.3Lg)",p,vu.v,vw.v,tol); c.count("partitions compared"); if(u.parts.size()>1&&(int)u.parts.size()<cells) c.count("compared partitions with several parts"); } }
    if(rev)c.count("time reversal"); if(sc)c.count("scaling"); if(rl)c.count("leaves renumbered"); if(rn)c.count("grouping nodes renumbered"); if(pv)c.count("variables permuted"); c.distinct(d.hash()^e.hash(),nt); if(c.samples.size()<3&&nt&&d.v.size()<14) c.samples.push_back(c.desc); }
