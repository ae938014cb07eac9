#include "../oracle.hpp"
#include <array>
const char*PROP="C20";
const char*RULE="random qualities and trade-offs (ties, zeros, negatives, extreme magnitudes) through every operator, constructor and copy against a plain model; pairs of parts over all relations of their extents; pairs of partitions from the same and different tables; non-trivial: operands with distinct non-zero components, or a pair of partitions with several parts";
uint64_t prop_cases(bool th){ return th?200000:12000; }
typedef L::Quality Q; typedef L::Tradeoff T;
struct M { ld v,g,l; };
static ld num(Rng&r){ int a=r.below(10); if(a<5) return r.range(-3,3); if(a<7) return r.u()*10; if(a==7) return r.logu(1e-300,1e300); if(a==8) return -r.u()*5; return (ld)(r.next()>>8)/3; }
static ld nz(Rng&r){ for(;;){ ld x=num(r); if(x!=0) return x; } }
static ld dv(Rng&r){ return r.coin(0.1)?0.0L:nz(r); } // a divisor; dividing by zero gives the infinity or not-a-number of the components
static bool eqb(ld a,ld b){ return a==b||(a!=a&&b!=b); }
static bool close(ld a,ld b){ return eqb(a,b)||fabsl(a-b)<=3e-19L*std::max(fabsl(a),fabsl(b)); }
static string s3(const M&m){ return fmt("(%.20Lg;%.20Lg,%.20Lg)",m.v,m.g,m.l); }
static bool gt(const M&a,const M&b){ if(a.v!=b.v) return a.v>b.v; if(a.g!=b.g) return a.g>b.g; return a.l<b.l; }
static M rd(const T&t){ return {t.getValue(),t.getQuality()->getGain(),t.getQuality()->getLoss()}; }
static bool same(const M&a,const M&b){ return close(a.v,b.v)&&close(a.g,b.g)&&close(a.l,b.l); }
static bool exact(const M&a,const M&b){ return eqb(a.v,b.v)&&eqb(a.g,b.g)&&eqb(a.l,b.l); }
static ld ap(int o,ld a,ld b){ return o==0?a+b:o==1?a-b:o==2?a*b:a/b; }
static const char ops[]="+-*/";
static void qualities(Ctx&c){ Rng&r=c.rng; for(int z=0;z<20;z++){ int o=r.below(4); M a{0,num(r),num(r)},b{0,o==3?dv(r):num(r),o==3?dv(r):num(r)}; string d=s3(a)+ops[o]+s3(b); Q x(a.g,a.l),y(b.g,b.l); M e{0,ap(o,a.g,b.g),ap(o,a.l,b.l)}; c.desc=d;
        Q w=o==0?x+y:o==1?x-y:o==2?x*y:x/y; REQ(c,close(w.getGain(),e.g)&&close(w.getLoss(),e.l),"quality-op","new quality of %s is (%.20Lg,%.20Lg)",d.c_str(),w.getGain(),w.getLoss()); REQ(c,x.getGain()==a.g&&x.getLoss()==a.l,"quality-left","the left operand of %s changed",d.c_str());
        Q k(x); if(o==0)x+=y; else if(o==1)x-=y; else if(o==2)x*=y; else x/=y; REQ(c,close(x.getGain(),e.g)&&close(x.getLoss(),e.l),"quality-op","%s in place gives (%.20Lg,%.20Lg)",d.c_str(),x.getGain(),x.getLoss()); REQ(c,y.getGain()==b.g&&y.getLoss()==b.l,"right-operand","the right operand of %s changed",d.c_str()); REQ(c,k.getGain()==a.g&&k.getLoss()==a.l,"copy","a copied quality changed with its original");
        if(r.coin(0.2)){ Q s(b.g,b.l); Q&me=s; s=me; REQ(c,s.getGain()==b.g&&s.getLoss()==b.l,"self-assign","a quality assigned to itself changed"); if(o==0)s+=s; else if(o==1)s-=s; else if(o==2)s*=s; else s/=s; REQ(c,close(s.getGain(),ap(o,b.g,b.g))&&close(s.getLoss(),ap(o,b.l,b.l)),"quality-self","%s combined with itself gives (%.20Lg,%.20Lg)",s3(b).c_str(),s.getGain(),s.getLoss()); }
        Q u; REQ(c,u.getGain()==0&&u.getLoss()==0,"quality-default","a new quality is (%Lg,%Lg)",u.getGain(),u.getLoss()); u.setGain(a.g); REQ(c,u.getGain()==a.g&&u.getLoss()==0,"quality-set","setting the gain"); u.setLoss(a.l); REQ(c,u.getGain()==a.g&&u.getLoss()==a.l,"quality-set","setting the loss"); u.addToGain(b.g); REQ(c,close(u.getGain(),a.g+b.g)&&u.getLoss()==a.l,"quality-add","adding to the gain"); u.addToLoss(b.l); REQ(c,close(u.getGain(),a.g+b.g)&&close(u.getLoss(),a.l+b.l),"quality-add","adding to the loss");
        c.count("quality operations",10); Hash h; h.q(a.g);h.q(a.l);h.q(b.g);h.q(b.l);h.i(o); c.distinct(h.v(),a.g!=a.l&&b.g!=b.l&&a.g!=0&&b.g!=0); } }
static void equality(Ctx&c){ Rng&r=c.rng; for(int z=0;z<20;z++){ ld g=r.coin(0.1)?0:r.logu(1e-6,1e6)*(r.coin(0.02)?0:1), l=g==0?(r.coin()?0:r.logu(1e-6,1e6)):g*r.logu(0.2,5); if(r.coin(0.05)){ ld f=r.logu(1e-200,1e200); g*=f;l*=f; }
        auto pert=[&](ld x,int how){ if(how==0) return x; ld e=how==1?r.u()*1e-14L:r.logu(1e-11,1); return r.coin()?x*(1+e):x*(1-e); }; int hg=r.below(3),hl=r.below(3); ld g2=pert(g,hg),l2=pert(l,hl); Q a(g,l),b(g2,l2); c.desc=fmt("(%.21Lg,%.21Lg) and (%.21Lg,%.21Lg)",g,l,g2,l2);
        // agreement is relative: identical, closer than a tenth of the precision, or a hundred times coarser
        bool eg=g==g2||hg<=1, el=l==l2||hl<=1; if((g==0)!=(l==0)&&(hg==1||hl==1||hg==2||hl==2)){ continue; } bool e=eg&&el; if(hg==2&&fabsl(g2-g)<5e-12L*(g+g2+l+l2)) continue; if(hl==2&&fabsl(l2-l)<5e-12L*(l+l2+g+g2)) continue;
        REQ(c,(a==b)==e,"quality-equality","%s compare %s",c.desc.c_str(),(a==b)?"equal":"different"); REQ(c,(b==a)==e,"quality-equality","comparison is not symmetric"); REQ(c,(a!=b)==!e,"quality-inequality","inequality is not the negation of equality"); Q n(-g,-l),n2(-g,-l); REQ(c,n==n2&&!(n!=n2),"quality-equality","identical negative qualities differ"); REQ(c,a==a,"quality-equality","a quality differs from itself"); c.count(e?"equal qualities compared":"different qualities compared"); Hash h; h.q(g);h.q(l);h.q(g2);h.q(l2); c.distinct(h.v(),g!=0&&l!=0); } }
static void tradeoffs(Ctx&c){ Rng&r=c.rng; for(int z=0;z<20;z++){ int o=r.below(4); auto mk=[&](bool div){ M m{div?dv(r):num(r),div?dv(r):num(r),div?dv(r):num(r)}; return m; }; M a=mk(false),b=mk(o==3); string d=s3(a)+ops[o]+s3(b); c.desc=d; auto qa=make_shared<Q>(a.g,a.l),qb=make_shared<Q>(b.g,b.l); T x(a.v,qa),y(b.v,qb); REQ(c,exact(rd(x),a),"tradeoff-ctor","built from %s it is %s",s3(a).c_str(),s3(rd(x)).c_str()); M e{ap(o,a.v,b.v),ap(o,a.g,b.g),ap(o,a.l,b.l)};
        T w=o==0?x+y:o==1?x-y:o==2?x*y:x/y; REQ(c,same(rd(w),e),"tradeoff-op","new trade-off of %s is %s",d.c_str(),s3(rd(w)).c_str()); REQ(c,exact(rd(x),a)&&exact(rd(y),b),"tradeoff-operands","an operand of %s changed",d.c_str());
        T k(x),k2; k2=x; if(o==0)x+=y; else if(o==1)x-=y; else if(o==2)x*=y; else x/=y; REQ(c,same(rd(x),e),"tradeoff-op","%s in place gives %s",d.c_str(),s3(rd(x)).c_str()); REQ(c,exact(rd(y),b),"right-operand","the right operand of %s changed",d.c_str()); REQ(c,exact(rd(k),a),"copy","a trade-off copied from %s became %s when the original changed",s3(a).c_str(),s3(rd(k)).c_str()); REQ(c,exact(rd(k2),a),"copy","a trade-off assigned from %s became %s when the original changed",s3(a).c_str(),s3(rd(k2)).c_str()); REQ(c,qa->getGain()==a.g&&qa->getLoss()==a.l,"source","the quality a trade-off was built from changed");
        if(r.coin(0.2)){ T&me=k2; k2=me; REQ(c,exact(rd(k2),a),"self-assign","a trade-off %s assigned to itself became %s",s3(a).c_str(),s3(rd(k2)).c_str()); c.count("self-assignments"); }
        k2+=y; REQ(c,exact(rd(k),a)&&exact(rd(y),b),"copy","copies share state"); 
        T n; REQ(c,exact(rd(n),M{0,0,0}),"tradeoff-default","a new trade-off is %s",s3(rd(n)).c_str()); T f(qa); REQ(c,exact(rd(f),M{0,a.g,a.l}),"tradeoff-quality","built from a quality it is %s",s3(rd(f)).c_str());
        // the trade-off of a quality at a parameter
        float p=genP(r,false); ld v=(ld)p*b.g-(1-(ld)p)*b.l; ld tol=(pExact(p)?2e-19L:1.3e-7L)*(fabsl(b.g)+fabsl(b.l)); T t(qb,p); REQ(c,fabsl(t.getValue()-v)<=tol,"pic","parameter %.9g on (%.20Lg,%.20Lg): value %.20Lg instead of %.20Lg",p,b.g,b.l,t.getValue(),v); REQ(c,t.getQuality()->getGain()==b.g&&t.getQuality()->getLoss()==b.l,"pic","the quality changed");
        T s(a.v,qa); s.set(qb,p); REQ(c,eqb(s.getValue(),t.getValue())&&s.getQuality()->getGain()==b.g&&s.getQuality()->getLoss()==b.l,"set","set gives %s",s3(rd(s)).c_str()); T u(a.v,qb); u.computePIC(p); REQ(c,eqb(u.getValue(),t.getValue()),"pic","recomputed value %.20Lg, built with %.20Lg",u.getValue(),t.getValue()); s+=y; REQ(c,qb->getGain()==b.g&&qb->getLoss()==b.l,"source","the quality given to set changed");
        c.count("trade-off operations",12); Hash h; h.q(a.v);h.q(a.g);h.q(a.l);h.q(b.v);h.q(b.g);h.q(b.l);h.i(o); c.distinct(h.v(),a.v!=a.g&&a.g!=a.l&&b.g!=b.l&&b.v!=b.g); } }
static void order(Ctx&c){ Rng&r=c.rng; for(int z=0;z<20;z++){ int lim=r.coin()?1:3; auto mk=[&]{ return r.coin(0.9)?M{(ld)r.range(-lim,lim),(ld)r.range(-lim,lim),(ld)r.range(-lim,lim)}:M{num(r),num(r),num(r)}; }; M m[3]={mk(),mk(),mk()}; if(r.coin(0.4)) m[1]=m[0]; if(r.coin(0.05)){ for(ld*x:{&m[0].v,&m[0].g,&m[0].l}) if(*x==0) *x=1; m[1]=m[0]; ld f=1+std::ldexp(r.coin()?1.0L:-1.0L,-r.range(20,62)); switch(r.below(3)){ case 0: m[1].v*=f; m[1].g+=r.range(-1,1); break; case 1: m[1].g*=f; m[1].l+=r.range(-1,1); break; case 2: m[1].l*=f; break; } c.count("comparisons of components that nearly agree"); } if(r.coin(0.3)) m[1].l+=1; if(r.coin(0.1)) m[1].g=m[0].g*(1+1e-18L); T t[3]={T(m[0].v,make_shared<Q>(m[0].g,m[0].l)),T(m[1].v,make_shared<Q>(m[1].g,m[1].l)),T(m[2].v,make_shared<Q>(m[2].g,m[2].l))};
        for(int i=0;i<3;i++)for(int j=0;j<3;j++){ bool g=gt(m[i],m[j]),l=gt(m[j],m[i]); c.desc=s3(m[i])+" and "+s3(m[j]); REQ(c,(t[i]>t[j])==g,"greater","%s: > is %d",c.desc.c_str(),t[i]>t[j]); REQ(c,(t[i]<t[j])==l,"less","%s: < is %d",c.desc.c_str(),t[i]<t[j]); REQ(c,(t[i]<=t[j])==!g,"less-equal","%s: <= is %d",c.desc.c_str(),t[i]<=t[j]); REQ(c,(t[i]>=t[j])==!l,"greater-equal","%s: >= is %d",c.desc.c_str(),t[i]>=t[j]); REQ(c,(t[i]!=t[j])==!(t[i]==t[j]),"inequality","%s: != is not the negation of ==",c.desc.c_str()); REQ(c,exact(rd(t[i]),m[i])&&exact(rd(t[j]),m[j]),"compared","comparing changed an operand"); c.count("comparisons"); if(m[i].v==m[j].v) c.count(m[i].g==m[j].g?"comparisons decided by the loss":"comparisons decided by the gain"); }
        Hash h; for(auto&x:m){h.q(x.v);h.q(x.g);h.q(x.l);} c.distinct(h.v(),gt(m[0],m[1])||gt(m[1],m[0])); } }
static void parts(Ctx&c){ Rng&r=c.rng; for(int z=0;z<20;z++){ auto q=[&]{ return make_shared<Q>(r.u(),r.u()); }; int n=r.range(1,6); int s1=r.below(n),e1=r.range(s1,n-1),s2=r.below(n),e2=r.range(s2,n-1),h1=r.below(3),h2=r.below(3); if(r.coin(0.4)){ s2=s1; } if(r.coin(0.4)){ e2=std::max(e1,s2); } if(r.coin(0.5)) h2=h1; int sz[3]={2,2,5}; if(r.coin(0.2)){ static const int far[6]={256,32768,65536,1<<24,1000,100000}; int f=far[r.below(6)]; switch(r.below(4)){ case 0: e2+=f; break; case 1: s2=s1; e2=e1+f; break; case 2: s1+=f; e1+=f; break; case 3: s1+=f;e1+=f;s2+=f;e2+=f; break; } } c.desc=fmt("[%d,%d] node %d and [%d,%d] node %d",s1,e1,h1,s2,e2,h2);
        auto qa=q(),qb=r.coin()?qa:q(); L::OPart a(s1,e1,qa),b(s2,e2,qb); bool e=s1==s2&&e1==e2; REQ(c,(a==b)==e&&(a!=b)==!e,"opart","%s: ordered parts compare %d/%d",c.desc.c_str(),a==b,a!=b); L::HPart ha(h1,sz[h1],qa),hb(h2,sz[h2],qb); bool eh=h1==h2; REQ(c,(ha==hb)==eh&&(ha!=hb)==!eh,"hpart","%s: hierarchy parts compare %d/%d",c.desc.c_str(),ha==hb,ha!=hb);
        L::DPart da(h1,sz[h1],s1,e1,qa),db(h2,sz[h2],s2,e2,qb); bool ed=e&&eh; REQ(c,(da==db)==ed&&(da!=db)==!ed,"dpart","%s: spatiotemporal parts compare %d/%d",c.desc.c_str(),da==db,da!=db); c.count("pairs of parts",3); Hash h; h.s(c.desc); c.distinct(h.v(),e||eh); } }
static vector<std::array<int,3>> ext(const PView&v){ vector<std::array<int,3>> r; for(auto&p:v.parts) r.push_back({p.h,p.s,p.e}); std::sort(r.begin(),r.end()); return r; }
static void partitions(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)r.below(3); Data d=genData(r,k,r.coin()?0:1); vector<PView> v; int nt=r.range(2,3); for(int i=0;i<nt;i++){ Parter p; if(r.coin(0.7)) p=parterRaw(rawFrom(k,genTable(r,k,d.tree,d.T,r.coin(0.7)?4:r.below(TC))),d.tree); else { Data e=d; fillValues(e,r,pickCls(r)); Rng q(r.next()); p=makeSys(e,q,false).parter; } for(int j=0;j<3;j++) v.push_back(p.best(genP(r))); }
    c.desc=d.str(); for(size_t i=0;i<v.size();i++)for(size_t j=0;j<v.size();j++){ bool e=ext(v[i])==ext(v[j]); bool eq,ne; if(k==O){ eq=*v[i].o==*v[j].o; ne=*v[i].o!=*v[j].o; } else if(k==H){ eq=*v[i].h==*v[j].h; ne=*v[i].h!=*v[j].h; } else { eq=*v[i].d==*v[j].d; ne=*v[i].d!=*v[j].d; } REQ(c,eq==e&&ne==!e,"partition","%s and %s compare ==%d !=%d",v[i].str().c_str(),v[j].str().c_str(),eq,ne); c.count(e?"equal partitions compared":"different partitions compared"); if(!e&&v[i].parts.size()==v[j].parts.size()) c.count("different partitions with as many parts"); if(e&&i!=j&&v[i].g!=v[j].g) c.count("equal partitions of different tables"); Hash h; v[i].hash(h); v[j].hash(h); c.distinct(h.v(),v[i].parts.size()>1&&v[j].parts.size()>1); } }
// large partitions that differ in one place only and have the same number of parts and the same gain and loss
static void alike(Ctx&c){ Rng&r=c.rng; Kind k=(Kind)r.below(3); int m=r.range(2,r.coin(0.2)?90:30); vector<PView> v; Tree t=k==O?singleTree():stairTree(r,k==D?std::min(m,12):m); int w=k==D?std::min(m,12):m; int ver=r.range(2,4); vector<int> on(w); for(auto&x:on) x=r.below(2); on[r.below(w)]=1; int z=r.below(w); on[z]=0; int T=k==O?2*w:k==D?r.range(1,3):1;
    for(int q=0;q<ver;q++){ vector<int> o=on; if(q==1&&r.coin()){ for(int i=w-1;i>=0;i--) if(o[i]){ o[i]=0; break; } o[w-1]=1; } else if(q==2){ r.shuffle(o); } else if(q>0) for(int i=0;i<w;i++){ if(i!=z&&o[i]){ o[i]=0; o[z]=1; break; } }
        Table tb; tb.init(k==O?1:t.n(),T); for(int h=0;h<tb.N;h++)for(int i=0;i<T;i++)for(int j=i;j<T;j++){ tb.g[tb.ix(h,i,j)]=0; tb.l[tb.ix(h,i,j)]=(k!=O&&h<t.L||k==O)&&i==j?0:99; } for(int i=0;i<w;i++) if(o[i]){ if(k==O) { tb.l[tb.ix(0,2*i,2*i+1)]=0; tb.g[tb.ix(0,2*i,2*i+1)]=1; } else for(int s=0;s<T;s++){ tb.l[tb.ix(2*w+i,s,s)]=0; tb.g[tb.ix(2*w+i,s,s)]=1; } }
        Parter p=parterRaw(rawFrom(k,tb),t); v.push_back(p.best(r.coin()?0.5f:0.25f)); if(q==0) v.push_back(p.best(0.75f)); }
    c.desc=fmt("%d pairs, kind %d",w,(int)k); for(size_t i=0;i<v.size();i++)for(size_t j=0;j<v.size();j++){ bool e=ext(v[i])==ext(v[j]); bool eq,ne; if(k==O){ eq=*v[i].o==*v[j].o; ne=*v[i].o!=*v[j].o; } else if(k==H){ eq=*v[i].h==*v[j].h; ne=*v[i].h!=*v[j].h; } else { eq=*v[i].d==*v[j].d; ne=*v[i].d!=*v[j].d; } REQ(c,eq==e&&ne==!e,"partition","%s and %s compare ==%d !=%d",v[i].str().c_str(),v[j].str().c_str(),eq,ne); c.count(e?"equal partitions compared":"different partitions compared"); if(!e&&v[i].parts.size()==v[j].parts.size()&&v[i].g==v[j].g&&v[i].l==v[j].l) c.count("different partitions with as many parts and the same quality"); c.maxi("parts of a compared partition",v[i].parts.size()); }
    Hash h; for(auto&x:v) x.hash(h); c.distinct(h.v(),true); }
// spatiotemporal partitions of the same parts found by different recursions (splitting time or space first), so listed in different orders
static void reordered(Ctx&c){ Rng&r=c.rng; bool big=r.coin(0.15); Tree t=genTree(r,big?r.range(9,13):r.range(2,6),r.coin()?2:-1); int T=big?r.range(10,14):r.range(2,6); double stop=big?0.03:r.u()*0.5; vector<std::array<int,3>> S; std::function<void(int,int,int)> gen=[&](int h,int i,int j){ bool can=!t.ch[h].empty(); if((!can&&i==j)||r.coin(stop)){ S.push_back({h,i,j}); return; } if(i<j&&(!can||r.coin())){ int m=r.range(i,j-1); gen(h,i,m); gen(h,m+1,j); } else for(int x:t.ch[h]) gen(x,i,j); }; gen(t.root,0,T-1);
    vector<PView> v; for(int q=0;q<4;q++){ vector<std::array<int,3>> s=S; if(q>=2){ for(int tries=0;tries<30;tries++){ size_t i=r.below((int)s.size()); if(s[i][1]<s[i][2]){ int m=r.range(s[i][1],s[i][2]-1); s.push_back({s[i][0],m+1,s[i][2]}); s[i][2]=m; break; } if(!t.ch[s[i][0]].empty()){ auto x=s[i]; s.erase(s.begin()+i); for(int y:t.ch[x[0]]) s.push_back({y,x[1],x[2]}); break; } } }
        Table tb; tb.init(t.n(),T); for(auto&x:tb.g) x=0; for(auto&x:tb.l) x=99; for(auto&x:s){ tb.g[tb.ix(x[0],x[1],x[2])]=((ld)r.u()+0.01L)/3; tb.l[tb.ix(x[0],x[1],x[2])]=0; } v.push_back(parterRaw(rawFrom(D,tb),t).best(0.5f)); }
    c.desc=fmt("%zu parts over %d leaves and %d slices",S.size(),t.L,T); bool other=false; for(size_t i=0;i<v.size();i++)for(size_t j=0;j<v.size();j++){ bool e=ext(v[i])==ext(v[j]); REQ(c,(*v[i].d==*v[j].d)==e&&(*v[i].d!=*v[j].d)==!e,"partition","%s and %s compare ==%d !=%d",v[i].str().c_str(),v[j].str().c_str(),*v[i].d==*v[j].d,*v[i].d!=*v[j].d); c.count(e?"equal partitions compared":"different partitions compared"); if(e&&i!=j){ size_t far=0; for(size_t x=0;x<v[i].parts.size();x++) for(size_t y=0;y<v[j].parts.size();y++) if(v[i].parts[x].h==v[j].parts[y].h&&v[i].parts[x].s==v[j].parts[y].s) far=std::max(far,x>y?x-y:y-x); if(far){ other=true; c.count("equal partitions whose parts come in different orders"); c.maxi("places between equal parts of equal partitions",far); } } }
    Hash h; for(auto&x:v) x.hash(h); c.distinct(h.v(),other); }
void prop_case(Ctx&c){ if(c.idx%30==5){ alike(c); return; } if(c.idx%30==11){ reordered(c); return; } switch(c.idx%6){ case 0: qualities(c); break; case 1: equality(c); break; case 2: tradeoffs(c); break; case 3: order(c); break; case 4: parts(c); break; case 5: partitions(c); break; } if(c.samples.size()<4&&c.idx%6==c.samples.size()) c.samples.push_back(c.desc.substr(0,600)); }
