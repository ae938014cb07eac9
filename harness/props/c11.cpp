#include "../oracle.hpp"
const char*PROP="C11";
const char*RULE="containers of all 11 types (O1..4, H1..4, D2..4) built nested and by sizes, then random stores and reads against a model, flattened reads, sizes; tables of multi-dimensional data against the flattened data and the sum over single variables; triangular tables against a model; non-trivial: unequal dimensions above one, or a table of at least 3 variables";
uint64_t prop_cases(bool th){ return th?120000:8000; }
static bool sameD(double a,double b){ return a==b||(a!=a&&b!=b); }
static double odd(Rng&r){ static const double o[]={-1,-0.0,5e-324,-5e-324,1.7976931348623157e308,-1e300,INFINITY,-INFINITY,NAN,1e-310,-3.25,9007199254740993.0,0.1f,-1e-9}; return r.coin(0.4)?-r.logu(1e-9,1e12):o[r.below(sizeof o/sizeof*o)]; }
static void sizes(Ctx&c,const Data&d,const Vals&v){ REQ(c,v.libV()==d.V,"vsize","%d variables reported for %d",v.libV(),d.V); REQ(c,v.libT()==(d.kind==H?1:d.T),"osize","%d slices reported for %d",v.libT(),d.T);
    auto ij=[&](int a,int b){ REQ(c,a==d.dims[0]&&b==d.dims[1],"dims","dimensions %d,%d reported for %d,%d",a,b,d.dims[0],d.dims[1]); }; auto ijk=[&](int a,int b,int x){ ij(a,b); REQ(c,x==d.dims[2],"dims","third dimension %d reported for %d",x,d.dims[2]); };
    if(v.o3) ij(v.o3->getI(),v.o3->getJ()); if(v.o4) ijk(v.o4->getI(),v.o4->getJ(),v.o4->getK()); if(v.h3) ij(v.h3->getI(),v.h3->getJ()); if(v.h4) ijk(v.h4->getI(),v.h4->getJ(),v.h4->getK()); if(v.d4) ij(v.d4->getI(),v.d4->getJ());
    if(d.kind!=O){ auto m=d.kind==H?v.h()->getMetaData():v.d()->getMetaData(); REQ(c,m.getLeaveSize()==d.L&&(int)m.getHsize()==d.tree.n()&&m.getParents()==d.tree.par,"hierarchy","the container reports another hierarchy"); } c.count("size reports"); }
static void readAll(Ctx&c,const Data&d,const Vals&v,const char*when){ for(int l=0;l<d.L;l++)for(int k=0;k<d.V;k++)for(int t=0;t<d.T;t++){ double x=d.at(l,k,t),y=v.get(l,k,t); REQ(c,sameD(x,y),"cell","%s: cell (leaf %d, var %d, slice %d) holds %.17g instead of %.17g",when,l,k,t,y,x); if(d.v.size()>20000&&mix64(k*1000003ull+t*31ull+l)%(d.v.size()/400)) { c.count("cells read"); continue; } double z=v.flat(l,k,t); REQ(c,sameD(x,z),"flat","%s: flattened variable %d of leaf %d slice %d reads %.17g instead of %.17g",when,k,l,t,z,x); c.count("cells read"); }
    if(d.kind==O) for(int k=0;k<d.V;k++) REQ(c,(int)(*v.o())[k].size()==d.T,"series","series of variable %d has %zu slices for %d",k,(*v.o())[k].size(),d.T);
    if(d.kind==D) for(int l=0;l<d.L;l++)for(int k=0;k<d.V;k++) REQ(c,(int)(*v.d())[l][k].size()==d.T,"series","series has another length than %d",d.T); }
static void model(Ctx&c,Rng&r,Data d){ // shapes up to 6 in every dimension
    bool nested=r.coin(), any=r.coin(0.3); Vals v; if(any&&nested) for(double&y:d.v) if(r.coin(0.2)) y=odd(r); /* containers are not bound to non-negative values */ if(nested){ v=valsNested(d); } else { std::fill(d.v.begin(),d.v.end(),0.0); v=valsSized(d); }
    c.desc=string(nested?"nested ":"sized ")+d.str(); sizes(c,d,v); readAll(c,d,v,"as built");
    int n=r.range(1,60); for(int s=0;s<n;s++){ int l=r.below(d.L),k=r.below(d.V),t=r.below(d.T); double x=r.coin(0.1)?0:r.coin(0.1)?d.v[r.below((int)d.v.size())]:any&&r.coin(0.4)?odd(r):r.logu(1e-9,1e12); v.set(l,k,t,x); d.at(l,k,t)=x; REQ(c,sameD(v.get(l,k,t),x),"store","cell (leaf %d, var %d, slice %d) reads %.17g after storing %.17g",l,k,t,v.get(l,k,t),x); c.count("stores"); if(r.coin(0.05)&&d.v.size()<20000) readAll(c,d,v,"between stores"); }
    readAll(c,d,v,"after stores"); sizes(c,d,v);
    if(any){ c.count("containers of arbitrary numbers"); return; }
    if(d.T>400||d.v.size()>60000) return;
    // qualities follow the stored values
    Quals q=qualsOf(v); q.compute(); Table t=readTable(rawOf(q)); Defs e=defs(d); for(size_t x=0;x<t.g.size();x++) REQ(c,fabsl(t.g[x]-e.t.g[x])<=1e-13L*e.mag[x]&&fabsl(t.l[x]-e.t.l[x])<=1e-13L*e.mag[x],"qualities-after-stores","entry %zu is (%.20Lg,%.20Lg), the stored values give (%.20Lg,%.20Lg)",x,t.g[x],t.l[x],e.t.g[x],e.t.l[x]); }
static Table tableOf(const Data&d,Rng&r){ return readTable(rawOf(history(d,r).quals)); }
static void additive(Ctx&c,Rng&r,Data d){ c.desc=d.str(); Table t=tableOf(d,r); Defs e=defs(d); Data f=d; f.dims={d.V}; Table tf=tableOf(f,r); Table s; s.init(t.N,t.T);
    for(int k=0;k<d.V;k++){ Data o; o.init(d.kind,d.tree,d.T,r.coin()?vector<int>{}:vector<int>{1}); for(int l=0;l<d.L;l++)for(int q=0;q<d.T;q++) o.at(l,0,q)=d.at(l,k,q); Table to=tableOf(o,r); for(size_t x=0;x<s.g.size();x++){ s.g[x]+=to.g[x]; s.l[x]+=to.l[x]; } }
    for(size_t x=0;x<t.g.size();x++){ ld tol=1e-13L*e.mag[x]; REQ(c,fabsl(t.g[x]-tf.g[x])<=tol&&fabsl(t.l[x]-tf.l[x])<=tol,"flattened","entry %zu: (%.20Lg,%.20Lg) against (%.20Lg,%.20Lg) flattened",x,t.g[x],t.l[x],tf.g[x],tf.l[x]); REQ(c,fabsl(t.g[x]-s.g[x])<=tol&&fabsl(t.l[x]-s.l[x])<=tol,"additive","entry %zu: (%.20Lg,%.20Lg) against (%.20Lg,%.20Lg) summed over variables",x,t.g[x],t.l[x],s.g[x],s.l[x]); c.count("entries compared"); } }
template<class T> struct Mk; template<> struct Mk<double>{ static double v(Rng&r){return r.u();} static bool eq(double a,double b){return a==b;} static const char*n(){return "double";} }; template<> struct Mk<int>{ static int v(Rng&r){return (int)r.next();} static bool eq(int a,int b){return a==b;} static const char*n(){return "int";} };
template<> struct Mk<ld>{ static ld v(Rng&r){return r.u()/3.0L;} static bool eq(ld a,ld b){return a==b;} static const char*n(){return "long double";} }; template<> struct Mk<shared_ptr<L::Quality>>{ static shared_ptr<L::Quality> v(Rng&r){ return shared_ptr<L::Quality>(new L::Quality(r.u(),r.u())); } static bool eq(const shared_ptr<L::Quality>&a,const shared_ptr<L::Quality>&b){return a==b;} static const char*n(){return "Quality";} };
template<> struct Mk<shared_ptr<L::Tradeoff>>{ static shared_ptr<L::Tradeoff> v(Rng&){ return shared_ptr<L::Tradeoff>(new L::Tradeoff()); } static bool eq(const shared_ptr<L::Tradeoff>&a,const shared_ptr<L::Tradeoff>&b){return a==b;} static const char*n(){return "Tradeoff";} };
template<class T> void tri(Ctx&c,Rng&r){ int n=c.idx<60?r.range(256,420):r.coin(0.1)?r.range(40,200):r.range(1,14); bool val=r.coin(); T v0=Mk<T>::v(r); c.desc=fmt("triangular table of %s, size %d",Mk<T>::n(),n); std::unique_ptr<L::UpperTriangularMatrix<T>> m(val?new L::UpperTriangularMatrix<T>(n,v0):new L::UpperTriangularMatrix<T>(n)); REQ(c,m->getSize()==n&&m->getElements()==n*(n+1)/2,"tri-size","size %d elements %d",m->getSize(),m->getElements()); vector<T> mod((size_t)n*n);
    for(int i=0;i<n;i++)for(int j=i;j<n;j++){ mod[(size_t)i*n+j]=(*m)(i,j); if(val) REQ(c,Mk<T>::eq((*m)(i,j),v0),"tri-init","entry (%d,%d) differs from the initial value",i,j); }
    for(int s=0;s<n*n;s++){ int i=r.below(n),j=r.range(i,n-1); T x=Mk<T>::v(r); (*m)(i,j,x); mod[(size_t)i*n+j]=x; REQ(c,Mk<T>::eq((*m)(i,j),x),"tri-store","entry (%d,%d) does not read back",i,j); c.count("triangular stores"); }
    for(int i=0;i<n;i++)for(int j=i;j<n;j++) REQ(c,Mk<T>::eq((*m)(i,j),mod[(size_t)i*n+j]),"tri-cell","entry (%d,%d) changed without a store",i,j);
    // the flat index visits every entry: as multisets of what is stored
    if(n<=14){ vector<char> used(n*n,0); for(int e=0;e<m->getElements();e++){ T x=(*m)[e]; bool f=false; for(int i=0;i<n&&!f;i++)for(int j=i;j<n&&!f;j++) if(!used[i*n+j]&&Mk<T>::eq(mod[(size_t)i*n+j],x)){used[i*n+j]=1;f=true;} REQ(c,f,"tri-flat","flat index %d shows a value that is not in the table once more",e); } } }
void prop_case(Ctx&c){ Rng&r=c.rng; int w=(int)(c.idx%5); 
    if(w==4){ int t=r.below(5); if(t==0)tri<double>(c,r); else if(t==1)tri<int>(c,r); else if(t==2)tri<ld>(c,r); else if(t==3)tri<shared_ptr<L::Quality>>(c,r); else tri<shared_ptr<L::Tradeoff>>(c,r); Hash h; h.s(c.desc); h.i((long long)r.next()); c.distinct(h.v(),true); c.count("triangular tables"); return; }
    if(c.idx<60&&w<2){ Data d; int q=(int)(c.idx/5); Kind k=(Kind)(q%3); if(q<6) d=xlData(r,k,k==H?(q<3?3:2):q<3?3:1,0); else if(k==O) d.init(k,singleTree(),q<9?70000:33000,q<9?vector<int>{}:vector<int>{2}); else if(k==H) d.init(k,genTree(r,q<9?40000:300,3),1,q<9?vector<int>{}:vector<int>{40,7}); else d.init(k,genTree(r,2),q<9?35000:300,q<9?vector<int>{}:vector<int>{3,50}); fillValues(d,r,0); model(c,r,d); c.count("very large containers"); c.distinct(d.hash(),true); return; }
    Kind k=(Kind)((c.idx/5)%3); Data d; Tree t=k==O?singleTree():genTree(r,r.range(1,5)); vector<int> dims; int nd=k==D?r.below(3):r.below(4); if(w>=2&&nd<(k==D?2:2)) nd=2; for(int i=0;i<nd;i++) dims.push_back(r.range(1,nd==1?12:6)); if(c.idx>=300&&c.idx<390||r.coin(0.002)){ int big=r.range(60,300); dims=nd==1?vector<int>{big*2}:nd==2?vector<int>{r.range(2,20),big/3}:vector<int>{r.range(2,9),big/12,r.range(2,9)}; if(nd==0) dims={big}; if(dims.size()>1&&r.coin()) std::swap(dims[0],dims[1]); if(r.coin(0.3)&&dims.size()>1){ int far=r.range(257,300); dims[r.below((int)dims.size())]=far; for(int&y:dims) if(y!=far) y=r.range(1,2); } if(t.L>3) t=k==O?t:genTree(r,2); c.count("hundreds of variables"); } bool neq=false; for(size_t i=0;i<dims.size();i++)for(size_t j=0;j<i;j++) if(dims[i]!=dims[j]&&dims[i]>1&&dims[j]>1) neq=true;
    d.init(k,t,k==H?1:r.range(1,7),dims); fillValues(d,r,pickCls(r)); if(w<2) model(c,r,d); else additive(c,r,d); c.count(fmt("%c%d %s",kch(k),nd+(k==D?2:1),w<2?"store model":"additivity")); c.distinct(d.hash(),neq||(w>=2&&d.V>=3)); if(c.samples.size()<3&&d.v.size()<16&&d.V>2) c.samples.push_back(c.desc); }
