#include "../oracle.hpp"
const char*PROP="C12";
const char*RULE="every parent list with up to 5 leaves and up to 4 grouping nodes (exhaustively), plus random hierarchies up to ~1500 nodes; non-trivial: leaves at different depths, a one-child node, or a root that is not numbered last";
static uint64_t nEx=0; static vector<pair<int,int>> LM; static vector<uint64_t> ofs;
static void setup(){ if(!LM.empty()) return; uint64_t o=0; for(int l=1;l<=5;l++)for(int m=0;m<=4;m++){ if(m==0&&l>1) continue; uint64_t n=1; for(int i=0;i<l+m;i++) n*=(m+1); LM.push_back({l,m}); ofs.push_back(o); o+=n; } nEx=o; }
enum { CHUNK=2000 };
static uint64_t chunks(){ setup(); return (nEx+CHUNK-1)/CHUNK; }
uint64_t prop_cases(bool th){ return chunks()+(th?40000:1500); }
static bool wf(const Tree&t){ int N=t.n(),roots=0; vector<int> k(N,0); for(int i=0;i<N;i++){ if(t.par[i]==-1) roots++; else { if(t.par[i]<t.L||t.par[i]==i) return false; k[t.par[i]]++; } } if(roots!=1) return false; for(int i=t.L;i<N;i++) if(!k[i]) return false; for(int i=0;i<N;i++){ int x=i,s=0; while(x!=-1){ x=t.par[x]; if(++s>N) return false; } } return true; }
static void check(Ctx&c,const Tree&t,const L::HValuesMetaData&m,const char*w){ int N=t.n(); auto d=[&]{return string(w)+" "+t.str();};
    REQ(c,(int)m.getHsize()==N,"hsize","%s: %u nodes",d().c_str(),m.getHsize()); REQ(c,m.getLeaveSize()==t.L,"leaves","%s: %d leaves",d().c_str(),m.getLeaveSize()); REQ(c,m.getParents()==t.par,"parents","%s: other parents reported",d().c_str()); REQ(c,m.getRoot()==t.root,"root","%s: root %d",d().c_str(),m.getRoot());
    auto ch=m.getChildren(); REQ(c,(int)ch.size()==N,"children","%s: children of %zu nodes",d().c_str(),ch.size()); for(int i=0;i<N;i++){ auto x=ch[i]; std::sort(x.begin(),x.end()); REQ(c,x==t.ch[i],"children","%s: node %d has %zu children",d().c_str(),i,x.size()); }
    auto sz=m.getSize(); REQ(c,(int)sz.size()==N,"sizes","%s: %zu leaf counts",d().c_str(),sz.size()); for(int i=0;i<N;i++){ auto it=sz.find(i); REQ(c,it!=sz.end()&&it->second==t.nl[i],"leaf-count","%s: node %d counts %d leaves instead of %d",d().c_str(),i,it==sz.end()?-1:it->second,t.nl[i]); }
    auto p=m.getPath(); REQ(c,(int)p.size()==N,"order","%s: the order lists %zu nodes",d().c_str(),p.size()); vector<int> pos(N,-1); for(int i=0;i<N;i++){ REQ(c,p[i]>=0&&p[i]<N&&pos[p[i]]<0,"order","%s: node %d at position %d of the order",d().c_str(),p[i],i); pos[p[i]]=i; REQ(c,(i<t.L)==(p[i]<t.L),"leaves-first","%s: position %d of the order is node %d",d().c_str(),i,p[i]); }
    for(int i=0;i<N;i++) if(t.par[i]>=0) REQ(c,pos[i]<pos[t.par[i]],"parent-after-child","%s: node %d comes after its parent %d in the order",d().c_str(),i,t.par[i]); c.count("hierarchies checked"); }
template<class T> static auto again(T&m,int)->decltype(m.setPath(),bool()){ m.setPath(); return true; }
template<class T> static bool again(T&,long){ return false; }
static bool nontriv(const Tree&t){ if(t.root!=t.n()-1) return true; for(int i=t.L;i<t.n();i++) if(t.ch[i].size()==1) return true; int d0=-1; for(int l=0;l<t.L;l++){ int d=0,x=l; while(x!=-1){x=t.par[x];d++;} if(d0<0)d0=d; if(d!=d0) return true; } return false; }
void prop_case(Ctx&c){ Rng&r=c.rng; if(c.idx<chunks()){ uint64_t a=c.idx*CHUNK,b=std::min(nEx,a+CHUNK); for(uint64_t e=a;e<b;e++){ int w=(int)LM.size()-1; while(ofs[w]>e) w--; Tree t; t.L=LM[w].first; int M=LM[w].second; uint64_t x=e-ofs[w]; t.par.resize(t.L+M); for(auto&p:t.par){ int q=(int)(x%(M+1)); x/=(M+1); p=q==M?-1:t.L+q; } if(!wf(t)) continue; t.derive(); check(c,t,meta(t),"exhaustive"); c.count("small hierarchies (exhaustive)"); Hash h; h.i(t.L); for(int p:t.par)h.i(p); c.distinct(h.v(),nontriv(t)); if(c.samples.size()<3&&nontriv(t)&&e%97==0) c.samples.push_back(t.str()); } return; }
    uint64_t b=c.idx-chunks(); Tree t; if(b<20&&b>=10){ if(b==10) t=genTree(r,70000,3); else if(b==11) t=genTree(r,20000,1); else if(b==12) t=genTree(r,2500,2); else if(b==13) t=genTree(r,33000,6); else if(b==14) t=genTree(r,4000,4); else if(b<18){ int n=b==15?300:b==16?20000:40000; t.L=1; t.par.assign(n,-1); vector<int> id=iota(n-1); if(b!=15) r.shuffle(id); int prev=0; for(int x:id){ t.par[prev]=1+x; prev=1+x; } t.derive(); } else t=genTree(r,1500,7); c.count("very large hierarchies"); } else t=b<10?genTree(r,b==2?300:b==5?600:r.range(300,900),(int)b%9):genTree(r,r.coin(0.1)?r.range(30,250):r.range(1,25)); REQ(c,wf(t),"harness","generator made an ill-formed hierarchy %s",t.str().c_str()); check(c,t,meta(t),"metadata"); c.maxi("nodes",t.n());
    if(r.coin(0.4)&&t.n()<120){ // the same hierarchy seen through every class that carries it
        bool dd=r.coin(); Data d; d.init(dd?D:H,t,dd?2:1,{}); fillValues(d,r,0); Sys S=makeSys(d,r,false); if(dd){ check(c,t,S.vals.d()->getMetaData(),"DValues"); check(c,t,S.quals.d->getMetaData(),"DQualities"); check(c,t,S.parter.best(0.5f).d->getMetaData(),"DPartition"); } else { check(c,t,S.vals.h()->getMetaData(),"HValues"); check(c,t,S.quals.h->getMetaData(),"HQualities"); check(c,t,S.parter.best(0.5f).h->getMetaData(),"HPartition"); } }
    if(r.coin(0.3)){ auto m=meta(t); if(again(m,0)){ check(c,t,m,"derived again"); c.count("hierarchies derived twice"); } }
    Hash h; h.i(t.L); for(int p:t.par)h.i(p); c.distinct(h.v(),nontriv(t)); }
