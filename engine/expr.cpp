#include "expr.h"
#include <algorithm>
z3::context* Z; u64 nExprs=0,nTabs=0;
struct H { size_t operator()(const std::array<u64,5>&k)const{ u64 h=1469598103934665603ull; for(u64 x:k){ h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=1099511628211ull; } return h; } };
static std::unordered_map<std::array<u64,5>,Expr*,H> cons;
static std::unordered_map<u64,std::vector<Tab*>> tabs;
static Expr* mk(EOp op,unsigned sub,unsigned w,Expr*a,Expr*b,Expr*c,u64 k,int var=-1,Tab*t=nullptr){
  std::array<u64,5> key{ (u64)op|((u64)sub<<8)|((u64)w<<16)|((u64)(u32)(var+1)<<32), a?(u64)a->id+1:0, b?(u64)b->id+1:0, c?(u64)c->id+1:0, t?(u64)t->id:k };
  auto it=cons.find(key); if(it!=cons.end()) return it->second;
  Expr*e=new Expr{op,(u8)sub,(u8)w,var,a,b,c,k,t,nullptr,(u32)nExprs++,nullptr};
  if(op==E_UT){ e->vs=new VarSet; e->vs->add(var); }
  else if(op!=E_CONST){ e->vs=new VarSet; for(Expr*x:{a,b,c}) if(x&&x->vs) e->vs->uni(*x->vs); }
  cons[key]=e; return e; }
Expr* eNode(Val v,unsigned w){ if(v.e) return v.e; return mk(E_CONST,0,w,0,0,0,v.c&maskW(w)); }
Val mkUT(int var,unsigned w,const u64*vals){
  bool all=true; for(int i=1;i<256;i++) if(vals[i]!=vals[0]){ all=false; break; }
  if(all) return K(vals[0]);
  u64 h=w; for(int i=0;i<256;i++){ h^=vals[i]+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=1099511628211ull; }
  auto&l=tabs[h]; Tab*t=nullptr; for(auto*x:l) if(x->w==w&&!memcmp(x->v,vals,sizeof x->v)){ t=x; break; }
  if(!t){ t=new Tab; memcpy(t->v,vals,sizeof t->v); t->w=w; t->orm=0; t->mn=~0ull; t->mx=0; t->truth={}; for(int i=0;i<256;i++){ t->orm|=vals[i]; t->mn=std::min(t->mn,vals[i]); t->mx=std::max(t->mx,vals[i]); if(vals[i]) t->truth[i>>6]|=1ull<<(i&63); } t->id=++nTabs; l.push_back(t); }
  return Val{mk(E_UT,0,w,0,0,0,0,var,t),0}; }
Val mkVar(int v){ u64 t[256]; for(int i=0;i<256;i++) t[i]=i; return mkUT(v,8,t); }
static inline int uvar(Val a){ return a.e? (a.e->op==E_UT?a.e->var:-2) : -1; }  // -1 const, -2 multi
static inline u64 tv(Val a,int i){ return a.e?a.e->tab->v[i]:a.c; }
static bool sameVar(Val a,Val b,int&var){ int x=uvar(a),y=uvar(b); if(x==-2||y==-2) return false; if(x>=0&&y>=0&&x!=y) return false; var=x>=0?x:y; return var>=0; }
static std::unordered_map<std::array<u64,5>,Val,H> memo;

// ---- segments (low to high)
struct Seg{ Val v; unsigned w; };
static void toSegs(Val v,unsigned w,std::vector<Seg>&out){
  if(!v.e){ out.push_back({v,w}); return; }
  Expr*e=v.e;
  if(e->op==E_CONCAT){ toSegs(e->b->op==E_CONST?K(e->b->k):Val{e->b,0},e->b->w,out); toSegs(e->a->op==E_CONST?K(e->a->k):Val{e->a,0},e->a->w,out); return; }
  if(e->op==E_UT){ u64 o=e->tab->orm; unsigned lo=__builtin_ctzll(o), hi=64-__builtin_clzll(o);
    if(lo==0&&hi==w){ out.push_back({v,w}); return; }
    u64 t[256]; for(int i=0;i<256;i++) t[i]=e->tab->v[i]>>lo; Val m=mkUT(e->var,hi-lo,t);
    if(lo) out.push_back({K(0),lo}); out.push_back({m,hi-lo}); if(hi<w) out.push_back({K(0),w-hi}); return; }
  out.push_back({v,w}); }
static Expr* rawConcat(Expr*hi,Expr*lo){ return mk(E_CONCAT,0,hi->w+lo->w,hi,lo,0,0); }
static Val fromSegs(const std::vector<Seg>&in){
  std::vector<Seg> s; unsigned tot=0; int var=-1; bool single=true;
  for(auto&x:in){ if(!x.w) continue; tot+=x.w; int u=uvar(x.v); if(u==-2) single=false; else if(u>=0){ if(var>=0&&var!=u) single=false; var=u; } }
  if(single){ if(var<0){ u64 r=0; unsigned sh=0; for(auto&x:in){ if(x.w) r|=(x.v.c&maskW(x.w))<<sh; sh+=x.w; } return K(r); }
    u64 t[256]; for(int i=0;i<256;i++){ u64 r=0; unsigned sh=0; for(auto&x:in){ if(x.w) r|=(tv(x.v,i)&maskW(x.w))<<sh; sh+=x.w; } t[i]=r; } return mkUT(var,tot,t); }
  for(auto&x:in){ if(!x.w) continue; if(!s.empty()){ Seg&p=s.back(); int dummy;
      if(!p.v.e&&!x.v.e){ p.v=K(p.v.c|(x.v.c<<p.w)); p.w+=x.w; continue; }
      if(p.v.e&&x.v.e&&uvar(p.v)>=0&&uvar(p.v)==uvar(x.v)){ u64 t[256]; for(int i=0;i<256;i++) t[i]=tv(p.v,i)|(tv(x.v,i)<<p.w); p.v=mkUT(uvar(p.v),p.w+x.w,t); p.w+=x.w; continue; }
      if(p.v.e&&x.v.e&&p.v.e->op==E_EXTRACT&&x.v.e->op==E_EXTRACT&&p.v.e->a==x.v.e->a&&p.v.e->k+p.w==x.v.e->k){ Expr*b=p.v.e->a; u64 lo=p.v.e->k; unsigned nw=p.w+x.w; p.v=(lo==0&&nw==b->w)?Val{b,0}:Val{mk(E_EXTRACT,0,nw,b,0,0,lo),0}; p.w=nw; continue; } (void)dummy;
      if(p.v.e&&x.v.e&&x.v.e->op==E_EXTRACT&&p.w<=x.v.e->k){ Expr*b=x.v.e->a; if(same(eExtract(Val{b,0},b->w,x.v.e->k-p.w,p.w),p.v)){ p.v=eExtract(Val{b,0},b->w,x.v.e->k-p.w,p.w+x.w); p.w+=x.w; continue; } } }
    s.push_back(x); }
  Expr*e=nullptr; for(auto&x:s){ Expr*n=eNode(x.v,x.w); e=e?rawConcat(n,e):n; }
  return Val{e,0}; }
static void splitAt(std::vector<Seg>&s,const std::vector<unsigned>&cuts){ // cuts: bit positions
  std::vector<Seg> r; unsigned pos=0; size_t ci=0; for(auto&x:s){ unsigned st=pos,en=pos+x.w,cur=st; while(ci<cuts.size()&&cuts[ci]<=st) ci++; size_t cj=ci; while(cj<cuts.size()&&cuts[cj]<en){ r.push_back({eExtract(x.v,x.w,cur-st,cuts[cj]-cur),cuts[cj]-cur}); cur=cuts[cj]; cj++; } if(cur==st) r.push_back(x); else r.push_back({eExtract(x.v,x.w,cur-st,en-cur),en-cur}); pos=en; } s.swap(r); }
static std::vector<unsigned> cutsOf(const std::vector<Seg>&a){ std::vector<unsigned> c; unsigned p=0; for(auto&x:a){ p+=x.w; c.push_back(p);} return c; }
static void align2(std::vector<Seg>&a,std::vector<Seg>&b){ auto c1=cutsOf(a),c2=cutsOf(b); std::vector<unsigned> c(c1); c.insert(c.end(),c2.begin(),c2.end()); std::sort(c.begin(),c.end()); c.erase(std::unique(c.begin(),c.end()),c.end()); splitAt(a,c); splitAt(b,c); }
static void splitConstRuns(std::vector<Seg>&s){ std::vector<Seg> r; for(auto&x:s){ if(x.v.e){ r.push_back(x); continue; } unsigned i=0; while(i<x.w){ unsigned j=i; u64 bit=x.v.c>>i&1; while(j<x.w&&(x.v.c>>j&1)==bit) j++; r.push_back({K(bit?maskW(j-i):0),j-i}); i=j; } } s.swap(r); }

Val eExtract(Val a,unsigned aw,unsigned lo,unsigned w){
  if(lo==0&&w==aw) return a; if(!a.e) return K((a.c>>lo)&maskW(w));
  Expr*e=a.e;
  if(e->op==E_UT){ u64 t[256]; for(int i=0;i<256;i++) t[i]=(e->tab->v[i]>>lo)&maskW(w); return mkUT(e->var,w,t); }
  if(e->op==E_CONCAT){ std::vector<Seg> s; toSegs(a,aw,s); std::vector<Seg> r; unsigned pos=0; for(auto&x:s){ unsigned st=pos,en=pos+x.w; unsigned l=std::max(st,lo),h=std::min(en,lo+w); if(l<h) r.push_back({eExtract(x.v,x.w,l-st,h-l),h-l}); pos=en; } return fromSegs(r); }
  if(e->op==E_EXTRACT) return eExtract(Val{e->a,0},e->a->w,lo+e->k,w);
  if(e->op==E_SEXT&&lo+w<=e->a->w) return eExtract(Val{e->a,0},e->a->w,lo,w);
  auto V=[](Expr*x){ return x->op==E_CONST?K(x->k):Val{x,0}; };
  if(e->op==E_ITE) return eIte(V(e->a),eExtract(V(e->b),aw,lo,w),eExtract(V(e->c),aw,lo,w),w);
  // low bits of sums: only where a one-byte table results, else the pieces of a stored number would not join again
  if(e->op==E_BIN&&lo==0&&(e->sub==B_ADD||e->sub==B_SUB||e->sub==B_MUL)){ Val x=eExtract(V(e->a),aw,lo,w),y=eExtract(V(e->b),aw,lo,w); int v; if(sameVar(x,y,v)) return eBin(e->sub,w,x,y); }
  // (zext(x) + k) cut back to x's width
  if(e->op==E_BIN&&lo==0&&(e->sub==B_ADD||e->sub==B_SUB)&&e->a->op!=E_CONST&&e->b->op==E_CONST){ std::vector<Seg> s; toSegs(V(e->a),aw,s); if(s.size()>1&&!s.back().v.e&&s.back().v.c==0&&s.back().w==aw-w) return eBin(e->sub,w,eExtract(V(e->a),aw,0,w),K(e->b->k&maskW(w))); }
  if(e->op==E_BIN&&(e->sub==B_AND||e->sub==B_OR||e->sub==B_XOR)) return eBin(e->sub,w,eExtract(V(e->a),aw,lo,w),eExtract(V(e->b),aw,lo,w));
  return Val{mk(E_EXTRACT,0,w,e,0,0,lo),0}; }
Val eConcat(Val hi,unsigned hw,Val lo,unsigned lw){
  if(hi.e&&hi.e->op==E_EXTRACT&&hi.e->k==lw&&same(eExtract(Val{hi.e->a,0},hi.e->a->w,0,lw),lo)) return eExtract(Val{hi.e->a,0},hi.e->a->w,0,lw+hw);
  std::vector<Seg> s; toSegs(lo,lw,s); toSegs(hi,hw,s); return fromSegs(s); }
Val eZext(Val a,unsigned w,unsigned w2){ if(!a.e||w==w2) return a; if(a.e->op==E_UT) return mkUT(a.e->var,w2,a.e->tab->v); std::vector<Seg> s; toSegs(a,w,s); s.push_back({K(0),w2-w}); return fromSegs(s); }
Val eSext(Val a,unsigned w,unsigned w2){ if(!a.e) return K((u64)sx(a.c,w)&maskW(w2)); if(w==w2) return a; if(a.e->op==E_UT){ u64 t[256]; for(int i=0;i<256;i++) t[i]=(u64)sx(a.e->tab->v[i],w)&maskW(w2); return mkUT(a.e->var,w2,t);} return Val{mk(E_SEXT,0,w2,a.e,0,0,0),0}; }
Val eNot(Val a){ if(!a.e) return K(!a.c); if(a.e->op==E_UT){ u64 t[256]; for(int i=0;i<256;i++) t[i]=!a.e->tab->v[i]; return mkUT(a.e->var,1,t);} if(a.e->op==E_NOT) return Val{a.e->a,0}; return Val{mk(E_NOT,0,1,a.e,0,0,0),0}; }
Val eIte(Val c,Val a,Val b,unsigned w){
  if(!c.e) return c.c?a:b; if(same(a,b)) return a; int v1;
  if(c.e->op==E_UT){ int x=uvar(a),y=uvar(b); int cv=c.e->var; if((x==-1||x==cv)&&(y==-1||y==cv)){ u64 t[256]; for(int i=0;i<256;i++) t[i]=c.e->tab->v[i]?tv(a,i):tv(b,i); return mkUT(cv,w,t);} } (void)v1;
  if(w==1){ if(!a.e&&a.c) return eBin(B_OR,1,c,b); if(!a.e) return eBin(B_AND,1,eNot(c),b); if(!b.e&&!b.c) return eBin(B_AND,1,c,a); if(!b.e) return eBin(B_OR,1,eNot(c),a); }
  return Val{mk(E_ITE,0,w,c.e,eNode(a,w),eNode(b,w),0),0}; }
static u64 umax(Val v,unsigned w){ if(!v.e) return v.c; Expr*e=v.e; switch(e->op){ case E_UT: return e->tab->mx; case E_CONCAT: return (umax(e->a->op==E_CONST?K(e->a->k):Val{e->a,0},e->a->w)<<e->b->w)|umax(e->b->op==E_CONST?K(e->b->k):Val{e->b,0},e->b->w); 
   case E_BIN: if(e->sub==B_ADD){ u64 x=umax(e->a->op==E_CONST?K(e->a->k):Val{e->a,0},w),y=umax(e->b->op==E_CONST?K(e->b->k):Val{e->b,0},w); unsigned __int128 s=(unsigned __int128)x+y; if(s<=maskW(w)) return (u64)s; } return maskW(w);
   default: return maskW(w);} }
static u64 umin(Val v,unsigned w){ if(!v.e) return v.c; Expr*e=v.e; switch(e->op){ case E_UT: return e->tab->mn; case E_CONCAT: return (umin(e->a->op==E_CONST?K(e->a->k):Val{e->a,0},e->a->w)<<e->b->w)|umin(e->b->op==E_CONST?K(e->b->k):Val{e->b,0},e->b->w);
   case E_BIN: if(e->sub==B_ADD&&umax(v,w)<maskW(w)){ return umin(e->a->op==E_CONST?K(e->a->k):Val{e->a,0},w)+umin(e->b->op==E_CONST?K(e->b->k):Val{e->b,0},w); } return 0;
   default: return 0;} }
static Val V(Expr*x){ return x->op==E_CONST?K(x->k):Val{x,0}; }
static bool addc(Val v,Val&x,u64&c){ if(v.e&&v.e->op==E_BIN&&v.e->sub==B_ADD&&v.e->b->op==E_CONST){ x=V(v.e->a); c=v.e->b->k; return true;} x=v; c=0; return false; }
static Val raw(int op,unsigned w,Val a,Val b,unsigned rw){ return Val{mk(E_BIN,op,rw,eNode(a,w),eNode(b,w),0,0),0}; }
// sums as linear combinations, so that terms cancel
struct Lin { std::vector<std::pair<Expr*,u64>> t; u64 c=0; };
static bool linAdd(Val v,unsigned w,u64 k,Lin&l,int depth){
  if(!v.e){ l.c=(l.c+k*v.c)&maskW(w); return true; }
  if(v.e->op==E_BIN&&(v.e->sub==B_ADD||v.e->sub==B_SUB)&&depth<8) return linAdd(V(v.e->a),w,k,l,depth+1)&&linAdd(V(v.e->b),w,v.e->sub==B_ADD?k:0-k,l,depth+1);
  for(auto&p:l.t) if(p.first==v.e){ p.second=(p.second+k)&maskW(w); return true; }
  if(l.t.size()>=10) return false;
  l.t.push_back({v.e,k&maskW(w)}); return true; }
static bool linNorm(Lin&l,unsigned w){ // merge one-byte tables of one variable; only coefficients 1 and -1 stay
  for(size_t i=0;i<l.t.size();i++) if(l.t[i].first->op==E_UT) for(size_t j=i+1;j<l.t.size();) if(l.t[j].first->op==E_UT&&l.t[j].first->var==l.t[i].first->var){
      u64 t[256]; for(int x=0;x<256;x++) t[x]=(l.t[i].second*l.t[i].first->tab->v[x]+l.t[j].second*l.t[j].first->tab->v[x])&maskW(w);
      Val m=mkUT(l.t[i].first->var,w,t); l.t.erase(l.t.begin()+j); if(m.e) l.t[i]={m.e,1}; else { l.c=(l.c+m.c)&maskW(w); l.t.erase(l.t.begin()+i); i--; break; } } else j++;
  std::vector<std::pair<Expr*,u64>> r; for(auto&p:l.t) if(p.second){ if(p.second!=1&&p.second!=maskW(w)) return false; r.push_back(p); }
  std::sort(r.begin(),r.end(),[](auto&x,auto&y){ return x.first->id<y.first->id; }); l.t=r; return true; }
static Val linSide(const Lin&l,unsigned w,u64 sign){ Val s=K(0); bool f=true; for(auto&p:l.t) if(p.second==sign){ s=f?Val{p.first,0}:raw(B_ADD,w,s,Val{p.first,0},w); f=false; } return s; }
static Val linBuild(const Lin&l,unsigned w){
  Val p=linSide(l,w,1), n=linSide(l,w,maskW(w)); Val r=p; if(n.e) r=raw(B_SUB,w,p,n,w);
  if(!r.e) return K((r.c+l.c)&maskW(w)); return l.c?raw(B_ADD,w,r,K(l.c),w):r; }
static bool isSum(Val v){ return v.e&&v.e->op==E_BIN&&(v.e->sub==B_ADD||v.e->sub==B_SUB); }
Val eBin(int op,unsigned w,Val a,Val b){
  if(!a.e&&!b.e){ bool ok; Val r=constBin(op,w,a.c,b.c,ok); return ok?r:K(0); }
  int var; unsigned rw=op>=B_EQ?1:w;
  if(sameVar(a,b,var)){
    std::array<u64,5> key{(u64)op|((u64)w<<8)|((a.e?1ull:0)<<20)|((b.e?1ull:0)<<21), a.e?a.e->id:a.c, b.e?b.e->id:b.c,0,0};
    auto it=memo.find(key); if(it!=memo.end()) return it->second;
    u64 t[256]; for(int i=0;i<256;i++){ bool ok; Val r=constBin(op,w,tv(a,i),tv(b,i),ok); t[i]=ok?r.c:0; }
    Val r=mkUT(var,rw,t); memo[key]=r; return r; }
  // multi-variable
  switch(op){
    case B_NE: return eNot(eBin(B_EQ,w,a,b)); case B_UGT: return eBin(B_ULT,w,b,a); case B_UGE: return eNot(eBin(B_ULT,w,a,b)); case B_ULE: return eNot(eBin(B_ULT,w,b,a));
    case B_SGT: return eBin(B_SLT,w,b,a); case B_SGE: return eNot(eBin(B_SLT,w,a,b)); case B_SLE: return eNot(eBin(B_SLT,w,b,a)); default: break; }
  if((op==B_ADD||op==B_SUB)&&w>1&&(isSum(a)||isSum(b))&&a.e&&b.e){ Lin l; if(linAdd(a,w,1,l,0)&&linAdd(b,w,op==B_ADD?1:~0ull,l,0)&&linNorm(l,w)) return linBuild(l,w); }
  if(op==B_EQ&&w>1&&a.e&&b.e&&(isSum(a)||isSum(b))){ Lin l,m; if(linAdd(a,w,1,l,0)&&linAdd(b,w,1,m,0)){ size_t n=l.t.size()+m.t.size(); Lin d; if(linAdd(a,w,1,d,0)&&linAdd(b,w,~0ull,d,0)&&linNorm(d,w)&&d.t.size()<n){
      if(d.t.empty()) return K(d.c==0); Val p=linSide(d,w,1), q=linSide(d,w,maskW(w)); if(!p.e) return eBin(B_EQ,w,q,K(d.c)); if(!q.e) return eBin(B_EQ,w,p,K((0-d.c)&maskW(w))); return raw(B_EQ,w,d.c?raw(B_ADD,w,p,K(d.c),w):p,q,1); } } }
  bool comm=op==B_ADD||op==B_MUL||op==B_AND||op==B_OR||op==B_XOR||op==B_EQ;
  if(comm){ if(!a.e||(b.e&&a.e->id>b.e->id&&true)) std::swap(a,b); if(!a.e) std::swap(a,b); }
  switch(op){
    case B_ADD: { if(!b.e&&b.c==0) return a; Val x,y; u64 c1,c2; bool ac=addc(a,x,c1); if(!b.e){ if(ac) return eBin(B_ADD,w,x,K((c1+b.c)&maskW(w)));
        // {hi,constant} + constant without a carry
        if(w<=32&&a.e->op==E_CONCAT){ std::vector<Seg> g; toSegs(a,w,g); unsigned lw=g[0].w; if(!g[0].v.e&&g[0].v.c+(b.c&maskW(lw))<=maskW(lw)) return eConcat(eBin(B_ADD,w-lw,eExtract(a,w,lw,w-lw),K(b.c>>lw)),w-lw,K(g[0].v.c+(b.c&maskW(lw))),lw); }
        return raw(op,w,a,b,w); } addc(b,y,c2);
        if(c1||c2){ Val s=eBin(B_ADD,w,x,y); return eBin(B_ADD,w,s,K((c1+c2)&maskW(w))); }
        auto subOf=[&](Val p,Val q,Val&r){ if(p.e&&p.e->op==E_BIN&&p.e->sub==B_SUB&&same(V(p.e->b),q)){ r=V(p.e->a); return true;} return false; }; Val r; if(subOf(a,b,r)||subOf(b,a,r)) return r;
        if(!b.e) { if(a.e->op==E_BIN&&a.e->sub==B_ADD&&a.e->b->op==E_CONST) return eBin(B_ADD,w,V(a.e->a),K((a.e->b->k+b.c)&maskW(w))); }
        return raw(op,w,a,b,w); }
    case B_SUB: { if(same(a,b)) return K(0); if(!b.e) return eBin(B_ADD,w,a,K((0-b.c)&maskW(w))); Val x,y; u64 c1,c2; bool p=addc(a,x,c1),q=addc(b,y,c2);
        if(p||q) return eBin(B_ADD,w,eBin(B_SUB,w,x,y),K((c1-c2)&maskW(w)));
        if(a.e&&a.e->op==E_BIN&&a.e->sub==B_ADD){ if(same(V(a.e->a),b)) return V(a.e->b); if(same(V(a.e->b),b)) return V(a.e->a); }
        if(a.e&&a.e->op==E_BIN&&a.e->sub==B_SUB&&same(V(a.e->a),b)) return eBin(B_SUB,w,K(0),V(a.e->b));
        if(b.e&&b.e->op==E_BIN&&b.e->sub==B_SUB&&same(V(b.e->a),a)) return V(b.e->b);
        return raw(op,w,a,b,w); }
    case B_MUL: if(!b.e){ if(b.c==0) return K(0); if(b.c==1) return a; if(!(b.c&(b.c-1))) return eBin(B_SHL,w,a,K(__builtin_ctzll(b.c))); } return raw(op,w,a,b,w);
    case B_UDIV: if(!b.e&&b.c&&!(b.c&(b.c-1))) return eBin(B_LSHR,w,a,K(__builtin_ctzll(b.c))); return raw(op,w,a,b,w);
    case B_UREM: if(!b.e&&b.c&&!(b.c&(b.c-1))) return eBin(B_AND,w,a,K(b.c-1)); return raw(op,w,a,b,w);
    case B_SHL: if(!b.e){ if(b.c>=w) return K(0); if(!b.c) return a; return eConcat(eExtract(a,w,0,w-b.c),w-b.c,K(0),b.c); } return raw(op,w,a,b,w);
    case B_LSHR: if(!b.e){ if(b.c>=w) return K(0); if(!b.c) return a; return eZext(eExtract(a,w,b.c,w-b.c),w-b.c,w); } return raw(op,w,a,b,w);
    case B_ASHR: if(!b.e){ u64 s=b.c>=w?w-1:b.c; if(!s) return a; return eSext(eExtract(a,w,s,w-s),w-s,w);} return raw(op,w,a,b,w);
    case B_AND: case B_OR: case B_XOR: {
        if(same(a,b)) return op==B_XOR?K(0):a;
        if(w==1){ if(!b.e) return op==B_AND?(b.c?a:K(0)):op==B_OR?(b.c?K(1):a):(b.c?eNot(a):a); 
          if(op!=B_XOR){ Val na=eNot(a); if(same(na,b)) return K(op==B_OR); } return raw(op,1,a,b,1); }
        std::vector<Seg> x,y; toSegs(a,w,x); toSegs(b,w,y); splitConstRuns(x); splitConstRuns(y);
        if(x.size()==1&&y.size()==1&&x[0].v.e&&y[0].v.e) return raw(op,w,a,b,w);
        align2(x,y); std::vector<Seg> r; for(size_t i=0;i<x.size();i++){ Val p=x[i].v,q=y[i].v; unsigned sw=x[i].w; if(!p.e) std::swap(p,q); Val o;
          if(!q.e&&p.e){ u64 ones=maskW(sw); if(op==B_AND) o=q.c==0?K(0):q.c==ones?p:(sw==w?raw(op,w,a,b,w):eBin(op,sw,p,q)); else if(op==B_OR) o=q.c==0?p:q.c==ones?K(ones):(sw==w?raw(op,w,a,b,w):eBin(op,sw,p,q)); else { if(q.c==0) o=p; else if(uvar(p)>=0) o=eBin(B_XOR,sw,p,q); else o=raw(B_XOR,sw,p,q,sw); } }
          else { int vv; if(!p.e&&!q.e){ bool ok; o=constBin(op,sw,p.c,q.c,ok);} else if(sameVar(p,q,vv)||sw<w) o=eBin(op,sw,p,q); else o=raw(op,sw,p,q,sw); }
          r.push_back({o,sw}); }
        return fromSegs(r); }
    case B_EQ: { if(same(a,b)) return K(1);
        if(!b.e){ Val x; u64 c; if(addc(a,x,c)) return eBin(B_EQ,w,x,K((b.c-c)&maskW(w))); if(b.c>umax(a,w)||b.c<umin(a,w)) return K(0); 
          if(w==1) return b.c?a:eNot(a);
          if(a.e->op==E_ITE){ Val t=V(a.e->b),f=V(a.e->c); if(!t.e||!f.e) return eIte(V(a.e->a),eBin(B_EQ,w,t,b),eBin(B_EQ,w,f,b),1); } }
        std::vector<Seg> x,y; toSegs(a,w,x); toSegs(b,w,y); if(x.size()>1||y.size()>1){ align2(x,y); Val r=K(1); for(size_t i=0;i<x.size();i++){ Val q=x[i].w==w?raw(B_EQ,w,x[i].v,y[i].v,1):eBin(B_EQ,x[i].w,x[i].v,y[i].v); r=eBin(B_AND,1,r,q); if(!r.e&&!r.c) return r; } return r; }
        return raw(op,w,a,b,1); }
    case B_ULT: { if(same(a,b)) return K(0); if(umax(a,w)<umin(b,w)) return K(1); if(umin(a,w)>=umax(b,w)) return K(0); 
        if(!b.e&&b.c==1) return eBin(B_EQ,w,a,K(0)); return raw(op,w,a,b,1); }
    default: if(op==B_SLT&&same(a,b)) return K(0);
      if(op==B_SLT&&umax(a,w)<(1ull<<(w-1))&&umax(b,w)<(1ull<<(w-1))) return eBin(B_ULT,w,a,b);
      if(op==B_SLT&&!b.e&&b.c==0&&umax(a,w)<(1ull<<(w-1))) return K(0);
      return raw(op,w,a,b,rw);
  }
}
// ---- z3
z3::expr maskZ(int var,const Mask&m){ z3::expr x=Z->bv_const(("b"+std::to_string(var)).c_str(),8); z3::expr r=Z->bool_val(false); int i=0; auto has=[&](int v){ return m[v>>6]>>(v&63)&1; };
  while(i<256){ if(!has(i)){ i++; continue; } int j=i; while(j+1<256&&has(j+1)) j++; if(i==0&&j==255) return Z->bool_val(true); r=r||(i==j? x==Z->bv_val(i,8) : z3::uge(x,Z->bv_val(i,8))&&z3::ule(x,Z->bv_val(j,8))); i=j+1; } return r; }
z3::expr tabZ(Tab*t,const z3::expr&x){
  unsigned w=t->w; u64 m=maskW(w);
  struct Piece{ int lo,hi; u64 base; u64 slope; }; std::vector<Piece> ps;
  for(int i=0;i<256;){ int j=i; u64 sl=0; if(i<255){ sl=(t->v[i+1]-t->v[i])&m; if(w>1||sl==0){ j=i+1; while(j<255&&((t->v[j+1]-t->v[j])&m)==sl) j++; if(sl!=0&&j<i+2) { j=i; sl=0; } } }
    ps.push_back({i,j,t->v[i],j==i?0:sl}); i=j+1; }
  auto val=[&](const Piece&p){ if(!p.slope) return Z->bv_val((uint64_t)p.base,w); z3::expr xe=w>8?z3::zext(x,w-8):w<8?x.extract(w-1,0):x; u64 off=(p.base-p.slope*p.lo)&m; z3::expr r=p.slope==1?xe:xe*Z->bv_val((uint64_t)p.slope,w); return off?r+Z->bv_val((uint64_t)off,w):r; };
  // most frequent constant last
  z3::expr r=val(ps.back()); for(int i=(int)ps.size()-2;i>=0;i--) r=z3::ite(z3::ule(x,Z->bv_val(ps[i].hi,8)),val(ps[i]),r);
  return r; }
z3::expr toZ(Expr*e){
  if(e->z) return *e->z;
  auto b1=[&](const z3::expr&c){ return z3::ite(c,Z->bv_val(1,1),Z->bv_val(0,1)); };
  z3::expr r(*Z);
  switch(e->op){
    case E_CONST: r=Z->bv_val((uint64_t)e->k,e->w); break;
    case E_UT: r=tabZ(e->tab,Z->bv_const(("b"+std::to_string(e->var)).c_str(),8)); break;
    case E_NOT: r=~toZ(e->a); break;
    case E_CONCAT: r=z3::concat(toZ(e->a),toZ(e->b)); break;
    case E_EXTRACT: r=toZ(e->a).extract(e->k+e->w-1,e->k); break;
    case E_SEXT: r=z3::sext(toZ(e->a),e->w-e->a->w); break;
    case E_ITE: r=z3::ite(toZ(e->a)==Z->bv_val(1,1),toZ(e->b),toZ(e->c)); break;
    case E_BIN: { z3::expr a=toZ(e->a),b=toZ(e->b); switch(e->sub){ case B_ADD:r=a+b;break; case B_SUB:r=a-b;break; case B_MUL:r=a*b;break; case B_UDIV:r=z3::udiv(a,b);break; case B_UREM:r=z3::urem(a,b);break; case B_SDIV:r=a/b;break; case B_SREM:r=z3::srem(a,b);break;
      case B_AND:r=a&b;break; case B_OR:r=a|b;break; case B_XOR:r=a^b;break; case B_SHL:r=z3::shl(a,b);break; case B_LSHR:r=z3::lshr(a,b);break; case B_ASHR:r=z3::ashr(a,b);break;
      case B_EQ:r=b1(a==b);break; case B_ULT:r=b1(z3::ult(a,b));break; case B_SLT:r=b1(a<b);break; default: throw EngineError("toZ op"); } break; }
  }
  e->z=new z3::expr(r); return r; }
u64 evalE(Expr*e,const u8*vals,u64 gen){
  if(e->op==E_CONST) return e->k; if(e->op==E_UT) return e->tab->v[vals[e->var]];
  if(e->gen==gen) return e->ev;
  u64 r=0,m=maskW(e->w);
  switch(e->op){
    case E_NOT: r=!evalE(e->a,vals,gen); break;
    case E_CONCAT: r=evalE(e->a,vals,gen)<<e->b->w|evalE(e->b,vals,gen); break;
    case E_EXTRACT: r=evalE(e->a,vals,gen)>>e->k; break;
    case E_SEXT: r=(u64)sx(evalE(e->a,vals,gen),e->a->w); break;
    case E_ITE: r=evalE(e->a,vals,gen)?evalE(e->b,vals,gen):evalE(e->c,vals,gen); break;
    default: { u64 a=evalE(e->a,vals,gen),b=evalE(e->b,vals,gen); bool ok; r=constBin(e->sub,e->a->w,a,b,ok).c; if(!ok) throw EngineError("division by zero in a model"); } }
  e->gen=gen; return e->ev=r&m; }
std::string eStr(Val v,int d){ if(!v.e) return std::to_string(v.c); Expr*e=v.e; if(!d) return "..."; static const char*n[]={"+","-","*","/u","/s","%u","%s","&","|","^","<<",">>","a>>","==","!=","<u","<=u",">u",">=u","<s","<=s",">s",">=s"};
  auto W=[&](Expr*x){ return eStr(V(x),d-1); };
  switch(e->op){ case E_CONST: return std::to_string(e->k); case E_UT: { bool id=true; for(int i=0;i<256;i++) if(e->tab->v[i]!=(u64)i) id=false; return (id?"b":"T"+std::to_string(e->tab->id)+"_b")+std::to_string(e->var); }
    case E_NOT: return "!("+W(e->a)+")"; case E_CONCAT: return "{"+W(e->a)+","+W(e->b)+"}"; case E_EXTRACT: return W(e->a)+"["+std::to_string(e->k)+"+"+std::to_string(e->w)+"]"; case E_SEXT: return "sext("+W(e->a)+")"; case E_ITE: return "ite("+W(e->a)+","+W(e->b)+","+W(e->c)+")"; default: return "("+W(e->a)+n[e->sub]+W(e->b)+")"; } }
