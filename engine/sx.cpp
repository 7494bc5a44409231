// Symbolic executor for the LLVM IR of the crate under test. Forks on input-dependent branches; feasibility, assertion
// validity and counterexample models come from z3.
#include <fstream>
#include "expr.h"
#include <algorithm>
#include <chrono>
#include <deque>
#include <iostream>
#include <set>
#include <unordered_set>
typedef unsigned __int128 u128;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ intrinsics
enum In { I_NONE,I_MEMCPY,I_MEMSET,I_UMIN,I_UMAX,I_SMIN,I_SMAX,I_UADDO,I_USUBO,I_UMULO,I_SADDO,I_SSUBO,I_SMULO,I_UADDS,I_USUBS,
 I_CTPOP,I_CTLZ,I_CTTZ,I_BSWAP,I_BITREV,I_FSHL,I_FSHR,I_ABS,I_UCMP,I_SCMP,I_ID,I_NOP,I_ASSUME,I_FALSE,I_TRAP,I_MALLOC,I_CALLOC,I_REALLOC,I_FREE,I_PMEMALIGN,
 I_MEMCMP,I_STRLEN,I_RED_OR,I_RED_AND,I_RED_ADD,
 I_SX_BYTES,I_SX_CHOOSE,I_SX_ASSUME,I_SX_ASSERT,I_SX_ASSERT_EQ,I_SX_FAIL,I_SX_REACH,I_SX_PARAM,I_SX_VBUF,I_SX_CONC,I_SX_ITE,I_SX_END,I_GETRANDOM };
static struct { const char*n; int id; bool pre; } INTR[]={
 {"llvm.memcpy.",I_MEMCPY,true},{"llvm.memmove.",I_MEMCPY,true},{"llvm.memset.",I_MEMSET,true},{"memcpy",I_MEMCPY,false},{"memmove",I_MEMCPY,false},{"memset",I_MEMSET,false},
 {"llvm.umin.",I_UMIN,true},{"llvm.umax.",I_UMAX,true},{"llvm.smin.",I_SMIN,true},{"llvm.smax.",I_SMAX,true},
 {"llvm.uadd.with.overflow.",I_UADDO,true},{"llvm.usub.with.overflow.",I_USUBO,true},{"llvm.umul.with.overflow.",I_UMULO,true},
 {"llvm.sadd.with.overflow.",I_SADDO,true},{"llvm.ssub.with.overflow.",I_SSUBO,true},{"llvm.smul.with.overflow.",I_SMULO,true},
 {"llvm.uadd.sat.",I_UADDS,true},{"llvm.usub.sat.",I_USUBS,true},{"llvm.ctpop.",I_CTPOP,true},{"llvm.ctlz.",I_CTLZ,true},{"llvm.cttz.",I_CTTZ,true},
 {"llvm.bswap.",I_BSWAP,true},{"llvm.bitreverse.",I_BITREV,true},{"llvm.fshl.",I_FSHL,true},{"llvm.fshr.",I_FSHR,true},{"llvm.abs.",I_ABS,true},
 {"llvm.ucmp.",I_UCMP,true},{"llvm.scmp.",I_SCMP,true},{"llvm.expect.",I_ID,true},{"llvm.threadlocal.address",I_ID,true},{"llvm.launder.",I_ID,true},{"llvm.strip.",I_ID,true},
 {"llvm.assume",I_ASSUME,false},{"llvm.lifetime.",I_NOP,true},{"llvm.experimental.noalias.scope.decl",I_NOP,true},{"llvm.dbg.",I_NOP,true},{"llvm.prefetch",I_NOP,true},{"llvm.x86.sse2.pause",I_NOP,false},
 {"llvm.is.constant.",I_FALSE,true},{"llvm.trap",I_TRAP,false},{"llvm.ubsantrap",I_TRAP,true},{"abort",I_TRAP,false},
 {"llvm.vector.reduce.or.",I_RED_OR,true},{"llvm.vector.reduce.and.",I_RED_AND,true},{"llvm.vector.reduce.add.",I_RED_ADD,true},
 {"malloc",I_MALLOC,false},{"calloc",I_CALLOC,false},{"realloc",I_REALLOC,false},{"free",I_FREE,false},{"posix_memalign",I_PMEMALIGN,false},
 {"memcmp",I_MEMCMP,false},{"bcmp",I_MEMCMP,false},{"strlen",I_STRLEN,false},{"getrandom",I_GETRANDOM,false},
 {"sx_bytes",I_SX_BYTES,false},{"sx_choose",I_SX_CHOOSE,false},{"sx_assume",I_SX_ASSUME,false},{"sx_assert",I_SX_ASSERT,false},{"sx_assert_eq",I_SX_ASSERT_EQ,false},
 {"sx_fail",I_SX_FAIL,false},{"sx_reach",I_SX_REACH,false},{"sx_param",I_SX_PARAM,false},{"sx_vbuf",I_SX_VBUF,false},{"sx_concretize",I_SX_CONC,false},{"sx_ite",I_SX_ITE,false},{"sx_end",I_SX_END,false}};
int intrinsicId(const std::string&n){ for(auto&x:INTR) if(x.pre? n.rfind(x.n,0)==0 : n==x.n) return x.id; return 0; }

// ------------------------------------------------------------------ state
struct Obj { u32 rc=1; u64 size=0; bool freed=false,heap=false,uniform=false; u8 fill=0; Val vsize{nullptr,0}; std::vector<u8> b; std::vector<Expr*> s; };
struct Chunk { u32 rc=1; Obj* o[64]={}; };
struct Frame { u32 rc=1; Func*f; int bb=0; u32 ip=0; int ret=-1; std::vector<Val> r; std::vector<u64> al; };
struct Trace { u32 rc=1; Trace*up; int kind; u64 n; u64 v; };
struct State {
  std::vector<Frame*> fr; std::vector<Chunk*> mem; u64 nobj=0; std::vector<std::pair<u64,Obj*>> gl;
  std::vector<Mask> dom; std::vector<Expr*> cons; VarSet cv; Trace*tr=nullptr; u64 ic=0; u64 depth=0; u64 rh=0; // rh: hash of the markers reached
};
static void relObj(Obj*o){ if(o&&--o->rc==0) delete o; }
static void relChunk(Chunk*c){ if(c&&--c->rc==0){ for(auto*o:c->o) relObj(o); delete c; } }
static void relTr(Trace*t){ while(t&&--t->rc==0){ Trace*u=t->up; delete t; t=u; } }
static State* cloneState(State*s){ State*n=new State(*s); for(auto*f:n->fr) f->rc++; for(auto*c:n->mem) c->rc++; for(auto&g:n->gl) g.second->rc++; if(n->tr) n->tr->rc++; return n; }
static void freeState(State*s){ for(auto*f:s->fr) if(--f->rc==0) delete f; for(auto*c:s->mem) relChunk(c); for(auto&g:s->gl) relObj(g.second); relTr(s->tr); delete s; }

struct Violation { std::string kind; u64 code=0; std::string loc, repoLoc; std::vector<std::string> stack; std::string trace; u64 count=1; std::string model; };
struct Abandon {};                            // path ended
struct Refork {};                             // state forked, re-execute current instruction
// ------------------------------------------------------------------ job-wide data
static struct Job {
  std::string name, harness; std::vector<i64> params; u64 part=0,parts=1;
  u64 maxIc=3000000, maxViol=12; double timeout=800; u64 maxDepth=0;
  u64 paths=0, instrs=0, forks=0, asserts=0; std::map<u64,u64> reach; std::vector<std::string> samples; u64 ends=0; std::map<std::string,Violation> viol; double t0=0; u64 vars=0, states=0;
} J;
static struct Q { u64 unary=0,unaryDistinct=0,multi=0,multiDistinct=0,models=0,wit=0,sat=0,unsat=0; double t=0; } QS;
static std::vector<State*> work; static bool stopFork=false, forkedFlag=false;
static z3::solver* SOL;

static bool z3check(const std::vector<z3::expr>&as,z3::model*out=nullptr,bool more=false){
  double t=now(); if(t-J.t0>J.timeout) throw EngineError("time limit"); if(!more) SOL->reset(); for(auto&a:as) SOL->add(a); auto r=SOL->check(); QS.t+=now()-t; if(const char*dd=getenv("SX_SLOW")) if(now()-t>atof(getenv("SX_SLOWT"))){ static int k=0; std::ofstream(std::string(dd)+"/q"+std::to_string(k++)+".smt2")<<SOL->to_smt2(); fprintf(stderr,"slow %.2f %d\n",now()-t,(int)r); }
  if(r==z3::unknown) throw EngineError("solver returned unknown: "+SOL->reason_unknown());
  if(r==z3::sat){ QS.sat++; if(out) *out=SOL->get_model(); return true; } QS.unsat++; return false; }
static z3::expr zTrue(Expr*e){ return toZ(e)==Z->bv_val(1,1); }
static bool anyM(const Mask&m){ return m[0]|m[1]|m[2]|m[3]; }
static Mask andM(const Mask&a,const Mask&b){ return {a[0]&b[0],a[1]&b[1],a[2]&b[2],a[3]&b[3]}; }
static Mask andNM(const Mask&a,const Mask&b){ return {a[0]&~b[0],a[1]&~b[1],a[2]&~b[2],a[3]&~b[3]}; }
static const Mask FULL={~0ull,~0ull,~0ull,~0ull};
struct MK{ Mask m; u32 t; bool operator==(const MK&o)const{ return m==o.m&&t==o.t; } };
struct MKH{ size_t operator()(const MK&k)const{ u64 h=k.t*0x9e3779b97f4a7c15ull; for(u64 x:k.m){ h^=x+(h<<6)+(h>>2); h*=1099511628211ull; } return h; } };
static std::unordered_map<MK,int,MKH> unaryCache;
// Which truth values can a one-byte condition take for a byte in the given domain? Each distinct (domain, condition) is
// put to z3 once; the answer is cached.
static int unaryDecide(const Mask&m,Tab*t){
  QS.unary++; MK k{m,t->id}; auto it=unaryCache.find(k); if(it!=unaryCache.end()) return it->second;
  QS.unaryDistinct++;
  z3::expr x=Z->bv_const("b0",8); z3::expr c=tabZ(t,x)==Z->bv_val(1,t->w); z3::expr d=maskZ(0,m);
  int r=(z3check({d,c})?2:0)|(z3check({d,!c})?1:0);
  int w=(anyM(andM(m,t->truth))?2:0)|(anyM(andNM(m,t->truth))?1:0);
  if(r!=w) throw EngineError("solver and table disagree on a byte condition");
  unaryCache[k]=r; return r; }
static std::unordered_map<std::string,bool> multiCache;
// Witnesses of earlier queries: a condition that one of them satisfies needs no solver call.
struct Wit { u8 v[MAXVARS]; u64 gen; }; static std::vector<Wit*> wits; static u64 witGen=0;
static bool holds(const Wit&w,State&s,const std::vector<Expr*>&use,const std::vector<std::pair<Expr*,bool>>&extra,const VarSet&vs){
  for(auto&x:extra) if((evalE(x.first,w.v,w.gen)!=0)!=x.second) return false;
  for(size_t v=0;v<s.dom.size();v++) if(vs.has(v)&&!(s.dom[v][w.v[v]>>6]>>(w.v[v]&63)&1)) return false;
  for(auto*e:use) if(!evalE(e,w.v,w.gen)) return false;
  return true; }
static bool satWith(State&s,const std::vector<std::pair<Expr*,bool>>&extra,z3::model*out=nullptr,bool all=false){
  VarSet vs; for(auto&x:extra) vs.uni(*x.first->vs);
  std::vector<Expr*> use; std::vector<char> in(s.cons.size(),0);
  for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<s.cons.size();i++) if(!in[i]&&(all||s.cons[i]->vs->inter(vs))){ in[i]=1; use.push_back(s.cons[i]); vs.uni(*s.cons[i]->vs); ch=true; } }
  std::string key; if(!out){ std::vector<u32> ids; for(auto*e:use) ids.push_back(e->id*2+1); for(auto&x:extra) ids.push_back(x.first->id*2+(x.second?1:0)); std::sort(ids.begin(),ids.end()); key.append((char*)ids.data(),ids.size()*4);
    for(size_t v=0;v<s.dom.size();v++) if(vs.has(v)&&s.dom[v]!=FULL){ key.append((char*)&v,2); key.append((char*)&s.dom[v],32); }
    QS.multi++; auto it=multiCache.find(key); if(it!=multiCache.end()) return it->second;
    for(size_t i=0;i<wits.size();i++) if(holds(*wits[i],s,use,extra,vs)){ QS.wit++; Wit*w=wits[i]; wits.erase(wits.begin()+i); wits.insert(wits.begin(),w); multiCache[key]=true; return true; }
    QS.multiDistinct++; if(getenv("SX_Q")&&QS.multiDistinct%17==0){ fprintf(stderr,"Q %s%s |",extra[0].second?"":"!",eStr(Val{extra[0].first,0},6).c_str()); for(auto*e:use) fprintf(stderr," %s",eStr(Val{e,0},6).c_str()); fprintf(stderr,"\n"); } } else QS.models++;
  if(out){ std::vector<z3::expr> as; for(auto*e:use) as.push_back(zTrue(e)); for(auto&x:extra) as.push_back(x.second?zTrue(x.first):!zTrue(x.first));
    for(size_t v=0;v<s.dom.size();v++) if((all||vs.has(v))&&s.dom[v]!=FULL) as.push_back(maskZ(v,s.dom[v]));
    return z3check(as,out); }
  z3::model m(*Z); std::vector<z3::expr> as; for(auto*e:use) as.push_back(zTrue(e)); for(auto&x:extra) as.push_back(x.second?zTrue(x.first):!zTrue(x.first));
  for(size_t v=0;v<s.dom.size();v++) if(vs.has(v)&&s.dom[v]!=FULL) as.push_back(maskZ(v,s.dom[v]));
  bool r=z3check(as,&m); multiCache[key]=r;
  if(r){ Wit*w; if(wits.size()<48) w=new Wit(); else { w=wits.back(); wits.pop_back(); } memset(w->v,0,MAXVARS); w->gen=++witGen;
    for(size_t v=0;v<s.dom.size();v++) if(vs.has(v)){ uint64_t c=0; z3::expr x=m.eval(Z->bv_const(("b"+std::to_string(v)).c_str(),8),true); if(!x.is_numeral_u64(c)) throw EngineError("model without a value"); w->v[v]=c; }
    wits.insert(wits.begin(),w); if(!holds(*w,s,use,extra,vs)) throw EngineError("solver model does not satisfy the condition"); }
  return r; }
static int feasible(State&s,Expr*c){
  if(c->op==E_UT){ int r=unaryDecide(s.dom[c->var],c->tab); if(r!=3||!s.cv.has(c->var)) return r; }
  return (satWith(s,{{c,true}})?2:0)|(satWith(s,{{c,false}})?1:0); }
static void assume(State&s,Expr*c,bool pos){
  if(c->op==E_UT){ Mask&m=s.dom[c->var]; m=pos?andM(m,c->tab->truth):andNM(m,c->tab->truth); return; }
  if(c->op==E_NOT){ assume(s,c->a,!pos); return; }
  if(c->op==E_BIN&&c->w==1&&((c->sub==B_AND&&pos)||(c->sub==B_OR&&!pos))){ if(c->a->op==E_CONST||c->b->op==E_CONST) throw EngineError("const in bool node"); assume(s,c->a,pos); assume(s,c->b,pos); return; }
  Val v=pos?Val{c,0}:eNot(Val{c,0}); s.cons.push_back(v.e); s.cv.uni(*v.e->vs); }
static std::map<std::string,u64> forkProf; static bool FP=getenv("SX_FORKS")!=nullptr;
static std::string hereLoc(State&s);
static State* fork(State&s){ J.forks++; if(FP) forkProf[hereLoc(s)]++; State*n=cloneState(&s); n->depth++; s.depth++; return n; }
static void pushWork(State*n){ work.push_back(n); J.states++; forkedFlag=true; }
// tri-state evaluation of a boolean tree under the path condition; returns 0/1, or 2 with the first undecided atom
static const unsigned ATOMS=getenv("SX_ATOMS")?atoi(getenv("SX_ATOMS")):6;
static int evalTri(State&s,Val v,Expr*&atom){
  if(!v.e) return v.c&1; Expr*c=v.e;
  auto W=[](Expr*x){ return x->op==E_CONST?K(x->k):Val{x,0}; };
  if(c->op==E_NOT){ int r=evalTri(s,W(c->a),atom); return r==2?2:!r; }
  if(c->op==E_BIN&&c->w==1&&(c->sub==B_AND||c->sub==B_OR)){ int z=c->sub==B_AND?0:1; int a=evalTri(s,W(c->a),atom); if(a==z) return z; if(a==2) return 2; Expr*t=nullptr; int b=evalTri(s,W(c->b),t); if(b==2) atom=t; return b; }
  if(c->op==E_BIN&&c->w==1&&c->sub==B_XOR){ int a=evalTri(s,W(c->a),atom); if(a==2) return 2; int b=evalTri(s,W(c->b),atom); return b==2?2:a^b; }
  if(c->op==E_ITE&&c->w==1){ int a=evalTri(s,W(c->a),atom); if(a==2) return 2; return evalTri(s,a?W(c->b):W(c->c),atom); }
  int f=feasible(s,c); if(f==0) throw EngineError("path condition became infeasible"); if(f==3){ atom=c; return 2; } return f==2; }
// decide a condition, forking if needed (the current state continues with atom=true)
static void countAtoms(Expr*c,unsigned&n,unsigned&multi,unsigned cap){
  if(n>cap) return; if(c->op==E_CONST) return; if(c->op==E_NOT){ countAtoms(c->a,n,multi,cap); return; }
  if(c->op==E_BIN&&c->w==1&&(c->sub==B_AND||c->sub==B_OR||c->sub==B_XOR)){ countAtoms(c->a,n,multi,cap); countAtoms(c->b,n,multi,cap); return; }
  if(c->op==E_ITE&&c->w==1){ countAtoms(c->a,n,multi,cap); countAtoms(c->b,n,multi,cap); countAtoms(c->c,n,multi,cap); return; }
  n++; if(c->op!=E_UT) multi++; }
static bool decide(State&s,Val c){
  if(c.e&&c.e->op!=E_UT){ unsigned n=0,multi=0; countAtoms(c.e,n,multi,64); if(n>ATOMS&&multi){ // a large condition over several bytes: fork on the whole
    int f=(satWith(s,{{c.e,true}})?2:0)|(satWith(s,{{c.e,false}})?1:0); if(!f) throw EngineError("path condition became infeasible"); if(f!=3) return f==2;
    State*k=fork(s); assume(*k,c.e,false); pushWork(k); assume(s,c.e,true); throw Refork(); } }
  Expr*atom=nullptr; int r=evalTri(s,c,atom); if(r!=2) return r; 
  State*n=fork(s); assume(*n,atom,false); pushWork(n); assume(s,atom,true); throw Refork(); }
static Val simp(State&s,Val v){ // constant under the domain?
  if(!v.e||v.e->op!=E_UT) return v; const Mask&m=s.dom[v.e->var]; bool first=true; u64 x=0; for(int i=0;i<256;i++) if(m[i>>6]>>(i&63)&1){ u64 y=v.e->tab->v[i]; if(first){ x=y; first=false; } else if(x!=y) return v; } return K(x); }
static std::vector<u64> values(State&s,Val v,unsigned w,size_t cap){ // all values under the path condition
  std::vector<u64> r; if(!v.e) return {v.c};
  if(v.e->op==E_UT){ std::set<u64> st; const Mask&m=s.dom[v.e->var]; for(int i=0;i<256;i++) if(m[i>>6]>>(i&63)&1) st.insert(v.e->tab->v[i]);
    if(!s.cv.has(v.e->var)) return std::vector<u64>(st.begin(),st.end());
    for(u64 x:st){ Val q=eBin(B_EQ,w,v,K(x)); if(!q.e){ r.push_back(x); continue;} if(satWith(s,{{q.e,true}})) r.push_back(x); } return r; }
  // all-sat by enumeration with the solver
  VarSet vs=*v.e->vs; std::vector<z3::expr> as; std::vector<char> in(s.cons.size(),0);
  for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<s.cons.size();i++) if(!in[i]&&s.cons[i]->vs->inter(vs)){ in[i]=1; as.push_back(zTrue(s.cons[i])); vs.uni(*s.cons[i]->vs); ch=true; } }
  for(size_t i=0;i<s.dom.size();i++) if(vs.has(i)&&s.dom[i]!=FULL) as.push_back(maskZ(i,s.dom[i]));
  for(bool first=true;;first=false){ z3::model m(*Z); QS.multiDistinct++; QS.multi++; if(!z3check(as,&m,!first)) break; u64 x=m.eval(toZ(v.e),true).get_numeral_uint64(); r.push_back(x); if(r.size()>cap) throw EngineError("too many values to enumerate"); as.clear(); as.push_back(toZ(v.e)!=Z->bv_val((uint64_t)x,w)); }
  std::sort(r.begin(),r.end()); return r; }

// ------------------------------------------------------------------ memory
static const u64 OFFM=(1ull<<IDSHIFT)-1;
static u64 baseId;
static u64 newObj(State&s,u64 size,bool heap){ u64 i=s.nobj++; if((i>>6)>=s.mem.size()) s.mem.push_back(new Chunk); Chunk*&c=s.mem[i>>6]; if(c->rc>1){ Chunk*n=new Chunk(*c); n->rc=1; for(auto*o:n->o) if(o) o->rc++; c->rc--; c=n; }
  if(size>(1ull<<30)) throw EngineError("allocation too large"); Obj*o=new Obj; o->size=size; o->heap=heap; o->b.assign(size,0); c->o[i&63]=o; return (baseId+i)<<IDSHIFT; }
static void killObj(State&s,u64 addr){ u64 i=(addr>>IDSHIFT)-baseId; Chunk*&c=s.mem[i>>6]; if(c->rc>1){ Chunk*n=new Chunk(*c); n->rc=1; for(auto*o:n->o) if(o) o->rc++; c->rc--; c=n; } relObj(c->o[i&63]); c->o[i&63]=nullptr; }
static Obj* robj(State&s,u64 id){ // read access
  if(id>=baseId){ u64 i=id-baseId; if(i>=s.nobj) return nullptr; return s.mem[i>>6]->o[i&63]; }
  for(auto&g:s.gl) if(g.first==id) return g.second;
  return nullptr; }
static Obj* wobj(State&s,u64 id){
  if(id>=baseId){ u64 i=id-baseId; if(i>=s.nobj) return nullptr; Chunk*&c=s.mem[i>>6]; if(!c->o[i&63]) return nullptr; if(c->rc>1){ Chunk*n=new Chunk(*c); n->rc=1; for(auto*o:n->o) if(o) o->rc++; c->rc--; c=n; } Obj*&o=c->o[i&63]; if(o->rc>1){ Obj*n=new Obj(*o); n->rc=1; o->rc--; o=n; } return o; }
  for(auto&g:s.gl) if(g.first==id){ Obj*&o=g.second; if(o->rc>1){ Obj*n=new Obj(*o); n->rc=1; o->rc--; o=n; } return o; }
  if(id<M.gById.size()&&M.gById[id]&&!M.gById[id]->constant){ Global*g=M.gById[id]; M.readyGlobal(g); Obj*o=new Obj; o->size=g->size; o->b=g->bytes; s.gl.push_back({id,o}); return o; }
  return nullptr; }
static void violation(State&s,const std::string&kind,u64 code=0);
// resolve a concrete address for access of n bytes; global constants give raw bytes
struct Ref{ Obj*o=nullptr; const u8*raw=nullptr; u64 off=0; };
static Ref rd(State&s,u64 a,u64 n){
  u64 id=a>>IDSHIFT, off=a&OFFM; Obj*o=robj(s,id);
  if(o){ if(o->freed){ violation(s,"use-after-free"); throw Abandon(); } if(o->uniform) return {o,nullptr,off}; if(off+n>o->size){ violation(s,"out-of-bounds read"); throw Abandon(); } return {o,nullptr,off}; }
  if(id<M.gById.size()&&id>0&&M.gById[id]){ Global*g=M.gById[id]; M.readyGlobal(g); if(g->external) throw EngineError("read of external global "+g->name); if(off+n>g->size){ violation(s,"out-of-bounds read"); throw Abandon(); } return {nullptr,g->bytes.data()+off,off}; }
  violation(s,"invalid pointer read"); throw Abandon(); }
static Ref wr(State&s,u64 a,u64 n){
  u64 id=a>>IDSHIFT, off=a&OFFM; Obj*o=wobj(s,id);
  if(!o){ violation(s,"invalid pointer write"); throw Abandon(); }
  if(o->freed){ violation(s,"use-after-free"); throw Abandon(); } if(o->uniform||off+n>o->size){ violation(s,"out-of-bounds write"); throw Abandon(); }
  return {o,nullptr,off}; }
static void vbufCheck(State&s,Obj*o,Val off,u64 n){ // off+n <= vsize
  Val end=eBin(B_ADD,64,off,K(n)); Val ok=eBin(B_ULE,64,end,o->vsize); Val ok2=eBin(B_ULE,64,off,o->vsize); ok=eBin(B_AND,1,ok,ok2);
  if(!ok.e){ if(!ok.c){ violation(s,"out-of-bounds read"); throw Abandon(); } return; }
  if(satWith(s,{{ok.e,false}})){ State*n2=fork(s); Val nk=eNot(ok); assume(*n2,nk.e,true); violation(*n2,"out-of-bounds read"); freeState(n2); if(!satWith(s,{{ok.e,true}})) throw Abandon(); assume(s,ok.e,true); } }
static Val byteAt(const Ref&r,u64 i){ if(r.raw) return K(r.raw[i]); if(r.o->uniform) return K(r.o->fill); u64 k=r.off+i; if(!r.o->s.empty()&&r.o->s[k]) return Val{r.o->s[k],0}; return K(r.o->b[k]); }
static void setByte(Ref&r,u64 i,Val v){ u64 k=r.off+i; if(v.e){ if(r.o->s.empty()) r.o->s.assign(r.o->size,nullptr); r.o->s[k]=v.e; } else { r.o->b[k]=v.c; if(!r.o->s.empty()) r.o->s[k]=nullptr; } }
static Val loadBytes(const Ref&r,u64 off,unsigned w){
  unsigned nb=(w+7)/8; 
  if(r.raw||(!r.o->uniform&&r.o->s.empty())){ u64 x=0; memcpy(&x,r.raw?r.raw+off:r.o->b.data()+r.off+off,nb); return K(x&maskW(w)); }
  bool sym=false; for(unsigned i=0;i<nb;i++) if(byteAt(r,off+i).e){ sym=true; break; }
  if(!sym){ u64 x=0; for(unsigned i=0;i<nb;i++) x|=byteAt(r,off+i).c<<(8*i); return K(x&maskW(w)); }
  Val v=byteAt(r,off); for(unsigned i=1;i<nb;i++) v=eConcat(byteAt(r,off+i),8,v,8*i); return eExtract(v,nb*8,0,w); }
static void storeBytes(Ref&r,u64 off,unsigned w,Val v){
  unsigned nb=(w+7)/8; if(!v.e){ for(unsigned i=0;i<nb;i++) setByte(r,off+i,K(v.c>>(8*i)&255)); return; }
  v=eZext(v,w,nb*8); for(unsigned i=0;i<nb;i++) setByte(r,off+i,eExtract(v,nb*8,8*i,8)); }

// ------------------------------------------------------------------ violations
static std::string hex(const u8*p,size_t n){ static const char*h="0123456789abcdef"; std::string r; for(size_t i=0;i<n;i++){ r+=h[p[i]>>4]; r+=h[p[i]&15]; } return r; }
static std::string esc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static std::string modelTrace(State&s){
  z3::model m(*Z); if(!satWith(s,{},&m,true)) throw EngineError("violating path has no model");
  std::vector<Trace*> ts; for(Trace*t=s.tr;t;t=t->up) ts.push_back(t); std::reverse(ts.begin(),ts.end()); std::string r;
  for(auto*t:ts){ if(t->kind==0){ std::vector<u8> b; for(u64 i=0;i<t->n;i++){ u64 v=t->v+i; z3::expr x=m.eval(Z->bv_const(("b"+std::to_string(v)).c_str(),8),false); u64 c; if(!x.is_numeral_u64(c)){ c=0; for(int pref: {(int)'a',(int)'0',-1}){ if(pref<0){ for(int q=0;q<256;q++) if(s.dom[v][q>>6]>>(q&63)&1){ c=q; break; } break; } if(s.dom[v][pref>>6]>>(pref&63)&1){ c=pref; break; } } } b.push_back(c); } r+="B "+std::to_string(t->n)+" "+hex(b.data(),b.size())+"\n"; }
    else r+="C "+std::to_string(t->n)+" "+std::to_string(t->v)+"\n"; }
  return r; }
static Instr* curInstr(Frame*f){ auto&b=f->f->bb[f->bb].ins; return f->ip<b.size()?&b[f->ip]:nullptr; }
static void violation(State&s,const std::string&kind,u64 code){
  Violation v; v.kind=kind; v.code=code;
  for(int i=(int)s.fr.size()-1;i>=0;i--){ Instr*I=curInstr(s.fr[i]); u32 d=I?I->dbg:0; if(!d) v.stack.push_back(s.fr[i]->f->name);
    while(d){ auto l=M.loc(d); std::string t=l.fn+" "+l.file+":"+std::to_string(l.line); v.stack.push_back(t); if(v.loc.empty()) v.loc=t; if(v.repoLoc.empty()&&l.file.find("/repo/src/")!=std::string::npos) v.repoLoc=t; d=M.inlinedAt(d); } }
  std::string key=kind+"|"+std::to_string(code)+"|"+(kind=="assert"||kind=="fail"?"":v.repoLoc.empty()?v.loc:v.repoLoc);
  auto it=J.viol.find(key); if(it!=J.viol.end()){ it->second.count++; return; }
  if(J.viol.size()>=J.maxViol) return;
  v.trace=modelTrace(s); J.viol[key]=v; }

// ------------------------------------------------------------------ interpreter
static inline Val getv(Frame&F,const Opnd&o,unsigned i=0){ return o.slot>=0?F.r[o.slot+i]:o.ks?(*o.ks)[i]:o.k; }
static bool TRACE=getenv("SXTRACE")!=nullptr;
static Frame& top(State&s){ Frame*&f=s.fr.back(); if(f->rc>1){ Frame*n=new Frame(*f); n->rc=1; f->rc--; f=n; } return *f; }
static std::string hereLoc(State&s){ Frame*F=s.fr.back(); auto l=M.loc(F->f->bb[F->bb].ins[F->ip].dbg); return F->f->name+" "+l.file+":"+std::to_string(l.line); }
static void concretize(State&s,Opnd&o,unsigned w,size_t cap=4096){ // forks so that the operand becomes constant; re-executes
  Frame&F=top(s); if(TRACE){ Instr&I=F.f->bb[F.bb].ins[F.ip]; auto l=M.loc(I.dbg); fprintf(stderr,"concretize in %s op %d %s:%u\n",F.f->name.c_str(),(int)I.op,l.file.c_str(),(unsigned)l.line); if(F.r[o.slot].e) fprintf(stderr,"  value %s\n",eStr(F.r[o.slot]).c_str()); } Val v=F.r[o.slot]; auto vals=values(s,v,w,cap); if(vals.empty()) throw EngineError("no value");
  for(size_t i=1;i<vals.size();i++){ State*n=fork(s); Val q=eBin(B_EQ,w,v,K(vals[i])); if(q.e) assume(*n,q.e,true); top(*n).r[o.slot]=K(vals[i]); pushWork(n); }
  Val q=eBin(B_EQ,w,v,K(vals[0])); if(q.e) assume(s,q.e,true); top(s).r[o.slot]=K(vals[0]); throw Refork(); }
static u64 conc(State&s,Frame&F,Opnd&o,unsigned w=64){ Val v=getv(F,o); if(!v.e) return v.c; v=simp(s,v); if(!v.e) return v.c; concretize(s,o,w); return 0; }
static u64 concAddr(State&s,Frame&F,Opnd&o){ return conc(s,F,o,64); }

static void setBlock(Frame&F,int nb){
  int pb=F.bb; Block&B=F.f->bb[nb];
  if(!B.phis.empty()){
    Val tmp[64]; std::vector<Val> big; size_t tot=0; for(auto&p:B.phis) tot+=p.n; Val*t=tmp; if(tot>64){ big.resize(tot); t=big.data(); }
    size_t k=0; for(auto&p:B.phis){ const Opnd*o=nullptr; for(auto&x:p.in) if(x.first==pb){ o=&x.second; break; } if(!o) throw EngineError("phi without edge in "+F.f->name); for(unsigned i=0;i<p.n;i++) t[k++]=getv(F,*o,i); }
    k=0; for(auto&p:B.phis) for(unsigned i=0;i<p.n;i++) F.r[p.dst+i]=t[k++]; }
  F.bb=nb; F.ip=0; }
static void pushFrame(State&s,Func*f,int ret){ M.parseFunc(f); if(f->bb.empty()) throw EngineError("call of undefined function "+f->name); f->calls++; Frame*n=new Frame; n->f=f; n->ret=ret; n->r.assign(f->nslots,K(0)); s.fr.push_back(n); if(s.fr.size()>4000){ violation(s,"stack overflow"); throw Abandon(); } }
static void copyMem(State&s,u64 d,u64 a,u64 n){ if(!n) return; Ref src=rd(s,a,n); if(src.o&&src.o->uniform) vbufCheck(s,src.o,K(src.off),n); std::vector<Val> tmp(n); for(u64 i=0;i<n;i++) tmp[i]=byteAt(src,i); Ref dst=wr(s,d,n); for(u64 i=0;i<n;i++) setByte(dst,i,tmp[i]); }
static void addTrace(State&s,int kind,u64 n,u64 v){ Trace*t=new Trace{1,s.tr,kind,n,v}; s.tr=t; }
static u64 newVars(State&s,u64 n){ u64 f=s.dom.size(); for(u64 i=0;i<n;i++) s.dom.push_back(FULL); if(s.dom.size()>MAXVARS) throw EngineError("too many symbolic bytes"); J.vars=std::max<u64>(J.vars,s.dom.size()); return f; }
static u128 c128(Frame&F,const Opnd&o,bool&sym){ Val l=getv(F,o,0),h=getv(F,o,1); if(l.e||h.e) sym=true; return (u128)l.c|((u128)h.c<<64); }

// integers of 65 to 128 bits: a low and a high part
static Val cat128(Val lo,Val hi,unsigned hw,unsigned at,unsigned n){ // bits [at,at+n), n<=64
  if(at+n<=64) return eExtract(lo,64,at,n); if(at>=64+hw) return K(0); if(at>=64){ unsigned m=std::min(n,64+hw-at); return eZext(eExtract(hi,hw,at-64,m),m,n); }
  Val l=eExtract(lo,64,at,64-at); unsigned got=64-at, m=std::min(n-got,hw); Val r=eConcat(eExtract(hi,hw,0,m),m,l,got); return eZext(r,got+m,n); }
static void wideBin(Frame&F,Instr&I){
  if(I.w>128) throw EngineError("integer wider than 128 bits"); unsigned hw=I.w-64; Val a=getv(F,I.a,0),c=getv(F,I.a,1),b=getv(F,I.b,0),d=getv(F,I.b,1),lo,hi;
  switch(I.sub){
    case B_AND: case B_OR: case B_XOR: lo=eBin(I.sub,64,a,b); hi=eBin(I.sub,hw,c,d); break;
    case B_ADD: { lo=eBin(B_ADD,64,a,b); Val cy=eZext(eBin(B_ULT,64,lo,a),1,hw); hi=eBin(B_ADD,hw,eBin(B_ADD,hw,c,d),cy); break; }
    case B_SUB: { lo=eBin(B_SUB,64,a,b); Val cy=eZext(eBin(B_ULT,64,a,b),1,hw); hi=eBin(B_SUB,hw,eBin(B_SUB,hw,c,d),cy); break; }
    case B_SHL: case B_LSHR: { if(b.e||d.e) throw EngineError("symbolic wide shift"); u64 k=b.c; if(d.c||k>=I.w){ lo=hi=K(0); break; }
      if(I.sub==B_LSHR){ lo=cat128(a,c,hw,k,64); hi=64+k>=I.w?K(0):eZext(eExtract(c,hw,k,hw-k),hw-k,hw); }
      else { lo=k>=64?K(0):eBin(B_SHL,64,a,K(k)); if(k>=64) hi=eExtract(eBin(B_SHL,64,a,K(k-64)),64,0,hw); else if(!k) hi=c; else { // hi = bits [64-k, 64-k+hw) of the value
          hi=cat128(a,c,hw,64-k,hw); } } break; }
    default: throw EngineError("symbolic wide integer operation"); }
  F.r[I.dst]=lo; F.r[I.dst+1]=hi; }
static void wideCmp(Frame&F,Instr&I){
  unsigned w=I.ty->bits; if(w>128) throw EngineError("integer wider than 128 bits"); unsigned hw=w-64; Val a=getv(F,I.a,0),c=getv(F,I.a,1),b=getv(F,I.b,0),d=getv(F,I.b,1); int p=I.sub;
  Val e=eBin(B_AND,1,eBin(B_EQ,hw,c,d),eBin(B_EQ,64,a,b)), r;
  if(p==B_EQ) r=e; else if(p==B_NE) r=eNot(e);
  else { bool g=p==B_UGT||p==B_UGE; if(p!=B_ULT&&p!=B_ULE&&!g) throw EngineError("symbolic wide signed comparison");
    Val l=eBin(g?B_UGT:B_ULT,64,a,b), h=eBin(g?B_UGT:B_ULT,hw,c,d); r=eBin(B_OR,1,h,eBin(B_AND,1,eBin(B_EQ,hw,c,d),l)); if(p==B_ULE||p==B_UGE) r=eBin(B_OR,1,r,e); }
  F.r[I.dst]=r; }
// does the address point into a buffer of symbolic length (all of its bytes are the same)?
static void addends(Val v,u64&k,int depth){ if(!v.e){ k+=v.c; return; } if(v.e->op==E_CONST){ k+=v.e->k; return; } if(depth<8&&v.e->op==E_BIN&&v.e->sub==B_ADD){ auto W=[](Expr*x){ return x->op==E_CONST?K(x->k):Val{x,0}; }; addends(W(v.e->a),k,depth+1); addends(W(v.e->b),k,depth+1); } }
static Obj* inUniform(State&s,Val a,Val&off){
  if(!a.e) return nullptr; u64 k=0; addends(a,k,0); u64 id=k>>IDSHIFT; Obj*o=id?robj(s,id):nullptr; if(!o||!o->uniform||o->freed) return nullptr;
  off=eBin(B_ADD,64,a,K(0-(id<<IDSHIFT))); return o; }
static void doLoad(State&s,Frame&F,Instr&I){
  Val a=getv(F,I.a); if(a.e) a=simp(s,a);
  if(!a.e){ u64 sz=I.ty->mem(); if(!sz&&I.ty->leaves.empty()) return; Ref r=rd(s,a.c,sz); if(r.o&&r.o->uniform) vbufCheck(s,r.o,K(r.off),sz);
    for(size_t i=0;i<I.ty->leaves.size();i++) F.r[I.dst+i]=loadBytes(r,I.ty->leaves[i].off,I.ty->leaves[i].w); return; }
  Expr*e=a.e;
  if(e->op==E_UT){ // table load: one object, concrete content
    const Mask&m=s.dom[e->var]; u64 id=0; bool one=true, first=true;
    for(int i=0;i<256;i++) if(m[i>>6]>>(i&63)&1){ u64 x=e->tab->v[i]>>IDSHIFT; if(first){ id=x; first=false; } else if(x!=id){ one=false; break; } }
    if(one){ const u8*raw=nullptr; u64 size=0; Obj*o=robj(s,id); if(o){ if(!o->freed&&!o->uniform&&o->s.empty()){ raw=o->b.data(); size=o->size; } } else if(id<M.gById.size()&&id&&M.gById[id]){ Global*g=M.gById[id]; M.readyGlobal(g); if(!g->external){ raw=g->bytes.data(); size=g->size; } }
      if(raw){ u64 sz=I.ty->mem(); Mask bad{}; bool anyBad=false; for(int i=0;i<256;i++) if(m[i>>6]>>(i&63)&1){ u64 off=e->tab->v[i]&OFFM; if(off+sz>size){ bad[i>>6]|=1ull<<(i&63); anyBad=true; } }
        if(anyBad){ State*n=fork(s); n->dom[e->var]=bad; bool ok=true; if(s.cv.has(e->var)) ok=satWith(*n,{},nullptr,true); if(ok) violation(*n,"out-of-bounds read"); freeState(n); s.dom[e->var]=andNM(m,bad); if(!anyM(s.dom[e->var])) throw Abandon(); if(s.cv.has(e->var)&&!satWith(s,{},nullptr,true)) throw Abandon(); throw Refork(); }
        for(size_t l=0;l<I.ty->leaves.size();l++){ u64 t[256]; auto&L=I.ty->leaves[l]; unsigned nb=(L.w+7)/8; for(int i=0;i<256;i++){ u64 off=e->tab->v[i]&OFFM; u64 x=0; if((e->tab->v[i]>>IDSHIFT)==id&&off+sz<=size) memcpy(&x,raw+off+L.off,nb); t[i]=x&maskW(L.w); } F.r[I.dst+l]=mkUT(e->var,L.w,t); }
        return; } }
    if(one){ Obj*o=robj(s,id); if(o&&o->uniform&&!o->freed){ vbufCheck(s,o,eBin(B_ADD,64,a,K(0-(id<<IDSHIFT))),I.ty->mem()); Ref r{o,nullptr,0}; for(size_t i=0;i<I.ty->leaves.size();i++) F.r[I.dst+i]=loadBytes(r,0,I.ty->leaves[i].w); return; } }
    concretize(s,I.a,64); }
  // symbolic offset into a uniform buffer?
  { Val off; Obj*o=inUniform(s,a,off); if(o){ vbufCheck(s,o,off,I.ty->mem()); Ref r{o,nullptr,0}; for(size_t i=0;i<I.ty->leaves.size();i++) F.r[I.dst+i]=loadBytes(r,0,I.ty->leaves[i].w); return; } }
  concretize(s,I.a,64); }

static Val popcount(Val v,unsigned w){ Val r=K(0); for(unsigned i=0;i<w;i++) r=eBin(B_ADD,w,r,eZext(eExtract(v,w,i,1),1,w)); return r; }
static Val umap(Val v,unsigned w,u64(*f)(u64,unsigned)){ if(!v.e) return K(f(v.c,w)&maskW(w)); if(v.e->op==E_UT){ u64 t[256]; for(int i=0;i<256;i++) t[i]=f(v.e->tab->v[i],w)&maskW(w); return mkUT(v.e->var,w,t); } return Val{nullptr,~0ull}; }

// assertion: is the negation satisfiable?
static void assertCond(State&s,Val ok,const char*kind,u64 code){
  J.asserts++;
  if(!ok.e){ if(!ok.c){ violation(s,kind,code); throw Abandon(); } return; }
  int f; if(ok.e->op==E_UT&&!s.cv.has(ok.e->var)) f=feasible(s,ok.e); else f=(satWith(s,{{ok.e,false}})?1:0)|2;
  if(f&1){ State*n=fork(s); assume(*n,ok.e,false); violation(*n,kind,code); freeState(n);
    bool can=ok.e->op==E_UT&&!s.cv.has(ok.e->var)?(f&2):satWith(s,{{ok.e,true}}); if(!can) throw Abandon(); assume(s,ok.e,true); } }

static bool doIntrin(State&s,Frame&F,Instr&I,int in){ // returns true if ip must advance
  auto A=[&](int i){ return getv(F,I.args[i]); };
  auto W=[&](int i){ return I.argT[i]->bits; };
  auto lanes=[&](auto fn){ Type*t=I.argT[0]; unsigned n=t->leaves.size(), w=t->k==T_VEC?t->el->bits:t->bits; if(t->k==T_INT&&n==2&&in==I_BSWAP){ Val a=getv(F,I.args[0],0),b=getv(F,I.args[0],1); auto sw=[&](Val v){ Val r=eExtract(v,64,0,8); for(unsigned k=8,m=8;k<64;k+=8,m+=8) r=eConcat(r,m,eExtract(v,64,k,8),8); return r; }; if(t->bits!=128) throw EngineError("wide bswap"); F.r[I.dst]=sw(b); F.r[I.dst+1]=sw(a); return; }
    if(t->k==T_INT&&n==2&&in==I_CTLZ){ unsigned hw=t->bits-64; Val lo=getv(F,I.args[0],0),hi=getv(F,I.args[0],1); auto lz=[&](Val v,unsigned w){ Val r=K(w); for(unsigned k=0;k<w;k++) r=eIte(eBin(B_EQ,1,eExtract(v,w,k,1),K(1)),K(w-1-k),r,64); return r; }; Val z=eBin(B_EQ,hw,hi,K(0)); F.r[I.dst]=eIte(z,eBin(B_ADD,64,lz(lo,64),K(hw)),lz(hi,hw),64); F.r[I.dst+1]=K(0); return; }
    if(t->k!=T_VEC&&n>1) throw EngineError("wide integer intrinsic "+I.callee->name); for(unsigned i=0;i<n;i++) F.r[I.dst+i]=fn(i,w); };
  switch(in){
    case I_NOP: return true;
    case I_ASSUME: { Val v=A(0); if(v.e){ Expr*at=nullptr; int r=evalTri(s,v,at); if(r==1) return true; if(r==2){ decide(s,v); } v=K(r); } if(!v.c){ violation(s,"assume violated (undefined behaviour)"); throw Abandon(); } return true; }
    case I_ID: F.r[I.dst]=A(0); return true;
    case I_FALSE: F.r[I.dst]=K(0); return true;
    case I_TRAP: violation(s,"abort"); throw Abandon();
    case I_MEMCPY: { Val off; Val sa=A(1); if(sa.e) sa=simp(s,sa); if(Obj*o=inUniform(s,sa,off)){ u64 d=concAddr(s,F,I.args[0]), n=conc(s,F,I.args[2]); if(n){ vbufCheck(s,o,off,n); u8 f=o->fill; Ref dst=wr(s,d,n); for(u64 i=0;i<n;i++) setByte(dst,i,K(f)); } if(I.dst>=0) F.r[I.dst]=K(d); return true; }
      u64 d=concAddr(s,F,I.args[0]), a=concAddr(s,F,I.args[1]), n=conc(s,F,I.args[2]); copyMem(s,d,a,n); if(I.dst>=0) F.r[I.dst]=K(d); return true; }
    case I_MEMSET: { u64 d=concAddr(s,F,I.args[0]), n=conc(s,F,I.args[2]); Val v=eExtract(A(1),W(1),0,8); if(n){ Ref r=wr(s,d,n); for(u64 i=0;i<n;i++) setByte(r,i,v); } if(I.dst>=0) F.r[I.dst]=K(d); return true; }
    case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: 
      lanes([&](unsigned i,unsigned w){ Val a=getv(F,I.args[0],i),b=getv(F,I.args[1],i); Val c=eBin(in==I_UMIN?B_ULT:in==I_UMAX?B_UGT:in==I_SMIN?B_SLT:B_SGT,w,a,b); return eIte(c,a,b,w); }); return true;
    case I_UADDO: { unsigned w=W(0); Val r=eBin(B_ADD,w,A(0),A(1)); Val o=eBin(B_ULT,w,r,A(0)); 
        if(o.e&&w<64){ Val x=eBin(B_ADD,w+1,eZext(A(0),w,w+1),eZext(A(1),w,w+1)); o=eExtract(x,w+1,w,1); }
        F.r[I.dst]=r; F.r[I.dst+1]=o; return true; }
    case I_USUBO: { unsigned w=W(0); Val o=eBin(B_ULT,w,A(0),A(1)); Val r=eBin(B_SUB,w,A(0),A(1)); F.r[I.dst]=r; F.r[I.dst+1]=o; return true; }
    case I_UMULO: { unsigned w=W(0); Val a=A(0),b=A(1); if(!a.e&&!b.e){ u128 p=(u128)a.c*b.c; F.r[I.dst]=K((u64)p&maskW(w)); F.r[I.dst+1]=K(p>maskW(w)); return true; }
        Val r=eBin(B_MUL,w,a,b); Val o; if(a.e) std::swap(a,b); if(a.e) throw EngineError("symbolic umul.with.overflow"); o=a.c==0?K(0):eBin(B_UGT,w,b,K(maskW(w)/a.c)); F.r[I.dst]=r; F.r[I.dst+1]=o; return true; }
    case I_SADDO: case I_SSUBO: { unsigned w=W(0); Val a=A(0),b=A(1); Val r=eBin(in==I_SADDO?B_ADD:B_SUB,w,a,b); Val sa=eBin(B_SLT,w,a,K(0)),sb=eBin(B_SLT,w,b,K(0)),sr=eBin(B_SLT,w,r,K(0)); if(in==I_SSUBO) sb=eNot(sb); Val o=eBin(B_AND,1,eNot(eBin(B_XOR,1,sa,sb)),eBin(B_XOR,1,sa,sr)); F.r[I.dst]=r; F.r[I.dst+1]=o; return true; }
    case I_SMULO: { unsigned w=W(0); Val a=A(0),b=A(1); if(a.e||b.e) throw EngineError("symbolic smul.with.overflow"); __int128 p=(__int128)sx(a.c,w)*sx(b.c,w); i64 q=sx((u64)p&maskW(w),w); F.r[I.dst]=K((u64)p&maskW(w)); F.r[I.dst+1]=K(p!=q); return true; }
    case I_UADDS: lanes([&](unsigned i,unsigned w){ Val a=getv(F,I.args[0],i),b=getv(F,I.args[1],i); Val r=eBin(B_ADD,w,a,b); return eIte(eBin(B_ULT,w,r,a),K(maskW(w)),r,w); }); return true;
    case I_USUBS: lanes([&](unsigned i,unsigned w){ Val a=getv(F,I.args[0],i),b=getv(F,I.args[1],i); return eIte(eBin(B_ULT,w,a,b),K(0),eBin(B_SUB,w,a,b),w); }); return true;
    case I_CTPOP: lanes([&](unsigned i,unsigned w){ Val v=getv(F,I.args[0],i); if(v.e&&v.e->op!=E_UT) return popcount(v,w); return umap(v,w,[](u64 x,unsigned){ return (u64)__builtin_popcountll(x); }); }); return true;
    case I_CTLZ: case I_CTTZ: lanes([&](unsigned i,unsigned w){ Val v=getv(F,I.args[0],i); v=simp(s,v); if(v.e&&v.e->op!=E_UT){ // symbolic: ite chain
          Val r=K(w); for(unsigned b=0;b<w;b++){ unsigned bit=in==I_CTLZ?b:w-1-b; r=eIte(eExtract(v,w,bit,1),K(in==I_CTLZ?w-1-bit:bit),r,w); } return r; }
        return in==I_CTLZ?umap(v,w,[](u64 x,unsigned ww){ return x?(u64)__builtin_clzll(x)-(64-ww):(u64)ww; }):umap(v,w,[](u64 x,unsigned ww){ return x?(u64)__builtin_ctzll(x):(u64)ww; }); }); return true;
    case I_BSWAP: lanes([&](unsigned i,unsigned w){ Val v=getv(F,I.args[0],i); Val r=eExtract(v,w,0,8); for(unsigned b=8,n=8;b<w;b+=8,n+=8) r=eConcat(r,n,eExtract(v,w,b,8),8); return r; }); return true;
    case I_BITREV: lanes([&](unsigned i,unsigned w){ Val v=getv(F,I.args[0],i); Val r=eExtract(v,w,0,1); for(unsigned b=1;b<w;b++) r=eConcat(r,b,eExtract(v,w,b,1),1); return r; }); return true;
    case I_FSHL: case I_FSHR: { unsigned w=W(0); u64 k=conc(s,F,I.args[2],w)%w; Val a=A(0),b=A(1); Val r; if(in==I_FSHL) r=k?eBin(B_OR,w,eBin(B_SHL,w,a,K(k)),eBin(B_LSHR,w,b,K(w-k))):a; else r=k?eBin(B_OR,w,eBin(B_SHL,w,a,K(w-k)),eBin(B_LSHR,w,b,K(k))):b; F.r[I.dst]=r; return true; }
    case I_ABS: lanes([&](unsigned i,unsigned w){ Val a=getv(F,I.args[0],i); return eIte(eBin(B_SLT,w,a,K(0)),eBin(B_SUB,w,K(0),a),a,w); }); return true;
    case I_UCMP: case I_SCMP: { unsigned w=W(0),rw=I.ty->bits; bool sg=in==I_SCMP; Val lt=eBin(sg?B_SLT:B_ULT,w,A(0),A(1)),gt=eBin(sg?B_SGT:B_UGT,w,A(0),A(1)); F.r[I.dst]=eIte(lt,K(maskW(rw)),eZext(gt,1,rw),rw); return true; }
    case I_RED_OR: case I_RED_AND: case I_RED_ADD: { Type*t=I.argT[0]; unsigned w=t->el->bits; Val r=getv(F,I.args[0],0); for(unsigned i=1;i<t->n;i++) r=eBin(in==I_RED_OR?B_OR:in==I_RED_AND?B_AND:B_ADD,w,r,getv(F,I.args[0],i)); F.r[I.dst]=r; return true; }
    case I_MALLOC: { u64 n=conc(s,F,I.args[0]); F.r[I.dst]=K(newObj(s,n,true)); return true; }
    case I_CALLOC: { u64 n=conc(s,F,I.args[0]); u64 m=conc(s,F,I.args[1]); F.r[I.dst]=K(newObj(s,n*m,true)); return true; }
    case I_PMEMALIGN: { u64 p=concAddr(s,F,I.args[0]); u64 n=conc(s,F,I.args[2]); u64 o=newObj(s,n,true); Ref r=wr(s,p,8); storeBytes(r,0,64,K(o)); F.r[I.dst]=K(0); return true; }
    case I_REALLOC: { u64 p=concAddr(s,F,I.args[0]); u64 n=conc(s,F,I.args[1]); u64 o=newObj(s,n,true); if(p){ Obj*q=robj(s,p>>IDSHIFT); if(!q||q->freed||!q->heap||(p&OFFM)){ violation(s,"invalid realloc"); throw Abandon(); } copyMem(s,o,p,std::min(n,q->size)); wobj(s,p>>IDSHIFT)->freed=true; } F.r[I.dst]=K(o); return true; }
    case I_FREE: { u64 p=concAddr(s,F,I.args[0]); if(p){ Obj*q=robj(s,p>>IDSHIFT); if(!q||q->freed||!q->heap||(p&OFFM)){ violation(s,"invalid free"); throw Abandon(); } q=wobj(s,p>>IDSHIFT); q->freed=true; q->b.clear(); q->b.shrink_to_fit(); q->s.clear(); } return true; }
    case I_MEMCMP: { u64 a=concAddr(s,F,I.args[0]),b=concAddr(s,F,I.args[1]),n=conc(s,F,I.args[2]); bool eqOnly=I.callee->name=="bcmp"; if(!n){ F.r[I.dst]=K(0); return true; } Ref x=rd(s,a,n),y=rd(s,b,n); 
        for(u64 i=0;i<n;i++){ Val p=byteAt(x,i),q=byteAt(y,i); Val ne=eBin(B_NE,8,p,q); if(!ne.e){ if(!ne.c) continue; F.r[I.dst]=eqOnly||(!p.e&&!q.e)?K(eqOnly?1:p.c<q.c?0xffffffffu:1):K(0); if(!eqOnly&&(p.e||q.e)) F.r[I.dst]=eIte(eBin(B_ULT,8,p,q),K(0xffffffffu),K(1),32); return true; }
          if(decide(s,ne)){ F.r[I.dst]=eqOnly?K(1):eIte(eBin(B_ULT,8,p,q),K(0xffffffffu),K(1),32); return true; } }
        F.r[I.dst]=K(0); return true; }
    case I_STRLEN: { u64 a=concAddr(s,F,I.args[0]); u64 n=0; for(;;n++){ Ref r=rd(s,a+n,1); Val v=byteAt(r,0); if(v.e) throw EngineError("symbolic strlen"); if(!v.c) break; } F.r[I.dst]=K(n); return true; }
    // ---- harness hooks
    case I_SX_BYTES: { u64 p=concAddr(s,F,I.args[0]); u64 n=conc(s,F,I.args[1]); u64 v=newVars(s,n); addTrace(s,0,n,v); if(n){ Ref r=wr(s,p,n); for(u64 i=0;i<n;i++) setByte(r,i,mkVar(v+i)); } return true; }
    case I_SX_CHOOSE: { u64 n=conc(s,F,I.args[0]); if(!n) throw EngineError("sx_choose(0)"); F.ip++; State* cur=&s; for(u64 i=1;i<n;i++){ State*c=fork(*cur); addTrace(*c,1,n,i); top(*c).r[I.dst]=K(i); pushWork(c); } addTrace(s,1,n,0); top(s).r[I.dst]=K(0); return false; }
    case I_SX_ASSUME: { Val v=eBin(B_NE,I.argT[0]->bits,A(0),K(0)); if(!v.e){ if(!v.c) throw Abandon(); return true; } int f=feasible(s,v.e); if(!(f&2)) throw Abandon(); if(f&1) assume(s,v.e,true); return true; }
    case I_SX_ASSERT: { u64 code=conc(s,F,I.args[1],W(1)); Val v=eBin(B_NE,W(0),A(0),K(0)); assertCond(s,v,"assert",code); return true; }
    case I_SX_ASSERT_EQ: { u64 a=concAddr(s,F,I.args[0]),b=concAddr(s,F,I.args[1]),n=conc(s,F,I.args[2]); u64 code=conc(s,F,I.args[3],W(3)); Val ok=K(1); if(n){ Ref x=rd(s,a,n),y=rd(s,b,n); for(u64 i=0;i<n;i++) ok=eBin(B_AND,1,ok,eBin(B_EQ,8,byteAt(x,i),byteAt(y,i))); }
        assertCond(s,ok,"assert",code); return true; }
    case I_SX_FAIL: { u64 code=conc(s,F,I.args[0],W(0)); violation(s,"fail",code); throw Abandon(); }
    case I_SX_REACH: { u64 k=conc(s,F,I.args[0],W(0)); J.reach[k]++; s.rh=(s.rh*31+k+1)&0xffffffff; return true; }
    case I_SX_PARAM: { u64 i=conc(s,F,I.args[0],W(0)); if(i>=J.params.size()) throw EngineError("missing parameter"); F.r[I.dst]=K((u64)J.params[i]); return true; }
    case I_SX_VBUF: { Val n=A(0); u64 f=conc(s,F,I.args[1],W(1)); u64 a=newObj(s,0,false); Obj*o=wobj(s,a>>IDSHIFT); o->uniform=true; o->fill=f; o->vsize=n; F.r[I.dst]=K(a); return true; }
    case I_SX_CONC: { u64 v=conc(s,F,I.args[0],W(0)); F.r[I.dst]=K(v); return true; }
    case I_SX_ITE: { Val c=eBin(B_NE,W(0),A(0),K(0)); F.r[I.dst]=eIte(c,A(1),A(2),W(1)); return true; }
    case I_SX_END: throw Abandon();
    case I_GETRANDOM: { u64 a=concAddr(s,F,I.args[0]), n=conc(s,F,I.args[1]); Ref r=wr(s,a,n); for(u64 i=0;i<n;i++) setByte(r,i,K((i*37+11)&255)); F.r[I.dst]=K(n); return true; }
  }
  throw EngineError("intrinsic not handled: "+I.callee->name); }

static Val castLane(int sub,Val v,unsigned w,unsigned w2){ if(sub==C_SEXT) return eSext(v,w,w2); if(w2<w) return eExtract(v,w,0,w2); if(w2>w) return eZext(v,w,w2); return v; }
// Executes one state until it ends or (if stopFork) forks. Returns true if the state is still alive.
static bool runState(State*sp){
  State&s=*sp; Frame*Fp=&top(s);
  try { for(;;){
    Frame&F=*Fp; Instr&I=F.f->bb[F.bb].ins[F.ip]; I.seen=true;
    if(TRACE){ auto l=M.loc(I.dbg); fprintf(stderr,"%s bb%d ip%u op%d sub%d dst%d a=%s b=%s %s:%d\n",F.f->name.substr(0,90).c_str(),F.bb,F.ip,I.op,I.sub,I.dst,eStr(getv(F,I.a)).c_str(),I.b.slot>=0?eStr(getv(F,I.b)).c_str():std::to_string(I.b.k.c).c_str(),l.file.c_str(),l.line); }
    s.ic++; J.instrs++; if(s.ic>J.maxIc){ violation(s,"hang"); throw Abandon(); }
    if((J.instrs&0x1ff)==0&&now()-J.t0>J.timeout) throw EngineError("time limit");
    try { switch(I.op){
      case O_NOP: F.ip++; break;
      case O_ALLOCA: { u64 n=conc(s,F,I.a); F.r[I.dst]=K(newObj(s,I.ty->size*n,false)); F.al.push_back(F.r[I.dst].c); F.ip++; break; }
      case O_LOAD: doLoad(s,F,I); F.ip++; break;
      case O_STORE: { u64 a=concAddr(s,F,I.a); u64 sz=I.ty->mem(); if(sz||!I.ty->leaves.empty()){ Ref r=wr(s,a,sz); for(size_t i=0;i<I.ty->leaves.size();i++) storeBytes(r,I.ty->leaves[i].off,I.ty->leaves[i].w,getv(F,I.b,i)); } F.ip++; break; }
      case O_GEP: { Val a=getv(F,I.a); if(I.goff) a=eBin(B_ADD,64,a,K((u64)I.goff)); for(auto&g:I.gi){ Val x=eSext(getv(F,g.o),g.w,64); if(g.scale!=1) x=eBin(B_MUL,64,x,K((u64)g.scale)); a=eBin(B_ADD,64,a,x); } F.r[I.dst]=a; F.ip++; break; }
      case O_BIN: {
        if(I.ty->k==T_INT&&I.n==2){ bool sym=false; u128 a=c128(F,I.a,sym),b=c128(F,I.b,sym),r=0; if(sym){ wideBin(F,I); F.ip++; break; } switch(I.sub){ case B_ADD:r=a+b;break; case B_SUB:r=a-b;break; case B_MUL:r=a*b;break; case B_AND:r=a&b;break; case B_OR:r=a|b;break; case B_XOR:r=a^b;break; case B_SHL:r=b>=128?0:a<<(int)b;break; case B_LSHR:r=b>=128?0:a>>(int)b;break; case B_UDIV:r=a/b;break; case B_UREM:r=a%b;break; default: throw EngineError("wide op"); } u128 m=I.w>=128?~(u128)0:(((u128)1<<I.w)-1); r&=m; F.r[I.dst]=K((u64)r); F.r[I.dst+1]=K((u64)(r>>64)); F.ip++; break; }
        for(unsigned i=0;i<I.n;i++){ Val a=getv(F,I.a,i),b=getv(F,I.b,i); if(!a.e&&!b.e){ bool ok; Val r=constBin(I.sub,I.w,a.c,b.c,ok); if(!ok){ violation(s,"division by zero"); throw Abandon(); } F.r[I.dst+i]=r; }
          else { if(I.sub>=B_UDIV&&I.sub<=B_SREM){ Val z=eBin(B_EQ,I.w,b,K(0)); if(z.e?decide(s,z):z.c){ violation(s,"division by zero"); throw Abandon(); } }
            F.r[I.dst+i]=eBin(I.sub,I.w,a,b); } }
        F.ip++; break; }
      case O_ICMP: {
        if(I.ty->k==T_INT&&I.ty->leaves.size()==2){ bool sym=false; u128 a=c128(F,I.a,sym),b=c128(F,I.b,sym); if(sym){ wideCmp(F,I); F.ip++; break; } bool r; switch(I.sub){ case B_EQ:r=a==b;break; case B_NE:r=a!=b;break; case B_ULT:r=a<b;break; case B_ULE:r=a<=b;break; case B_UGT:r=a>b;break; case B_UGE:r=a>=b;break; default: throw EngineError("wide cmp"); } F.r[I.dst]=K(r); F.ip++; break; }
        for(unsigned i=0;i<I.n;i++) F.r[I.dst+i]=eBin(I.sub,I.w,getv(F,I.a,i),getv(F,I.b,i)); F.ip++; break; }
      case O_CAST: {
        if(I.sub==C_BIT){ Type*a=I.ty,*b=I.ty2; if(a->leaves.size()==b->leaves.size()){ for(unsigned i=0;i<I.n;i++) F.r[I.dst+i]=getv(F,I.a,i); }
          else { // regroup bits through memory order
            std::vector<Val> bits; Val acc=K(0); unsigned tw=0; std::vector<std::pair<Val,unsigned>> segs; for(size_t i=0;i<a->leaves.size();i++) segs.push_back({getv(F,I.a,i),a->leaves[i].w});
            size_t si=0; unsigned sp2=0; for(unsigned i=0;i<I.n;i++){ unsigned need=b->leaves[i].w; Val v{}; unsigned got=0; while(got<need){ unsigned take=std::min(need-got,segs[si].second-sp2); Val p=eExtract(segs[si].first,segs[si].second,sp2,take); v=got?eConcat(p,take,v,got):p; got+=take; sp2+=take; if(sp2==segs[si].second){ si++; sp2=0; } } F.r[I.dst+i]=v; } (void)acc; (void)tw; } F.ip++; break; }
        if(I.ty->k==T_INT&&(I.ty->bits>64||I.ty2->bits>64)&&I.ty2->k==T_INT){ Val lo=getv(F,I.a,0); 
          if(I.ty->bits>128||I.ty2->bits>128) throw EngineError("integer wider than 128 bits");
          unsigned hw=I.ty->bits>64?I.ty->bits-64:0, hw2=I.ty2->bits>64?I.ty2->bits-64:0;
          if(!hw2){ F.r[I.dst]=I.ty2->bits==64?lo:castLane(C_TRUNC,lo,64,I.ty2->bits); }
          else if(!hw){ Val x=I.sub==C_SEXT?eSext(lo,I.ty->bits,64):eZext(lo,I.ty->bits,64); F.r[I.dst]=x; F.r[I.dst+1]=I.sub==C_SEXT?eExtract(eBin(B_ASHR,64,x,K(63)),64,0,hw2):K(0); }
          else { Val hi=getv(F,I.a,1); F.r[I.dst]=lo; F.r[I.dst+1]=hw==hw2?hi:castLane(I.sub,hi,hw,hw2); }
          F.ip++; break; }
        if(I.ty->k==T_FLT||I.ty2->k==T_FLT) throw EngineError("floating point cast");
        for(unsigned i=0;i<I.n;i++) F.r[I.dst+i]=castLane(I.sub,getv(F,I.a,i),I.w,I.w2); F.ip++; break; }
      case O_FREEZE: for(unsigned i=0;i<I.n;i++) F.r[I.dst+i]=getv(F,I.a,i); F.ip++; break;
      case O_SELECT: {
        if(I.ty2->k==T_VEC){ unsigned w=I.ty->el->bits; for(unsigned i=0;i<I.n;i++) F.r[I.dst+i]=eIte(getv(F,I.a,i),getv(F,I.b,i),getv(F,I.c,i),w); F.ip++; break; }
        Val c=getv(F,I.a); if(c.e&&I.n==1){ Val b=getv(F,I.b),d=getv(F,I.c); int cv=c.e->op==E_UT?c.e->var:-2; auto ok=[&](Val v){ return !v.e||(v.e->op==E_UT&&v.e->var==cv); }; 
          if((cv>=0&&ok(b)&&ok(d))||I.w==1||same(b,d)){ F.r[I.dst]=eIte(c,b,d,I.w); F.ip++; break; } }
        bool t=c.e?decide(s,c):c.c&1; for(unsigned i=0;i<I.n;i++) F.r[I.dst+i]=getv(F,t?I.b:I.c,i); F.ip++; break; }
      case O_BR: setBlock(F,I.t0); break;
      case O_CBR: { Val c=getv(F,I.a); bool t=c.e?decide(s,c):c.c&1; setBlock(F,t?I.t0:I.t1); break; }
      case O_SWITCH: { Val v=getv(F,I.a); if(v.e) v=simp(s,v);
        if(!v.e){ int t=I.t0; for(auto&x:I.cases) if(x.first==v.c){ t=x.second; break; } setBlock(F,t); break; }
        if(v.e->op==E_UT){ std::vector<std::pair<int,Mask>> g; const Mask&m=s.dom[v.e->var]; for(int i=0;i<256;i++) if(m[i>>6]>>(i&63)&1){ int t=I.t0; for(auto&x:I.cases) if(x.first==v.e->tab->v[i]){ t=x.second; break; } bool f=false; for(auto&y:g) if(y.first==t){ y.second[i>>6]|=1ull<<(i&63); f=true; } if(!f){ Mask mm{}; mm[i>>6]|=1ull<<(i&63); g.push_back({t,mm}); } }
          // each group as a condition, confirmed by the solver
          int var=v.e->var; std::vector<std::pair<int,Expr*>> live; for(auto&y:g){ u64 t[256]; for(int i=0;i<256;i++) t[i]=y.second[i>>6]>>(i&63)&1; Val c=mkUT(var,1,t); if(!c.e){ live.push_back({y.first,nullptr}); continue; } int f=feasible(s,c.e); if(f&2) live.push_back({y.first,c.e}); }
          if(live.empty()) throw EngineError("switch with no feasible target");
          for(size_t i=1;i<live.size();i++){ State*n=fork(s); if(live[i].second) assume(*n,live[i].second,true); setBlock(top(*n),live[i].first); pushWork(n); }
          if(live[0].second) assume(s,live[0].second,true); setBlock(top(s),live[0].first); Fp=&top(s); break; }
        { int t=-1; for(auto&x:I.cases){ Val c=eBin(B_EQ,I.w,v,K(x.first)); if(c.e?decide(s,c):c.c){ t=x.second; break; } } setBlock(top(s),t<0?I.t0:t); break; } }
      case O_RET: {
        std::vector<Val> rv; if(I.ty->k!=T_VOID) for(size_t i=0;i<I.ty->leaves.size();i++) rv.push_back(getv(F,I.a,i));
        for(u64 a:F.al) killObj(s,a); int ret=F.ret; Frame*f=s.fr.back(); s.fr.pop_back(); if(--f->rc==0) delete f;
        if(s.fr.empty()){ if(!(J.ends&(J.ends+1))&&J.samples.size()<24) J.samples.push_back("\""+esc(modelTrace(s)+"R "+std::to_string(s.rh)+"\n")+"\""); J.ends++; throw Abandon(); }
        Fp=&top(s); if(ret>=0) for(size_t i=0;i<rv.size();i++) Fp->r[ret+i]=rv[i]; Fp->ip++; break; }
      case O_UNREACH: violation(s,"unreachable code reached"); throw Abandon();
      case O_CALL: {
        Func*f=I.callee; if(!f){ u64 a=conc(s,F,I.a); u64 id=a>>IDSHIFT; if(a&OFFM||id>=M.fById.size()||!M.fById[id]){ violation(s,"call of an invalid function pointer"); throw Abandon(); } f=M.fById[id]; }
        int in=f->intrin; 
        if(in){ if(!I.callee){ Func*sv=I.callee; I.callee=f; (void)sv; bool adv; try{ adv=doIntrin(s,F,I,in); }catch(...){ I.callee=nullptr; throw; } I.callee=nullptr; if(adv) F.ip++; else Fp=&top(s); } else if(doIntrin(s,F,I,in)) F.ip++; else Fp=&top(s); break; }
        if(f->panic){ std::string k="panic"; size_t i=f->name.find("4core9panicking"); std::string t=f->name.substr(i+15); size_t j=0; while(j<t.size()&&isdigit((unsigned char)t[j])) j++; size_t n=atoi(t.c_str()); if(n==0){ } else { if(j<t.size()&&t[j]=='_') j++; k+=" "+t.substr(j,n); 
              if(t.substr(j,n)=="panic_const"){ std::string u=t.substr(j+n); size_t q=0; while(q<u.size()&&isdigit((unsigned char)u[q])) q++; k+="::"+u.substr(q,atoi(u.c_str())); } }
            violation(s,k); throw Abandon(); }
        M.parseFunc(f); if(f->decl) throw EngineError("call of external function "+f->name);
        std::vector<Val> av; for(size_t i=0;i<I.args.size();i++) for(size_t l=0;l<I.argT[i]->leaves.size();l++) av.push_back(getv(F,I.args[i],l));
        pushFrame(s,f,I.dst); Fp=s.fr.back(); size_t k=0; for(size_t i=0;i<f->argSlot.size();i++) for(size_t l=0;l<f->argT[i]->leaves.size();l++){ if(k>=av.size()) throw EngineError("argument count"); Fp->r[f->argSlot[i]+l]=av[k++]; }
        break; }
      case O_EXTRACT: for(unsigned i=0;i<I.n;i++) F.r[I.dst+i]=getv(F,I.a,I.idx[0]+i); F.ip++; break;
      case O_INSERT: { for(unsigned i=0;i<I.n;i++) F.r[I.dst+i]=getv(F,I.a,i); for(unsigned i=0;i<I.idx[1];i++) F.r[I.dst+I.idx[0]+i]=getv(F,I.b,i); F.ip++; break; }
      case O_EXTELT: { u64 k=conc(s,F,I.b); F.r[I.dst]=getv(F,I.a,k); F.ip++; break; }
      case O_INSELT: { u64 k=conc(s,F,I.c); for(unsigned i=0;i<I.n;i++) F.r[I.dst+i]=getv(F,I.a,i); F.r[I.dst+k]=getv(F,I.b); F.ip++; break; }
      case O_SHUF: { u64 n=I.ty->n; std::vector<Val> t; for(u64 k:I.idx) t.push_back(k<n?getv(F,I.a,k):getv(F,I.b,k-n<n?k-n:0)); for(size_t i=0;i<t.size();i++) F.r[I.dst+i]=t[i]; F.ip++; break; }
      case O_ATOMICRMW: { u64 a=concAddr(s,F,I.a); unsigned nb=I.ty->size; Ref r=rd(s,a,nb); Val o=loadBytes(r,0,I.w); Val v=getv(F,I.b); Val n; switch(I.sub){ case 0:n=v;break; case 1:n=eBin(B_ADD,I.w,o,v);break; case 2:n=eBin(B_SUB,I.w,o,v);break; case 3:n=eBin(B_AND,I.w,o,v);break; case 4:n=eBin(B_OR,I.w,o,v);break; case 5:n=eBin(B_XOR,I.w,o,v);break; default: throw EngineError("atomicrmw"); } Ref w=wr(s,a,nb); storeBytes(w,0,I.w,n); F.r[I.dst]=o; F.ip++; break; }
      case O_CMPXCHG: { u64 a=concAddr(s,F,I.a); unsigned nb=I.ty->size; Ref r=rd(s,a,nb); Val o=loadBytes(r,0,I.w); Val c=eBin(B_EQ,I.w,o,getv(F,I.b)); bool t=c.e?decide(s,c):c.c; if(t){ Ref w=wr(s,a,nb); storeBytes(w,0,I.w,getv(F,I.c)); } F.r[I.dst]=o; F.r[I.dst+1]=K(t); F.ip++; break; }
      case O_UNSUPPORTED: throw EngineError("unsupported instruction: "+I.txt+" in "+F.f->name);
    } } catch(Refork&){ Fp=&top(s); }
    if(forkedFlag){ forkedFlag=false; Fp=&top(s); if(stopFork) return true; }
  } } catch(Abandon&){ J.paths++; forkedFlag=false; return false; }
}

static void runJob(){
  Func*f=M.func(J.harness); if(!f) throw EngineError("no harness "+J.harness);
  J.t0=now(); State*s=new State; pushFrame(*s,f,-1); for(size_t i=0;i<f->argSlot.size();i++) s->fr.back()->r[f->argSlot[i]]=K(0);
  work.clear(); 
  if(J.parts>1){ // breadth-first until there is enough to share out, then keep every parts-th state
    std::deque<State*> q{s}; stopFork=true; u64 target=J.parts*24; u64 guard=0;
    while(!q.empty()&&q.size()<target&&guard++<target*40){ State*c=q.front(); q.pop_front(); bool alive=runState(c); if(alive) q.push_back(c); else freeState(c); for(auto*w:work) q.push_back(w); work.clear(); }
    stopFork=false; u64 i=0; u64 donePaths=J.paths; if(J.part!=0){ J.paths=0; J.ends=0; J.samples.clear(); J.viol.clear(); J.reach.clear(); } (void)donePaths;
    for(auto*c:q){ if(i++%J.parts==J.part) work.push_back(c); else freeState(c); }
  } else work.push_back(s);
  stopFork=false;
  while(!work.empty()){ State*c=work.back(); work.pop_back(); bool alive=runState(c); if(alive) throw EngineError("state not finished"); freeState(c); }
}
static void dumpForks(){ if(!FP) return; std::vector<std::pair<u64,std::string>> v; for(auto&x:forkProf) v.push_back({x.second,x.first}); std::sort(v.rbegin(),v.rend()); for(size_t i=0;i<v.size()&&i<12;i++) fprintf(stderr,"%8llu %s\n",(unsigned long long)v[i].first,v[i].second.c_str()); forkProf.clear(); }
static std::string coverage(){
  std::set<std::string> fns; std::map<std::string,std::set<int>> lines; u64 ins=0, nf=0;
  for(auto&kv:M.funcs){ Func*f=kv.second; if(!f->parsed||f->decl||kv.first!=f->name) continue; bool any=false; for(auto&b:f->bb) for(auto&I:b.ins) if(I.seen){ ins++; any=true; u32 d=I.dbg; while(d){ auto l=M.loc(d); size_t k=l.file.find("/repo/src/"); if(k!=std::string::npos){ fns.insert(l.file.substr(k+10)+":"+l.fn); lines[l.file.substr(k+10)].insert(l.line); } d=M.inlinedAt(d); } } if(any) nf++; }
  std::string r="\"ir_functions\":"+std::to_string(nf)+",\"ir_instructions\":"+std::to_string(ins)+",\"functions\":["; bool c=false; for(auto&x:fns){ if(c) r+=","; c=true; r+="\""+esc(x)+"\""; } r+="],\"lines\":{"; c=false; for(auto&x:lines){ if(c) r+=","; c=true; r+="\""+esc(x.first)+"\":["; bool d=false; for(int l:x.second){ if(d) r+=","; d=true; r+=std::to_string(l); } r+="]"; } return r+"}"; }
int main(int argc,char**argv){
  if(argc<2){ fprintf(stderr,"usage: sx module.ll  < jobs\n  job line: name harness part parts maxinstr timeout maxviol params...\n"); return 2; }
  z3::context ctx; Z=&ctx; z3::solver sol(ctx,getenv("SX_LOGIC")?getenv("SX_LOGIC"):"QF_FD"); SOL=&sol; z3::params p(ctx); p.set("timeout",60000u); sol.set(p);
  try { M.load(argv[1]); } catch(std::exception&e){ fprintf(stderr,"load: %s\n",e.what()); return 2; }
  baseId=M.nextId; std::string line;
  while(std::getline(std::cin,line)){
    if(line.empty()) continue; std::istringstream is(line); J=Job(); QS=Q(); is>>J.name>>J.harness>>J.part>>J.parts>>J.maxIc>>J.timeout>>J.maxViol; i64 x; while(is>>x) J.params.push_back(x);
    for(auto&kv:M.funcs) if(kv.second->parsed) for(auto&b:kv.second->bb) for(auto&I:b.ins) I.seen=false;
    std::string err; try { runJob(); } catch(z3::exception&e){ err=std::string("z3: ")+e.msg(); } catch(std::exception&e){ err=e.what(); } dumpForks();
    for(auto*w:work) freeState(w); work.clear();
    std::string o="{\"job\":\""+esc(J.name)+"\",\"error\":"+(err.empty()?"null":"\""+esc(err)+"\"")+",\"paths\":"+std::to_string(J.paths)+",\"instrs\":"+std::to_string(J.instrs)+",\"forks\":"+std::to_string(J.forks)+",\"asserts\":"+std::to_string(J.asserts)+",\"vars\":"+std::to_string(J.vars);
    char b[600]; snprintf(b,600,",\"seconds\":%.3f,\"z3_seconds\":%.3f,\"q_unary\":%llu,\"q_unary_distinct\":%llu,\"q_multi\":%llu,\"q_multi_distinct\":%llu,\"q_models\":%llu,\"q_witness\":%llu,\"sat\":%llu,\"unsat\":%llu",now()-J.t0,QS.t,(unsigned long long)QS.unary,(unsigned long long)QS.unaryDistinct,(unsigned long long)QS.multi,(unsigned long long)QS.multiDistinct,(unsigned long long)QS.models,(unsigned long long)QS.wit,(unsigned long long)QS.sat,(unsigned long long)QS.unsat); o+=b;
    o+=",\"reach\":{"; bool c=false; for(auto&r:J.reach){ if(c) o+=","; c=true; o+="\""+std::to_string(r.first)+"\":"+std::to_string(r.second); } o+="},\"violations\":["; c=false;
    for(auto&kv:J.viol){ auto&v=kv.second; if(c) o+=","; c=true; o+="{\"kind\":\""+esc(v.kind)+"\",\"code\":"+std::to_string(v.code)+",\"loc\":\""+esc(v.loc)+"\",\"repo_loc\":\""+esc(v.repoLoc)+"\",\"count\":"+std::to_string(v.count)+",\"trace\":\""+esc(v.trace)+"\",\"stack\":["; bool d=false; for(auto&t:v.stack){ if(d) o+=","; d=true; o+="\""+esc(t)+"\""; } o+="]}"; }
    o+="],\"completed\":"+std::to_string(J.ends)+",\"samples\":["; for(size_t i=0;i<J.samples.size();i++){ if(i) o+=","; o+=J.samples[i]; } o+="],"+coverage()+"}\n"; std::cout<<o<<std::flush;
  }
}
