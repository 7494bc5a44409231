// Lazy parser for the textual LLVM IR that rustc emits.
#include "ir.h"
#include <fstream>
#include <sstream>
#include <algorithm>
Module M;

static u64 align_up(u64 x,u64 a){ return (x+a-1)/a*a; }
static void finishType(Type*t){
  t->flat=true;
  switch(t->k){
    case T_INT: { u64 b=(t->bits+7)/8; u64 a=1; while(a<b) a<<=1; if(a>16)a=16; t->align=a; t->size=align_up(b,a);
      if(t->bits<=64){ t->leaves={{0,t->bits}}; } else { unsigned r=t->bits; u64 o=0; while(r){ unsigned w=r>64?64:r; t->leaves.push_back({o,w}); o+=8; r-=w; } } break; }
    case T_PTR: t->bits=64; t->size=8; t->align=8; t->leaves={{0,64}}; break;
    case T_FLT: t->size=t->bits/8; t->align=t->size; t->leaves={{0,t->bits>64?64:t->bits}}; if(t->bits>64) t->leaves.push_back({8,t->bits-64}); break;
    case T_ARR: case T_VEC: {
      t->align=t->el->align; u64 st=t->k==T_VEC&&t->el->k==T_INT? (t->el->bits+7)/8 : t->el->size; t->size=st*t->n;
      if(t->k==T_VEC){ u64 a=1; while(a<t->size) a<<=1; t->align=a; if(t->el->k==T_INT&&t->el->bits<8){ t->size=(t->n*t->el->bits+7)/8; } }
      if(t->n*t->el->leaves.size()<=4096) for(u64 i=0;i<t->n;i++) for(auto&l:t->el->leaves) t->leaves.push_back({i*st+l.off,l.w});
      break; }
    case T_STRUCT: {
      u64 o=0; t->align=1;
      for(auto*f:t->f){ u64 a=t->packed?1:f->align; o=align_up(o,a); if(a>t->align)t->align=a; t->foff.push_back(o); t->fleaf.push_back(t->leaves.size());
        for(auto&l:f->leaves) t->leaves.push_back({o+l.off,l.w}); o+=f->size; }
      t->size=align_up(o,t->align); break; }
    default: break;
  }
}
Val constBin(int op,unsigned w,u64 a,u64 b,bool&ok){
  u64 m=maskW(w); ok=true; u64 r=0;
  switch(op){
    case B_ADD:r=a+b;break; case B_SUB:r=a-b;break; case B_MUL:r=a*b;break;
    case B_UDIV: if(!b){ok=false;break;} r=a/b;break;
    case B_UREM: if(!b){ok=false;break;} r=a%b;break;
    case B_SDIV: { i64 x=sx(a,w),y=sx(b,w); if(!y||(y==-1&&a==(1ull<<(w-1)))){ok=false;break;} r=(u64)(x/y);break; }
    case B_SREM: { i64 x=sx(a,w),y=sx(b,w); if(!y||(y==-1&&a==(1ull<<(w-1)))){ok=false;break;} r=(u64)(x%y);break; }
    case B_AND:r=a&b;break; case B_OR:r=a|b;break; case B_XOR:r=a^b;break;
    case B_SHL:r=b>=w?0:a<<b;break; case B_LSHR:r=b>=w?0:a>>b;break; case B_ASHR:r=(u64)(sx(a,w)>>(b>=w?w-1:b));break;
    case B_EQ:return K(a==b); case B_NE:return K(a!=b); case B_ULT:return K(a<b); case B_ULE:return K(a<=b); case B_UGT:return K(a>b); case B_UGE:return K(a>=b);
    case B_SLT:return K(sx(a,w)<sx(b,w)); case B_SLE:return K(sx(a,w)<=sx(b,w)); case B_SGT:return K(sx(a,w)>sx(b,w)); case B_SGE:return K(sx(a,w)>=sx(b,w));
  }
  return K(r&m);
}

// ------------------------------------------------------------------ text cursor
struct Cur {
  const char* p; const char* e; Func* f=nullptr; std::unordered_map<std::string,int>* slots=nullptr; std::unordered_map<std::string,int>* blocks=nullptr;
  void ws(){ while(p<e){ if(*p==' '||*p=='\t'||*p=='\n'||*p=='\r') p++; else if(*p==';'){ while(p<e&&*p!='\n')p++; } else break; } }
  void sp(){ while(p<e&&(*p==' '||*p=='\t'))p++; }
  [[noreturn]] void err(const std::string&m){ std::string ctx(p,std::min<size_t>(80,e-p)); throw EngineError("IR parse error: "+m+" near: "+ctx+(f?" in "+f->name:"")); }
  bool is(const char*s){ ws(); size_t n=strlen(s); return (size_t)(e-p)>=n&&!memcmp(p,s,n); }
  bool eat(const char*s){ if(is(s)){ p+=strlen(s); return true;} return false; }
  void need(const char*s){ if(!eat(s)) err(std::string("expected ")+s); }
  static bool wc(char c){ return isalnum((unsigned char)c)||c=='_'||c=='.'||c=='$'||c=='-'; }
  std::string word(){ ws(); const char*s=p; while(p<e&&wc(*p))p++; return std::string(s,p-s); }
  std::string peekWord(){ const char*s=p; auto w=word(); p=s; ws(); return w; }
  bool eatWord(const char*s){ ws(); const char*q=p; if(word()==s) return true; p=q; return false; }
  std::string name(){ // after sigil
    if(p<e&&*p=='"'){ const char*s=++p; while(*p!='"')p++; std::string r(s,p-s); p++; return r; }
    const char*s=p; while(p<e&&wc(*p))p++; return std::string(s,p-s); }
  void skipBal(char o,char c){ int d=0; do{ if(*p=='"'){ p++; while(*p!='"')p++; } else if(*p==o)d++; else if(*p==c)d--; p++; }while(d>0); }
  u64 num(){ ws(); bool neg=false; if(*p=='-'){neg=true;p++;} u64 v=0; if(!isdigit((unsigned char)*p)) err("number"); while(p<e&&isdigit((unsigned char)*p)){ v=v*10+(*p-'0'); p++; } return neg?(u64)-(i64)v:v; }
  bool typeAhead(){ ws(); if(*p=='{'||*p=='['||*p=='<'||*p=='%') return true; const char*s=p; auto w=word(); p=s;
    if(w=="ptr"||w=="void"||w=="float"||w=="double"||w=="half"||w=="fp128"||w=="x86_fp80"||w=="label"||w=="metadata"||w=="token"||w=="opaque"||w=="bfloat") return true;
    if(w.size()>1&&w[0]=='i'){ for(size_t i=1;i<w.size();i++) if(!isdigit((unsigned char)w[i])) return false; return true; } return false; }
  static Type* intT(unsigned b){ static std::map<unsigned,Type*> c; auto&t=c[b]; if(!t){ t=new Type{T_INT}; t->bits=b; finishType(t);} return t; }
  static Type* ptrT(){ static Type*t=nullptr; if(!t){ t=new Type{T_PTR}; finishType(t);} return t; }
  Type* type(){
    ws();
    const char* s0=p;
    Type* t=nullptr;
    if(*p=='{'||(*p=='<'&&p[1]=='{')){
      bool packed=*p=='<'; t=new Type{T_STRUCT}; t->packed=packed; p+=packed?2:1; ws();
      if(!is("}")) do{ t->f.push_back(type()); }while(eat(","));
      need("}"); if(packed) need(">"); finishType(t);
    } else if(*p=='['||*p=='<'){
      bool v=*p=='<'; p++; u64 n=num(); if(!eatWord("x")) err("x"); t=new Type{v?T_VEC:T_ARR}; t->n=n; t->el=type(); need(v?">":"]");
      std::string key(s0,p-s0); auto it=M.typeCache.find(key); if(it!=M.typeCache.end()){ delete t; t=it->second; } else { finishType(t); M.typeCache[key]=t; }
    } else if(*p=='%'){
      p++; auto n=name(); auto it=M.named.find(n); if(it!=M.named.end()) t=it->second; else {
        auto d=M.typeDefs.find(n); if(d==M.typeDefs.end()) err("unknown type "+n);
        Cur c{d->second,M.text.data()+M.text.size()}; if(c.is("opaque")){ t=new Type{T_OTHER}; finishType(t);} else t=c.type(); M.named[n]=t; }
    } else {
      auto w=word();
      if(w=="ptr"){ t=ptrT(); if(is("addrspace")){ word(); ws(); skipBal('(',')'); } }
      else if(w=="void"){ static Type*v=new Type{T_VOID}; t=v; }
      else if(w=="float"||w=="double"||w=="half"||w=="fp128"||w=="x86_fp80"||w=="bfloat"){ t=new Type{T_FLT}; t->bits=w=="float"?32:w=="double"?64:(w=="half"||w=="bfloat")?16:128; finishType(t); }
      else if(w=="label"||w=="metadata"||w=="token"){ static Type*v=new Type{T_OTHER}; t=v; }
      else if(w.size()>1&&w[0]=='i') t=intT(atoi(w.c_str()+1));
      else err("type "+w);
    }
    return t;
  }
  void skipAttrs(){ // parameter / return attributes before a type or a value
    for(;;){ ws(); if(*p=='"'){ p++; while(*p!='"')p++; p++; if(*p=='='){ p++; if(*p=='"'){p++; while(*p!='"')p++; p++;} } continue; }
      if(*p=='#'){ p++; word(); continue; }
      if(!isalpha((unsigned char)*p)) return;
      const char*s=p; auto w=word();
      static const char* stop[]={"true","false","null","undef","poison","zeroinitializer","none","getelementptr","inttoptr","ptrtoint","sub","add","trunc","xor","bitcast","blockaddress","splat","c","icmp","select","mul","shl","asm","ptrtoaddr","dso_local_equivalent","no_cfi"};
      for(auto*x:stop) if(w==x){ p=s; return; }
      p=s; if(typeAhead()) return; p=s; word();
      if(w=="align"){ ws(); if(isdigit((unsigned char)*p)) num(); else if(*p=='(') skipBal('(',')'); continue; }
      if(w=="cc"){ num(); continue; }
      sp(); if(*p=='(') skipBal('(',')');
    } }
  int slot(const std::string&n,Type*t){ auto it=slots->find(n); if(it!=slots->end()) return it->second; int s=f->nslots; f->nslots+=std::max<size_t>(1,t->leaves.size()); (*slots)[n]=s; return s; }
  int block(const std::string&n){ auto it=blocks->find(n); if(it!=blocks->end()) return it->second; int b=f->bb.size(); f->bb.emplace_back(); (*blocks)[n]=b; return b; }
  int labelRef(){ need("label"); ws(); need("%"); return block(name()); }
  static std::vector<u8> cstr(Cur&c){ std::vector<u8> r; c.need("\""); while(*c.p!='"'){ if(*c.p=='\\'){ auto h=[](char x){return x<='9'?x-'0':(x|32)-'a'+10;}; if(c.p[1]=='\\'){ r.push_back('\\'); c.p+=2; } else { r.push_back(h(c.p[1])*16+h(c.p[2])); c.p+=3; } } else r.push_back((u8)*c.p++); } c.p++; return r; }
  // constant -> leaves
  void constLeaves(Type*t,std::vector<Val>&out){
    ws();
    if(*p=='%') err("local in constant");
    auto zero=[&]{ for(size_t i=0;i<t->leaves.size();i++) out.push_back(K(0)); };
    if(t->k==T_STRUCT&&(*p=='{'||(*p=='<'&&p[1]=='{'))){ bool pk=*p=='<'; p+=pk?2:1; for(size_t i=0;i<t->f.size();i++){ if(i) need(","); Type*ft=type(); constLeaves(ft,out);} need("}"); if(pk) need(">"); return; }
    if((t->k==T_ARR&&*p=='[')||(t->k==T_VEC&&*p=='<')){ bool v=*p=='<'; p++; for(u64 i=0;i<t->n;i++){ if(i) need(","); Type*et=type(); constLeaves(et,out);} need(v?">":"]"); return; }
    if(t->k==T_ARR&&*p=='c'&&p[1]=='"'){ p++; auto b=cstr(*this); for(u8 x:b) out.push_back(K(x)); return; }
    if(*p=='@'){ p++; out.push_back(K(symAddr(name()))); return; }
    if(isdigit((unsigned char)*p)||*p=='-'){
      if(t->k==T_FLT){ // floating literal: keep raw hex form only
        const char*s=p; while(wc(*p)||*p=='+')p++; std::string v(s,p-s); double d=0; if(v.rfind("0x",0)==0){ u64 x=strtoull(v.c_str(),0,16); memcpy(&d,&x,8);} else d=atof(v.c_str());
        u64 r=0; if(t->bits==64) memcpy(&r,&d,8); else { float fl=(float)d; u32 q; memcpy(&q,&fl,4); r=q; } out.push_back(K(r)); return; }
      if(t->bits>64){ bool neg=*p=='-'; if(neg)p++; unsigned __int128 v=0; while(isdigit((unsigned char)*p)){ v=v*10+(*p-'0'); p++; } if(neg) v=-v; unsigned left=t->bits; for(size_t i=0;i<t->leaves.size();i++){ out.push_back(K((u64)v&maskW(t->leaves[i].w))); v>>=64; left-=64; } return; }
      out.push_back(K(num()&maskW(t->bits))); return; }
    auto w=word();
    if(w=="true"){ out.push_back(K(1)); return; } if(w=="false"||w=="null"){ out.push_back(K(0)); return; }
    if(w=="undef"||w=="poison"||w=="zeroinitializer"||w=="none"){ zero(); return; }
    if(w=="splat"){ ws(); need("("); Type*et=type(); std::vector<Val> v; constLeaves(et,v); need(")"); for(u64 i=0;i<t->n;i++) for(auto&x:v) out.push_back(x); return; }
    if(w=="f0x"||w.rfind("f0x",0)==0){ out.push_back(K(strtoull(w.c_str()+3,0,16))); return; }
    if(w=="getelementptr"){ while(!is("(")) { word(); ws(); if(*p=='('&&false)break; if(is("(")) { // could be inrange(...)
            const char*q=p; p++; if(typeAhead()){ p=q; break; } p=q; skipBal('(',')'); } }
      need("("); Type*bt=type(); need(","); Type*pt=type(); std::vector<Val> v; constLeaves(pt,v); u64 a=v[0].c; Type*cur=bt; bool first=true;
      while(eat(",")){ Type*it=type(); std::vector<Val> iv; constLeaves(it,iv); i64 ix=sx(iv[0].c,it->bits); if(first){ a+=ix*(i64)bt->size; first=false; } else if(cur->k==T_STRUCT){ a+=cur->foff[ix]; cur=cur->f[ix]; } else { a+=ix*(i64)cur->el->size; cur=cur->el; } }
      need(")"); out.push_back(K(a)); return; }
    if(w=="inttoptr"||w=="ptrtoint"||w=="bitcast"||w=="trunc"||w=="ptrtoaddr"){ need("("); Type*st=type(); std::vector<Val> v; constLeaves(st,v); if(!eatWord("to")) err("to"); Type*dt=type(); need(")"); out.push_back(K(v[0].c&maskW(dt->bits))); return; }
    if(w=="sub"||w=="add"||w=="xor"||w=="mul"||w=="shl"){ while(!is("(")) word(); need("("); Type*t1=type(); std::vector<Val> v; constLeaves(t1,v); need(","); Type*t2=type(); constLeaves(t2,v); need(")"); bool ok; out.push_back(constBin(w=="sub"?B_SUB:w=="add"?B_ADD:w=="xor"?B_XOR:w=="mul"?B_MUL:B_SHL,t1->bits,v[0].c,v[1].c,ok)); return; }
    if(w=="no_cfi"||w=="dso_local_equivalent"){ ws(); need("@"); out.push_back(K(symAddr(name()))); return; }
    err("constant "+w);
  }
  static u64 symAddr(const std::string&n){ auto f=M.funcs.find(n); if(f!=M.funcs.end()) return f->second->addr; auto g=M.globals.find(n); if(g!=M.globals.end()) return g->second->addr; throw EngineError("unknown symbol @"+n); }
  void constBytes(Type*t,u8*out){
    ws();
    if(t->k==T_STRUCT&&(*p=='{'||(*p=='<'&&p[1]=='{'))){ bool pk=*p=='<'; p+=pk?2:1; for(size_t i=0;i<t->f.size();i++){ if(i) need(","); Type*ft=type(); constBytes(ft,out+t->foff[i]);} need("}"); if(pk) need(">"); return; }
    if(t->k==T_ARR&&*p=='['){ p++; for(u64 i=0;i<t->n;i++){ if(i) need(","); Type*et=type(); constBytes(et,out+i*et->size);} need("]"); return; }
    if(t->k==T_ARR&&*p=='c'&&p[1]=='"'){ p++; auto b=cstr(*this); memcpy(out,b.data(),b.size()); return; }
    if(is("zeroinitializer")||is("undef")||is("poison")){ word(); return; }
    std::vector<Val> v; constLeaves(t,v);
    for(size_t i=0;i<v.size();i++){ u64 c=v[i].c; unsigned nb=(t->leaves[i].w+7)/8; memcpy(out+t->leaves[i].off,&c,nb); }
  }
  Opnd value(Type*t){
    ws(); Opnd o;
    if(*p=='%'){ p++; o.slot=slot(name(),t); return o; }
    if(t->k==T_OTHER){ // metadata
      if(*p=='!'){ p++; if(*p=='{') skipBal('{','}'); else { word(); ws(); if(*p=='(') skipBal('(',')'); else if(*p=='{') skipBal('{','}'); } return o; }
      if(typeAhead()){ Type*tt=type(); return value(tt);} err("metadata operand"); }
    std::vector<Val> v; constLeaves(t,v);
    if(v.size()==1) o.k=v[0]; else { o.ks=new std::vector<Val>(v); if(!v.empty()) o.k=v[0]; }
    return o;
  }
};

void Module::load(const std::string& path){
  std::ifstream in(path,std::ios::binary); if(!in) throw EngineError("cannot open "+path);
  std::stringstream ss; ss<<in.rdbuf(); text=ss.str(); text.push_back('\n');
  const char*p=text.data(); const char*e=p+text.size();
  gById.push_back(nullptr); fById.push_back(nullptr);
  auto lineEnd=[&](const char*q){ const char*r=(const char*)memchr(q,'\n',e-q); return r?r:e; };
  auto nameAt=[&](const char*q,const char**out){ Cur c{q,e}; auto n=c.name(); *out=c.p; return n; };
  std::vector<std::pair<std::string,const char*>> aliases;
  while(p<e){
    const char*le=lineEnd(p);
    if(*p=='@'){ const char*q; auto n=nameAt(p+1,&q); Cur c{q,e}; c.need("=");
      Global*g=new Global; g->name=n; g->external=false; g->init=nullptr; bool alias=false;
      for(;;){ c.ws(); auto w=c.peekWord(); if(w=="constant"||w=="global"){ c.word(); g->constant=w=="constant"; break; } if(w=="alias"){ alias=true; break; } if(w=="external"||w=="extern_weak") g->external=true; if(w.empty()) c.err("global"); c.word(); c.sp(); if(*c.p=='(') c.skipBal('(',')'); }
      if(alias){ aliases.push_back({n,c.p}); delete g; }
      else { g->init=c.p; g->addr=nextId++<<IDSHIFT; globals[n]=g; gById.push_back(g); fById.push_back(nullptr); }
    } else if(*p=='%'){ const char*q; auto n=nameAt(p+1,&q); Cur c{q,e}; c.ws(); if(c.eat("=")){ c.word(); typeDefs[n]=c.p; }
    } else if(*p=='!'){ if(isdigit((unsigned char)p[1])){ u32 id=strtoul(p+1,nullptr,10); md[id]=p; }
    } else if(!strncmp(p,"define ",7)||!strncmp(p,"declare ",8)){
      bool def=p[1]=='e'&&p[2]=='f';
      // name: first @ not inside parens
      const char*q=p; int d=0; while(q<le){ if(*q=='(')d++; else if(*q==')')d--; else if(*q=='@'&&d==0)break; q++; }
      const char*r; auto n=nameAt(q+1,&r); Func*f=new Func; f->name=n; f->beg=p; f->decl=!def; f->addr=nextId++<<IDSHIFT; funcs[n]=f; gById.push_back(nullptr); fById.push_back(f);
      f->intrin=intrinsicId(n);
      f->panic = n.find("4core9panicking")!=std::string::npos;
      if(def){ const char*s=strstr(p,"\n}\n"); f->end=s+1; le=s+2; }
      else f->end=le;
    }
    p=le+1;
  }
  for(auto&a:aliases){ Cur c{a.second,e}; c.word(); c.type(); c.need(","); c.type(); c.ws(); if(*c.p=='@'){ c.p++; auto t=c.name(); if(funcs.count(t)) funcs[a.first]=funcs[t]; else if(globals.count(t)) globals[a.first]=globals[t]; } }
}
void Module::readyGlobal(Global*g){
  if(g->ready) return; g->ready=true;
  Cur c{g->init,text.data()+text.size()}; g->ty=c.type(); g->size=g->ty->size; g->bytes.assign(g->size,0);
  if(!g->external) c.constBytes(g->ty,g->bytes.data());
}

static int binOp(const std::string&w){ static std::unordered_map<std::string,int> m={{"add",B_ADD},{"sub",B_SUB},{"mul",B_MUL},{"udiv",B_UDIV},{"sdiv",B_SDIV},{"urem",B_UREM},{"srem",B_SREM},{"and",B_AND},{"or",B_OR},{"xor",B_XOR},{"shl",B_SHL},{"lshr",B_LSHR},{"ashr",B_ASHR}}; auto i=m.find(w); return i==m.end()?-1:i->second; }
static int icmpOp(const std::string&w){ static std::unordered_map<std::string,int> m={{"eq",B_EQ},{"ne",B_NE},{"ult",B_ULT},{"ule",B_ULE},{"ugt",B_UGT},{"uge",B_UGE},{"slt",B_SLT},{"sle",B_SLE},{"sgt",B_SGT},{"sge",B_SGE}}; auto i=m.find(w); return i==m.end()?-1:i->second; }

void Module::parseFunc(Func*f){
  if(f->parsed) return; f->parsed=true;
  std::unordered_map<std::string,int> slots, blocks;
  Cur c{f->beg,f->end,f,&slots,&blocks};
  c.word(); // define/declare
  // linkage etc until type
  for(;;){ c.ws(); if(c.typeAhead()) break; auto w=c.word(); if(w.empty()) c.err("define"); if(w=="align"){ c.num(); } if(w=="cc"){ c.num(); } c.sp(); if(*c.p=='(') c.skipBal('(',')'); }
  f->ret=c.type(); c.ws(); c.need("@"); c.name(); c.need("(");
  int anon=0;
  if(!c.eat(")")){ do{ c.ws(); if(c.eat("...")){ f->varargs=true; break; } Type*t=c.type(); c.skipAttrs(); c.ws(); std::string n; if(*c.p=='%'){ c.p++; n=c.name(); } else n=std::to_string(anon); anon++; f->argT.push_back(t); if(!f->decl) f->argSlot.push_back(c.slot(n,t)); }while(c.eat(",")); c.need(")"); }
  if(f->decl) return;
  { const char*le=(const char*)memchr(c.p,'\n',c.e-c.p); std::string hdr(c.p,le-c.p); auto k=hdr.find("!dbg !"); if(k!=std::string::npos) f->sub=strtoul(hdr.c_str()+k+6,0,10); c.p=le+1; }
  int cur=-1; std::string firstLabel;
  // entry block label may be implicit
  auto lineDone=[&](Instr&I){ // consume trailing stuff up to end of line, pick !dbg
    { const char*q=c.p; const char*nl=nullptr; while(q>f->beg&&(q[-1]==' '||q[-1]=='\n'||q[-1]=='\t')){ q--; if(*q=='\n') nl=q; } if(nl) c.p=nl; }
    const char*le=(const char*)memchr(c.p,'\n',c.e-c.p); if(!le) le=c.e;
    std::string_view rest(c.p,le-c.p); auto k=rest.find("!dbg !"); if(k!=std::string_view::npos) I.dbg=strtoul(rest.data()+k+6,nullptr,10);
    c.p=le; };
  while(true){
    c.ws(); if(c.p>=c.e||*c.p=='}') break;
    const char*ls=c.p;
    // label?
    { const char*q=c.p; std::string n; if(*q=='"'){ q++; const char*s=q; while(*q!='"')q++; n.assign(s,q-s); q++; } else { const char*s=q; while(q<c.e&&Cur::wc(*q))q++; n.assign(s,q-s); }
      if(q<c.e&&*q==':'&&!n.empty()){ cur=c.block(n); c.p=q+1; const char*le=(const char*)memchr(c.p,'\n',c.e-c.p); c.p=le; if(firstLabel.empty()) firstLabel=n; continue; } }
    if(cur<0){ cur=c.block(std::to_string(anon)); }
    if(*c.p=='#'){ // debug record: skip line
      const char*le=(const char*)memchr(c.p,'\n',c.e-c.p); c.p=le; continue; }
    Instr I{}; std::string dstName; bool has=false;
    if(*c.p=='%'){ c.p++; dstName=c.name(); c.need("="); has=true; }
    auto w=c.word();
    auto setDst=[&](Type*t){ if(has){ I.dst=c.slot(dstName,t); I.n=t->leaves.size(); } };
    auto skipW=[&](std::initializer_list<const char*> l){ for(;;){ bool m=false; for(auto*x:l) if(c.eatWord(x)) m=true; if(!m) break; } };
    int bo;
    if(w=="tail"||w=="musttail"||w=="notail"){ w=c.word(); }
    if((bo=binOp(w))>=0){ skipW({"nuw","nsw","exact","disjoint"}); Type*t=c.type(); I.op=O_BIN; I.sub=bo; I.ty=t; I.w=t->k==T_VEC?t->el->bits:t->bits; I.a=c.value(t); c.need(","); I.b=c.value(t); setDst(t); }
    else if(w=="icmp"){ skipW({"samesign"}); auto pr=c.word(); I.op=O_ICMP; I.sub=icmpOp(pr); Type*t=c.type(); I.ty=t; I.w=t->k==T_VEC?t->el->bits:t->bits; I.a=c.value(t); c.need(","); I.b=c.value(t); Type*rt=Cur::intT(1); if(t->k==T_VEC){ std::string k="<"+std::to_string(t->n)+" x i1>"; Cur cc{k.data(),k.data()+k.size()}; rt=cc.type(); } setDst(rt); }
    else if(w=="load"){ skipW({"atomic","volatile"}); Type*t=c.type(); I.op=O_LOAD; I.ty=t; c.need(","); Type*pt=c.type(); I.a=c.value(pt); setDst(t); }
    else if(w=="store"){ skipW({"atomic","volatile"}); Type*t=c.type(); I.op=O_STORE; I.ty=t; I.b=c.value(t); c.need(","); Type*pt=c.type(); I.a=c.value(pt); }
    else if(w=="getelementptr"){ skipW({"inbounds","nuw","nusw"}); if(c.is("inrange")){ c.word(); c.ws(); c.skipBal('(',')'); } I.op=O_GEP; Type*bt=c.type(); c.need(","); Type*pt=c.type(); if(pt->k==T_VEC) c.err("vector gep"); I.a=c.value(pt); Type*curT=bt; bool first=true;
      while(c.eat(",")){ c.ws(); if(*c.p=='!') break; Type*it=c.type(); Opnd o=c.value(it); i64 scale; 
        if(first){ scale=bt->size; first=false; if(o.slot<0){ I.goff+=sx(o.k.c,it->bits)*scale; continue; } }
        else if(curT->k==T_STRUCT){ u64 ix=o.k.c; I.goff+=curT->foff[ix]; curT=curT->f[ix]; continue; }
        else { scale=curT->el->size; curT=curT->el; if(o.slot<0){ I.goff+=sx(o.k.c,it->bits)*scale; continue; } }
        I.gi.push_back({o,it->bits,scale}); }
      setDst(Cur::ptrT()); }
    else if(w=="alloca"){ skipW({"inalloca"}); Type*t=c.type(); I.op=O_ALLOCA; I.ty=t; I.a.k=K(1); I.w=64; const char*q=c.p; if(c.eat(",")){ c.ws(); if(c.typeAhead()){ Type*nt=c.type(); I.w=nt->bits; I.a=c.value(nt);} else c.p=q; } setDst(Cur::ptrT()); }
    else if(w=="trunc"||w=="zext"||w=="sext"||w=="ptrtoint"||w=="inttoptr"||w=="bitcast"||w=="addrspacecast"||w=="ptrtoaddr"){ skipW({"nuw","nsw","nneg"}); Type*st=c.type(); I.a=c.value(st); if(!c.eatWord("to")) c.err("to"); Type*dt=c.type(); I.op=O_CAST; I.ty=st; I.ty2=dt; I.w=st->k==T_VEC?st->el->bits:st->bits; I.w2=dt->k==T_VEC?dt->el->bits:dt->bits; I.sub=w=="sext"?C_SEXT:w=="bitcast"||w=="addrspacecast"?C_BIT:(I.w2<I.w?C_TRUNC:C_ZEXT); setDst(dt); }
    else if(w=="freeze"){ Type*t=c.type(); I.op=O_FREEZE; I.ty=t; I.a=c.value(t); setDst(t); }
    else if(w=="select"){ skipW({"fast","nnan","ninf","nsz"}); Type*ct=c.type(); I.a=c.value(ct); c.need(","); Type*t=c.type(); I.b=c.value(t); c.need(","); Type*t2=c.type(); I.c=c.value(t2); I.op=O_SELECT; I.ty=t; I.ty2=ct; I.w=t->bits; setDst(t); }
    else if(w=="phi"){ skipW({"fast"}); Type*t=c.type(); Phi ph; ph.dst=c.slot(dstName,t); ph.n=t->leaves.size(); do{ c.ws(); if(*c.p!='[') break; c.need("["); Opnd o=c.value(t); c.need(","); c.ws(); c.need("%"); int b=c.block(c.name()); c.need("]"); ph.in.push_back({b,o}); const char*q=c.p; if(!c.eat(",")) break; c.ws(); if(*c.p!='['){ c.p=q; break; } }while(true);
      f->bb[cur].phis.push_back(ph); Instr d{}; lineDone(d); continue; }
    else if(w=="br"){ c.ws(); if(c.is("label")){ I.op=O_BR; I.t0=c.labelRef(); } else { Type*t=c.type(); I.op=O_CBR; I.a=c.value(t); c.need(","); I.t0=c.labelRef(); c.need(","); I.t1=c.labelRef(); } }
    else if(w=="switch"){ Type*t=c.type(); I.op=O_SWITCH; I.ty=t; I.w=t->bits; I.a=c.value(t); c.need(","); I.t0=c.labelRef(); c.need("["); while(!c.eat("]")){ Type*ct=c.type(); u64 v=c.value(ct).k.c; c.need(","); int b=c.labelRef(); I.cases.push_back({v,b}); } }
    else if(w=="ret"){ I.op=O_RET; Type*t=c.type(); I.ty=t; if(t->k!=T_VOID) I.a=c.value(t); }
    else if(w=="unreachable"){ I.op=O_UNREACH; }
    else if(w=="extractvalue"){ Type*t=c.type(); I.a=c.value(t); I.op=O_EXTRACT; Type*q=t; unsigned off=0; while(c.eat(",")){ c.ws(); if(*c.p=='!'){ c.p--; break; } u64 ix=c.num(); if(q->k==T_STRUCT){ off+=q->fleaf[ix]; q=q->f[ix]; } else { off+=ix*q->el->leaves.size(); q=q->el; } } I.idx={off}; setDst(q); }
    else if(w=="insertvalue"){ Type*t=c.type(); I.a=c.value(t); c.need(","); Type*vt=c.type(); I.b=c.value(vt); I.op=O_INSERT; I.ty=t; I.ty2=vt; Type*q=t; unsigned off=0; while(c.eat(",")){ c.ws(); if(*c.p=='!'){ c.p--; break; } u64 ix=c.num(); if(q->k==T_STRUCT){ off+=q->fleaf[ix]; q=q->f[ix]; } else { off+=ix*q->el->leaves.size(); q=q->el; } } I.idx={off,(unsigned)vt->leaves.size()}; setDst(t); }
    else if(w=="call"||w=="invoke"){
      skipW({"fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"});
      for(;;){ c.skipAttrs(); if(c.typeAhead()) break; c.err("call"); }
      Type*rt=c.type(); c.ws(); if(*c.p=='(') c.skipBal('(',')'); c.ws();
      I.op=O_CALL; I.ty=rt;
      if(*c.p=='@'){ c.p++; auto n=c.name(); auto*fn=func(n); if(!fn) c.err("unknown callee "+n); I.callee=fn; I.intrin=fn->intrin; }
      else if(c.is("asm")){ I.op=O_UNSUPPORTED; I.txt="inline asm"; const char*le=(const char*)memchr(c.p,'\n',c.e-c.p); 
        // an empty asm used as an optimisation barrier is a no-op
        std::string l(c.p,le-c.p); if(l.find("asm sideeffect \"\"")!=std::string::npos||l.find("asm \"\"")!=std::string::npos) if(rt->k==T_VOID) I.op=O_NOP; c.p=le; setDst(rt); f->bb[cur].ins.push_back(std::move(I)); continue; }
      else I.a=c.value(Cur::ptrT());
      c.ws(); c.need("("); if(!c.eat(")")){ do{ Type*t=c.type(); c.skipAttrs(); I.argT.push_back(t); I.args.push_back(c.value(t)); }while(c.eat(",")); c.need(")"); }
      setDst(rt);
      if(w=="invoke"){ // find "to label"
        const char*q=strstr(c.p,"to label"); c.p=q+2; int b=c.labelRef(); c.ws(); if(!c.eatWord("unwind")) c.err("unwind"); int ub=c.labelRef(); (void)ub; lineDone(I); Instr br{}; br.op=O_BR; br.t0=b; br.dbg=I.dbg; f->bb[cur].ins.push_back(std::move(I)); f->bb[cur].ins.push_back(std::move(br)); continue; }
    }
    else if(w=="fence"){ I.op=O_NOP; }
    else if(w=="atomicrmw"){ skipW({"volatile"}); auto o=c.word(); I.op=O_ATOMICRMW; static std::unordered_map<std::string,int> m={{"xchg",0},{"add",1},{"sub",2},{"and",3},{"or",4},{"xor",5},{"umax",6},{"umin",7}}; auto it=m.find(o); I.sub=it==m.end()?99:it->second; Type*pt=c.type(); I.a=c.value(pt); c.need(","); Type*t=c.type(); I.b=c.value(t); I.ty=t; I.w=t->bits; setDst(t); }
    else if(w=="cmpxchg"){ skipW({"weak","volatile"}); I.op=O_CMPXCHG; Type*pt=c.type(); I.a=c.value(pt); c.need(","); Type*t=c.type(); I.b=c.value(t); c.need(","); Type*t2=c.type(); I.c=c.value(t2); I.ty=t; I.w=t->bits; Type*st=new Type{T_STRUCT}; st->f={t,Cur::intT(1)}; finishType(st); setDst(st); }
    else if(w=="extractelement"){ Type*t=c.type(); I.a=c.value(t); c.need(","); Type*it=c.type(); I.b=c.value(it); I.op=O_EXTELT; I.ty=t; setDst(t->el); }
    else if(w=="insertelement"){ Type*t=c.type(); I.a=c.value(t); c.need(","); Type*et=c.type(); I.b=c.value(et); c.need(","); Type*it=c.type(); I.c=c.value(it); I.op=O_INSELT; I.ty=t; setDst(t); }
    else if(w=="shufflevector"){ Type*t=c.type(); I.a=c.value(t); c.need(","); Type*t2=c.type(); I.b=c.value(t2); c.need(","); Type*mt=c.type(); std::vector<Val> v; c.constLeaves(mt,v); for(auto&x:v) I.idx.push_back(x.c); I.op=O_SHUF; I.ty=t; std::string k="<"+std::to_string(mt->n)+" x i"+std::to_string(t->el->bits)+">"; Cur cc{k.data(),k.data()+k.size()}; setDst(cc.type()); }
    else { // unsupported here; reported only if executed
      I.op=O_UNSUPPORTED; const char*le=(const char*)memchr(ls,'\n',c.e-ls); I.txt.assign(ls,le-ls); c.p=le;
      if(w=="landingpad"){ // swallow clause lines
        for(;;){ c.ws(); if(c.is("cleanup")||c.is("catch")||c.is("filter")){ const char*l2=(const char*)memchr(c.p,'\n',c.e-c.p); c.p=l2; } else break; } }
      if(has) c.slot(dstName,Cur::ptrT());
    }
    lineDone(I);
    f->bb[cur].ins.push_back(std::move(I));
  }
  // entry must be block 0: it is the first block created unless a phi/label forward ref came first (entry has no preds)
}

// ------------------------------------------------------------------ debug locations
static std::string mdField(const char*p,const char*key){
  const char*le=strchr(p,'\n'); std::string_view s(p,le-p); std::string k=std::string(key)+": "; size_t i=0;
  for(;;){ i=s.find(k,i); if(i==std::string_view::npos) return ""; if(i&&(isalnum((unsigned char)s[i-1]))){ i++; continue; } break; }
  i+=k.size(); if(s[i]=='"'){ auto j=s.find('"',i+1); return std::string(s.substr(i+1,j-i-1)); }
  auto j=s.find_first_of(",)",i); return std::string(s.substr(i,j-i)); }
Module::Loc Module::loc(u32 d,bool outermost){
  Loc r; auto it=md.find(d); if(it==md.end()) return r; const char*p=it->second;
  if(outermost) for(;;){ auto ia=mdField(p,"inlinedAt"); if(ia.size()<2) break; auto j=md.find(strtoul(ia.c_str()+1,0,10)); if(j==md.end()) break; p=j->second; }
  r.line=atoi(mdField(p,"line").c_str()); auto sc=mdField(p,"scope");
  for(int n=0;n<40&&sc.size()>1;n++){ auto j=md.find(strtoul(sc.c_str()+1,0,10)); if(j==md.end()) break; const char*q=j->second;
    if(r.file.empty()){ auto fl=mdField(q,"file"); if(fl.size()>1){ auto k=md.find(strtoul(fl.c_str()+1,0,10)); if(k!=md.end()){ auto fn=mdField(k->second,"filename"), dir=mdField(k->second,"directory"); r.file=(fn.size()&&fn[0]=='/')?fn:dir+"/"+fn; } } }
    const char*le=strchr(q,'\n'); std::string_view s(q,le-q); if(s.find("DISubprogram")!=std::string_view::npos){ r.fn=mdField(q,"name"); break; }
    sc=mdField(q,"scope"); }
  return r; }

u32 Module::inlinedAt(u32 d){ auto it=md.find(d); if(it==md.end()) return 0; auto ia=mdField(it->second,"inlinedAt"); return ia.size()<2?0:strtoul(ia.c_str()+1,0,10); }
