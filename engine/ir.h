// LLVM IR (textual) model and lazy parser.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <stdexcept>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
struct Expr;
struct Val { Expr* e; u64 c; };              // e==nullptr: concrete value c
inline Val K(u64 c){ return Val{nullptr,c}; }

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };

enum TKind { T_VOID, T_INT, T_PTR, T_FLT, T_ARR, T_STRUCT, T_VEC, T_OTHER };
struct Leaf { u64 off; unsigned w; };        // byte offset and bit width (<=64)
struct Type {
  TKind k; unsigned bits=0; u64 n=0; Type* el=nullptr; std::vector<Type*> f; std::vector<u64> foff; bool packed=false;
  u64 size=0, align=1; u64 mem() const{ return k==T_INT?(bits+7)/8:size; } /* bytes a load or store touches */ std::vector<Leaf> leaves; std::vector<unsigned> fleaf; bool flat=false;
};

struct Opnd { int slot=-1; Val k{nullptr,0}; std::vector<Val>* ks=nullptr; };

enum Op { O_ALLOCA,O_LOAD,O_STORE,O_GEP,O_BIN,O_ICMP,O_CAST,O_SELECT,O_BR,O_CBR,O_SWITCH,O_RET,O_UNREACH,O_CALL,
  O_EXTRACT,O_INSERT,O_ATOMICRMW,O_CMPXCHG,O_NOP,O_FREEZE,O_EXTELT,O_INSELT,O_SHUF,O_UNSUPPORTED };
enum BinOp { B_ADD,B_SUB,B_MUL,B_UDIV,B_SDIV,B_UREM,B_SREM,B_AND,B_OR,B_XOR,B_SHL,B_LSHR,B_ASHR,
  B_EQ,B_NE,B_ULT,B_ULE,B_UGT,B_UGE,B_SLT,B_SLE,B_SGT,B_SGE };
enum CastOp { C_TRUNC,C_ZEXT,C_SEXT,C_BIT };

struct Func;
struct GepIdx { Opnd o; unsigned w; i64 scale; };
struct Instr {
  Op op; u8 sub=0; unsigned w=0, w2=0; int dst=-1; Type* ty=nullptr; Type* ty2=nullptr; unsigned n=1; // n = leaves of result/lanes
  Opnd a,b,c; std::vector<GepIdx> gi; i64 goff=0;
  std::vector<Opnd> args; std::vector<Type*> argT; Func* callee=nullptr; int intrin=0;
  int t0=-1,t1=-1; std::vector<std::pair<u64,int>> cases; std::vector<unsigned> idx;
  u32 dbg=0; bool seen=false; std::string txt;
};
struct Phi { int dst; unsigned n; std::vector<std::pair<int,Opnd>> in; };
struct Block { std::vector<Phi> phis; std::vector<Instr> ins; };
struct Func {
  std::string name; u64 addr=0; const char* beg=nullptr; const char* end=nullptr; bool parsed=false, decl=true;
  std::vector<Block> bb; int nslots=0; std::vector<int> argSlot; std::vector<Type*> argT; Type* ret=nullptr; u32 sub=0; bool varargs=false;
  int intrin=0; bool panic=false; int hidx=-1; u64 calls=0;
};
struct Global { std::string name; u64 addr; const char* init; bool constant, external; Type* ty=nullptr; u64 size=0; bool ready=false; std::vector<u8> bytes; };

static const int IDSHIFT=34;
struct Module {
  std::string text;
  std::unordered_map<std::string,Func*> funcs; std::unordered_map<std::string,Global*> globals;
  std::vector<Global*> gById; std::vector<Func*> fById;   // indexed by id
  u64 nextId=1;
  std::unordered_map<std::string,const char*> typeDefs; std::unordered_map<std::string,Type*> named;
  std::unordered_map<std::string,Type*> typeCache;
  std::unordered_map<u32,const char*> md;
  void load(const std::string& path);
  void parseFunc(Func*);
  void readyGlobal(Global*);
  Func* func(const std::string& n){ auto i=funcs.find(n); return i==funcs.end()?nullptr:i->second; }
  struct Loc{ std::string fn,file; int line=0; };
  Loc loc(u32 dbg, bool outermost=false);
  u32 inlinedAt(u32 dbg);
};
extern Module M;
extern const char* INTRIN_NAMES[];
int intrinsicId(const std::string& n);
Val constBin(int op,unsigned w,u64 a,u64 b,bool&ok);
inline u64 maskW(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
inline i64 sx(u64 v,unsigned w){ return w>=64?(i64)v:(i64)(v<<(64-w))>>(64-w); }
