// Symbolic bit-vector expressions. Every symbolic input is a byte variable. Expressions over one variable are kept as
// canonical 256-entry tables; all others as hash-consed nodes over concatenations. Both are translated to z3.
#pragma once
#include "ir.h"
#include <z3++.h>
#include <array>
typedef std::array<u64,4> Mask;             // set of byte values
struct VarSet { std::array<u64,8> b{}; void add(int v){ b[v>>6]|=1ull<<(v&63);} bool has(int v)const{ return b[v>>6]>>(v&63)&1; } bool inter(const VarSet&o)const{ for(int i=0;i<8;i++) if(b[i]&o.b[i]) return true; return false; } void uni(const VarSet&o){ for(int i=0;i<8;i++) b[i]|=o.b[i]; } };
static const int MAXVARS=512;
struct Tab { u64 v[256]; unsigned w; u64 orm, mn, mx; u32 id; Mask truth; };
enum EOp : u8 { E_CONST,E_UT,E_BIN,E_NOT,E_CONCAT,E_EXTRACT,E_SEXT,E_ITE };
struct Expr { EOp op; u8 sub; u8 w; int var; Expr*a,*b,*c; u64 k; Tab*tab; VarSet*vs; u32 id; z3::expr*z; u64 ev=0; u64 gen=0; };
extern z3::context* Z;
Val mkVar(int v);                            // byte variable
Val mkUT(int var,unsigned w,const u64*vals);
Val eBin(int op,unsigned w,Val a,Val b);
Val eNot(Val a);
Val eExtract(Val a,unsigned aw,unsigned lo,unsigned w);
Val eConcat(Val hi,unsigned hw,Val lo,unsigned lw);
Val eZext(Val a,unsigned w,unsigned w2);
Val eSext(Val a,unsigned w,unsigned w2);
Val eIte(Val c,Val a,Val b,unsigned w);
Expr* eNode(Val v,unsigned w);
z3::expr toZ(Expr*e);
z3::expr maskZ(int var,const Mask&m);
z3::expr tabZ(Tab*t,const z3::expr&x);
std::string eStr(Val v,int depth=4);
u64 evalE(Expr*e,const u8*vals,u64 gen);      // value under concrete bytes; gen identifies the assignment
inline bool same(Val a,Val b){ return a.e==b.e&&(a.e||a.c==b.c); }
extern u64 nExprs,nTabs;
