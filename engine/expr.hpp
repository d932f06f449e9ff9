// Hash-consed bit-vector expressions with constant folding, known-bits and interval reasoning.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <string>
#include <algorithm>
#include <functional>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
typedef unsigned __int128 U; typedef __int128 I128;

enum Op : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, CONCAT, EXTRACT, ZEXT, SEXT, ITE,
  FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FLT, FLE, FEQ, FUNO, SI2F, UI2F, F2SI, F2UI, F2F, FRINT /*k=mode*/, FABS_, FNEG_, NOPS };

struct SymSet { u64 w[6]; };
enum { MAXSYM = 384 };

struct Expr {
  Op op; u8 w; u8 fpw; u8 hasfp; u32 id; u32 hash;
  U k;                       // constant / sym id / extract offset
  Expr *a, *b, *c;
  u64 kz, ko;                // known zero / one bits (w<=64)
  u64 lo, hi;                // unsigned interval (w<=64)
  u32 leaves;                // >0: tree of ITEs with that many constant leaves
  u32 size;                  // rough dag weight
  SymSet ss;
  void* z;                   // Z3_ast
  u32 epoch; U val;          // evaluation memo
  Expr* next;
};

static inline U maskW(int w){ return w>=128? ~(U)0 : (((U)1<<w)-1); }
static inline u64 mask64(int w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline I128 sxt(U v,int w){ if(w>=128) return (I128)v; U m=(U)1<<(w-1); return (I128)((v^m)-m); }
static inline i64 sxt64(u64 v,int w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); return (i64)((v^m)-m); }

extern std::vector<Expr*> htab; extern u32 nexpr; extern u32 evalEpoch;

// ---------- floating point helpers on bit patterns ----------
static inline double bd(U v){ u64 x=(u64)v; double d; memcpy(&d,&x,8); return d; }
static inline float bf(U v){ u32 x=(u32)v; float d; memcpy(&d,&x,4); return d; }
static inline long double bx(U v){ long double d=0; u64 m=(u64)v; u16 e=(u16)(v>>64); memcpy(&d,&m,8); memcpy(((char*)&d)+8,&e,2); return d; }
static inline U db(double d){ u64 x; memcpy(&x,&d,8); return x; }
static inline U fb(float d){ u32 x; memcpy(&x,&d,4); return x; }
static inline U xb(long double d){ u64 m; u16 e; memcpy(&m,&d,8); memcpy(&e,((char*)&d)+8,2); return ((U)e<<64)|m; }
U fpFold2(int op,int w,U a,U b);
U fpConv(int op,int dw,int sw,U a);
U fpRint(int mode,int w,U a);

Expr* mkConst(int w,U v);
Expr* mkSymId(int w,u32 id);
Expr* mk2(Op op,Expr*a,Expr*b);
Expr* mkExtract(Expr*a,int off,int w);
Expr* mkZext(Expr*a,int w);
Expr* mkSext(Expr*a,int w);
Expr* mkConcat(Expr*hi,Expr*lo);
Expr* mkIte(Expr*c,Expr*a,Expr*b);
Expr* mkNot(Expr*a);
Expr* mkFp1(Op op,int dw,Expr*a,int mode=0);
Expr* mkFp2(Op op,int fpw,Expr*a,Expr*b);
static inline bool isC(Expr*e){ return e->op==CONST; }
typedef std::vector<U> Model; // by symbol id
U evalE(Expr*e,const Model&m);   // caller bumps evalEpoch when the model changes
static inline void newEval(){ evalEpoch++; }
std::string exprStr(Expr*e,int depth=6);
