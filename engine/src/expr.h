// Hash-consed bit-vector / IEEE-float expression DAG with an evaluator.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32; typedef uint16_t u16; typedef int32_t i32;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum EOp : uint8_t {
  E_CONST, E_VAR,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_UREM, E_SDIV, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  // floating point (width 32 or 64); lowered by table enumeration
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FNEG,
  E_FCMP,          // c = LLVM predicate
  E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FPEXT, E_FPTRUNC,
  E_FUNC1,         // c = math function id
  E_FUNC2,
};

enum MathFn { MF_CEIL, MF_FLOOR, MF_TRUNC, MF_RINT, MF_ROUND, MF_SQRT, MF_FABS, MF_LOG, MF_LOG2, MF_LOG10, MF_EXP, MF_EXP2, MF_LOG1P, MF_NEARBYINT, MF_SIN, MF_COS,
              MF_POW, MF_FMIN, MF_FMAX, MF_FMOD, MF_COPYSIGN };

struct Expr {
  EOp op;
  uint8_t hasFP;   // contains an FP operation somewhere below
  uint16_t w;
  u32 id;
  u128 c;          // const value / var index / extract low bit / fcmp pred / fn id
  Expr *a, *b, *d;
  u32 epoch;       // evaluation memo
  u32 flags;
  u128 val;
  int lits;        // index into solver literal table or -1
  Expr *lowered;   // FP lowering memo
  void *z3ast;
  i128 slo, shi;   // signed interval of the value (valid if iv)
  uint8_t iv; uint8_t lin; // lin: outermost operator is linear
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ s) - s);
}
static inline double bits2d(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static inline float bits2f(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static inline u128 d2bits(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline u128 f2bits(float d) { u32 x; memcpy(&x, &d, 4); return x; }
static inline long double bits2ld(u128 v) { long double r = 0; memcpy(&r, &v, 10); return r; }
static inline u128 ld2bits(long double d) { u128 v = 0; memcpy(&v, &d, 10); return v; }
static inline long double toLD(u128 v, unsigned w) { return w == 32 ? (long double)bits2f(v) : w == 64 ? (long double)bits2d(v) : bits2ld(v); }

struct VarInfo { std::string name; unsigned w; u128 ub; /* bound on the zero-extended variable, enforced by a constraint */ };
struct Lin { std::vector<std::pair<Expr *, i128>> t; i128 c = 0; unsigned w = 0; };

struct ExprCtx {
  std::vector<VarInfo> vars;
  std::vector<u128> model;   // current assignment of the variables
  std::vector<Expr *> varExpr;
  u32 epoch = 1;
  u64 nExprs = 0;

  Expr *mkConst(u128 v, unsigned w);
  Expr *mkVar(const std::string &name, unsigned w, u128 ub = ~(u128)0);
  Expr *mk(EOp op, unsigned w, Expr *a, Expr *b = nullptr, Expr *d = nullptr, u128 c = 0);
  Expr *bin(EOp op, Expr *a, Expr *b);
  Expr *ite(Expr *c, Expr *t, Expr *f);
  Expr *notE(Expr *a); // 1-bit or bitwise not
  Expr *extract(Expr *a, unsigned lo, unsigned w);
  Expr *concat(Expr *hi, Expr *lo);
  Expr *zext(Expr *a, unsigned w);
  Expr *sext(Expr *a, unsigned w);
  Expr *eq(Expr *a, Expr *b) { return bin(E_EQ, a, b); }
  u128 eval(Expr *e);
  void setModel(std::vector<u128> m) { model = std::move(m); ++epoch; }
  static u128 fold(EOp op, unsigned w, unsigned wa, u128 a, u128 b, u128 d, u128 c, unsigned wb = 0);
private:
  void interval(Expr *e);
  bool decomp(Expr *e, i128 k, Lin &l);
  bool linOf(Expr *e, i128 k, Lin &l);
  void normLin(Lin &l);
  Expr *build(const Lin &l);
  Expr *linCmp(EOp op, Expr *a, Expr *b);
  Expr *ext(Expr *a, unsigned w, bool s);
  Expr *intern(EOp op, unsigned w, Expr *a, Expr *b, Expr *d, u128 c);
  std::vector<Expr *> table_;
  size_t used_ = 0;
  char *arena_ = nullptr; size_t arenaLeft_ = 0;
};
extern ExprCtx X;
std::string exprStr(Expr *e, int depth = 6);
unsigned knownZeroLow(Expr *e); // number of known zero low bits
EOp dummyE();
