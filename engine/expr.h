// Hash-consed bit-vector expressions (width 1..128) with simplification, known-bits and evaluation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint32_t u32;

enum class K : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Concat, Extract, ZExt, SExt, Ite,
  // floating point; operands and results are IEEE bit patterns
  FAdd, FSub, FMul, FDiv, FRem, FOeq, FOlt, FOle, FUno, FPExt, FPTrunc, FPToSI, FPToUI, SIToFP, UIToFP,
  FRound /*val: mode 0=nearest-even(rint) 1=nearest-away(round) 2=floor 3=ceil 4=trunc*/, FSqrt, FMA
};
inline bool isFPKind(K k) { return k >= K::FAdd; }

struct Expr {
  K k; uint8_t nops; uint16_t w; u32 id;
  u128 val;              // Const: value; Var: index; Extract: low bit; FRound: mode
  const Expr* op[3];
  u64 kz, ko;            // known zero / known one bits (only for w<=64)
  u64 lo, hi;            // unsigned range (only for w<=64)
  bool hasFP;
  mutable u32 evalEpoch; mutable u32 visit;
  mutable u128 evalVal;
  mutable const std::vector<u32>* vars; // interned, sorted variable set (lazy)
  Expr* next;            // hash chain
  bool isConst() const { return k == K::Const; }
  u64 c64() const { return (u64)val; }
};
typedef const Expr* E;

struct VarInfo { std::string name; int w; };
extern std::vector<VarInfo> gVars;
extern std::vector<E> gVarExpr;

inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

E mkConst(u128 v, int w);
E mkVar(const std::string& name, int w);
E mkBin(K k, E a, E b);
E mkExtract(E a, int off, int w);
E mkConcat(E hi, E lo);
E mkZExt(E a, int w);
E mkSExt(E a, int w);
E mkIte(E c, E t, E f);
E mkNot(E a); // bitwise not
E acNorm(E e); bool isLarge(E e, int lim);
E mkFP1(K k, E a, int w, u128 val = 0);
E mkFP2(K k, E a, E b, int w);
E mkFP3(K k, E a, E b, E c, int w);
inline E mkBool(bool b) { return mkConst(b, 1); }
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
inline E mkAnd(E a, E b) { return mkBin(K::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(K::Or, a, b); }
inline E mkAdd(E a, E b) { return mkBin(K::Add, a, b); }
inline E mkSub(E a, E b) { return mkBin(K::Sub, a, b); }
inline bool isTrue(E e) { return e->isConst() && e->val == 1; }
inline bool isFalse(E e) { return e->isConst() && e->val == 0; }

typedef std::vector<u64> Assign; // by var index; missing -> 0
u128 evalExpr(E e, const Assign& m);
void newEvalEpoch();           // call when the assignment changed
const std::vector<u32>& exprVars(E e);
std::string exprStr(E e, int depth = 6);
size_t exprCount();

// concrete semantics shared by folding and evaluation
u128 evalOp(K k, int w, int opw, u128 a, u128 b, u128 c, u128 val);
E exprById(u32 id);
E mkConst(u128 v, int w);
E mkMux(const std::vector<E>& leaves, E idx); // leaves.size() power of two not required
E exprAnd(const std::vector<E>& v);
E exprNotBool(E e);
inline E mkUlt(E a,E b){return mkBin(K::Ult,a,b);}
inline E mkUle(E a,E b){return mkBin(K::Ule,a,b);}
E mkFNeg(E a);
E mkFAbs(E a);
u64 fpConstBits(double d, int w);
E mkFPConst(double d,int w);
E mkFPMin(E a,E b);
E mkFPMax(E a,E b);
E mkCopySign(E a,E b);
E mkCtPop(E a);
E mkCtlz(E a);
E mkCttz(E a);
E mkBswap(E a);
E mkAbs(E a);
E mkSMin(E a,E b);
E mkSMax(E a,E b);
E mkUMin(E a,E b);
E mkUMax(E a,E b);
E mkBitReverse(E a);
E mkFshl(E a,E b,E c);
E mkFshr(E a,E b,E c);
E mkUAddSat(E,E); E mkUSubSat(E,E); E mkSAddSat(E,E); E mkSSubSat(E,E);
