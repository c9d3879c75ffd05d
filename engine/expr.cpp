#include "expr.h"
#include <cmath>
#include <cstring>
#include <cstdio>
#include <set>
#include <algorithm>
#include <map>
#include <cfenv>
#include <unordered_set>
using namespace std;

vector<VarInfo> gVars; vector<E> gVarExpr;
static const size_t NB = 1u << 22;
static Expr** table_ = (Expr**)calloc(NB, sizeof(Expr*));
static vector<E> all_;
static u32 epoch_ = 1;
void newEvalEpoch() { ++epoch_; }
size_t exprCount() { return all_.size(); }
E exprById(u32 id) { return all_[id]; }

static char* arena = nullptr; static size_t arenaLeft = 0;
static Expr* newExpr() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = 1 << 22; arena = (char*)malloc(arenaLeft); }
  Expr* r = (Expr*)arena; arena += (sizeof(Expr) + 15) & ~15ull; arenaLeft -= (sizeof(Expr) + 15) & ~15ull; if (arenaLeft > (1u<<23)) arenaLeft = 0;
  return r;
}
static inline int64_t sx(u64 v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline __int128 sx128(u128 v, int w) { return w >= 128 ? (__int128)v : (__int128)(v << (128 - w)) >> (128 - w); }

static double d64(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static float f32(u32 b) { float d; memcpy(&d, &b, 4); return d; }
static u64 b64(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static u32 b32(float d) { u32 b; memcpy(&b, &d, 4); return b; }
template <class T> static T roundMode(T x, int m) {
  switch (m) { case 0: return nearbyint(x); case 1: return round(x); case 2: return floor(x); case 3: return ceil(x); default: return trunc(x); }
}

u128 evalOp(K k, int w, int opw, u128 a, u128 b, u128 c, u128 val) {
  u128 m = maskw(w);
  switch (k) {
  case K::Add: return (a + b) & m;
  case K::Sub: return (a - b) & m;
  case K::Mul: return (a * b) & m;
  case K::UDiv: return b ? a / b : m;
  case K::URem: return b ? a % b : a;
  case K::SDiv: { __int128 x = sx128(a, w), y = sx128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
  case K::SRem: { __int128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case K::And: return a & b;
  case K::Or: return a | b;
  case K::Xor: return a ^ b;
  case K::Shl: return b >= (u128)w ? 0 : (a << (int)b) & m;
  case K::LShr: return b >= (u128)w ? 0 : a >> (int)b;
  case K::AShr: { __int128 x = sx128(a, w); int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(x >> s) & m; }
  case K::Eq: return a == b;
  case K::Ult: return a < b;
  case K::Ule: return a <= b;
  case K::Slt: return sx128(a, opw) < sx128(b, opw);
  case K::Sle: return sx128(a, opw) <= sx128(b, opw);
  case K::Extract: return (a >> (int)val) & m;
  case K::ZExt: return a;
  case K::SExt: return (u128)sx128(a, opw) & m;
  case K::Ite: return a ? b : c;
  case K::FAdd: return w == 64 ? (u128)b64(d64((u64)a) + d64((u64)b)) : (u128)b32(f32((u32)a) + f32((u32)b));
  case K::FSub: return w == 64 ? (u128)b64(d64((u64)a) - d64((u64)b)) : (u128)b32(f32((u32)a) - f32((u32)b));
  case K::FMul: return w == 64 ? (u128)b64(d64((u64)a) * d64((u64)b)) : (u128)b32(f32((u32)a) * f32((u32)b));
  case K::FDiv: return w == 64 ? (u128)b64(d64((u64)a) / d64((u64)b)) : (u128)b32(f32((u32)a) / f32((u32)b));
  case K::FRem: return w == 64 ? (u128)b64(fmod(d64((u64)a), d64((u64)b))) : (u128)b32(fmodf(f32((u32)a), f32((u32)b)));
  case K::FMA: return w == 64 ? (u128)b64(fma(d64((u64)a), d64((u64)b), d64((u64)c))) : (u128)b32(fmaf(f32((u32)a), f32((u32)b), f32((u32)c)));
  case K::FSqrt: return w == 64 ? (u128)b64(sqrt(d64((u64)a))) : (u128)b32(sqrtf(f32((u32)a)));
  case K::FOeq: return opw == 64 ? d64((u64)a) == d64((u64)b) : f32((u32)a) == f32((u32)b);
  case K::FOlt: return opw == 64 ? d64((u64)a) < d64((u64)b) : f32((u32)a) < f32((u32)b);
  case K::FOle: return opw == 64 ? d64((u64)a) <= d64((u64)b) : f32((u32)a) <= f32((u32)b);
  case K::FUno: return opw == 64 ? (std::isnan(d64((u64)a)) || std::isnan(d64((u64)b))) : (std::isnan(f32((u32)a)) || std::isnan(f32((u32)b)));
  case K::FPExt: return b64((double)f32((u32)a));
  case K::FPTrunc: return b32((float)d64((u64)a));
  case K::FPToSI: { double d = opw == 64 ? d64((u64)a) : (double)f32((u32)a); double t = trunc(d); double lim = ldexp(1.0, w - 1);
    if (!(t >= -lim && t < lim)) return (u128)1 << (w - 1); return (u128)(__int128)t & m; }
  case K::FPToUI: { double d = opw == 64 ? d64((u64)a) : (double)f32((u32)a); double t = trunc(d);
    if (!(t >= 0 && t < ldexp(1.0, w))) return m; return (u128)t & m; }
  case K::SIToFP: { int64_t x = (int64_t)sx128(a, opw); return w == 64 ? (u128)b64((double)x) : (u128)b32((float)x); }
  case K::UIToFP: { u64 x = (u64)a; return w == 64 ? (u128)b64((double)x) : (u128)b32((float)x); }
  case K::FRound: return w == 64 ? (u128)b64(roundMode(d64((u64)a), (int)val)) : (u128)b32(roundMode(f32((u32)a), (int)val));
  default: abort();
  }
}

static void ranges(Expr* e) {
  e->kz = e->ko = 0; e->lo = 0; e->hi = ~0ull;
  if (e->w > 64) return;
  u64 m = (u64)maskw(e->w); e->hi = m; e->kz = ~m;
  E a = e->nops > 0 ? e->op[0] : nullptr, b = e->nops > 1 ? e->op[1] : nullptr;
  switch (e->k) {
  case K::Const: e->lo = e->hi = (u64)e->val; e->ko = (u64)e->val; e->kz = ~(u64)e->val; return;
  case K::And: e->kz = a->kz | b->kz; e->ko = a->ko & b->ko; break;
  case K::Or: e->kz = a->kz & b->kz; e->ko = a->ko | b->ko; e->lo = max(a->lo, b->lo); break;
  case K::Xor: e->kz = (a->kz & b->kz) | (a->ko & b->ko); e->ko = (a->kz & b->ko) | (a->ko & b->kz); break;
  case K::ZExt: e->kz = a->kz; e->ko = a->ko; e->lo = a->lo; e->hi = a->hi; break;
  case K::Extract: if (a->w <= 64) { int o = (int)e->val; e->kz = (a->kz >> o) | ~m; e->ko = (a->ko >> o) & m; if (o) e->kz |= 0; 
      if (o == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; }
      else if (o && e->w + o == a->w) { e->lo = a->lo >> o; e->hi = a->hi >> o; } } break;
  case K::Concat: if (1) { int lw = b->w; e->kz = ((a->kz << lw) | (b->kz & (u64)maskw(lw))) | ~m; e->ko = ((a->ko << lw) | b->ko) & m; e->lo = (a->lo << lw) + b->lo; e->hi = (a->hi << lw) + b->hi; } break;
  case K::Shl: if (b->isConst() && b->val < e->w) { int s = (int)b->val; e->kz = (a->kz << s) | ((1ull << s) - 1) | ~m; e->ko = (a->ko << s) & m; if (a->hi <= (m >> s)) { e->lo = a->lo << s; e->hi = a->hi << s; } } break;
  case K::LShr: if (b->isConst() && b->val < e->w) { int s = (int)b->val; e->kz = (a->kz >> s) | ~(m >> s); e->ko = a->ko >> s; e->lo = a->lo >> s; e->hi = a->hi >> s; } else { e->hi = a->hi; } break;
  case K::Add: if (a->hi <= m - b->hi) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
    else if (a->lo > m - b->lo) { e->lo = (a->lo + b->lo) & m; e->hi = (a->hi + b->hi) & m; }
    { u64 lowz = ~(u64)0; int t = 0; u64 both = a->kz & b->kz; while (t < 64 && (both >> t & 1)) ++t; if (t < 64) lowz = (1ull << t) - 1; e->kz |= lowz; } break;
  case K::Sub: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
    { u64 both = a->kz & b->kz; int t = 0; while (t < 64 && (both >> t & 1)) ++t; if (t < 64) e->kz |= (1ull << t) - 1; } break;
  case K::Mul: { u128 h = (u128)a->hi * b->hi; if (h <= m) { e->lo = a->lo * b->lo; e->hi = (u64)h; }
    int t = 0; while (t < 64 && (a->kz >> t & 1)) ++t; int t2 = 0; while (t2 < 64 && (b->kz >> t2 & 1)) ++t2; t += t2; if (t >= 64) t = 63; e->kz |= (1ull << t) - 1; } break;
  case K::UDiv: if (b->lo > 0) { e->hi = a->hi / b->lo; e->lo = a->lo / b->hi; } break;
  case K::URem: if (b->lo > 0) { e->hi = min(a->hi, b->hi - 1); } break;
  case K::Ite: { E t = e->op[1], f = e->op[2]; e->kz = t->kz & f->kz; e->ko = t->ko & f->ko; e->lo = min(t->lo, f->lo); e->hi = max(t->hi, f->hi); } break;
  default: break;
  }
  // combine
  e->kz |= ~m;
  u64 kmax = ~e->kz, kmin = e->ko;
  if (kmin > e->lo) e->lo = kmin;
  if (kmax < e->hi) e->hi = kmax;
  // leading zero bits from hi
  u64 x = e->hi; u64 zm = ~0ull; if (x) { int lz = __builtin_clzll(x); zm = lz ? ~(~0ull >> lz) : 0; } e->kz |= zm;
}

static E intern(K k, int w, u128 val, E a, E b, E c, int nops) {
  u64 h = (u64)k * 0x9E3779B97F4A7C15ull ^ (u64)w * 0xC2B2AE3D27D4EB4Full ^ (u64)val * 0x165667B19E3779F9ull ^ (u64)(val >> 64) * 31;
  if (nops > 0) h = (h ^ a->id) * 0xff51afd7ed558ccdull; if (nops > 1) h = (h ^ (h >> 29) ^ b->id) * 0xc4ceb9fe1a85ec53ull; if (nops > 2) h = (h ^ (h >> 31) ^ c->id) * 0x9E3779B97F4A7C15ull;
  h ^= h >> 32; size_t i = h & (NB - 1);
  for (Expr* e = table_[i]; e; e = e->next)
    if (e->k == k && e->w == w && e->val == val && e->nops == nops && (nops < 1 || e->op[0] == a) && (nops < 2 || e->op[1] == b) && (nops < 3 || e->op[2] == c)) return e;
  Expr* e = newExpr();
  e->k = k; e->w = w; e->val = val; e->nops = nops; e->op[0] = a; e->op[1] = b; e->op[2] = c; e->id = all_.size(); e->evalEpoch = 0; e->visit = 0; e->vars = nullptr;
  e->hasFP = isFPKind(k) || (nops > 0 && a->hasFP) || (nops > 1 && b->hasFP) || (nops > 2 && c->hasFP);
  ranges(e);
  e->next = table_[i]; table_[i] = e; all_.push_back(e);
  return e;
}
static E fix(E e) { // fold if ranges determine the value
  if (!e->isConst() && e->w <= 64 && e->lo == e->hi) return mkConst(e->lo, e->w);
  if (!e->isConst() && e->w <= 64 && (e->kz | e->ko) == ~0ull) return mkConst(e->ko, e->w);
  return e;
}
static E mk(K k, int w, E a, E b) { return fix(intern(k, w, 0, a, b, nullptr, 2)); }

E mkConst(u128 v, int w) {
  static E small[129][260]; v &= maskw(w);
  if (v < 260 && w <= 128) { E& s = small[w][(int)v]; if (!s) s = intern(K::Const, w, v, 0, 0, 0, 0); return s; }
  return intern(K::Const, w, v, nullptr, nullptr, nullptr, 0);
}
E mkVar(const string& name, int w) {
  gVars.push_back({name, w}); E e = intern(K::Var, w, gVars.size() - 1, nullptr, nullptr, nullptr, 0); gVarExpr.push_back(e); return e;
}
E mkNot(E a) { return mkBin(K::Xor, a, mkConst(maskw(a->w), a->w)); }
E exprNotBool(E e) { return mkNot(e); }

static E mkExtract0(E a, int off, int w);
// direct-mapped cache: deep shared expressions would otherwise be walked once per path through them
struct XCache { E a; int off, w; E r; }; static XCache xcache[1 << 16];
E mkExtract(E a, int off, int w) {
  if (off == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(a->val >> off, w);
  switch (a->k) { case K::And: case K::Or: case K::Xor: case K::Add: case K::Sub: case K::Mul: case K::Ite: break; default: return mkExtract0(a, off, w); }
  XCache& c = xcache[(((uintptr_t)a >> 4) * 0x9E3779B97F4A7C15ull + (unsigned)off * 0x85EBCA6Bull + (unsigned)w * 0xC2B2AE35ull) >> 7 & 0xffff]; if (c.a == a && c.off == off && c.w == w) return c.r;
  E r = mkExtract0(a, off, w); c = {a, off, w, r}; return r;
}
static E mkExtract0(E a, int off, int w) {
  switch (a->k) {
  case K::Extract: return mkExtract(a->op[0], off + (int)a->val, w);
  case K::Concat: { int lw = a->op[1]->w; if (off + w <= lw) return mkExtract(a->op[1], off, w); if (off >= lw) return mkExtract(a->op[0], off - lw, w);
      return mkConcat(mkExtract(a->op[0], 0, off + w - lw), mkExtract(a->op[1], off, lw - off)); }
  case K::ZExt: { int ow = a->op[0]->w; if (off + w <= ow) return mkExtract(a->op[0], off, w); if (off >= ow) return mkConst(0, w); return mkZExt(mkExtract(a->op[0], off, ow - off), w); }
  case K::SExt: { int ow = a->op[0]->w; if (off + w <= ow) return mkExtract(a->op[0], off, w); if (off < ow) return mkSExt(mkExtract(a->op[0], off, ow - off), w); break; }
  case K::And: case K::Or: case K::Xor:
    return mkBin(a->k, mkExtract(a->op[0], off, w), mkExtract(a->op[1], off, w));
  case K::Add: case K::Sub: case K::Mul: if (off == 0 && w<=64) return mkBin(a->k, mkExtract(a->op[0], 0, w), mkExtract(a->op[1], 0, w)); break;
  case K::Shl: if (a->op[1]->isConst()) { int s = (int)a->op[1]->val; if (s < a->w) { if (off >= s) return mkExtract(a->op[0], off - s, w); if (off + w <= s) return mkConst(0, w); return mkConcat(mkExtract(a->op[0], 0, off + w - s), mkConst(0, s - off)); } } break;
  case K::LShr: if (a->op[1]->isConst()) { int s = (int)a->op[1]->val; if (s < a->w) { if (off + s + w <= a->w) return mkExtract(a->op[0], off + s, w); if (off + s >= a->w) return mkConst(0, w); return mkZExt(mkExtract(a->op[0], off + s, a->w - off - s), w); } } break;
  case K::AShr: if (a->op[1]->isConst()) { int s = (int)a->op[1]->val; if (s < a->w && off + s + w <= a->w) return mkExtract(a->op[0], off + s, w); } break;
  case K::Ite: if (a->op[1]->isConst() || a->op[2]->isConst() || w < a->w) return mkIte(a->op[0], mkExtract(a->op[1], off, w), mkExtract(a->op[2], off, w)); break;
  default: break;
  }
  return fix(intern(K::Extract, w, off, a, nullptr, nullptr, 1));
}
E mkConcat(E hi, E lo) {
  int w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->op[0] == lo->op[0] && (int)hi->val == (int)lo->val + lo->w) return mkExtract(hi->op[0], (int)lo->val, w);
  if (hi->k == K::Extract) { E l0 = lo->k == K::Concat ? lo->op[0] : lo; int o = (int)hi->val - l0->w; if (o >= 0 && l0->k != K::Extract && mkExtract(hi->op[0], o, l0->w) == l0) { E m = mkExtract(hi->op[0], o, hi->w + l0->w); return lo->k == K::Concat ? mkConcat(m, lo->op[1]) : m; } }
  // hi = ZExt(extract) continuing lo
  if (hi->k == K::ZExt) { E x = hi->op[0]; return mkZExt(mkConcat(x, lo), w); }
  if (lo->k == K::Concat && hi->k == K::Extract && lo->op[0]->k == K::Extract && hi->op[0] == lo->op[0]->op[0] && (int)hi->val == (int)lo->op[0]->val + lo->op[0]->w)
    return mkConcat(mkConcat(hi, lo->op[0]), lo->op[1]);
  if (hi->k == K::Concat) return mkConcat(hi->op[0], mkConcat(hi->op[1], lo)); // right-assoc
  if (hi->isConst() && lo->k == K::Concat && lo->op[0]->isConst()) return mkConcat(mkConcat(hi, lo->op[0]), lo->op[1]);
  if (hi->k == K::Ite && lo->k == K::Ite && hi->op[0] == lo->op[0]) return mkIte(hi->op[0], mkConcat(hi->op[1], lo->op[1]), mkConcat(hi->op[2], lo->op[2]));
  if (lo->k == K::Concat && hi->k == K::Ite && lo->op[0]->k == K::Ite && hi->op[0] == lo->op[0]->op[0]) return mkConcat(mkConcat(hi, lo->op[0]), lo->op[1]);
  // sign extension pattern: hi is SExt of the top bit of lo? leave
  return fix(intern(K::Concat, w, 0, hi, lo, nullptr, 2));
}
E mkZExt(E a, int w) {
  if (w == a->w) return a; if (a->isConst()) return mkConst(a->val, w);
  if (a->k == K::ZExt) return mkZExt(a->op[0], w);
  if (a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst()) return mkIte(a->op[0], mkZExt(a->op[1], w), mkZExt(a->op[2], w));
  return fix(intern(K::ZExt, w, 0, a, nullptr, nullptr, 1));
}
E mkSExt(E a, int w) {
  if (w == a->w) return a; if (a->isConst()) return mkConst((u128)sx128(a->val, a->w), w);
  if (a->k == K::SExt) return mkSExt(a->op[0], w);
  if (a->k == K::ZExt) return mkZExt(a->op[0], w);
  if (a->w <= 64 && (a->kz >> (a->w - 1) & 1)) return mkZExt(a, w);
  if (a->k == K::Ite && a->op[1]->isConst() && a->op[2]->isConst()) return mkIte(a->op[0], mkSExt(a->op[1], w), mkSExt(a->op[2], w));
  return fix(intern(K::SExt, w, 0, a, nullptr, nullptr, 1));
}
E mkIte(E c, E t, E f) {
  if (c->isConst()) return c->val ? t : f;
  if (t == f) return t;
  if (c->k == K::Xor && c->op[1]->isConst()) return mkIte(c->op[0], f, t); // not
  if (t->w == 1) {
    if (isTrue(t) && isFalse(f)) return c; if (isFalse(t) && isTrue(f)) return mkNot(c);
    if (isTrue(t)) return mkOr(c, f); if (isFalse(t)) return mkAnd(mkNot(c), f);
    if (isTrue(f)) return mkOr(mkNot(c), t); if (isFalse(f)) return mkAnd(c, t);
  }
  if (t->k == K::Ite && t->op[0] == c) t = t->op[1];
  if (f->k == K::Ite && f->op[0] == c) f = f->op[2];
  if (t == f) return t;
  if (f->k == K::Ite && f->op[1] == t) return mkIte(mkOr(c, f->op[0]), t, f->op[2]);
  if (c->k == K::Eq && c->op[1]->isConst() && t->isConst() && c->op[0] == f && t == c->op[1]) return f;
  return fix(intern(K::Ite, t->w, 0, c, t, f, 3));
}
static bool commut(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }
static int isShiftOfTrue(E) { return 0; }

static bool iteConsts(E e) { return e->k == K::Ite && e->op[1]->isConst() && e->op[2]->isConst(); }
E mkBin(K k, E a, E b) {
  int w = a->w; bool cmp = k >= K::Eq && k <= K::Sle; int rw = cmp ? 1 : w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %d %d\n", (int)k, a->w, b->w); abort(); }
  if (a->isConst() && b->isConst()) return mkConst(evalOp(k, rw, w, a->val, b->val, 0, 0), rw);
  if (commut(k)) { if (a->isConst() || (!b->isConst() && a->id > b->id)) swap(a, b); }
  bool bc = b->isConst(); u128 cv = bc ? b->val : 0; u128 m = maskw(w);
  // push ops into ite-of-constants when other operand is constant (keeps lookup results small)
  if (bc && iteConsts(a) && k != K::Eq) return mkIte(a->op[0], mkBin(k, a->op[1], b), mkBin(k, a->op[2], b));
  if (bc && iteConsts(a) && k == K::Eq) { bool e1 = a->op[1]->val == cv, e2 = a->op[2]->val == cv; return e1 ? (e2 ? mkBool(1) : a->op[0]) : (e2 ? mkNot(a->op[0]) : mkBool(0)); }
  if (a->isConst() && iteConsts(b) && !commut(k)) return mkIte(b->op[0], mkBin(k, a, b->op[1]), mkBin(k, a, b->op[2]));
  switch (k) {
  case K::Add:
    if (bc && cv == 0) return a;
    if (bc && a->k == K::Add && a->op[1]->isConst()) return mkBin(K::Add, a->op[0], mkConst(a->op[1]->val + cv, w));
    if (bc && a->k == K::Sub && a->op[0]->isConst()) return mkBin(K::Sub, mkConst(a->op[0]->val + cv, w), a->op[1]);
    if (!bc && a->k == K::Add && a->op[1]->isConst()) return mkBin(K::Add, mkBin(K::Add, a->op[0], b), a->op[1]);
    if (!bc && b->k == K::Add && b->op[1]->isConst()) return mkBin(K::Add, mkBin(K::Add, a, b->op[0]), b->op[1]);
    if (b->k == K::Sub && b->op[1] == a) return b->op[0];
    if (a->k == K::Sub && a->op[1] == b) return a->op[0];
    if (w == 1) return mkBin(K::Xor, a, b);
    break;
  case K::Sub:
    if (bc) return mkBin(K::Add, a, mkConst((~cv + 1), w));
    if (a == b) return mkConst(0, w);
    if (a->k == K::Add) { if (a->op[0] == b) return a->op[1]; if (a->op[1] == b) return a->op[0]; }
    if (a->k == K::Add && a->op[1]->isConst()) return mkBin(K::Add, mkBin(K::Sub, a->op[0], b), a->op[1]);
    if (b->k == K::Add && b->op[1]->isConst()) return mkBin(K::Add, mkBin(K::Sub, a, b->op[0]), mkConst(~b->op[1]->val + 1, w));
    if (b->k == K::Add && (b->op[0] == a)) return mkBin(K::Sub, mkConst(0, w), b->op[1]);
    if (b->k == K::Add && (b->op[1] == a)) return mkBin(K::Sub, mkConst(0, w), b->op[0]);
    break;
  case K::Mul:
    if (bc) { if (cv == 0) return b; if (cv == 1) return a; if ((cv & (cv - 1)) == 0) { int s = 0; while (!((cv >> s) & 1)) ++s; return mkBin(K::Shl, a, mkConst(s, w)); }
      if (a->k == K::Mul && a->op[1]->isConst()) return mkBin(K::Mul, a->op[0], mkConst(a->op[1]->val * cv, w));
      if (a->k == K::Add && a->op[1]->isConst()) return mkBin(K::Add, mkBin(K::Mul, a->op[0], b), mkConst(a->op[1]->val * cv, w)); }
    break;
  case K::UDiv: if (bc && cv == 1) return a; if (bc && cv && (cv & (cv - 1)) == 0) { int s = 0; while (!((cv >> s) & 1)) ++s; return mkBin(K::LShr, a, mkConst(s, w)); }
    if (w <= 64 && bc && cv && a->k==K::ZExt && a->op[0]->w<w && cv <= maskw(a->op[0]->w)) return mkZExt(mkBin(K::UDiv,a->op[0],mkConst(cv,a->op[0]->w)),w);
    break;
  case K::URem: if (bc && cv == 1) return mkConst(0, w); if (bc && cv && (cv & (cv - 1)) == 0) return mkBin(K::And, a, mkConst(cv - 1, w));
    if (w <= 64 && bc && cv && a->hi < (u64)cv) return a;
    break;
  case K::SDiv: if (bc && cv == 1) return a; if (w <= 64 && !(a->hi >> (w - 1)) && !(b->hi >> (w - 1))) return mkBin(K::UDiv, a, b); break;
  case K::SRem: if (bc && cv == 1) return mkConst(0, w); if (w <= 64 && !(a->hi >> (w - 1)) && !(b->hi >> (w - 1))) return mkBin(K::URem, a, b); break;
  case K::And:
    if (bc) { if (cv == 0) return b; if (cv == m) return a;
      if (w <= 64 && ((u64)~a->kz & m & ~(u64)cv) == 0) return a; // mask keeps all possibly-set bits
      if (a->k == K::And && a->op[1]->isConst()) return mkBin(K::And, a->op[0], mkConst(a->op[1]->val & cv, w));
      // low mask -> zext(extract)
      if ((cv & (cv + 1)) == 0) { int n = 0; while ((cv >> n) & 1) ++n; return mkZExt(mkExtract(a, 0, n), w); }
      if (a->k == K::ZExt) { int ow = a->op[0]->w; return mkZExt(mkBin(K::And, a->op[0], mkConst(cv, ow)), w); }
      if (a->k == K::Concat) return mkConcat(mkBin(K::And, a->op[0], mkConst(cv >> a->op[1]->w, a->op[0]->w)), mkBin(K::And, a->op[1], mkConst(cv, a->op[1]->w)));
      // trailing zeros in mask: concat(and(hi), 0)
      { int n = 0; while (!((cv >> n) & 1)) ++n; u128 r = cv >> n; if (n > 0 && (r & (r + 1)) == 0) { int l = 0; while ((r >> l) & 1) ++l; return mkZExt(mkConcat(mkExtract(a, n, l), mkConst(0, n)), w); } }
    }
    if (a == b) return a;
    if (w == 1) { if ((a->k == K::Xor && a->op[1]->isConst() && a->op[0] == b) || (b->k == K::Xor && b->op[1]->isConst() && b->op[0] == a)) return mkConst(0, 1);
      if (a->k == K::And && (a->op[0] == b || a->op[1] == b)) return a; if (b->k == K::And && (b->op[0] == a || b->op[1] == a)) return b;
      if (a->k == K::Or && (a->op[0] == b || a->op[1] == b)) return b; if (b->k == K::Or && (b->op[0] == a || b->op[1] == a)) return a; }
    if (!bc && w <= 64 && (((u64)~a->kz & (u64)~b->kz) & (u64)m) == 0) return mkConst(0, w);
    break;
  case K::Or:
    if (bc) { if (cv == 0) return a; if (cv == m) return b;
      if (a->k == K::Or && a->op[1]->isConst()) return mkBin(K::Or, a->op[0], mkConst(a->op[1]->val | cv, w));
      if (a->k == K::Concat) return mkConcat(mkBin(K::Or, a->op[0], mkConst(cv >> a->op[1]->w, a->op[0]->w)), mkBin(K::Or, a->op[1], mkConst(cv, a->op[1]->w)));
      if (a->k == K::ZExt) { int ow = a->op[0]->w; return mkConcat(mkConst(cv >> ow, w - ow), mkBin(K::Or, a->op[0], mkConst(cv, ow))); }
    }
    if (a == b) return a;
    if (w == 1) { if ((a->k == K::Xor && a->op[1]->isConst() && a->op[0] == b) || (b->k == K::Xor && b->op[1]->isConst() && b->op[0] == a)) return mkConst(1, 1);
      if (a->k == K::Or && (a->op[0] == b || a->op[1] == b)) return a; if (b->k == K::Or && (b->op[0] == a || b->op[1] == a)) return b;
      if (a->k == K::And && (a->op[0] == b || a->op[1] == b)) return b; if (b->k == K::And && (b->op[0] == a || b->op[1] == a)) return a; }
    // disjoint known bits: combine as concat when one is concat(x, 0..0) and the other fits into the low bits
    for (int s = 0; s < 2; ++s) { E x = s ? b : a, y = s ? a : b; 
      if (x->k == K::Shl && x->op[1]->isConst() && x->op[1]->val < (u128)w) { int n = (int)x->op[1]->val; if (w <= 64 && (y->hi >> n) == 0) return mkConcat(mkExtract(x->op[0], 0, w - n), mkExtract(y, 0, n)); }
      if (x->k == K::Concat && x->op[1]->isConst() && x->op[1]->val == 0) { int n = x->op[1]->w; if (w <= 64 && n < 64 && (y->hi >> n) == 0) return mkConcat(x->op[0], mkExtract(y, 0, n)); }
      if (x->k == K::ZExt && x->op[0]->k == K::Concat && x->op[0]->op[1]->isConst() && x->op[0]->op[1]->val == 0) { int n = x->op[0]->op[1]->w; if (w <= 64 && n < 64 && (y->hi >> n) == 0) return mkZExt(mkConcat(x->op[0]->op[0], mkExtract(y, 0, n)), w); }
      if (x->k == K::Concat && y->k == K::ZExt && y->op[0]->w <= x->op[1]->w) return mkConcat(x->op[0], mkBin(K::Or, x->op[1], mkZExt(y->op[0], x->op[1]->w)));
    }
    break;
  case K::Xor:
    if (bc && cv == 0) return a; if (a == b) return mkConst(0, w);
    if (bc && a->k == K::Xor && a->op[1]->isConst()) return mkBin(K::Xor, a->op[0], mkConst(a->op[1]->val ^ cv, w));
    if (w == 1 && bc) { // not
      if (a->k == K::Ult) return mkBin(K::Ule, a->op[1], a->op[0]); if (a->k == K::Ule) return mkBin(K::Ult, a->op[1], a->op[0]);
      if (a->k == K::Slt) return mkBin(K::Sle, a->op[1], a->op[0]); if (a->k == K::Sle) return mkBin(K::Slt, a->op[1], a->op[0]);
    }
    break;
  case K::Shl: if (bc) { if (cv == 0) return a; if (cv >= (u128)w) return mkConst(0, w);
      { int n = (int)cv; return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n)); } } break;
  case K::LShr: if (bc) { if (cv == 0) return a; if (cv >= (u128)w) return mkConst(0, w); return mkZExt(mkExtract(a, (int)cv, w - (int)cv), w); } break;
  case K::AShr: if (bc) { if (cv == 0) return a; if (cv >= (u128)w) cv = w - 1; return mkSExt(mkExtract(a, (int)cv, w - (int)cv), w); } break;
  case K::Eq:
    if (a == b) return mkBool(1);
    if (w == 1) { if (bc) return cv ? a : mkNot(a); return mkNot(mkBin(K::Xor, a, b)); }
    if (w <= 64 && ((a->ko & b->kz) | (a->kz & b->ko)) & (u64)m) return mkBool(0);
    if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkBool(0);
    if (bc) {
      if (a->k == K::ZExt) { int ow = a->op[0]->w; if (cv >> ow) return mkBool(0); return mkBin(K::Eq, a->op[0], mkConst(cv, ow)); }
      if (a->k == K::SExt) { int ow = a->op[0]->w; u128 t = cv & maskw(ow); if (((u128)sx128(t, ow) & m) != cv) return mkBool(0); return mkBin(K::Eq, a->op[0], mkConst(t, ow)); }
      if (a->k == K::Concat) { int lw = a->op[1]->w; return mkAnd(mkBin(K::Eq, a->op[0], mkConst(cv >> lw, a->op[0]->w)), mkBin(K::Eq, a->op[1], mkConst(cv, lw))); }
      if (a->k == K::Add && a->op[1]->isConst()) return mkBin(K::Eq, a->op[0], mkConst(cv - a->op[1]->val, w));
      if (a->k == K::Xor && a->op[1]->isConst()) return mkBin(K::Eq, a->op[0], mkConst(cv ^ a->op[1]->val, w));
      if (a->k == K::Ite && (a->op[1]->isConst() || a->op[2]->isConst())) { E x = mkBin(K::Eq, a->op[1], b), y = mkBin(K::Eq, a->op[2], b); return mkIte(a->op[0], x, y); }
      if (a->k == K::Sub && a->op[0]->isConst()) return mkBin(K::Eq, a->op[1], mkConst(a->op[0]->val - cv, w));
      if (a->k == K::Sub && cv == 0) return mkBin(K::Eq, a->op[0], a->op[1]);
    } else {
      if (a->k == K::ZExt && b->k == K::ZExt) { int mw = max(a->op[0]->w, b->op[0]->w); return mkBin(K::Eq, mkZExt(a->op[0], mw), mkZExt(b->op[0], mw)); }
      if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w) return mkBin(K::Eq, a->op[0], b->op[0]);
      if (a->k == K::Add && b->k == K::Add && a->op[1] == b->op[1]) return mkBin(K::Eq, a->op[0], b->op[0]);
      if (a->k == K::Add && b->k == K::Add && a->op[1]->isConst() && b->op[1]->isConst()) return mkBin(K::Eq, mkBin(K::Add, a->op[0], mkConst(a->op[1]->val - b->op[1]->val, w)), b->op[0]);
      if (a->k == K::Concat && b->k == K::Concat && a->op[0]->w == b->op[0]->w) return mkAnd(mkBin(K::Eq, a->op[0], b->op[0]), mkBin(K::Eq, a->op[1], b->op[1]));
      if (a->k == K::Add && (a->op[0] == b || a->op[1] == b)) return mkBin(K::Eq, a->op[0] == b ? a->op[1] : a->op[0], mkConst(0, w));
      if (b->k == K::Add && (b->op[0] == a || b->op[1] == a)) return mkBin(K::Eq, b->op[0] == a ? b->op[1] : b->op[0], mkConst(0, w));
      if (a->k == K::Ite && b->k == K::Ite && a->op[0] == b->op[0]) return mkIte(a->op[0], mkBin(K::Eq, a->op[1], b->op[1]), mkBin(K::Eq, a->op[2], b->op[2]));
      if (a->k == K::Ite && (a->op[1] == b || a->op[2] == b)) return mkIte(a->op[0], mkBin(K::Eq, a->op[1], b), mkBin(K::Eq, a->op[2], b));
      if (b->k == K::Ite && (b->op[1] == a || b->op[2] == a)) return mkIte(b->op[0], mkBin(K::Eq, b->op[1], a), mkBin(K::Eq, b->op[2], a));
    }
    break;
  case K::Ult:
    if (a == b) return mkBool(0);
    if (w <= 64) { if (a->hi < b->lo) return mkBool(1); if (a->lo >= b->hi) return mkBool(0); }
    if (w == 1) return mkAnd(mkNot(a), b);
    if (bc && cv == 1) return mkEq(a, mkConst(0, w));
    if (a->isConst() && a->val == 0) return mkNot(mkEq(b, a));
    if (a->k == K::ZExt && b->k == K::ZExt && a->op[0]->w == b->op[0]->w) return mkBin(k, a->op[0], b->op[0]);
    if (a->k == K::ZExt && bc && cv <= maskw(a->op[0]->w)) return mkBin(k, a->op[0], mkConst(cv, a->op[0]->w));
    if (b->k == K::ZExt && a->isConst() && a->val <= maskw(b->op[0]->w)) return mkBin(k, mkConst(a->val, b->op[0]->w), b->op[0]);
    break;
  case K::Ule:
    if (a == b) return mkBool(1);
    if (w <= 64) { if (a->hi <= b->lo) return mkBool(1); if (a->lo > b->hi) return mkBool(0); }
    if (w == 1) return mkOr(mkNot(a), b);
    if (bc && cv == 0) return mkEq(a, b);
    if (a->isConst()) { if (a->val == 0) return mkBool(1); return mkBin(K::Ult, mkConst(a->val - 1, w), b); }
    if (bc && cv < m) return mkBin(K::Ult, a, mkConst(cv + 1, w));
    if (a->k == K::ZExt && b->k == K::ZExt && a->op[0]->w == b->op[0]->w) return mkBin(k, a->op[0], b->op[0]);
    break;
  case K::Slt: case K::Sle:
    if (a == b) return mkBool(k == K::Sle);
    if (w == 1) { /* true = -1 */ return k == K::Slt ? mkAnd(a, mkNot(b)) : mkOr(a, mkNot(b)); }
    if (w <= 64) {
      u64 sb = 1ull << (w - 1); bool an = a->lo >= sb, ap = a->hi < sb, bn = b->lo >= sb, bp = b->hi < sb;
      if ((an || ap) && (bn || bp)) { if (an && bp) return mkBool(1); if (ap && bn) return mkBool(0); return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b); }
    }
    if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w) return mkBin(k, a->op[0], b->op[0]);
    if (a->k == K::SExt && bc) { int ow = a->op[0]->w; u128 t = cv & maskw(ow); if (((u128)sx128(t, ow) & m) == cv) return mkBin(k, a->op[0], mkConst(t, ow)); return mkBool(sx128(cv, w) > 0); }
    if (b->k == K::SExt && a->isConst()) { int ow = b->op[0]->w; u128 t = a->val & maskw(ow); if (((u128)sx128(t, ow) & m) == a->val) return mkBin(k, mkConst(t, ow), b->op[0]); return mkBool(sx128(a->val, w) < 0); }
    if (bc && k == K::Slt && cv == 0) return mkExtract(a, w - 1, 1);
    if (a->isConst() && k == K::Sle && a->val == 0) return mkNot(mkExtract(b, w - 1, 1));
    break;
  default: break;
  }
  (void)isShiftOfTrue;
  return mk(k, rw, a, b);
}
E exprAnd(const vector<E>& v) { E r = mkBool(1); for (E e : v) r = mkAnd(r, e); return r; }

E mkFP1(K k, E a, int w, u128 val) {
  if (a->isConst()) return mkConst(evalOp(k, w, a->w, a->val, 0, 0, val), w);
  if (k == K::FPTrunc && a->k == K::FPExt) return a->op[0];
  // exact integer round trips
  if ((k == K::FPToSI) && a->k == K::SIToFP) { E x = a->op[0]; int mant = a->w == 64 ? 53 : 24; if (x->w <= mant + 1 || (x->w <= 64 && x->hi < (1ull << mant))) { if (w >= x->w) return mkSExt(x, w); if (x->hi < (1ull << (w - 1))) return mkExtract(x, 0, w); } }
  if ((k == K::FPToUI || k == K::FPToSI) && a->k == K::UIToFP) { E x = a->op[0]; int mant = a->w == 64 ? 53 : 24; if (x->hi <= (1ull << mant) && (x->hi >> (k == K::FPToSI ? w - 1 : w)) == 0) return w >= x->w ? mkZExt(x, w) : mkExtract(x, 0, w); }
  if (k == K::FRound && (a->k == K::SIToFP || a->k == K::UIToFP)) return a;
  if (k == K::SIToFP && a->k == K::ZExt && a->op[0]->w < a->w) return mkFP1(K::UIToFP, a->op[0], w, 0);
  if (k == K::SIToFP && a->k == K::SExt) return mkFP1(K::SIToFP, a->op[0], w, 0);
  if (k == K::UIToFP && a->k == K::ZExt) return mkFP1(K::UIToFP, a->op[0], w, 0);
  if (iteConsts(a)) return mkIte(a->op[0], mkFP1(k, a->op[1], w, val), mkFP1(k, a->op[2], w, val));
  return intern(k, w, val, a, nullptr, nullptr, 1);
}
static bool intLike(E a, __int128& lo, __int128& hi) { // exact integer valued double from <=32-bit int
  if (a->k == K::SIToFP && a->w == 64 && a->op[0]->w <= 32) { lo = -((__int128)1 << (a->op[0]->w - 1)); hi = ((__int128)1 << (a->op[0]->w - 1)) - 1; return true; }
  if (a->k == K::UIToFP && a->w == 64 && a->op[0]->w <= 32) { lo = a->op[0]->lo; hi = a->op[0]->hi; return true; }
  if (a->isConst() && a->w == 64) { double d = d64((u64)a->val); if (d == trunc(d) && fabs(d) < 2147483648.0 && !(d == 0 && signbit(d))) { lo = hi = (__int128)d; return true; } }
  return false;
}
static E intOf(E a) { // 34-bit signed integer expression of an intLike double
  if (a->isConst()) return mkConst((u128)(__int128)d64((u64)a->val), 40);
  return a->k == K::SIToFP ? mkSExt(a->op[0], 40) : mkZExt(a->op[0], 40);
}
// fl(x / y) <= c for integers |x|,|y| < 2^32 and a constant c, as an exact comparison of integers (null if not applicable).
// Rounding is monotone, so fl(q) <= c holds iff q lies at or below the midpoint M of c and its successor; M is not a fraction with
// denominator <= 2^32, so it can be replaced by the largest such fraction P/Q below it.
static E divLe(E x, E y, double c) {
  if (!(fabs(c) < 1048576.0) || (c != 0 && fabs(c) < 1e-6)) return nullptr;
  __int128 P, Q;
  if (c == 0) { P = 0; Q = 1; }
  else {
    double n = nextafter(c, INFINITY); int ec; double mc = frexp(c, &ec); int en; double mn = frexp(n, &en);
    int e = min(ec, en); __int128 a = (__int128)ldexp(mc, 53 + (ec - e)), b = (__int128)ldexp(mn, 53 + (en - e)); __int128 N = a + b; int sft = 54 - e; // M = N / 2^sft
    while (!(N & 1)) { N >>= 1; --sft; }
    if (sft < 34 || sft > 90) return nullptr;
    __int128 I = N >> sft, R = N - (I << sft); const __int128 B = (__int128)1 << 32;
    __int128 lp = 0, lq = 1, hp = 1, hq = 1; auto le = [&](__int128 p, __int128 q) { return (p << sft) <= R * q; };
    while (lq + hq <= B) { if (le(lp + hp, lq + hq)) { __int128 k = 1; while (lq + (k * 2) * hq <= B && le(lp + (k * 2) * hp, lq + (k * 2) * hq)) k *= 2; for (__int128 d = k; d; d /= 2) while (lq + (k + d) * hq <= B && le(lp + (k + d) * hp, lq + (k + d) * hq)) k += d; lp += k * hp; lq += k * hq; }
      else { __int128 k = 1; while (hq + (k * 2) * lq <= B && !le(hp + (k * 2) * lp, hq + (k * 2) * lq)) k *= 2; for (__int128 d = k; d; d /= 2) while (hq + (k + d) * lq <= B && !le(hp + (k + d) * lp, hq + (k + d) * lq)) k += d; hp += k * lp; hq += k * lq; } }
    P = I * lq + lp; Q = lq;
  }
  if (y->isConst()) { __int128 yv = y->val; if (yv >> (y->w - 1) & 1) yv -= (__int128)1 << y->w; int xw = max((int)x->w, 40);
    if (yv > 0) { __int128 t = yv * P, f = t / Q; if (t % Q && t < 0) --f; __int128 lim = (__int128)1 << (xw - 1); if (f >= lim) return mkBool(1); if (f < -lim) return mkBool(0); return mkBin(K::Sle, mkSExt(x, xw), mkConst((u128)f & maskw(xw), xw)); } }
  int w = 35; { __int128 m = max(P < 0 ? -P : P, Q); while (m) { ++w; m >>= 1; } } w = max(w, (int)max(x->w, y->w)); E X = mkSExt(x, w), Y = mkSExt(y, w), l = mkBin(K::Mul, X, mkConst((u128)Q, w)), r = mkBin(K::Mul, Y, mkConst((u128)P, w)); E z = mkConst(0, w);
  E yp = mkBin(K::Slt, z, Y), yn = mkBin(K::Slt, Y, z), xn = mkBin(K::Slt, X, z);
  return mkOr(mkAnd(yp, mkBin(K::Sle, l, r)), mkOr(mkAnd(yn, mkBin(K::Sle, r, l)), mkAnd(mkEq(Y, z), xn)));
}
E mkFP2(K k, E a, E b, int w) {
  if (a->isConst() && b->isConst()) return mkConst(evalOp(k, w, a->w, a->val, b->val, 0, 0), w);
  __int128 l, h;
  if ((k == K::FOeq || k == K::FOlt || k == K::FOle) && intLike(a, l, h) && intLike(b, l, h)) {
    E x = intOf(a), y = intOf(b); return k == K::FOeq ? mkEq(x, y) : k == K::FOlt ? mkBin(K::Slt, x, y) : mkBin(K::Sle, x, y);
  }
  if (k == K::FUno && intLike(a, l, h) && intLike(b, l, h)) return mkBool(0);
  { auto isDiv = [&](E e) { return e->k == K::FDiv && e->w == 64 && intLike(e->op[0], l, h) && intLike(e->op[1], l, h); };
    auto notNan = [&](E e) { E x = intOf(e->op[0]), y = intOf(e->op[1]), z = mkConst(0, 40); return mkNot(mkAnd(mkEq(x, z), mkEq(y, z))); };
    if ((k == K::FOle || k == K::FOlt) && isDiv(a) && b->isConst() && isfinite(d64((u64)b->val))) { double c = d64((u64)b->val); if (E r = divLe(intOf(a->op[0]), intOf(a->op[1]), k == K::FOle ? c : nextafter(c, -INFINITY))) return r; }
    if ((k == K::FOle || k == K::FOlt) && isDiv(b) && a->isConst() && isfinite(d64((u64)a->val))) { double c = d64((u64)a->val); if (E r = divLe(intOf(b->op[0]), intOf(b->op[1]), k == K::FOlt ? c : nextafter(c, -INFINITY))) return mkAnd(notNan(b), mkNot(r)); }
    if (k == K::FOeq && isDiv(a) && b->isConst() && isfinite(d64((u64)b->val))) { double c = d64((u64)b->val); E r1 = divLe(intOf(a->op[0]), intOf(a->op[1]), c), r2 = r1 ? divLe(intOf(a->op[0]), intOf(a->op[1]), nextafter(c, -INFINITY)) : nullptr; if (r2) return mkAnd(r1, mkNot(r2)); }
    if (k == K::FUno && a == b && isDiv(a)) return mkNot(notNan(a));
    if (k == K::FUno && isDiv(a) && b->isConst() && d64((u64)b->val) == d64((u64)b->val)) return mkNot(notNan(a));
    if (k == K::FUno && isDiv(b) && a->isConst() && d64((u64)a->val) == d64((u64)a->val)) return mkNot(notNan(b));
  }
  if (k == K::FUno && intLike(b, l, h) && (a->k == K::SIToFP || a->k == K::UIToFP)) return mkBool(0);
  if ((k == K::FAdd || k == K::FMul || k == K::FOeq || k == K::FUno) && a->id > b->id) swap(a, b);
  return intern(k, w, 0, a, b, nullptr, 2);
}
E mkFP3(K k, E a, E b, E c, int w) {
  if (a->isConst() && b->isConst() && c->isConst()) return mkConst(evalOp(k, w, a->w, a->val, b->val, c->val, 0), w);
  return intern(k, w, 0, a, b, c, 3);
}
E mkFNeg(E a) { return mkBin(K::Xor, a, mkConst((u128)1 << (a->w - 1), a->w)); }
E mkFAbs(E a) { return mkBin(K::And, a, mkConst(maskw(a->w - 1), a->w)); }
u64 fpConstBits(double d, int w) { return w == 64 ? b64(d) : b32((float)d); }
E mkFPConst(double d, int w) { return mkConst(fpConstBits(d, w), w); }
E mkFPMin(E a, E b) { E an = mkFP2(K::FUno, a, a, 1), bn = mkFP2(K::FUno, b, b, 1); return mkIte(an, b, mkIte(bn, a, mkIte(mkFP2(K::FOlt, a, b, 1), a, b))); }
E mkFPMax(E a, E b) { E an = mkFP2(K::FUno, a, a, 1), bn = mkFP2(K::FUno, b, b, 1); return mkIte(an, b, mkIte(bn, a, mkIte(mkFP2(K::FOlt, b, a, 1), a, b))); }
E mkCopySign(E a, E b) { int w = a->w; return mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1)); }
E mkCtPop(E a) { int w = a->w; E s = mkConst(0, w); for (int i = 0; i < w; ++i) s = mkAdd(s, mkZExt(mkExtract(a, i, 1), w)); return s; }
E mkCtlz(E a) { int w = a->w; E r = mkConst(w, w); for (int i = 0; i < w; ++i) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); return r; }
E mkCttz(E a) { int w = a->w; E r = mkConst(w, w); for (int i = w - 1; i >= 0; --i) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); return r; }
E mkBswap(E a) { int n = a->w / 8; E r = mkExtract(a, 0, 8); for (int i = 1; i < n; ++i) r = mkConcat(r, mkExtract(a, 8 * i, 8)); return r; }
E mkBitReverse(E a) { E r = mkExtract(a, 0, 1); for (int i = 1; i < a->w; ++i) r = mkConcat(r, mkExtract(a, i, 1)); return r; }
E mkAbs(E a) { return mkIte(mkBin(K::Slt, a, mkConst(0, a->w)), mkSub(mkConst(0, a->w), a), a); }
E mkSMin(E a, E b) { return mkIte(mkBin(K::Slt, a, b), a, b); }
E mkSMax(E a, E b) { return mkIte(mkBin(K::Slt, a, b), b, a); }
E mkUMin(E a, E b) { return mkIte(mkBin(K::Ult, a, b), a, b); }
E mkUMax(E a, E b) { return mkIte(mkBin(K::Ult, a, b), b, a); }
E mkFshl(E a, E b, E c) { int w = a->w; if (!c->isConst()) { E s = mkBin(K::URem, c, mkConst(w, w)); return mkIte(mkEq(s, mkConst(0, w)), a, mkOr(mkBin(K::Shl, a, s), mkBin(K::LShr, b, mkSub(mkConst(w, w), s)))); } int s = (int)(c->val % w); if (!s) return a; return mkConcat(mkExtract(a, 0, w - s), mkExtract(b, w - s, s)); }
E mkFshr(E a, E b, E c) { int w = a->w; if (!c->isConst()) { E s = mkBin(K::URem, c, mkConst(w, w)); return mkIte(mkEq(s, mkConst(0, w)), b, mkOr(mkBin(K::LShr, b, s), mkBin(K::Shl, a, mkSub(mkConst(w, w), s)))); } int s = (int)(c->val % w); if (!s) return b; return mkConcat(mkExtract(a, 0, s), mkExtract(b, s, w - s)); }
E mkUAddSat(E a, E b) { E s = mkAdd(a, b); return mkIte(mkUlt(s, a), mkConst(maskw(a->w), a->w), s); }
E mkUSubSat(E a, E b) { return mkIte(mkUlt(a, b), mkConst(0, a->w), mkSub(a, b)); }
static E satS(E wide, int w) { int W = wide->w; E mx = mkConst(maskw(w - 1), W), mn = mkSExt(mkConst((u128)1 << (w - 1), w), W); return mkExtract(mkSMax(mn, mkSMin(mx, wide)), 0, w); }
E mkSAddSat(E a, E b) { return satS(mkAdd(mkSExt(a, a->w + 1), mkSExt(b, a->w + 1)), a->w); }
E mkSSubSat(E a, E b) { return satS(mkSub(mkSExt(a, a->w + 1), mkSExt(b, a->w + 1)), a->w); }

static E muxRec(const vector<E>& lv, size_t base, int bits, E idx) {
  if (base >= lv.size()) return nullptr;
  if (bits == 0) return lv[base];
  E l = muxRec(lv, base, bits - 1, idx), h = muxRec(lv, base + ((size_t)1 << (bits - 1)), bits - 1, idx);
  if (!h) return l; if (!l) return h;
  return mkIte(mkExtract(idx, bits - 1, 1), h, l);
}
E mkMux(const vector<E>& lv, E idx) { int bits = 0; while (((size_t)1 << bits) < lv.size()) ++bits; if (bits > idx->w) bits = idx->w; return muxRec(lv, 0, bits, idx); }

u128 evalExpr(E root, const Assign& m) {
  if (root->isConst()) return root->val;
  if (root->evalEpoch == epoch_) return root->evalVal;
  static vector<E> st; size_t base = st.size(); st.push_back(root);
  while (st.size() > base) {
    E e = st.back();
    if (e->evalEpoch == epoch_) { st.pop_back(); continue; }
    if (e->k == K::Const) { e->evalVal = e->val; e->evalEpoch = epoch_; st.pop_back(); continue; }
    if (e->k == K::Var) { size_t i = (size_t)e->val; e->evalVal = i < m.size() ? (u128)m[i] & maskw(e->w) : 0; e->evalEpoch = epoch_; st.pop_back(); continue; }
    if (e->k == K::Ite) { // lazy
      E c = e->op[0]; if (!c->isConst() && c->evalEpoch != epoch_) { st.push_back(c); continue; }
      u128 cv = c->isConst() ? c->val : c->evalVal; E s = cv ? e->op[1] : e->op[2];
      if (!s->isConst() && s->evalEpoch != epoch_) { st.push_back(s); continue; }
      e->evalVal = s->isConst() ? s->val : s->evalVal; e->evalEpoch = epoch_; st.pop_back(); continue;
    }
    bool ready = true;
    for (int i = 0; i < e->nops; ++i) { E o = e->op[i]; if (!o->isConst() && o->evalEpoch != epoch_) { st.push_back(o); ready = false; } }
    if (!ready) continue;
    u128 v[3] = {0, 0, 0}; for (int i = 0; i < e->nops; ++i) v[i] = e->op[i]->isConst() ? e->op[i]->val : e->op[i]->evalVal;
    if (e->k == K::Concat) e->evalVal = (v[0] << e->op[1]->w) | v[1];
    else e->evalVal = evalOp(e->k, e->w, e->op[0]->w, v[0], v[1], v[2], e->val);
    e->evalEpoch = epoch_; st.pop_back();
  }
  return root->evalVal;
}

static set<vector<u32>> setPool; static const vector<u32>* emptySet = &*setPool.insert(vector<u32>()).first;
static map<pair<const void*, const void*>, const vector<u32>*> unionMemo;
static const vector<u32>* uni(const vector<u32>* a, const vector<u32>* b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b; if (a > b) swap(a, b);
  auto& r = unionMemo[{a, b}]; if (r) return r;
  vector<u32> v; v.reserve(a->size() + b->size()); set_union(a->begin(), a->end(), b->begin(), b->end(), back_inserter(v));
  if (v == *a) r = a; else if (v == *b) r = b; else r = &*setPool.insert(v).first; return r;
}
const vector<u32>& exprVars(E root) {
  if (root->vars) return *root->vars;
  vector<E> st{root};
  while (!st.empty()) {
    E e = st.back(); if (e->vars) { st.pop_back(); continue; }
    if (e->k == K::Const) { e->vars = emptySet; st.pop_back(); continue; }
    if (e->k == K::Var) { e->vars = &*setPool.insert(vector<u32>{(u32)e->val}).first; st.pop_back(); continue; }
    bool ready = true; for (int i = 0; i < e->nops; ++i) if (!e->op[i]->vars) { st.push_back(e->op[i]); ready = false; }
    if (!ready) continue;
    const vector<u32>* s = emptySet; for (int i = 0; i < e->nops; ++i) s = uni(s, e->op[i]->vars);
    e->vars = s; st.pop_back();
  }
  return *root->vars;
}
static const char* kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite",
 "fadd","fsub","fmul","fdiv","frem","foeq","folt","fole","funo","fpext","fptrunc","fptosi","fptoui","sitofp","uitofp","fround","fsqrt","fma"};
string exprStr(E e, int d) {
  char b[64]; if (e->k == K::Const) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->val, e->w); return b; }
  if (e->k == K::Var) return gVars[(size_t)e->val].name;
  if (d == 0) return "...";
  string s = string("(") + kn[(int)e->k]; if (e->k == K::Extract) s += "@" + to_string((int)e->val) + "+" + to_string(e->w); if (e->k==K::ZExt||e->k==K::SExt) s += to_string(e->w);
  for (int i = 0; i < e->nops; ++i) s += " " + exprStr(e->op[i], d - 1); return s + ")";
}

// Normal form of large expressions modulo associativity and commutativity of +, -, ^, &, | and the two usual ways to
// write a bitwise choice; used to decide equalities between deep expressions which differ only in these respects.
static std::unordered_map<E, E> normMemo;
static void sumTerms(E e, u64 coef, std::map<u64, std::pair<E, u64>>& t, u64& k, u64 m) {
  if (e->isConst()) { k = (k + coef * (u64)e->val) & m; return; }
  if (e->k == K::Add) { sumTerms(e->op[0], coef, t, k, m); sumTerms(e->op[1], coef, t, k, m); return; }
  if (e->k == K::Sub) { sumTerms(e->op[0], coef, t, k, m); sumTerms(e->op[1], (0 - coef) & m, t, k, m); return; }
  if (e->k == K::Or && !(~e->op[0]->kz & ~e->op[1]->kz)) { sumTerms(e->op[0], coef, t, k, m); sumTerms(e->op[1], coef, t, k, m); return; }
  if (e->k == K::Concat && e->w <= 64) { sumTerms(mkZExt(e->op[1], e->w), coef, t, k, m); sumTerms(mkZExt(e->op[0], e->w), (coef << e->op[1]->w) & m, t, k, m); return; }
  if (e->k == K::Mul && e->op[1]->isConst()) { sumTerms(e->op[0], (coef * (u64)e->op[1]->val) & m, t, k, m); return; }
  auto& x = t[e->id]; x.first = e; x.second = (x.second + coef) & m;
}
static void bitTerms(K k, E e, std::map<u64, std::pair<E, int>>& t) { if (e->k == k) { bitTerms(k, e->op[0], t); bitTerms(k, e->op[1], t); return; } auto& x = t[e->id]; x.first = e; ++x.second; }
static E rebuild(E e, E a, E b, E c) {
  switch (e->k) { case K::Extract: return mkExtract(a, (int)e->val, e->w); case K::Concat: return mkConcat(a, b); case K::ZExt: return mkZExt(a, e->w); case K::SExt: return mkSExt(a, e->w); case K::Ite: return mkIte(a, b, c); case K::Eq: return mkEq(a, b); case K::Xor: case K::And: case K::Or: case K::Add: case K::Sub: case K::Mul: case K::Shl: case K::LShr: case K::AShr: case K::UDiv: case K::URem: case K::SDiv: case K::SRem: return mkBin(e->k, a, b); default: return nullptr; } }
static bool isNot(E a, E b) { return a->k == K::Xor && a->op[0] == b && a->op[1]->isConst() && a->op[1]->val == maskw(a->w); }
E acNorm(E e) {
  if (e->nops == 0 || e->hasFP || e->w > 64) return e; auto it = normMemo.find(e); if (it != normMemo.end()) return it->second; E r = e;
  E a = acNorm(e->op[0]), b = e->nops > 1 ? acNorm(e->op[1]) : nullptr, c = e->nops > 2 ? acNorm(e->op[2]) : nullptr;
  if (e->w > 1 && (e->k == K::Add || e->k == K::Sub)) { u64 m = (u64)maskw(e->w), k = 0; std::map<u64, std::pair<E, u64>> t; sumTerms(a, 1, t, k, m); sumTerms(b, e->k == K::Add ? 1 : m, t, k, m); r = nullptr; for (auto& p : t) { if (!p.second.second) continue; E x = p.second.second == 1 ? p.second.first : mkBin(K::Mul, p.second.first, mkConst(p.second.second, e->w)); r = r ? intern(K::Add, e->w, 0, r, x, nullptr, 2) : x; } E kc = mkConst(k, e->w); if (!r) r = kc; else if (k) r = intern(K::Add, e->w, 0, r, kc, nullptr, 2); }
  else if (e->k == K::Or && a->k == K::And && b->k == K::And) { r = nullptr; for (int i = 0; i < 2 && !r; ++i) for (int j = 0; j < 2 && !r; ++j) { E x = a->op[i], y = a->op[1 - i], nx = b->op[j], z = b->op[1 - j]; if (isNot(nx, x)) r = acNorm(mkBin(K::Xor, z, mkBin(K::And, x, mkBin(K::Xor, y, z)))); else if (isNot(x, nx)) r = acNorm(mkBin(K::Xor, y, mkBin(K::And, nx, mkBin(K::Xor, z, y)))); } if (!r) r = mkBin(K::Or, a, b); }
  else if (e->k == K::Xor || e->k == K::And || e->k == K::Or) { std::map<u64, std::pair<E, int>> t; bitTerms(e->k, a, t); bitTerms(e->k, b, t); r = nullptr; E kc = nullptr; for (auto& p : t) { if (e->k == K::Xor && p.second.second % 2 == 0) continue; if (p.second.first->isConst()) { kc = kc ? mkBin(e->k, kc, p.second.first) : p.second.first; continue; } r = r ? mk(e->k, e->w, r, p.second.first) : p.second.first; } if (kc) r = r ? mkBin(e->k, r, kc) : kc; if (!r) r = mkConst(0, e->w); }
  else { E x = rebuild(e, a, b, c); if (x) r = x; }
  if (normMemo.size() > 2000000) normMemo.clear(); normMemo[e] = r; return r;
}
static int dagCount(E e, std::unordered_set<E>& v, int lim) { if (!v.insert(e).second || (int)v.size() > lim) return (int)v.size(); for (int i = 0; i < e->nops; ++i) dagCount(e->op[i], v, lim); return (int)v.size(); }
bool isLarge(E e, int lim) { std::unordered_set<E> v; return dagCount(e, v, lim) > lim; }
