// Differential self-test of the expression simplifier: random expressions are built through the simplifying constructors and
// compared with direct evaluation of the operations; known bits and ranges are checked as well.
#include "../engine/expr.h"
#include <random>
#include <cstdio>
#include <cstdlib>
int main(int argc, char** argv) {
  std::mt19937_64 r(argc > 1 ? atoll(argv[1]) : 1); long iters = argc > 2 ? atol(argv[2]) : 20000; long nodes = 0;
  for (long it = 0; it < iters; ++it) {
    Assign m(gVars.size() + 64, 0); struct N { E e; u128 v; }; std::vector<N> pool; static int vc = 0;
    int ws[] = {1, 8, 8, 16, 32, 32, 64, 64, 5, 13};
    for (int i = 0; i < 4; ++i) { int w = ws[r() % 10]; static std::vector<E> vv[65]; if (vv[w].size() < 6) vv[w].push_back(mkVar("v" + std::to_string(vc++), w)); E e = vv[w][r() % vv[w].size()]; if (m.size() <= gVars.size()) m.resize(gVars.size() + 64); u64 x; switch (r() % 4) { case 0: x = 0; break; case 1: x = ~0ull; break; case 2: x = r() % 8; break; default: x = r(); } x &= (u64)maskw(w);
      bool dup = false; for (auto& p : pool) if (p.e == e) { dup = true; } if (dup) continue; m[(size_t)e->val] = x; pool.push_back({e, x}); }
    for (int i = 0; i < 5; ++i) { int w = ws[r() % 10]; u128 x; switch (r() % 4) { case 0: x = 0; break; case 1: x = ~(u128)0; break; case 2: x = r() % 8; break; default: x = r(); } x &= maskw(w); pool.push_back({mkConst(x, w), x}); }
    for (int i = 0; i < 24; ++i) {
      N a = pool[r() % pool.size()]; int k = r() % 28; E e; u128 v;
      auto same = [&](int w) { for (int t = 0; t < 12; ++t) { N& b = pool[r() % pool.size()]; if (b.e->w == w) return b; } u128 x = r() % 3 ? r() % 5 : r(); x &= maskw(w); return N{mkConst(x, w), x}; };
      if (k < 18) { K kk = (K)((int)K::Add + k); N b = same(a.e->w); if (kk >= K::UDiv && kk <= K::SRem && b.v == 0) continue; bool c = kk >= K::Eq; e = mkBin(kk, a.e, b.e); v = evalOp(kk, c ? 1 : a.e->w, a.e->w, a.v, b.v, 0, 0); }
      else if (k == 18 || k == 19) { N b = pool[r() % pool.size()]; if (a.e->w + b.e->w > 64) continue; e = mkConcat(a.e, b.e); v = a.v << b.e->w | b.v; }
      else if (k == 20 || k == 21) { int off = r() % a.e->w; int w = 1 + r() % (a.e->w - off); e = mkExtract(a.e, off, w); v = a.v >> off & maskw(w); }
      else if (k == 22) { if (a.e->w >= 64) continue; int w = a.e->w + 1 + r() % (64 - a.e->w); e = mkZExt(a.e, w); v = a.v; }
      else if (k == 23) { if (a.e->w >= 64) continue; int w = a.e->w + 1 + r() % (64 - a.e->w); e = mkSExt(a.e, w); v = evalOp(K::SExt, w, a.e->w, a.v, 0, 0, 0); }
      else if (k == 24 || k == 25) { N c = same(1), b = same(a.e->w); e = mkIte(c.e, a.e, b.e); v = c.v ? a.v : b.v; }
      else if (k == 26) { e = mkNot(a.e); v = ~a.v & maskw(a.e->w); }
      else { std::vector<E> lv; std::vector<u128> vv; int n = 1 + r() % 7; int w = a.e->w; for (int j = 0; j < n; ++j) { N b = same(w); lv.push_back(b.e); vv.push_back(b.v); } N x = same(8); if (x.v >= (u128)n) continue; e = mkMux(lv, x.e); v = vv[(size_t)x.v]; }
      ++nodes; newEvalEpoch(); u128 got = evalExpr(e, m);
      if (got != v) { printf("MISMATCH kind %d: want %llx got %llx  %s\n", k, (unsigned long long)v, (unsigned long long)got, exprStr(e).c_str()); return 1; }
      if (e->w <= 64) { u64 x = (u64)v; if ((x & e->kz) || (~x & e->ko & (u64)maskw(e->w)) || x < e->lo || x > e->hi) { printf("RANGE kind %d: v %llx kz %llx ko %llx lo %llx hi %llx %s\n", k, (unsigned long long)x, (unsigned long long)e->kz, (unsigned long long)e->ko, (unsigned long long)e->lo, (unsigned long long)e->hi, exprStr(e).c_str()); return 1; } }
      pool.push_back({e, v});
    }
  }
  // comparisons of a quotient of integers with a constant
  { E x = mkVar("fx", 32), y = mkVar("fy", 32); E q = mkFP2(K::FDiv, mkFP1(K::SIToFP, x, 64), mkFP1(K::SIToFP, y, 64), 64); long hit = 0;
    for (long it = 0; it < iters; ++it) { int32_t p = r() % 3 ? (int32_t)(r() % 200) - 100 : (int32_t)r(), o = r() % 3 ? (int32_t)(r() % 200) - 100 : (int32_t)r(); if (r() % 40 == 0) o = 0; double c; switch (r() % 6) { case 0: c = (double)p / (o ? o : 1); break; case 1: c = nextafter((double)p / (o ? o : 1), r() & 1 ? 1e9 : -1e9); break; case 2: c = (double)(int)(r() % 9) - 4; break; case 3: c = 2.2; break; case 4: c = 1.0 / (1 + r() % 50); break; default: c = ((double)(int32_t)r()) / 1e6; }
      u64 cb; __builtin_memcpy(&cb, &c, 8); E ce = mkConst(cb, 64); Assign m(gVars.size() + 1, 0); m[(size_t)x->val] = (uint32_t)p; m[(size_t)y->val] = (uint32_t)o; double d = (double)p / (double)o;
      struct { E e; bool v; } t[] = {{mkFP2(K::FOle, q, ce, 1), d <= c}, {mkFP2(K::FOlt, q, ce, 1), d < c}, {mkFP2(K::FOle, ce, q, 1), c <= d}, {mkFP2(K::FOlt, ce, q, 1), c < d}, {mkFP2(K::FOeq, q, ce, 1), d == c}, {mkFP2(K::FUno, q, ce, 1), d != d}};
      for (int i = 0; i < 6; ++i) { newEvalEpoch(); if (!t[i].e->hasFP) ++hit; if (evalExpr(t[i].e, m) != (u128)t[i].v) { printf("FDIV mismatch %d: %d / %d vs %.17g\n", i, p, o, c); return 1; } } }
    printf("fdiv comparisons rewritten: %ld\n", hit); }
  printf("ok: %ld nodes\n", nodes); return 0;
}
