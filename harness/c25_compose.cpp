// C25: multi-channel composition
// @bounds 1..3 channels, bitmaps of up to 3 x 2 pixels with padded lines, every source pixel type; all pixel values, all tinting colours, all contents of 8-bit look-up tables; black and white points and weights from a grid (including values outside of 0..1 and NaN); one pixel for computations with floating-point numbers
// @assume where a value is computed with floating-point numbers, it may differ from exact rounding by 1 if the exact value is within 1/100 of a tie
#include "pix.h"
#include <limits>
#include <cmath>
typedef Compositors::ChannelInfo CI;
static CI info() { CI c; c.Clear(); c.weight = 1; c.whitePoint = 1; return c; }
static const float NaNf = std::numeric_limits<float>::quiet_NaN(), INFf = std::numeric_limits<float>::infinity();
// lo..hi: the values which a rounded N/D may have
struct R { int lo, hi; };
static inline R exact(int v) { return {v, v}; }
static inline R quot(unsigned n, unsigned d) { unsigned s = d / 100; unsigned a = n + d / 2, lo = n + (d + 1) / 2 >= s ? (n + (d + 1) / 2 - s) : 0; R r; r.hi = (int)((a + s) / d); r.lo = (int)(lo / d); return r; }
static int sat(int v) { return v > 255 ? 255 : v; }
static int ncol(PixelType t) { return t == PixelType::Gray8 || t == PixelType::Gray16 ? 1 : 3; }
static bool wide(PixelType t) { return t == PixelType::Gray16 || t == PixelType::Bgr48; }
static unsigned val(PixelType t, const uint8_t* p, int c) { int i = ncol(t) == 1 ? 0 : c; return wide(t) ? u16(p + 2 * i) : p[i]; }
// value of colour component c (b, g, r) of the pixel at p
static R expect(PixelType t, const uint8_t* p, int c, const CI& i) {
  unsigned T = c == 0 ? i.tinting.color.b : c == 1 ? i.tinting.color.g : i.tinting.color.r, M = wide(t) ? 65535 : 255, n = (unsigned)ncol(t);
  if (i.lookUpTableElementCount) { if (!i.enableTinting) return exact(i.ptrLookUpTable[val(t, p, c)]); unsigned s = 0; for (unsigned k = 0; k < n; ++k) s += i.ptrLookUpTable[val(t, p, (int)k)]; return quot(s * T, 255 * n); }
  if (i.blackPoint <= 0 && i.whitePoint >= 1) { if (!i.enableTinting) return exact((int)(val(t, p, c) >> (wide(t) ? 8 : 0))); unsigned s = 0; for (unsigned k = 0; k < n; ++k) s += val(t, p, (int)k); return quot(s * T, M * n); }
  float b = i.blackPoint < 0 ? 0 : i.blackPoint > 1 ? 1 : i.blackPoint, w = i.whitePoint < 0 ? 0 : i.whitePoint > 1 ? 1 : i.whitePoint; unsigned B = (unsigned)std::ceil(b * (float)M), W = (unsigned)std::floor(w * (float)M);
  unsigned v = val(t, p, c); if (i.enableTinting && n == 3) v = (val(t, p, 0) + val(t, p, 1) + val(t, p, 2) + 1) / 3; unsigned top = i.enableTinting ? T : 255;
  if (v <= B) return exact(0); if (v >= W) return exact((int)top); return quot((v - B) * top, W - B);
}
static bool supported(PixelType t, const CI& i) { bool plain = i.blackPoint <= 0 && i.whitePoint >= 1 && !i.lookUpTableElementCount; return t == PixelType::Gray8 || t == PixelType::Gray16 || t == PixelType::Bgr24 || t == PixelType::Bgr48 || (plain && t == PixelType::Bgra32); }
static bool compose(Img& d, uint8_t alpha, int n, IBitmapData* const* b, const CI* ci) {
  ImgBm db(d); bool thrown = false; try { if (d.t == PixelType::Bgra32) Compositors::ComposeMultiChannel_Bgra32(&db, alpha, n, b, ci); else Compositors::ComposeMultiChannel_Bgr24(&db, n, b, ci); } catch (const std::exception&) { thrown = true; } sym_assert(!db.lck, "destination unlocked"); return !thrown;
}
static bool in(int v, int lo, int hi) { return (v >= lo) & (v <= hi); }
static void verify(Img& d, uint8_t alpha, int n, Img* const* s, const CI* ci) {
  bool ok = true, al = true, pad = true; for (int y = 0; y < d.h; ++y) { for (int x = 0; x < d.w; ++x) { for (int c = 0; c < 3; ++c) { int lo = 0, hi = 0; for (int k = 0; k < n; ++k) { R r = expect(s[k]->t, s[k]->was(x, y), c, ci[k]); lo = sat(lo + r.lo); hi = sat(hi + r.hi); } ok &= in(d.at(x, y)[c], lo, hi); } if (d.t == PixelType::Bgra32) al &= d.at(x, y)[3] == alpha; } if (y + 1 < d.h) pad &= eq(d.at(d.w, y), d.was(d.w, y), d.stride - d.w * bpp(d.t)); }
  sym_assert(ok, "each pixel is the saturated sum of the channels' values"); sym_assert(al, "alpha is the value given"); sym_assert(pad, "nothing is written outside of the pixels"); for (int k = 0; k < n; ++k) sym_assert(eq(s[k]->p, s[k]->old, s[k]->n), "sources are unchanged");
}
static PixelType dt(int k) { return k ? PixelType::Bgra32 : PixelType::Bgr24; }
// no tinting: exact
// @job time=200 shards=12
HARNESS(c25_plain) {
  int a = sym_pick(12, "type 1"), b = sym_pick(12, "type 2"), n = 1 + sym_pick(3, "channels"), w = 1 + sym_pick(3, "width"); if (n == 1 && b) sym_assume(false); if (n == 3 && a != b) sym_assume(false); PixelType D = dt(sym_pick(2, "destination")); uint8_t alpha = sym_u8("alpha");
  Img s0(kPt[a], w, 2, 1, "s0"), s1(kPt[b], w, 2, 0, "s1"), s2(PixelType::Gray8, w, 2, 3, "s2"), d(D, w, 2, 2, "d"); ImgBm b0(s0), b1(s1), b2(s2); IBitmapData* bm[3] = {&b0, &b1, &b2}; Img* im[3] = {&s0, &s1, &s2}; CI ci[3] = {info(), info(), info()};
  bool ok = compose(d, alpha, n, bm, ci); sym_assert(!b0.lck && !b1.lck && !b2.lck, "unlocked"); bool sup = supported(kPt[a], ci[0]) && (n < 2 || supported(kPt[b], ci[1])); sym_assert(ok == sup, "an error exactly for an unsupported pixel type"); if (!ok) { sym_reach("unsupported"); return; } verify(d, alpha, n, im, ci); sym_reach("composed");
}
// look-up tables
// @job time=250 shards=24 prio=900
HARNESS(c25_lut) { 
  int a2 = sym_pick(24, "type and destination"), a = a2 / 2, L = sym_pick(6, "table size"), n = 1 + sym_pick(2, "channels"), q = sym_pick(2, "first"); if (n == 1 && q) sym_assume(false); if (wide(kPt[a]) && (n == 1) != (a2 % 2 == 1)) sym_assume(false); PixelType D = dt(a2 % 2); uint8_t alpha = sym_u8("alpha"); static const int LS[6] = {256, 65536, 255, 257, -1, 1}; bool have = sym_pick(2, "table given") == 0;
  size_t ls = LS[L] > 0 ? (size_t)LS[L] : 0; uint8_t* lut = (uint8_t*)malloc(ls ? ls : 1); if (ls <= 300) { if (ls) sym_bytes(lut, ls, "table"); } else for (size_t i = 0; i < ls; ++i) lut[i] = (uint8_t)(i * 7 + (i >> 8));
  const int H = wide(kPt[a]) ? 1 : 2; Img s0(kPt[a], 1, H, 1, "s0"), s1(PixelType::Gray8, 1, H, 2, "s1"), d(D, 1, H, 2, "d"); if (wide(kPt[a])) { int sy = sym_pick(bpp(kPt[a]), "symbolic byte"); for (int i = 0; i < bpp(kPt[a]); ++i) if (i != sy) s0.p[i] = s0.old[i] = (uint8_t)(i * 37 + 5); } ImgBm b0(s0), b1(s1); IBitmapData* bm[2] = {&b0, &b1}; Img* im[2] = {&s0, &s1}; CI ci[2] = {info(), info()}; if (q) { std::swap(bm[0], bm[1]); std::swap(im[0], im[1]); } CI& c = ci[q]; c.lookUpTableElementCount = LS[L]; c.ptrLookUpTable = have ? lut : nullptr; c.blackPoint = .5f; c.whitePoint = .75f;
  bool ok = compose(d, alpha, n, bm, ci); sym_assert(!b0.lck && !b1.lck, "unlocked"); PixelType t = kPt[a]; bool good = have && supported(t, c) && LS[L] == (wide(t) ? 65536 : 256); sym_assert(ok == good, "an error exactly for an unsupported pixel type or a table of the wrong size"); if (ok) { verify(d, alpha, n, im, ci); sym_reach("composed"); } else { sym_assert(eq(d.p, d.old, d.n) || q, "nothing is written on error"); sym_reach("refused"); } free(lut);
}
#ifndef OB
#define OB 2
#endif
#ifndef NC
#define NC 2
#endif
// Where floating-point numbers are involved: the upper byte of one component is symbolic, the other bytes are taken from a grid
static const PixelType kSup[5] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32};
struct One { Img s; ImgBm b; One(PixelType t, const char* nm) : s(t, 1, 1, 0, nm), b(s) { static const uint8_t G[4] = {0, 255, 100, 1}; int k = bpp(t) > 1 ? sym_pick(OB, "other bytes") : 0, at = wide(t) ? 1 : 0; if (bpp(t) > 2) at = sym_pick(3, "component") * (wide(t) ? 2 : 1) + (wide(t) ? 1 : 0); for (int i = 0; i < bpp(t); ++i) { if (i != at) s.p[i] = G[(k + i * (k & 1)) % 4]; s.old[i] = s.p[i]; } } };
static void tint(CI& c, int k) { static const uint8_t T[6][3] = {{255, 0, 128}, {1, 254, 100}, {200, 77, 3}, {2, 64, 255}, {253, 31, 150}, {127, 129, 9}}; c.enableTinting = true; c.tinting.color.r = T[k][0]; c.tinting.color.g = T[k][1]; c.tinting.color.b = T[k][2]; }
static void one(PixelType t, PixelType D, CI c, const char* nm) { One o(t, nm); Img d(D, 1, 1, 0, "d"); IBitmapData* bm[1] = {&o.b}; Img* im[1] = {&o.s}; uint8_t alpha = sym_u8("alpha"); bool ok = compose(d, alpha, 1, bm, &c); sym_assert(ok == supported(t, c), "composed"); sym_assert(!o.b.lck, "unlocked"); if (ok) { verify(d, alpha, 1, im, &c); sym_reach("composed"); } else sym_reach("unsupported"); }
// @job quick time=500 shards=10 fpt=60000 prio=800
// @job thorough time=1500 shards=30 fpt=60000 defs=-DOB=4,-DNC=6
HARNESS(c25_tint) { int k = sym_pick(5 * NC, "type and colour"); PixelType t = kSup[k % 5]; CI c = info(); tint(c, k / 5); one(t, PixelType::Bgr24, c, "s"); }
// @job quick time=500 shards=10 fpt=60000 prio=800
// @job thorough time=1500 shards=30 fpt=60000 defs=-DOB=4,-DNC=6
HARNESS(c25_tintlut) { int k = sym_pick(5 * NC, "type and colour"); PixelType t = kSup[k % 5]; CI c = info(); tint(c, k / 5); uint8_t* lut = (uint8_t*)malloc(wide(t) ? 65536 : 256); for (int i = 0; i < (wide(t) ? 65536 : 256); ++i) lut[i] = (uint8_t)((wide(t) ? i >> 8 : i) ^ 0x5a); c.lookUpTableElementCount = wide(t) ? 65536 : 256; c.ptrLookUpTable = lut; one(t, PixelType::Bgra32, c, "s"); free(lut); }
static const float BW[9][2] = {{.25f, .75f}, {0, .5f}, {.1f, 1}, {.5f, .5f}, {.8f, .2f}, {-1, .6f}, {.3f, 2}, {0, 0}, {1, 1}};
// @job quick time=500 shards=45 fpt=60000 defs=-DOB=1
// @job thorough time=1500 shards=45 fpt=60000 defs=-DOB=4
HARNESS(c25_points) { int k = sym_pick(45, "type and points"); PixelType t = kSup[k % 5]; CI c = info(); c.blackPoint = BW[k / 5][0]; c.whitePoint = BW[k / 5][1]; one(t, PixelType::Bgr24, c, "s"); }
// @job quick time=500 shards=45 fpt=60000 defs=-DOB=1
// @job thorough time=1500 shards=45 fpt=60000 defs=-DOB=4
HARNESS(c25_tintpoints) { int k = sym_pick(45, "type and points"); PixelType t = kSup[k % 5]; CI c = info(); c.blackPoint = BW[k / 5][0]; c.whitePoint = BW[k / 5][1]; tint(c, k % 3); one(t, PixelType::Bgra32, c, "s"); }
// weights: relative to their mean; equal or invalid weights are not used
// @job time=500 shards=12 fpt=60000
HARNESS(c25_weights) {
  static const float W[12][3] = {{1, 1, 1}, {1, 3, 0}, {.5f, 1.5f, 1}, {0, 0, 0}, {0, 1, 2}, {-1, 2, 1}, {NaNf, 1, 1}, {1, INFf, 0}, {2, 2, 2}, {4, 1, 1}, {1, 0, 0}, {3, 1, 4}}; int k = sym_pick(12, "weights"), n = 1 + sym_pick(3, "channels"), sy = sym_pick(n, "symbolic channel"), g = sym_pick(3, "other"); if (n == 1 && g) sym_assume(false); PixelType D = dt(sym_pick(2, "destination"));
  One s0(PixelType::Gray8, "s0"), s1(PixelType::Gray8, "s1"), s2(PixelType::Gray8, "s2"); One* o[3] = {&s0, &s1, &s2}; static const uint8_t G[3] = {0, 200, 60}; IBitmapData* bm[3]; CI ci[3]; for (int i = 0; i < 3; ++i) { bm[i] = &o[i]->b; ci[i] = info(); ci[i].weight = W[k][i]; if (i != sy) o[i]->s.p[0] = o[i]->s.old[0] = G[g]; }
  Img d(D, 1, 1, 0, "d"); sym_assert(compose(d, 9, n, bm, ci), "composed"); bool valid = true, differ = false; float sum = 0; for (int i = 0; i < n; ++i) { valid &= W[k][i] >= 0 && W[k][i] < INFf; sum += W[k][i]; differ |= W[k][i] != W[k][0]; } bool use = valid && differ && sum > 0; int lo = 0, hi = 0;
  for (int i = 0; i < n; ++i) { unsigned v = o[i]->s.old[0]; R r = use ? quot(v * (unsigned)(W[k][i] * 2) * (unsigned)n, (unsigned)(sum * 2)) : exact((int)v); lo = sat(lo + r.lo); hi = sat(hi + r.hi); } for (int c = 0; c < 3; ++c) sym_assert(in(d.p[c], lo, hi), "weighted sum"); if (D == PixelType::Bgra32) sym_assert(d.p[3] == 9, "alpha"); sym_reach(use ? "weighted" : "not weighted");
}
// arguments
HARNESS(c25_args) {
  int k = sym_pick(9, "case"), alloc = sym_pick(2, "allocate"); PixelType D = dt(sym_pick(2, "destination")); Img s0(PixelType::Gray8, 2, 1, 0, "s0"), s1(PixelType::Gray8, k == 1 ? 3 : 2, k == 2 ? 2 : 1, 0, "s1"), d(k == 3 ? PixelType::Gray8 : D, 2, 1, 0, "d"); ImgBm b0(s0), b1(s1), db(d); IBitmapData* bm[2] = {k == 4 ? nullptr : &b0, k == 5 ? nullptr : &b1}; CI ci[2] = {info(), info()}; int n = k == 6 ? sym_i32("n") : 2; if (k == 6) sym_assume(n <= 0);
  bool thrown = false; std::shared_ptr<IBitmapData> r; IBitmapData* const* pb = k == 7 ? nullptr : bm; const CI* pc = k == 8 ? nullptr : ci; try { if (alloc) r = D == PixelType::Bgr24 ? Compositors::ComposeMultiChannel_Bgr24(n, pb, pc) : Compositors::ComposeMultiChannel_Bgra32((uint8_t)5, n, pb, pc); else if (D == PixelType::Bgr24) Compositors::ComposeMultiChannel_Bgr24(&db, n, pb, pc); else Compositors::ComposeMultiChannel_Bgra32(&db, (uint8_t)5, n, pb, pc); } catch (const std::exception&) { thrown = true; }
  sym_assert(thrown == (k != 0 && !(k == 3 && alloc)), "invalid arguments are refused"); sym_assert(!b0.lck && !b1.lck && !db.lck, "unlocked"); if (thrown) sym_assert(eq(d.p, d.old, d.n), "nothing is written on error"); if (r) { sym_assert(r->GetPixelType() == D && r->GetWidth() == 2 && r->GetHeight() == 1, "bitmap of the sources' size"); ScopedBitmapLockerSP l{r}; bool ok = true; for (int x = 0; x < 2; ++x) for (int c = 0; c < bpp(D); ++c) ok &= ((uint8_t*)l.ptrDataRoi)[x * bpp(D) + c] == (c == 3 ? 5 : sat(s0.p[x] + s1.p[x])); sym_assert(ok, "composite"); } sym_reach(thrown ? "refused" : "composed");
}
