// C17: nearest-neighbour resizing stays inside its bitmaps and picks the right pixel
// @bounds bitmaps of 0..5 x 0..3 pixels, every pair of pixel types; regions from a grid of 16 x 16 source/destination intervals per axis (fractional, partly and completely outside, empty, negative, infinite, NaN); all pixel values, all mask bits
// @assume region coordinates are taken from the grid above, not all doubles: the rounding of floating-point coordinates is executed on concrete numbers
#include "pix.h"
#include <cmath>
#include <limits>
struct Iv { double x, w; };
static const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
static const Iv kIv[16] = {{0, 3}, {0, 4}, {1, 2}, {0.5, 2.5}, {-1, 3}, {-1.5, 6}, {2, 5}, {0, 1}, {0.25, 0.5}, {7, 2}, {-9, 3}, {0, 100}, {0, 0}, {2, -2}, {0, INF}, {NaN, 3}};
static bool sane(const Iv& a) { return a.w > 0 && a.w < 1e6 && a.x == a.x; }
// candidates for one destination coordinate: lo..hi source indices; must: has to be written; may: may be written
struct Ax { int lo, hi; bool must, may; };
static Ax axis(int x, const Iv& s, const Iv& d, int sw) {
  Ax r{0, sw - 1, false, true}; if (!sane(s) || !sane(d)) return r; double q = (x - d.x) * (s.w / d.w) + s.x, e = 1e-9; r.may = x >= std::floor(d.x) && x <= d.x + d.w && sw > 0 && q > -1 - e - s.w / d.w && q < sw + s.w / d.w + e; r.must = sw > 0 && x >= d.x && x < d.x + d.w && q >= e && q <= sw - 1 - e; if (q == 0 && x >= d.x && x < d.x + d.w && sw > 0) r.must = true; if (std::fabs(q - (sw - 1)) < 1e-12 && x >= d.x && x < d.x + d.w && sw > 0 && s.w == d.w) r.must = true;
  double lo = std::ceil(q - .5 - e), hi = std::floor(q + .5 + e); r.lo = lo < 0 ? 0 : lo > sw - 1 ? sw - 1 : (int)lo; r.hi = hi < 0 ? 0 : hi > sw - 1 ? sw - 1 : (int)hi; return r;
}
static void check(Img& a, Img& b, Mask* m, const Iv& sx, const Iv& sy, const Iv& dx, const Iv& dy) {
  bool okVal = true, okOut = true; int B = bpp(b.t); for (int y = 0; y < b.h; ++y) { Ax v = axis(y, sy, dy, a.h); for (int x = 0; x < b.w; ++x) { Ax u = axis(x, sx, dx, a.w); bool unch = eq(b.at(x, y), b.was(x, y), B); if (!u.may || !v.may || a.w == 0 || a.h == 0) { okOut &= unch; continue; } bool may = u.must && v.must ? false : unch;
      for (int j = v.lo; j <= v.hi; ++j) for (int i = u.lo; i <= u.hi; ++i) { uint8_t e[8]; convPixel(a.t, b.t, a.was(i, j), e); bool same = eq(e, b.at(x, y), B); if (m) { bool on = i < m->w && j < m->h && m->was(i, j); same = on ? same : unch; } may |= same; } okVal &= may; } if (y + 1 < b.h && b.w) okOut &= eq(b.at(b.w, y), b.was(b.w, y), b.stride - b.w * B); }
  sym_assert(okVal, "every written pixel is the converted source pixel at the mapped position"); sym_assert(okOut, "pixels outside of the region are unchanged"); sym_assert(eq(a.p, a.old, a.n), "the source is unchanged");
}
static bool scalable(PixelType s, PixelType d) { return convertible(s, d) || (s == PixelType::Bgra32 && d == s); }
static void run(PixelType s, PixelType d, int sw, int sh, int dw, int dh, const Iv& sx, const Iv& sy, const Iv& dx, const Iv& dy, int mask) {
  Img a(s, sw, sh, 3, "src"), b(d, dw, dh, 2, "dst"); ImgBm sb(a), db(b); static const int MS[4][2] = {{0, 0}, {5, 3}, {2, 2}, {9, 1}}; Mask m(MS[mask][0], MS[mask][1], 0, "mask"); MaskBm mb(m); bool thrown = false; DblRect rs{sx.x, sy.x, sx.w, sy.w}, rd{dx.x, dy.x, dx.w, dy.w};
  try { if (mask) BitmapOperationsBitonal::NNResizeMaskAware(&sb, &mb, &db, rs, rd); else CBitmapOperations::NNResize(&sb, &db, rs, rd); } catch (const std::exception&) { thrown = true; } sym_assert(!sb.lck && !db.lck && !mb.lck, "unlocked"); sym_assert(thrown == !scalable(s, d), "an error exactly if there is no conversion"); if (thrown) { sym_assert(eq(b.p, b.old, b.n), "nothing is changed on error"); sym_reach("error"); return; } check(a, b, mask ? &m : nullptr, sx, sy, dx, dy); sym_reach("resized");
}
// @job time=200 shards=16
HARNESS(c17_roi) { int k = sym_pick(256, "regions"); const Iv &s = kIv[k % 16], &d = kIv[k / 16]; static const int S[4][4] = {{3, 2, 4, 2}, {1, 1, 5, 1}, {5, 1, 2, 2}, {4, 2, 4, 1}}; int z = sym_pick(4, "size"); if (sym_pick(2, "axis")) run(PixelType::Gray8, PixelType::Gray8, S[z][0], S[z][1], S[z][2], S[z][3], s, Iv{0, (double)S[z][1]}, d, Iv{0, (double)S[z][3]}, 0); else run(PixelType::Gray8, PixelType::Gray8, S[z][1], S[z][0], S[z][3], S[z][2], Iv{0, (double)S[z][1]}, s, Iv{0, (double)S[z][3]}, d, 0); }
// empty bitmaps
// @job time=100 shards=4
HARNESS(c17_empty) { int k = sym_pick(256, "regions"); const Iv &s = kIv[k % 16], &d = kIv[k / 16]; static const int S[4][4] = {{0, 2, 4, 2}, {0, 0, 5, 1}, {5, 0, 2, 2}, {4, 2, 0, 0}}; int z = sym_pick(4, "size"); run(PixelType::Gray8, PixelType::Gray8, S[z][0], S[z][1], S[z][2], S[z][3], s, s, d, d, 0); }
// @job time=200 shards=8
HARNESS(c17_types) { int k = sym_pick(144, "types"); int g = sym_pick(2, "geometry"), mk = sym_pick(2, "mask"); if (g) run(kPt[k % 12], kPt[k / 12], 2, 1, 3, 1, Iv{0, 2}, Iv{0, 1}, Iv{0, 3}, Iv{0, 1}, mk); else run(kPt[k % 12], kPt[k / 12], 3, 2, 2, 1, Iv{1, 2}, Iv{0, 2}, Iv{-1, 3}, Iv{0, 1}, mk); }
// @job time=200 shards=12
HARNESS(c17_mask) { int k = sym_pick(144, "regions"); const Iv &s = kIv[k % 12], &d = kIv[k / 12]; int mk = 1 + sym_pick(3, "mask"); if (sym_pick(2, "axis")) run(PixelType::Gray8, PixelType::Gray8, 4, 2, 3, 2, s, Iv{0, 2}, d, Iv{0, 2}, mk); else run(PixelType::Gray8, PixelType::Gray16, 3, 3, 2, 3, Iv{0, 3}, s, Iv{0, 2}, d, mk); }
// whole bitmaps; same size is the identity
// @job time=200 shards=8
HARNESS(c17_whole) { int sw = 1 + sym_pick(5, "sw"), dw = 1 + sym_pick(5, "dw"), sh = 1 + sym_pick(3, "sh"), dh = 1 + sym_pick(3, "dh"); PixelType t = kPt[sym_pick(6, "t")]; Img a(t, sw, sh, 1, "src"), b(t, dw, dh, 2, "dst"); ImgBm sb(a), db(b); CBitmapOperations::NNResize(&sb, &db); sym_assert(!sb.lck && !db.lck, "unlocked"); Iv X{0, (double)sw}, Y{0, (double)sh}, U{0, (double)dw}, V{0, (double)dh}; check(a, b, nullptr, X, Y, U, V); if (sw == dw && sh == dh) { bool ok = true; for (int y = 0; y < sh; ++y) ok &= eq(b.at(0, y), a.was(0, y), sw * bpp(t)); sym_assert(ok, "same size is the identity"); sym_reach("identity"); } sym_reach("resized"); }
