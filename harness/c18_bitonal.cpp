// C18: bitonal mask operations act on exactly the addressed bits
// @bounds set/get/set-all: bitmaps of 1..20 x 1..3 pixels, every coordinate; fill: widths 1..26, height 3, every rectangle whose edges lie within 3 pixels around the bitmap plus rectangles with arbitrary 32-bit fields; decimation: widths 1..70 (28 of them), heights 1..5, neighbourhood 0..7 (heights up to 17 in thorough), all bit patterns; masked copy: every pair of pixel types, offsets -3..3 and all others, masks smaller, equal and larger than the source, all mask bits and pixel values
#include "pix.h"
static void checkBits(Mask& m, int x0, int x1, int y0, int y1, bool v, const char* msg) { bool ok = true; for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { bool in = x >= x0 && x < x1 && y >= y0 && y < y1; ok &= m.at(x, y) == (in ? v : m.was(x, y)); } sym_assert(ok, msg); bool pad = true; int b = (m.w + 7) / 8; for (int y = 0; y + 1 < m.h; ++y) pad &= eq(m.p + (size_t)y * m.stride + b, m.old + (size_t)y * m.stride + b, m.stride - b); sym_assert(pad, "padding bytes are unchanged"); }
// @job time=200 shards=8
HARNESS(c18_pixel) {
  int w = 1 + sym_pick(20, "w"), hh = 1 + sym_pick(3, "h"), op = sym_pick(4, "op"); Mask m(w, hh, sym_pick(2, "pad"), "bits"); MaskBm b(m); auto sp = ref<IBitonalBitmapData>(&b); if (op == 3) { BitonalBitmapOperations::SetAllPixels(sp, hh & 1); checkBits(m, 0, w, 0, hh, hh & 1, "every pixel is set"); sym_reach("all"); return; }
  int x = offset(0, w - 1, "x"), y = offset(0, hh - 1, "y"); bool in = (x >= 0) & (x < w) & (y >= 0) & (y < hh), got = false, thrown = false; try { if (op == 0) got = BitonalBitmapOperations::GetPixelValue(sp, (uint32_t)x, (uint32_t)y); else BitonalBitmapOperations::SetPixelValue(sp, (uint32_t)x, (uint32_t)y, op == 1); } catch (const std::exception&) { thrown = true; }
  sym_assert(b.lck == 0, "unlocked"); sym_assert(thrown == !in, "an error exactly for coordinates outside"); if (op == 0 || !in) { sym_assert(eq(m.p, m.old, m.n), "nothing is changed"); if (in) sym_assert(got == m.at(x, y), "the addressed bit is delivered"); } else checkBits(m, x, x + 1, y, y + 1, op == 1, "exactly the addressed bit is set"); if (in) sym_reach("inside"); else sym_reach("outside");
}
// @job time=300 shards=16
HARNESS(c18_fill) {
  int k = sym_pick(26 * 2, "w"); int w = 1 + k % 26; bool v = k / 26; Mask m(w, 3, 1, "bits"); MaskBm b(m); int x0 = sym_pick(w + 5, "x0") - 3, x1 = x0 + sym_pick(w + 4 - x0, "len") - 1; static const int Y[][2] = {{0, 3}, {1, 2}, {-2, 2}, {2, 9}, {-3, -1}, {1, 1}}; int q = sym_pick(x1 - x0 < 2 || w < 10 ? 6 : 2, "rows"); BitonalBitmapOperations::Fill(&b, IntRect{x0, Y[q][0], x1 - x0, Y[q][1] - Y[q][0]}, v); sym_assert(b.lck == 0, "unlocked"); checkBits(m, x0, x1, Y[q][0], Y[q][1], v, "exactly the pixels of the rectangle are filled"); sym_reach("filled");
}
// arbitrary rectangles
// @job time=300 shards=10
HARNESS(c18_fill_any) {
  int k = sym_pick(10, "case"); static const int W[] = {1, 9, 16, 7, 3}; int w = W[k % 5]; bool horz = k / 5; Mask m(w, 3, 1, "bits"); MaskBm b(m); IntRect r{0, 0, w, 3}; if (horz) { r.x = sym_i32("x"); r.w = sym_i32("rw"); } else { r.y = sym_i32("y"); r.h = sym_i32("rh"); } bool v = sym_pick(2, "value"); BitonalBitmapOperations::Fill(&b, r, v); int64_t x0 = r.x, x1 = x0 + r.w, y0 = r.y, y1 = y0 + r.h; bool ok = true; for (int y = 0; y < m.h; ++y) for (int x = 0; x < w; ++x) { bool in = (x >= x0) & (x < x1) & (y >= y0) & (y < y1); ok &= m.at(x, y) == (in ? v : m.was(x, y)); } sym_assert(ok, "exactly the pixels of the rectangle are filled"); sym_reach("filled");
}
static void decimate(int w, int hh, int n) {
  Mask m(w, hh, 2, "bits"); MaskBm b(m); auto d = BitonalBitmapOperations::Decimate(n, &b); sym_assert(b.lck == 0 && d->GetLockCount() == 0, "unlocked"); sym_assert(eq(m.p, m.old, m.n), "the source is unchanged"); IntSize s = d->GetSize(); sym_assert((int)s.w == w / 2 && (int)s.h == hh / 2, "half the size");
  ScopedBitonalBitmapLockerSP l{d}; bool ok = true; for (int y = 0; y < hh / 2; ++y) for (int x = 0; x < w / 2; ++x) { bool e = true; for (int v = 2 * y - n; v <= 2 * y + n; ++v) for (int u = 2 * x - n; u <= 2 * x + n; ++u) if (u >= 0 && v >= 0 && u < w && v < hh) e &= m.at(u, v); ok &= e == (bool)(((const uint8_t*)l.ptrData)[(size_t)y * l.stride + x / 8] >> (7 - x % 8) & 1); }
  sym_assert(ok, "a pixel is set exactly if all pixels of its neighbourhood are"); sym_reach("decimated");
}
static const int kW[28] = {1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 34, 38, 40, 41, 47, 49, 57, 63, 64, 65, 70};
// @job time=300 shards=16 steps=40000000
HARNESS(c18_decimate) { int k = sym_pick(28 * 8, "case"); int w = kW[k % 28], n = k / 28, hh = 1 + sym_pick(w > 20 ? 3 : 5, "h"); if (n > 3 && w > 50) hh = 1 + hh % 2; decimate(w, hh, n); }
// @job thorough time=1200 shards=32 steps=400000000
HARNESS(c18_decimate_tall) { int k = sym_pick(70 * 8, "case"); int w = 1 + k % 70, n = k / 70; static const int H[] = {6, 8, 11, 17}; decimate(w, H[sym_pick(4, "h")], n); }
// @job time=30
HARNESS(c18_decimate_invalid) { Mask m(9, 3, 0, "bits"); MaskBm b(m); int n = sym_i32("n"); sym_assume((n < 0) | (n > 7)); bool thrown = false; try { BitonalBitmapOperations::Decimate(n, &b); } catch (const std::exception&) { thrown = true; } sym_assert(thrown && b.lck == 0, "an invalid neighbourhood is refused"); sym_reach("refused"); }
// lock information which does not fit to the extent is refused
// @job time=100
HARNESS(c18_lockinfo) { uint8_t buf[16] = {0}; BitonalBitmapLockInfo l; l.ptrData = buf; static const uint32_t S[] = {0, 1, 2, 3, 5, 16, 0x10000000, 0xffffffff}; l.stride = S[sym_pick(8, "stride")]; l.size = sym_u64("size"); sym_assume(l.size <= 16); IntSize e{sym_u32("w"), sym_u32("h")}; uint32_t x = sym_u32("x"), y = sym_u32("y"); int op = sym_pick(2, "op"); bool thrown = false; try { if (op) BitonalBitmapOperations::SetPixelValue(l, e, x, y, true); else BitonalBitmapOperations::GetPixelValue(l, e, x, y); } catch (const std::exception&) { thrown = true; } if (thrown) { sym_reach("refused"); return; } sym_assert((x < e.w) & (y < e.h), "inside"); sym_assert((uint64_t)y * l.stride + x / 8 < l.size, "inside of the memory"); sym_reach("accepted"); }
static void masked(PixelType s, PixelType d, int sw, int sh, int mw, int mh, int dw, int dh, int xo, int yo, bool border) {
  Img a(s, sw, sh, 3, "src"), b(d, dw, dh, 2, "dst"); Mask m(mw, mh, 1, "mask"); BitmapOperationsBitonal::CopyWithOffsetAndMaskInfo i; memset((void*)&i, 0, sizeof(i)); i.xOffset = xo; i.yOffset = yo; i.srcPixelType = s; i.srcPtr = a.p; i.srcStride = a.stride; i.srcWidth = sw; i.srcHeight = sh; i.dstPixelType = d; i.dstPtr = b.p; i.dstStride = b.stride; i.dstWidth = dw; i.dstHeight = dh; i.drawTileBorder = border; i.maskPtr = m.p; i.maskStride = m.stride; i.maskWidth = mw; i.maskHeight = mh;
  bool thrown = false; try { if (border) BitmapOperationsBitonal::CopyWithOffsetAndMask(i); else { ImgBm sb(a), db(b); MaskBm mb(m); struct Q { ImgBm &a, &b; MaskBm& m; ~Q() { sym_assert(!a.lck & !b.lck & !m.lck, "unlocked"); } } q{sb, db, mb}; BitonalBitmapOperations::CopyAt(&sb, &mb, IntPoint{xo, yo}, &db); } } catch (const std::exception&) { thrown = true; }
  int cw = sw < mw ? sw : mw, ch = sh < mh ? sh : mh; int64_t x0 = xo > 0 ? xo : 0, x1 = (int64_t)xo + cw < dw ? (int64_t)xo + cw : dw, y0 = yo > 0 ? yo : 0, y1 = (int64_t)yo + ch < dh ? (int64_t)yo + ch : dh; bool any = (x0 < x1) & (y0 < y1);
  if (any) sym_assert(thrown == !convertible(s, d), "an error exactly if there is no conversion"); if (thrown) { checkImg(b, [&](int, int, uint8_t*) { return false; }, "", "nothing is changed on error"); sym_reach("error"); return; }
  checkImg(b, [&](int x, int y, uint8_t* e) { if (!any) return false; if (x < x0 || x >= x1 || y < y0 || y >= y1) return false; if (border && s == d && (x == x0 || x == x1 - 1 || y == y0 || y == y1 - 1)) { memset(e, 0, bpp(d)); return true; } uint8_t c[8]; convPixel(s, d, a.was(x - xo, y - yo), c); bool on = m.was(x - xo, y - yo); for (int k = 0; k < bpp(d); ++k) e[k] = on ? c[k] : e[k]; return true; }, "exactly the pixels whose mask bit is set are replaced by the converted source pixels", "everything else is unchanged"); if (any) sym_reach("copied"); else sym_reach("nothing to copy");
}
// @job time=300 shards=8
HARNESS(c18_copy_types) { int k = sym_pick(144, "types"), g = sym_pick(3, "geometry"); static const int G[3][8] = {{2, 2, 3, 2, 3, 2, 0, 0}, {3, 2, 2, 3, 2, 3, -1, 1}, {2, 1, 2, 2, 3, 3, 1, 0}}; const int* q = G[g]; masked(kPt[k % 12], kPt[k / 12], q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], false); }
// @job time=300 shards=12
HARNESS(c18_copy_offset) { int k = sym_pick(12, "what"); static const PixelType S[2] = {PixelType::Gray8, PixelType::Gray16}, D[2] = {PixelType::Gray8, PixelType::Bgr24}; static const int W[6][6] = {{3, 2, 3, 2, 2, 3}, {2, 2, 9, 1, 3, 3}, {10, 1, 10, 1, 3, 1}, {2, 2, 1, 3, 2, 2}, {1, 3, 2, 2, 3, 3}, {0, 0, 2, 2, 2, 2}}; const int* w = W[k / 2]; int xo = w[0] > 4 ? -offset(-1, 10, "xo") : offset(-3, 3, "xo"), yo = offset(-3, 3, "yo"); masked(S[k % 2], D[k % 2], w[0], w[1], w[2], w[3], w[4], w[5], xo, yo, false); }
// @job time=300 shards=6
HARNESS(c18_copy_border) { int k = sym_pick(6, "what"); static const PixelType S[2] = {PixelType::Gray8, PixelType::Bgr48}; static const int W[3][6] = {{3, 3, 3, 3, 3, 3}, {4, 3, 4, 3, 4, 3}, {1, 3, 1, 3, 2, 3}}; const int* w = W[k / 2]; int xo = sym_pick(3, "xo") - 1, yo = sym_pick(3, "yo") - 1; masked(S[k % 2], S[k % 2], w[0], w[1], w[2], w[3], w[4], w[5], xo, yo, true); }
