// C16: copying, filling and byte-swapping bitmaps is exact and clipped
// @bounds source and destination 1..3 x 1..3 pixels (also 0 x 0) with 0 or 3 padding bytes per line, every pair of pixel types, all offsets from -4 to 4 individually and all other 32-bit offsets, all pixel values; fill: 33 colours inside, outside and at the limits of the range, arbitrary previous content
#include "pix.h"
static void copyCase(PixelType s, PixelType d, int sw, int sh, int dw, int dh, int xo, int yo, bool border, int pad) {
  Img a(s, sw, sh, pad, "src"), b(d, dw, dh, 3 - pad, "dst"); CBitmapOperations::CopyWithOffsetInfo i; memset((void*)&i, 0, sizeof(i)); i.xOffset = xo; i.yOffset = yo; i.srcPixelType = s; i.srcPtr = a.p; i.srcStride = a.stride; i.srcWidth = sw; i.srcHeight = sh; i.dstPixelType = d; i.dstPtr = b.p; i.dstStride = b.stride; i.dstWidth = dw; i.dstHeight = dh; i.drawTileBorder = border;
  bool thrown = false; try { CBitmapOperations::CopyWithOffset(i); } catch (const std::exception&) { thrown = true; }
  int64_t x0 = xo > 0 ? xo : 0, x1 = (int64_t)xo + sw < dw ? (int64_t)xo + sw : dw, y0 = yo > 0 ? yo : 0, y1 = (int64_t)yo + sh < dh ? (int64_t)yo + sh : dh; bool any = (x0 < x1) & (y0 < y1);
  if (any) sym_assert(thrown == !convertible(s, d), "an error exactly if there is no conversion");
  if (thrown) { checkImg(b, [&](int, int, uint8_t*) { return false; }, "", "nothing is changed on error"); sym_reach("error"); return; }
  checkImg(b, [&](int x, int y, uint8_t* e) { if (!any) return false; if (x < x0 || x >= x1 || y < y0 || y >= y1) return false; if (border && s == d && (x == x0 || x == x1 - 1 || y == y0 || y == y1 - 1)) memset(e, 0, bpp(d)); else convPixel(s, d, a.was(x - xo, y - yo), e); return true; }, "pixels in the intersection are the converted source pixels", "everything else is unchanged");
  sym_assert(eq(a.p, a.old, a.n), "the source is unchanged"); if (any) sym_reach("copied"); else sym_reach("nothing to copy");
}
// @job time=200 shards=8
HARNESS(c16_convert) { int k = sym_pick(144, "types"); PixelType s = kPt[k % 12], d = kPt[k / 12]; int g = sym_pick(4, "geometry"); bool border = sym_pick(2, "border"); static const int G[4][6] = {{2, 2, 3, 2, 0, 0}, {3, 2, 2, 3, -1, 1}, {2, 3, 3, 3, 1, -1}, {1, 3, 3, 4, 1, 0}}; copyCase(s, d, G[g][0], G[g][1], G[g][2], G[g][3], G[g][4], G[g][5], border, g & 1 ? 3 : 0); }
// @job time=200 shards=16
HARNESS(c16_offset) { int k = sym_pick(12, "what"); static const PixelType S[3] = {PixelType::Gray8, PixelType::Bgr24, PixelType::Bgr48}, D[3] = {PixelType::Gray8, PixelType::Gray8, PixelType::Bgr48}; static const int W[4][4] = {{3, 2, 2, 3}, {1, 3, 3, 3}, {3, 3, 3, 3}, {0, 0, 2, 2}}; const int* w = W[k / 3]; int b = sym_pick(2, "border"); int xo = offset(-4, 4, "xo"), yo = offset(-4, 4, "yo"); copyCase(S[k % 3], D[k % 3], w[0], w[1], w[2], w[3], xo, yo, b, 3); }
// larger intersections
// @job thorough time=900 shards=16
HARNESS(c16_offset_more) { int k = sym_pick(25, "types"); PixelType s = kPt[k % 5], d = kPt[k / 5]; int sw = 1 + sym_pick(4, "sw"), sh = 1 + sym_pick(3, "sh"), dw = 1 + sym_pick(4, "dw"), dh = 1 + sym_pick(3, "dh"); int b = sym_pick(2, "border"); int xo = offset(-4, 4, "xo"), yo = offset(-3, 3, "yo"); copyCase(s, d, sw, sh, dw, dh, xo, yo, b, 3); }
// filling with a colour
// @job time=200 shards=7
HARNESS(c16_fill) { int k = sym_pick(12, "type"); PixelType t = kPt[k]; bool known = k < 6; Img d(known ? t : PixelType::Gray32, 3, 2, 5, "dst"); d.t = t; ImgBm bm(d); static const float V[] = {0, 1, .5f, -.1f, .0019f, .00197f, 1.5f, .25f, .9985f, 7e-6f, 1e30f}; int q = sym_pick(33, "colour"); RgbFloatColor c{V[q % 11], V[(q / 3 + q) % 11], V[(q / 11 * 4 + q) % 11]}; bool thrown = false; try { CBitmapOperations::Fill(&bm, c); } catch (const std::exception&) { thrown = true; } sym_assert(bm.lck == 0, "the bitmap is unlocked"); sym_assert(thrown == !known, "an error exactly if the pixel type cannot be filled"); if (!known) { sym_assert(eq(d.p, d.old, d.n), "nothing changed"); sym_reach("error"); return; }
  auto cl = [](float f, int mx) { return f <= 0 ? 0 : f >= mx ? mx : (int)(f + .5f); }; int mx = t == PixelType::Gray16 || t == PixelType::Bgr48 ? 65535 : 255; float m = (c.r + c.g + c.b) / 3; bool nan = (c.r != c.r) | (c.g != c.g) | (c.b != c.b) | (m != m); sym_assume(!nan); int gray = cl(mx * (c.r + c.g + c.b) / 3, mx), B = cl(mx * c.b, mx), G = cl(mx * c.g, mx), R = cl(mx * c.r, mx);
  checkImg(d, [&](int, int, uint8_t* e) { switch (t) { case PixelType::Gray8: e[0] = gray; break; case PixelType::Gray16: put16(e, gray); break; case PixelType::Gray32Float: putf(e, m); break; case PixelType::Bgra32: e[3] = 255; case PixelType::Bgr24: e[0] = B; e[1] = G; e[2] = R; break; default: put16(e, B); put16(e + 2, G); put16(e + 4, R); } return true; }, "every pixel has the colour", "nothing else is changed"); sym_reach("filled"); }
// channel order and byte order
// @job time=100
HARNESS(c16_swap) { int w = sym_pick(4, "w"), hh = sym_pick(3, "h"), pad = 2 * sym_pick(2, "pad"); if (sym_pick(2, "which")) { Img d(PixelType::Bgr48, w, hh, pad, "img"); CBitmapOperations::RGB48ToBGR48(w, hh, (uint16_t*)d.p, d.stride); checkImg(d, [&](int x, int y, uint8_t* e) { uint8_t* o = d.was(x, y); memcpy(e, o + 4, 2); memcpy(e + 4, o, 2); return true; }, "red and blue are exchanged", "nothing else is changed"); sym_reach("rgb"); }
  else { PixelType t = sym_pick(2, "t") ? PixelType::Bgr48 : PixelType::Gray16; Img s(t, w, hh, pad, "src"), d(t, w, hh, 2 - pad, "dst"); CBitmapOperations::CopyConvertBigEndian(t, s.p, s.stride, d.p, d.stride, w, hh); checkImg(d, [&](int x, int y, uint8_t* e) { uint8_t* o = s.was(x, y); for (int i = 0; i < bpp(t); ++i) e[i] = o[i ^ 1]; return true; }, "bytes are exchanged", "nothing else is changed"); sym_reach("endian"); } }
