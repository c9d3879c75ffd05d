// Pixels: the documented conversions, and bitmaps with exactly as much memory as they announce.
#pragma once
#include "common.h"
#include <cstdlib>
#include "BitmapOperations.h"
#include "BitmapOperationsBitonal.h"
using namespace libCZI; using namespace libCZI::detail; using namespace h;
static const PixelType kPt[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32, PixelType::Gray32, PixelType::Gray64Float, PixelType::Bgr96Float, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat, PixelType::Invalid};
static int bpp(PixelType t) { switch (t) { case PixelType::Gray8: return 1; case PixelType::Gray16: return 2; case PixelType::Gray32Float: case PixelType::Bgra32: case PixelType::Gray32: return 4; case PixelType::Bgr24: return 3; case PixelType::Bgr48: return 6; default: return 0; } }
static inline unsigned u16(const uint8_t* p) { return p[0] | p[1] << 8; }
static inline void put16(uint8_t* p, unsigned v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); }
static inline void putf(uint8_t* p, float f) { memcpy(p, &f, 4); }
static bool convertible(PixelType s, PixelType d) { bool si = s == PixelType::Gray8 || s == PixelType::Gray16 || s == PixelType::Bgr24 || s == PixelType::Bgr48, dg = d == PixelType::Gray8 || d == PixelType::Gray16 || d == PixelType::Bgr24 || d == PixelType::Bgr48 || d == PixelType::Gray32Float; return (si && dg) || (s == PixelType::Gray32Float && d == s); }
// the conversion of one pixel: grey to colour replicates, 16 to 8 bit takes the upper byte, 8 to 16 bit keeps the value, colour to grey is the mean
static void convPixel(PixelType s, PixelType d, const uint8_t* p, uint8_t* q) {
  if (s == d) { memcpy(q, p, bpp(s)); return; } bool wide = s == PixelType::Gray16 || s == PixelType::Bgr48, col = s == PixelType::Bgr24 || s == PixelType::Bgr48; unsigned v[3];
  for (int i = 0; i < 3; ++i) v[i] = wide ? u16(p + (col ? 2 * i : 0)) : p[col ? i : 0]; unsigned sum = v[0] + v[1] + v[2];
  switch (d) {
  case PixelType::Gray32Float: putf(q, col ? (float)(int)sum / 3 : (float)v[0]); break;
  case PixelType::Gray8: q[0] = (uint8_t)(col ? (wide ? (sum / 3) >> 8 : (sum + 1) / 3) : v[0] >> (wide ? 8 : 0)); break;
  case PixelType::Gray16: put16(q, col ? (wide ? sum / 3 : (sum + 1) / 3) : v[0]); break;
  case PixelType::Bgr24: for (int i = 0; i < 3; ++i) q[i] = (uint8_t)(v[i] >> (wide ? 8 : 0)); break;
  case PixelType::Bgr48: for (int i = 0; i < 3; ++i) put16(q + 2 * i, v[i]); break;
  default: break;
  }
}
// image memory which ends with the last pixel
struct Img {
  PixelType t; int w, h, stride; uint8_t* p; size_t n; uint8_t* old;
  Img(PixelType t, int w, int h, int pad, const char* nm) : t(t), w(w), h(h), stride(w * bpp(t) + pad) { n = h && w ? (size_t)(h - 1) * stride + (size_t)w * bpp(t) : 0; p = (uint8_t*)malloc(n); old = (uint8_t*)malloc(n); if (n) sym_bytes(p, n, nm); if (n) memcpy(old, p, n); }
  ~Img() { free(p); free(old); }
  uint8_t* at(int x, int y) { return p + (size_t)y * stride + x * bpp(t); } uint8_t* was(int x, int y) { return old + (size_t)y * stride + x * bpp(t); }
};
// a bitmap object on it
struct ImgBm : public IBitmapData { Img& i; int lck = 0; ImgBm(Img& i) : i(i) {} PixelType GetPixelType() const override { return i.t; } IntSize GetSize() const override { return {(uint32_t)i.w, (uint32_t)i.h}; } BitmapLockInfo Lock() override { ++lck; BitmapLockInfo l; l.ptrData = l.ptrDataRoi = i.p; l.stride = i.stride; l.size = i.n; return l; } void Unlock() override { --lck; } int GetLockCount() const override { return lck; } };
struct Mask { int w, h, stride; uint8_t* p; size_t n; uint8_t* old; Mask(int w, int h, int pad, const char* nm) : w(w), h(h), stride((w + 7) / 8 + pad) { n = h && w ? (size_t)(h - 1) * stride + (w + 7) / 8 : 0; p = (uint8_t*)malloc(n); old = (uint8_t*)malloc(n); if (n) sym_bytes(p, n, nm); if (n) memcpy(old, p, n); } ~Mask() { free(p); free(old); }
  bool at(int x, int y) const { return p[(size_t)y * stride + x / 8] >> (7 - x % 8) & 1; } bool was(int x, int y) const { return old[(size_t)y * stride + x / 8] >> (7 - x % 8) & 1; } };
struct MaskBm : public IBitonalBitmapData { Mask& i; int lck = 0; MaskBm(Mask& i) : i(i) {} IntSize GetSize() const override { return {(uint32_t)i.w, (uint32_t)i.h}; } BitonalBitmapLockInfo Lock() override { ++lck; BitonalBitmapLockInfo l; l.ptrData = i.p; l.stride = i.stride; l.size = i.n; return l; } void Unlock() override { --lck; } int GetLockCount() const override { return lck; } };
// dst must be its old content, except for the pixels in [x0,x1) x [y0,y1), which are described by f(x,y,expected pixel) -> changed?
template <class F> static void checkImg(Img& d, F f, const char* in, const char* out) {
  bool okIn = true, okOut = true; int b = bpp(d.t);
  for (int y = 0; y < d.h; ++y) { for (int x = 0; x < d.w; ++x) { uint8_t e[8]; memcpy(e, d.was(x, y), b); if (f(x, y, e)) okIn &= eq(e, d.at(x, y), b); else okOut &= eq(e, d.at(x, y), b); } if (y + 1 < d.h && d.w) okOut &= eq(d.at(d.w, y), d.was(d.w, y), d.stride - d.w * b); }
  sym_assert(okIn, in); sym_assert(okOut, out);
}
// an offset: every value in lo..hi (one branch each), or anything else
static int offset(int lo, int hi, const char* nm) { int k = sym_pick(hi - lo + 2, nm); if (k <= hi - lo) return lo + k; int v = sym_i32(nm); sym_assume((v < lo) | (v > hi)); return v; }
