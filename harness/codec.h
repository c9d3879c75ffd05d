// Stand-ins for the third-party codecs: correct, but trivial. They use the buffers they are given completely, as the real ones may.
#pragma once
#include "pix.h"
#include "../JxrDecode/JxrDecode.h"
// zstd: a frame is [content size][content]; 0xff: not a frame, 0xfe: size unknown
static int gZstdFail = 0, gZstdLevel = 99999, gZstdCalls = 0;
extern "C" {
unsigned long long ZSTD_getFrameContentSize(const void* src, size_t n) { const uint8_t* p = (const uint8_t*)src; if (n == 0 || p[0] == 0xff) return 0ULL - 2; if (p[0] == 0xfe) return 0ULL - 1; return p[0]; }
size_t ZSTD_decompress(void* dst, size_t cap, const void* src, size_t n) { ++gZstdCalls; const uint8_t* p = (const uint8_t*)src; for (size_t i = 0; i < cap; ++i) ((uint8_t*)dst)[i] = 0xa5; if (n == 0 || p[0] >= 0xfe || gZstdFail || n - 1 != p[0]) return (size_t)-20; if (p[0] > cap) return (size_t)-70; memcpy(dst, p + 1, p[0]); return p[0]; }
unsigned ZSTD_isError(size_t c) { return c > (size_t)-120; }
const char* ZSTD_getErrorName(size_t) { return "error"; }
size_t ZSTD_compressBound(size_t n) { return n + 1; }
int ZSTD_minCLevel(void) { return -131072; } int ZSTD_maxCLevel(void) { return 22; }
size_t ZSTD_compress(void* dst, size_t cap, const void* src, size_t n, int level) { ++gZstdCalls; gZstdLevel = level; for (size_t i = 0; i < cap; ++i) ((uint8_t*)dst)[i] = 0x5a; if (n > 0xfd || cap < n + 1) return (size_t)-70; ((uint8_t*)dst)[0] = (uint8_t)n; memcpy((uint8_t*)dst + 1, src, n); return n + 1; }
}
// JPEG-XR: [format][width][height][pixels]; as in the real codec 48 bit pixels are in the order R-G-B
struct JxrBlob { size_t n; uint8_t* p; };
static float gJxrQuality = -1;
static int jxrBpp(JxrDecode::PixelFormat f) { switch (f) { case JxrDecode::PixelFormat::kBgr24: return 3; case JxrDecode::PixelFormat::kBgr48: return 6; case JxrDecode::PixelFormat::kGray8: return 1; case JxrDecode::PixelFormat::kGray16: return 2; case JxrDecode::PixelFormat::kGray32Float: return 4; default: return 1; } }
namespace libCZI { namespace detail {
void JxrDecode::Decode(const void* src, size_t n, const std::function<std::tuple<void*, std::uint32_t>(PixelFormat, std::uint32_t, std::uint32_t)>& f) {
  const uint8_t* p = (const uint8_t*)src; if (n < 3) throw std::runtime_error("not JPEG-XR"); PixelFormat fm = (PixelFormat)p[0]; uint32_t w = p[1], h = p[2]; auto t = f(fm, w, h); uint8_t* d = (uint8_t*)std::get<0>(t); int b = jxrBpp(fm);
  if (n < 3 + (size_t)w * h * b) throw std::runtime_error("JPEG-XR data is incomplete"); for (uint32_t y = 0; y < h; ++y) memcpy(d + (size_t)y * std::get<1>(t), p + 3 + (size_t)y * w * b, w * b);
}
JxrDecode::CompressedData JxrDecode::Encode(PixelFormat fm, std::uint32_t w, std::uint32_t h, std::uint32_t stride, const void* ptr, float quality) {
  gJxrQuality = quality; int b = jxrBpp(fm); auto o = new JxrBlob; o->n = 3 + (size_t)w * h * b; o->p = (uint8_t*)malloc(o->n); o->p[0] = (uint8_t)fm; o->p[1] = (uint8_t)w; o->p[2] = (uint8_t)h; for (uint32_t y = 0; y < h; ++y) memcpy(o->p + 3 + (size_t)y * w * b, (const uint8_t*)ptr + (size_t)y * stride, w * b); return CompressedData(o);
}
void* JxrDecode::CompressedData::GetMemory() const { return obj_handle_ ? ((JxrBlob*)obj_handle_)->p : nullptr; }
size_t JxrDecode::CompressedData::GetSize() const { return obj_handle_ ? ((JxrBlob*)obj_handle_)->n : 0; }
JxrDecode::CompressedData::~CompressedData() { if (obj_handle_) { free(((JxrBlob*)obj_handle_)->p); delete (JxrBlob*)obj_handle_; } }
} }
