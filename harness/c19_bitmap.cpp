// C19: decoding sub-block data follows the size-resolution protocol
// @bounds uncompressed, zstd0, zstd1 (with and without hi-lo-byte packing) and JPEG-XR sub-blocks; 9 pixel types (5 for JPEG-XR), widths 0..3, heights 0..3, all data sizes up to 3 bytes (JPEG-XR: one row or column) beyond the described size and all below it, all pixel data, mismatch handling on, off and default; all header bytes of zstd1 data of 0..5 bytes; all widths above 2^20 of 32 bits with 7 heights up to 2^32-1 and a few bytes of data
// @assume zstd and jxrlib are correct codecs: they are replaced by trivial codecs with the same interface, which use the whole destination buffer and report malformed frames; allocations above 256 KB fail
#include "codec.h"
struct Sub : public ISubBlock {
  SubBlockInfo i; std::shared_ptr<uint8_t> p; size_t n;
  Sub(PixelType t, uint32_t w, uint32_t h, CompressionMode c, size_t n) : p((uint8_t*)malloc(n), free), n(n) { i.pixelType = t; i.physicalSize = {w, h}; i.logicalRect = {0, 0, (int)w, (int)h}; i.compressionModeRaw = Utils::CompressionModeToCompressionIdentifier(c); i.mIndex = 0; i.pyramidType = SubBlockPyramidType::None; if (n) sym_bytes(p.get(), n, "data"); }
  const SubBlockInfo& GetSubBlockInfo() const override { return i; }
  void DangerousGetRawData(MemBlkType t, const void*& q, size_t& s) const override { q = t == Data ? p.get() : nullptr; s = t == Data ? n : 0; }
  std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* s) const override { if (t != Data) { if (s) *s = 0; return nullptr; } if (s) *s = n; return p; }
  std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions* o) override { return CreateBitmapFromSubBlock(this, o); }
};
static const PixelType T[9] = {PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32, PixelType::Gray32, PixelType::Bgr96Float, PixelType::Gray64Float}; static const int S[9] = {1, 2, 4, 3, 6, 4, 4, 12, 8};
static const CreateBitmapOptions* options(int k, int which, CreateBitmapOptions& o) { if (k == 2) return nullptr; o.handle_uncompressed_data_size_mismatch = o.handle_zstd_data_size_mismatch = o.handle_jpgxr_bitmap_mismatch = k != 0; if (which == 0) { o.handle_zstd_data_size_mismatch = o.handle_jpgxr_bitmap_mismatch = k == 0; } else if (which == 1) { o.handle_uncompressed_data_size_mismatch = o.handle_jpgxr_bitmap_mismatch = k == 0; } else { o.handle_uncompressed_data_size_mismatch = o.handle_zstd_data_size_mismatch = k == 0; } return &o; }
// the pixels must be the given bytes, followed by zeros
static void check(std::shared_ptr<IBitmapData> b, PixelType t, int s, uint32_t w, uint32_t h, const uint8_t* e, size_t n) {
  sym_assert(b != nullptr && b->GetPixelType() == t && b->GetWidth() == w && b->GetHeight() == h, "size and pixel type are those described"); { ScopedBitmapLockerSP l{b}; sym_assert(l.stride >= w * s, "the stride covers a line"); bool ok = true, zero = true; size_t k = 0;
  for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w * s; ++x, ++k) { uint8_t v = ((uint8_t*)l.ptrDataRoi)[(size_t)y * l.stride + x]; if (k < n) ok &= v == e[k]; else zero &= v == 0; }
  sym_assert(ok, "the pixels are the stored data"); sym_assert(zero, "pixels without data are zero"); } sym_assert(b->GetLockCount() == 0, "the bitmap is not locked");
}
static size_t pickSize(size_t full) { return (size_t)sym_pick((int)full + 4, "size"); }
// @job time=150 shards=3
HARNESS(c19_uncompressed) {
  int k = sym_pick(9, "pixel type"); uint32_t w = sym_pick(4, "width"), h = sym_pick(S[k] >= 8 ? 3 : 4, "height"); int m = sym_pick(3, "options"); size_t full = (size_t)w * h * S[k], n = full > 40 ? (size_t)(sym_pick(2, "around") ? full - 20 + sym_pick(23, "size") : sym_pick(20, "size")) : pickSize(full); Sub s(T[k], w, h, CompressionMode::UnCompressed, n); CreateBitmapOptions o;
  std::shared_ptr<IBitmapData> b; try { b = s.CreateBitmap(options(m, 0, o)); } catch (std::exception&) { sym_assert(m == 0 && n < full, "an error only if there is too little data and mismatch handling is off"); sym_reach("refused"); return; }
  sym_assert(!(m == 0 && n < full), "too little data is an error if mismatch handling is off"); check(b, T[k], S[k], w, h, s.p.get(), n < full ? n : full); sym_reach(n < full ? "padded" : n > full ? "cropped" : "equal");
}
static void zstd(int k, uint32_t w, uint32_t h, int mode, int lohi, int m, size_t n) { // mode 0: zstd0, 1: zstd1 with one byte header, 2: zstd1 with three byte header
  size_t full = (size_t)w * h * S[k]; size_t hd = mode == 0 ? 0 : mode == 1 ? 1 : 3; Sub s(T[k], w, h, mode ? CompressionMode::Zstd1 : CompressionMode::Zstd0, hd + 1 + n); uint8_t* q = s.p.get();
  if (mode == 1) q[0] = 1; if (mode == 2) { q[0] = 3; q[1] = 1; uint8_t f = sym_u8("flags"); q[2] = (uint8_t)((f & ~1) | lohi); } q[hd] = (uint8_t)n; uint8_t* c = q + hd + 1; gZstdFail = sym_pick(2, "decompression fails"); CreateBitmapOptions o;
  uint8_t e[256]; size_t en = n; if (lohi) { en = n / 2 * 2; for (size_t j = 0; j < n / 2; ++j) { e[2 * j] = c[j]; e[2 * j + 1] = c[n / 2 + j]; } } else memcpy(e, c, n);
  std::shared_ptr<IBitmapData> b; try { b = s.CreateBitmap(options(m, 1, o)); } catch (std::exception&) { sym_assert(gZstdFail || (m == 0 && n != full) || (lohi && T[k] != PixelType::Gray16 && T[k] != PixelType::Bgr48) || (lohi && n % 2), "an error only if the data is malformed or the sizes differ and mismatch handling is off"); sym_reach("refused"); return; }
  sym_assert(!gZstdFail, "an error if the data cannot be decompressed"); sym_assert(!(m == 0 && n != full), "a different size is an error if mismatch handling is off"); sym_assert(!(lohi && T[k] != PixelType::Gray16 && T[k] != PixelType::Bgr48), "packing is refused for other pixel types");
  check(b, T[k], S[k], w, h, e, en < full ? en : full); sym_reach(n < full ? "padded" : n > full ? "cropped" : "equal");
}
// @job time=150 shards=3
HARNESS(c19_zstd) { int k = sym_pick(9, "pixel type"); uint32_t w = sym_pick(3, "width"), h = sym_pick(3, "height"); int m = sym_pick(3, "options"), mode = sym_pick(3, "format"); size_t full = (size_t)w * h * S[k], n = full > 16 ? (sym_pick(2, "around") ? full - 3 + sym_pick(7, "size") : sym_pick(14, "size")) : pickSize(full); zstd(k, w, h, mode, 0, m, n); }
// @job time=150 shards=3
HARNESS(c19_packed) { static const int K[3] = {1, 4, 0}; int k = K[sym_pick(3, "pixel type")]; uint32_t w = sym_pick(k == 1 ? 4 : 3, "width"), h = sym_pick(3, "height"); int m = sym_pick(3, "options"); size_t full = (size_t)w * h * S[k], n = pickSize(full); zstd(k, w, h, 2, 1, m, n); }
// all headers
// @job time=100
HARNESS(c19_header) {
  size_t n = sym_pick(6, "size"); int k = sym_pick(2, "pixel type"); Sub s(T[k], 1, 1, CompressionMode::Zstd1, n); const uint8_t* q = s.p.get(); CreateBitmapOptions o; gZstdFail = 0; bool one = false, three = false; if (n >= 1) one = q[0] == 1; if (n >= 3) three = (q[0] == 3) & (q[1] == 1);
  std::shared_ptr<IBitmapData> b; try { b = s.CreateBitmap(options(sym_pick(2, "options"), 1, o)); } catch (std::exception&) { sym_reach("refused"); return; }
  sym_assert(one | three, "a malformed header is refused"); sym_assert(n > (one ? 1u : 3u), "an error if there is nothing but the header"); sym_reach("accepted");
}
// extreme sizes
// @job time=100 shards=3
static const uint32_t H[7] = {0, 1, 3, 0x10000, 0x20000000, 0x7fffffff, 0xffffffff};
HARNESS(c19_huge) {
  int k = sym_pick(9, "pixel type"), mode = sym_pick(3, "format"), m = sym_pick(2, "options"); uint32_t w = sym_u32("width"), h = H[sym_pick(7, "height")]; sym_assume(w > 0xfffff); Sub s(T[k], w, h, mode ? CompressionMode::Zstd1 : CompressionMode::UnCompressed, mode ? 12 : 8); uint8_t* q = s.p.get(); gZstdFail = 0;
  if (mode) { q[0] = 3; q[1] = 1; q[2] = (uint8_t)(mode - 1); q[3] = 8; } CreateBitmapOptions o; std::shared_ptr<IBitmapData> b; try { b = s.CreateBitmap(options(m, mode ? 1 : 0, o)); } catch (std::exception&) { sym_reach("refused"); return; }
  ScopedBitmapLockerSP l{b}; sym_assert((l.stride >= (uint64_t)b->GetWidth() * S[k]) | (b->GetHeight() == 0), "the stride covers a line"); sym_assert(b->GetHeight() == 0 || l.size / l.stride >= b->GetHeight(), "the memory covers all lines"); if (l.size) { volatile uint8_t v = ((uint8_t*)l.ptrData)[l.size - 1]; (void)v; } sym_reach("created");
}
// JPEG-XR
// @job time=150 shards=5
HARNESS(c19_jxr) {
  int k = sym_pick(5, "pixel type"), k2 = sym_pick(5, "pixel type of the data"); static const JxrDecode::PixelFormat F[5] = {JxrDecode::PixelFormat::kGray8, JxrDecode::PixelFormat::kGray16, JxrDecode::PixelFormat::kGray32Float, JxrDecode::PixelFormat::kBgr24, JxrDecode::PixelFormat::kBgr48}; uint32_t w = 1 + sym_pick(2, "width"), h = 1 + sym_pick(2, "height"), w2 = 1 + sym_pick(3, "width of the data"), h2 = 1 + sym_pick(3, "height of the data"); int m = sym_pick(3, "options"); bool cut = sym_pick(2, "truncated");
  size_t n = 3 + (size_t)w2 * h2 * S[k2]; Sub s(T[k], w, h, CompressionMode::JpgXr, n - cut); uint8_t* q = s.p.get(); q[0] = (uint8_t)F[k2]; q[1] = (uint8_t)w2; q[2] = (uint8_t)h2; CreateBitmapOptions o; bool same = k == k2 && w == w2 && h == h2, conv = convertible(T[k2], T[k]);
  std::shared_ptr<IBitmapData> b; try { b = s.CreateBitmap(options(m, 2, o)); } catch (std::exception&) { sym_assert(cut || (m == 0 && !same) || !conv, "an error only if the data is malformed or differs and mismatch handling is off"); sym_reach("refused"); return; }
  sym_assert(!cut, "an error if the data cannot be decoded"); sym_assert(!(m == 0 && !same), "a mismatch is an error if mismatch handling is off"); sym_assert(b->GetPixelType() == T[k] && b->GetWidth() == w && b->GetHeight() == h, "size and pixel type are those described"); { ScopedBitmapLockerSP l{b}; bool ok = true, zero = true;
  for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) { const uint8_t* v = (uint8_t*)l.ptrDataRoi + (size_t)y * l.stride + x * S[k]; if (x < w2 && y < h2) { const uint8_t* c = q + 3 + ((size_t)y * w2 + x) * S[k2]; uint8_t px[8], e[8]; memcpy(px, c, S[k2]); if (k2 == 4) { memcpy(px, c + 4, 2); memcpy(px + 4, c, 2); } convPixel(T[k2], T[k], px, e); ok &= eq(v, e, S[k]); } else for (int j = 0; j < S[k]; ++j) zero &= v[j] == 0; }
  sym_assert(ok, "the pixels are the decoded data"); sym_assert(zero, "pixels without data are zero"); } sym_assert(b->GetLockCount() == 0, "the bitmap is not locked"); sym_reach(same ? "equal" : "adjusted");
}
