// C20: compression round-trips and respects the destination buffer
// @bounds zstd0 and zstd1 (with and without lo-hi-byte packing, all 32-bit compression levels) and the JPEG-XR wrapper; 9 pixel types (5 for JPEG-XR), widths 1..3, heights 1..3, padding of 0..5 bytes per line, all pixel data; every destination size up to the bound given by the library; all 32-bit widths and strides for the argument checks; temporary buffers which can and cannot be allocated
// @assume zstd and jxrlib are correct codecs: they are replaced by trivial codecs with the same interface, which use the whole destination buffer
#include "codec.h"
#include "utilities.h"
#include "Site.h"
#include "libCZI_compress.h"
static const PixelType T[9] = {PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32, PixelType::Gray32, PixelType::Bgr96Float, PixelType::Gray64Float}; static const int S[9] = {1, 2, 4, 3, 6, 4, 4, 12, 8};
struct Params : public ICompressParameters { bool hasLevel = false, hasPack = false, hasQ = false; int32_t level = 0; bool pack = false; uint32_t q = 0; bool TryGetProperty(int key, CompressParameter* p) const override { if (key == (int)CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL && hasLevel) { if (p) *p = CompressParameter(level); return true; } if (key == (int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING && hasPack) { if (p) *p = CompressParameter(pack); return true; } if (key == (int)CompressionParameterKey::JXRLIB_QUALITY && hasQ) { if (p) *p = CompressParameter(q); return true; } return false; } };
static std::shared_ptr<IBitmapData> decode(bool one, const void* p, size_t n, PixelType t, uint32_t w, uint32_t h, bool mm) { auto d = GetSite()->GetDecoder(one ? ImageDecoderType::ZStd1 : ImageDecoderType::ZStd0, nullptr); return d->Decode(p, n, t, w, h, mm ? "handle_data_size_mismatch" : nullptr); }
struct Im { PixelType t; int s, w, h; uint32_t stride; uint8_t* p; size_t n; Im(int k, int w, int h, int pad) : t(T[k]), s(S[k]), w(w), h(h), stride(w * S[k] + pad) { n = (size_t)stride * (h - 1) + (size_t)w * s; p = (uint8_t*)malloc(n); sym_bytes(p, n, "pixels"); } ~Im() { free(p); } };
static void same(std::shared_ptr<IBitmapData> b, Im& s) { sym_assert(b != nullptr && b->GetPixelType() == s.t && (int)b->GetWidth() == s.w && (int)b->GetHeight() == s.h, "size and pixel type are those of the original"); ScopedBitmapLockerSP l{b}; bool ok = true; for (int y = 0; y < s.h; ++y) ok &= eq((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, s.p + (size_t)y * s.stride, (size_t)s.w * s.s); sym_assert(ok, "the pixels are those of the original"); }
static void params(Params& p) { p.hasLevel = sym_pick(2, "level given"); p.level = sym_i32("level"); p.hasPack = sym_pick(2, "packing given"); if (p.hasPack) p.pack = sym_pick(2, "packing"); }
static int tempLive, tempMade; static bool tempFail; static void* tAlloc(size_t n) { if (tempFail) return nullptr; ++tempMade; ++tempLive; return malloc(n); } static void tFree(void* p) { sym_assert(p != nullptr, "a buffer which was not allocated is not released"); --tempLive; free(p); }
static void level(const Params* p) { sym_assert(gZstdLevel == (p && p->hasLevel ? (p->level < -131072 ? -131072 : p->level > 22 ? 22 : p->level) : 0), "the compression level is the one requested, clamped to the range of zstd"); }
// @job time=150 shards=3
HARNESS(c20_alloc) {
  int k = sym_pick(9, "pixel type"), w = 1 + sym_pick(3, "width"), h = 1 + sym_pick(3, "height"), pad = sym_pick(3, "padding"); static const int P[3] = {0, 1, 5}; pad = P[pad]; bool one = sym_pick(2, "zstd1"), own = sym_pick(2, "own allocator"); Im s(k, w, h, pad); if ((size_t)w * h * S[k] > 200) return; Params pr; params(pr); Params* pp = pr.hasLevel || pr.hasPack ? &pr : nullptr; tempLive = tempMade = 0; tempFail = false; gZstdFail = 0;
  std::shared_ptr<IMemoryBlock> m; try { m = one ? (own ? ZstdCompress::CompressZStd1Alloc(w, h, s.stride, s.t, s.p, tAlloc, tFree, pp) : ZstdCompress::CompressZStd1Alloc(w, h, s.stride, s.t, s.p, pp)) : (own ? ZstdCompress::CompressZStd0Alloc(w, h, s.stride, s.t, s.p, tAlloc, tFree, pp) : ZstdCompress::CompressZStd0Alloc(w, h, s.stride, s.t, s.p, pp)); } catch (std::exception&) { sym_assert(pad != 0 && k > 4, "only lines with padding of pixel types which cannot be copied are refused"); sym_assert(tempLive == 0, "temporary buffers are released"); sym_reach("refused"); return; }
  sym_assert(m != nullptr && m->GetPtr() != nullptr, "the data fits into the memory calculated beforehand"); sym_assert(tempLive == 0, "temporary buffers are released"); level(pp);
  size_t mx = one ? ZstdCompress::CalculateMaxCompressedSizeZStd1(w, h, s.t) : ZstdCompress::CalculateMaxCompressedSizeZStd0(w, h, s.t); sym_assert(m->GetSizeOfData() <= mx, "the result is not larger than announced");
  uint8_t* q = (uint8_t*)malloc(m->GetSizeOfData()); memcpy(q, m->GetPtr(), m->GetSizeOfData()); same(decode(one, q, m->GetSizeOfData(), s.t, w, h, sym_pick(2, "mismatch handling")), s); free(q); sym_reach("round trip");
}
// a given destination
// @job time=150 shards=3
HARNESS(c20_destination) {
  static const int K[4] = {0, 1, 3, 4}; int k = K[sym_pick(4, "pixel type")], w = 1 + sym_pick(2, "width"), h = 1 + sym_pick(2, "height"), pad = sym_pick(2, "padding") * 3; bool one = sym_pick(2, "zstd1"); Im s(k, w, h, pad); Params pr; params(pr); Params* pp = &pr; size_t need = (size_t)w * h * S[k] + 1 + (one ? 3 : 0), n = sym_pick((int)need + 3, "destination"); tempLive = tempMade = 0; tempFail = sym_pick(2, "no temporary memory"); gZstdFail = 0;
  uint8_t* d = (uint8_t*)malloc(n ? n : 1); size_t sz = n; bool ok = false, thrown = false; try { ok = one ? ZstdCompress::CompressZStd1(w, h, s.stride, s.t, s.p, tAlloc, tFree, d, sz, pp) : ZstdCompress::CompressZStd0(w, h, s.stride, s.t, s.p, tAlloc, tFree, d, sz, pp); } catch (std::exception&) { thrown = true; } sym_assert(tempLive == 0, "temporary buffers are released");
  bool temp = pad != 0 || (one && pr.hasPack && pr.pack && (k == 1 || k == 4)); if (thrown) sym_assert((tempFail && temp) || n < (one ? 4u : 1u), "an error only if there is no temporary memory or no destination"); else { sym_assert(!(tempFail && temp), "an error if there is no temporary memory"); sym_assert(ok == (n >= need), "success exactly if the data fits"); if (ok) { sym_assert(sz == need, "the size of the data is reported"); level(pp); same(decode(one, d, sz, s.t, w, h, false), s); } } free(d); sym_reach(thrown ? "error" : ok ? "compressed" : "too small");
}
// arguments
static void* wAlloc(size_t) { sym_assert(false, "invalid arguments are refused before memory is allocated"); return nullptr; }
HARNESS(c20_arguments) {
  int k = sym_pick(9, "pixel type"); uint32_t w = sym_u32("width"), h = sym_pick(3, "height"), st = sym_u32("stride"); bool one = sym_pick(2, "zstd1"); int what = sym_pick(3, "what"); uint8_t px[4], d[8]; size_t sz = 8; sym_assume(what == 1 || what == 2 || (w == 0) | (h == 0) | ((uint64_t)st < (uint64_t)w * S[k])); bool thrown = false; sym_assume(what == 0 || ((w == 1) & (h >= 1) & (st == (uint32_t)S[k])));
  try { if (one) ZstdCompress::CompressZStd1(w, h, st, T[k], what == 1 ? nullptr : px, wAlloc, tFree, what == 2 ? nullptr : d, sz, nullptr); else ZstdCompress::CompressZStd0(w, h, st, T[k], what == 1 ? nullptr : px, wAlloc, tFree, what == 2 ? nullptr : d, sz, nullptr); } catch (std::exception&) { thrown = true; } sym_assert(thrown, "invalid arguments are refused"); sym_reach("refused");
}
// packing and unpacking are inverse to each other
// @job time=100
HARNESS(c20_packing) {
  uint32_t w = 1 + sym_pick(4, "words"), h = 1 + sym_pick(3, "lines"), st = w * 2 + 2 * sym_pick(3, "padding"), st2 = w * 2 + 2 * sym_pick(2, "padding"); size_t n = (size_t)st * (h - 1) + w * 2, m = (size_t)w * h * 2, n2 = (size_t)st2 * (h - 1) + w * 2; uint8_t *a = (uint8_t*)malloc(n), *b = (uint8_t*)malloc(m), *c = (uint8_t*)malloc(n2); sym_bytes(a, n, "words"); sym_bytes(c, n2, "destination"); uint8_t old[64]; memcpy(old, c, n2);
  LoHiBytePackUnpack::LoHiByteUnpackStrided(a, w, st, h, b); bool ok = true; for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) ok &= (b[y * w + x] == a[y * st + 2 * x]) & (b[m / 2 + y * w + x] == a[y * st + 2 * x + 1]); sym_assert(ok, "all low bytes are followed by all high bytes");
  LoHiBytePackUnpack::LoHiBytePackStrided(b, m, w, h, st2, c); ok = true; for (uint32_t y = 0; y < h; ++y) { ok &= eq(c + y * st2, a + y * st, w * 2); if (y + 1 < h) ok &= eq(c + y * st2 + w * 2, old + y * st2 + w * 2, st2 - w * 2); } sym_assert(ok, "packing restores the words and touches nothing else");
  bool thrown = false; try { LoHiBytePackUnpack::LoHiBytePackStrided(b, m - 1, w, h, st2, c); } catch (std::exception&) { thrown = true; } sym_assert(thrown, "too little data is refused"); thrown = false; try { LoHiBytePackUnpack::LoHiByteUnpackStrided(a, w, w * 2 - 1, h, b); } catch (std::exception&) { thrown = true; } sym_assert(thrown, "a stride which is too small is refused"); free(a); free(b); free(c); sym_reach("packed");
}
// JPEG-XR: the wrapper around the codec
// @job time=150
HARNESS(c20_jxr) {
  int k = sym_pick(9, "pixel type"), w = 1 + sym_pick(3, "width"), h = 1 + sym_pick(2, "height"), pad = sym_pick(2, "padding") * 2; Im s(k, w, h, pad); Params pr; int qk = sym_pick(4, "quality"); static const uint32_t Q[4] = {0, 0, 500, 2000}; static const float E[4] = {1, 0, 0.5f, 1}; pr.hasQ = qk != 0; pr.q = Q[qk]; std::shared_ptr<IMemoryBlock> m; try { m = JxrLibCompress::Compress(s.t, w, h, s.stride, s.p, qk ? &pr : nullptr); } catch (std::exception&) { sym_assert(k > 4, "only unsupported pixel types are refused"); sym_reach("refused"); return; }
  sym_assert(k <= 4, "unsupported pixel types are refused"); sym_assert(gJxrQuality == E[qk], "the quality is the one requested"); auto d = GetSite()->GetDecoder(ImageDecoderType::JPXR_JxrLib, nullptr); same(d->Decode(m->GetPtr(), m->GetSizeOfData(), s.t, w, h), s); bool thrown = false; try { d->Decode(m->GetPtr(), m->GetSizeOfData(), s.t, w + 1, h); } catch (std::exception&) { thrown = true; } sym_assert(thrown, "another size is refused"); sym_reach("round trip");
}
