// C27: sub-block attachment chunks are delivered exactly and safely
// @bounds attachments of 0..72 arbitrary bytes (13 sizes; for enumeration with one to three chunks of arbitrary announced size), an attachment whose first chunk announces any size, callbacks stopping at any chunk; masks: a mask chunk with arbitrary width, height, type, stride and 0..30 bytes of data, as first chunk, after another chunk, truncated, and missing; the created bitmap is compared bit for bit for masks up to 17x4 pixels
// @assume the XML metadata is represented by its AttachmentDataFormat ('CHUNKCONTAINER', something else, or missing)
#include "common.h"
#include <cstdlib>
#include "SubblockAttachmentAccessor.h"
using namespace libCZI; using namespace libCZI::detail; using namespace h;
struct Meta : public ISubBlockMetadata {
  bool valid = true, has = true; std::wstring fmt = L"CHUNKCONTAINER";
  std::wstring Name() const override { return L""; } bool TryGetAttribute(const wchar_t*, std::wstring*) const override { return false; } void EnumAttributes(const std::function<bool(const std::wstring&, const std::wstring&)>&) const override {} bool TryGetValue(std::wstring*) const override { return false; } std::shared_ptr<IXmlNodeRead> GetChildNodeReadonly(const char*) override { return nullptr; } void EnumChildren(const std::function<bool(std::shared_ptr<IXmlNodeRead>)>&) override {}
  bool TryGetAttachmentDataFormat(std::wstring* f) override { if (has && f) *f = fmt; return has; } bool TryGetTagAsDouble(const std::wstring&, double*) override { return false; } bool TryGetTagAsString(const std::wstring&, std::wstring*) override { return false; } bool TryGetStagePositionFromTags(std::tuple<double, double>*) override { return false; } bool IsXmlValid() const override { return valid; } std::string GetXml() const override { return ""; }
};
struct Sub : public ISubBlock {
  std::shared_ptr<uint8_t> p; size_t n; SubBlockInfo info;
  Sub(size_t n) : p(n ? (uint8_t*)malloc(n) : nullptr, free), n(n) { if (n) sym_bytes(p.get(), n, "attachment"); }
  const SubBlockInfo& GetSubBlockInfo() const override { return info; } void DangerousGetRawData(MemBlkType t, const void*& ptr, size_t& size) const override { bool a = t == MemBlkType::Attachment; ptr = a ? p.get() : nullptr; size = a ? n : 0; }
  std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* s) const override { bool a = t == MemBlkType::Attachment; if (s) *s = a ? n : 0; if (!a) return nullptr; return p; } std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions*) override { return nullptr; }
};
static const size_t kN[13] = {0, 1, 16, 20, 21, 22, 40, 41, 42, 43, 62, 63, 72};
static bool guidIs(const libCZI::GUID& g, const uint8_t* p) { return (g.Data1 == rd32(p)) & (g.Data2 == (p[4] | p[5] << 8)) & (g.Data3 == (p[6] | p[7] << 8)) & eq(g.Data4, p + 8, 8); }
static void enumerate(size_t n, int stop) {
  Sub s(n); Meta m; auto acc = CreateSubBlockAttachmentAccessor(ref<ISubBlock>(&s), ref<ISubBlockMetadata>(&m)); sym_assert(acc->HasChunkContainer(), "it is a chunk container"); const uint8_t* p = s.p.get();
  uint64_t pos = 0; int k = 0; bool done = false, thrown = false, got = false; int calls = 0;
  try { got = acc->EnumerateChunksInChunkContainer([&](int i, const ISubBlockAttachmentAccessor::ChunkInfo& c) { ++calls; sym_assert(!done, "no chunk after the end"); sym_assert(i == k, "consecutive index"); sym_assert(n - pos >= 21, "there is room for the chunk"); sym_assert(guidIs(c.guid, p + pos), "the GUID is the one stored"); sym_assert(c.size == rd32(p + pos + 16), "the size is the one stored"); sym_assert(c.offset == pos + 20, "the payload follows the header"); sym_assert((uint64_t)c.offset + c.size <= n, "the payload lies in the attachment"); uint64_t sz = sym_concretize(c.size); pos += 20 + sz; if (n - pos < 21) done = true; bool go = k++ != stop; if (!go) done = true; return go; }); } catch (const std::exception&) { thrown = true; }
  if (thrown) { sym_assert(!done, "no error after the last chunk"); if (n - pos >= 21) sym_assert(rd32(p + pos + 16) > n - pos - 20, "an error only if the chunk is truncated"); else sym_assert(k == 0, "an error only if there is nothing"); sym_reach("error"); } else { sym_assert(done && got && k == calls && k > 0, "all chunks were delivered"); sym_reach(k > 1 ? "several chunks" : "one chunk"); }
}
// @job time=200 shards=8
HARNESS(c27_enumerate) { int k = sym_pick(39, "size"); enumerate(kN[k % 13], k / 13 == 2 ? -1 : k / 13); }
// without a chunk container everything is refused
// @job time=30
HARNESS(c27_nocontainer) { Sub s(sym_pick(2, "n") ? 64 : 0); Meta m; int k = sym_pick(4, "kind"); if (k == 0) m.valid = false; else if (k == 1) m.has = false; else if (k == 2) m.fmt = L"CHUNKCONTAINER2"; else m.fmt = L""; auto acc = CreateSubBlockAttachmentAccessor(ref<ISubBlock>(&s), ref<ISubBlockMetadata>(&m)); sym_assert(!acc->HasChunkContainer(), "not a chunk container"); int op = sym_pick(4, "op"); bool thrown = false; try { if (op == 0) acc->EnumerateChunksInChunkContainer([](int, const ISubBlockAttachmentAccessor::ChunkInfo&) { sym_assert(false, "no chunk"); return true; }); else if (op == 1) acc->GetValidPixelMaskFromChunkContainer(); else if (op == 2) acc->GetValidPixelMaskAsUncompressedBitonalBitmap(); else acc->CreateBitonalBitmapFromMaskInfo(); } catch (const LibCZIException&) { thrown = true; } sym_assert(thrown, "an error"); sym_reach("refused"); }
static const uint8_t kMask[16] = {0x67, 0xea, 0xe3, 0xcb, 0xfc, 0x5b, 0x2b, 0x49, 0xa1, 0x6a, 0xec, 0xe3, 0x78, 0x03, 0x14, 0x48};
enum { kAny = 0x12345 };
// place: 0 mask first, 1 after another chunk of 3 bytes, 2 first with a chunk following, 3 none
static void mask(int place, int payload, int announced, int fixedW, int fixedH) {
  int at = place == 1 ? 23 : 0; size_t n = at + 20 + payload + (place == 2 ? 22 : 0); Sub s(n); uint8_t* p = s.p.get(); if (at) { p[0] = 1; wr32(p + 16, 3); } memcpy(p + at, kMask, 16); if (place == 3) p[at + 15] ^= 0x80; wr32(p + at + 16, announced); if (place == 2) { wr32(p + 20 + payload + 16, 2); p[20 + payload + 3] = 0; } uint8_t* q = p + at + 20; if (fixedW != kAny && payload >= 12) wr32(q, fixedW); if (payload >= 12) wr32(q + 4, fixedH); Meta m; auto acc = CreateSubBlockAttachmentAccessor(ref<ISubBlock>(&s), ref<ISubBlockMetadata>(&m));
  bool there = place != 3 && at + 20 + (size_t)announced <= n && announced >= 12 && n >= 21; bool thrown = false; try { auto g = acc->GetValidPixelMaskFromChunkContainer(); sym_assert(there, "a missing or truncated mask is an error"); sym_assert((g.width == rd32(q)) & (g.height == rd32(q + 4)) & (g.type_of_representation == rd32(q + 8)), "extent and type are those stored"); sym_assert(g.size_data == (size_t)announced - 12, "the size is the one stored"); if (g.size_data) sym_assert(g.data.get() == q + 12, "the data is the one stored"); } catch (const LibCZIException&) { thrown = true; sym_assert(!there, "a stored mask is delivered"); }
  if (thrown) { bool t2 = false; try { acc->CreateBitonalBitmapFromMaskInfo(); } catch (const LibCZIException&) { t2 = true; } sym_assert(t2, "no bitmap without mask"); sym_reach("no mask"); return; }
  uint32_t w = rd32(q), hh = rd32(q + 4); bool bitonal = announced >= 16; bool t0 = rd32(q + 8) == 0; bool ok = false; try { auto u = acc->GetValidPixelMaskAsUncompressedBitonalBitmap(); ok = true; sym_assert((u.width == w) & (u.height == hh) & (u.stride == rd32(q + 12)), "extent and stride are those stored"); sym_assert(u.size_data == (size_t)announced - 16, "the size is the one stored"); if (u.size_data) sym_assert(u.data.get() == q + 16, "the data is the one stored"); } catch (const LibCZIException&) {} sym_assert(ok == (bitonal & t0), "delivered exactly if it is an uncompressed bitonal bitmap");
  if (!ok) { sym_reach("other mask"); return; } uint32_t stride = rd32(q + 12); uint64_t row = ((uint64_t)w + 7) / 8; bool good = (w > 0) & (hh > 0) & (stride >= row); uint64_t avail = announced - 16; bool fits = false; if (good) { uint64_t a = avail; if (row <= a) { a -= row; fits = stride == 0 ? true : (uint64_t)(hh - 1) <= a && (uint64_t)(hh - 1) * stride <= a; } }
  std::shared_ptr<IBitonalBitmapData> b; try { b = acc->CreateBitonalBitmapFromMaskInfo(); } catch (const LibCZIException&) {} if (!b) { sym_assert(!fits, "a complete mask yields a bitmap"); sym_reach("no bitmap"); return; } sym_assert(fits, "a bitmap only for a complete mask"); IntSize sz = b->GetSize(); sym_assert((sz.w == w) & (sz.h == hh), "the bitmap has the extent of the mask"); auto l = b->Lock(); sym_assert(l.size >= (uint64_t)l.stride * (hh - 1) + row, "the announced memory is sufficient"); if (l.size) { volatile uint8_t end = ((const uint8_t*)l.ptrData)[l.size - 1]; (void)end; } struct U { IBitonalBitmapData* b; ~U() { b->Unlock(); } } un{b.get()}; if (fixedW == kAny) { sym_reach("some bitmap"); return; } uint32_t W = fixedW, H = fixedH, S = H > 1 ? (uint32_t)sym_concretize(stride) : 0; bool same = true; for (uint32_t y = 0; y < H; ++y) same &= eq((const uint8_t*)l.ptrData + (size_t)y * l.stride, q + 16 + (size_t)y * S, (W + 7) / 8); sym_assert(same, "the bits are those stored"); sym_reach("bitmap");
}
static const int kA[13] = {0, 1, 4, 8, 11, 12, 13, 15, 16, 17, 20, 27, 46};
// @job time=200 shards=13
HARNESS(c27_mask) { int k = sym_pick(13 * 4, "case"); int a = kA[k % 13], d = sym_pick(3, "truncated"); int pay = a - (d == 1) - (d == 2 ? 20 : 0); if (pay < 0) return; static const int H[] = {0, 1, 2, 3, -1}; mask(k / 13, pay, a, kAny, H[a >= 16 && pay == a ? sym_pick(5, "h") : 1]); }
// @job time=200 shards=12
HARNESS(c27_mask_bits) { int k = sym_pick(12, "case"); static const int W[12][2] = {{1, 1}, {8, 1}, {9, 1}, {9, 3}, {17, 4}, {3, 5}, {16, 2}, {0, 3}, {3, 0}, {-1, 1}, {-7, 2}, {0x7fffffff, 0x7fffffff}}; static const int P[3] = {18, 24, 46}; int a = P[sym_pick(3, "payload")]; mask(sym_pick(2, "place"), a, a, W[k][0], W[k][1]); }
