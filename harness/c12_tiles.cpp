// C12: single-channel tile composition is back-to-front painting of the matching tiles
// @assume the XML metadata of a sub-block announces a chunk container exactly if there is any XML (the XML parser uses std::regex, see C34)
// @bounds documents of 1..3 Gray8 tiles (2x2, 3x1, 2x3) at 16 relative placements, 4 regions of interest, all M-indices (valid or absent), every scene filter, tiles of other channels and pyramid tiles mixed in, all pixel values; all six overloads, with and without cache (also a second call) and visibility optimisation; masks of 2x2 pixels with all bit patterns; destination pixel types Gray8, Gray16, Bgr24
#include "doc.h"
#include "Site.h"
#include "bitmapData.h"
struct Filter : public IIndexSet { uint32_t bits; bool IsContained(int i) const override { return i >= 0 && i < 4 && (bits >> i & 1); } };
static bool isTop(Tile* t, int n, const bool* use, int k, int X, int Y, bool sorted) { // may tile k be the topmost one at this point?
  bool r = use[k] & t[k].covers(X, Y); if (sorted) for (int j = 0; j < n; ++j) if (j != k) { int mj = Utils::IsValidMindex(t[j].m) ? t[j].m : INT32_MIN, mk = Utils::IsValidMindex(t[k].m) ? t[k].m : INT32_MIN; r &= !(use[j] & t[j].covers(X, Y) & (mj > mk)); } return r; }
static void check(IBitmapData* b, Tile* t, int n, const bool* use, const IntRect& roi, bool sorted, int bg, const uint8_t* old, const char* msg) {
  sym_assert(((int)b->GetWidth() == roi.w) & ((int)b->GetHeight() == roi.h), "the bitmap has the size of the region"); ScopedBitmapLockerP l{b}; PixelType pt = b->GetPixelType(); int B = bpp(pt); bool all = true;
  for (int y = 0; y < roi.h; ++y) for (int x = 0; x < roi.w; ++x) { const uint8_t* p = (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride + x * B; bool any = false, ok = false; for (int k = 0; k < n; ++k) { bool c = use[k] & t[k].covers(roi.x + x, roi.y + y); any |= c; if (!t[k].covers(roi.x + x, roi.y + y)) continue; uint8_t e[8]; convPixel(t[k].pt, pt, t[k].at(roi.x + x, roi.y + y), e); ok |= isTop(t, n, use, k, roi.x + x, roi.y + y, sorted) & eq(e, p, B); }
    bool back = true; if (bg >= 0) for (int i = 0; i < B; ++i) { unsigned e = bg; if (pt == PixelType::Gray16) e = bg ? 255 : 0; back &= p[i] == e; } else if (old) back = eq(p, old + ((size_t)y * roi.w + x) * B, B); else back = true; all &= any ? ok : back; }
  sym_assert(all, msg);
}
static const IntRect kRoi[4] = {{0, 0, 3, 3}, {-1, -1, 4, 4}, {1, 1, 2, 1}, {5, 5, 2, 2}};
static std::shared_ptr<IBitmapData> get(ICZIReader& r, int ov, PixelType pt, const IntRect& roi, const IDimCoordinate* pc, const ISingleChannelTileAccessor::Options* o, const uint8_t* old) {
  auto a = r.CreateSingleChannelTileAccessor(); switch (ov) {
  case 0: return a->Get(roi, pc, o); case 1: return a->Get(pt, roi, pc, o); case 2: return a->Get(roi.x, roi.y, roi.w, roi.h, pc, o); case 3: return a->Get(pt, roi.x, roi.y, roi.w, roi.h, pc, o); case 4: return a->Get(pt, IntRectAndFrameOfReference{CZIFrameOfReference::RawSubBlockCoordinateSystem, roi}, pc, o);
  default: { auto b = CStdBitmapData::Create(pt, roi.w, roi.h); { ScopedBitmapLockerSP l{b}; for (int y = 0; y < roi.h; ++y) memcpy((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, old + (size_t)y * roi.w * bpp(pt), roi.w * bpp(pt)); } a->Get(b.get(), roi.x, roi.y, pc, o); return b; } }
}
// all M-indices and placements
static void order(int n, bool vis, bool sorted) {
  int k = sym_pick(16, "placement"); static const int X[4] = {0, 1, -1, 2}; Tile t[3]; t[1].x = X[k % 4]; t[1].y = X[k / 4]; t[1].w = 3; t[1].h = 1; t[2].x = 1; t[2].y = k & 1 ? 0 : -1; t[2].w = 2; t[2].h = 3; bool use[3] = {true, true, true}; int nm = sym_pick(1 << n, "without M"); for (int i = 0; i < n; ++i) { t[i].pixels(); if (!(nm >> i & 1)) { t[i].m = sym_i32("m"); sym_assume(Utils::IsValidMindex(t[i].m)); } } 
  std::shared_ptr<ICZIReader> r; try { r = writeDoc(t, n, true); } catch (const std::exception&) { sym_assert(false, "the document can be written"); return; } IntRect roi = kRoi[k % 3]; ISingleChannelTileAccessor::Options o; o.Clear(); o.useVisibilityCheckOptimization = vis; o.sortByM = sorted; o.backGroundColor = {0, 0, 0}; CDimCoordinate pc{{DimensionIndex::C, 0}}; auto b = get(*r, 0, PixelType::Gray8, roi, &pc, &o, nullptr); check(b.get(), t, n, use, roi, sorted, 0, nullptr, "every pixel is that of the topmost tile or background"); sym_reach("composed");
}
// @job time=300 shards=16
HARNESS(c12_order) { order(2, false, true); }
// @job time=300 shards=16
HARNESS(c12_order_visibility) { order(2, true, true); }
// @job time=300 shards=16
HARNESS(c12_unsorted) { order(2, sym_pick(2, "vis"), false); }
// @job time=500 shards=16
HARNESS(c12_order_three) { order(3, true, true); }
// filtering, overloads, background, cache
// @job time=300 shards=12
HARNESS(c12_options) {
  int k = sym_pick(12, "case"); int ov = k % 6, ri = sym_pick(4, "roi"); bool vis = k / 6; static const PixelType P[3] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24}; PixelType pt = ov == 0 || ov == 2 ? PixelType::Gray8 : P[sym_pick(3, "pixeltype")]; Tile t[4]; t[1].x = 1; t[1].y = 1; t[1].m = 5; t[0].m = 3; t[2].x = 1; t[2].y = 0; t[2].m = 9; t[2].c = 1; t[3].x = 0; t[3].y = 0; t[3].w = 4; t[3].h = 4; t[3].pw = 2; t[3].ph = 2; t[3].py = SubBlockPyramidType::SingleSubBlock; bool scenes = sym_pick(2, "scenes"); if (scenes) { t[0].s = 0; t[1].s = 2; t[2].s = 2; t[3].s = 2; } for (auto& x : t) x.pixels(); auto r = writeDoc(t, 4);
  ISingleChannelTileAccessor::Options o; o.Clear(); o.useVisibilityCheckOptimization = vis; auto f = std::make_shared<Filter>(); f->bits = sym_int(4, "filter"); bool filter = sym_pick(2, "use filter"); if (filter) o.sceneFilter = f; int bg = sym_pick(3, "background"); if (bg < 2) o.backGroundColor = {(float)bg, (float)bg, (float)bg}; int cache = sym_pick(3, "cache"); std::shared_ptr<ISubBlockCache> sc; if (cache) { sc = CreateSubBlockCache(); o.subBlockCache = sc; o.onlyUseSubBlockCacheForCompressedData = cache == 2; }
  bool use[4] = {bool(!(filter & scenes) | (f->bits & 1)), bool(!(filter & scenes) | (f->bits >> 2 & 1)), false, false}; IntRect roi = kRoi[ri]; uint8_t old[64]; sym_bytes(old, 64, "old"); CDimCoordinate pc{{DimensionIndex::C, 0}}; for (int round = 0; round < (cache == 1 ? 2 : 1); ++round) { auto b = get(*r, ov, pt, roi, &pc, &o, old); sym_assert(b->GetPixelType() == pt, "the pixel type is the one requested"); check(b.get(), t, 4, use, roi, true, bg == 2 ? -1 : bg * 255, bg == 2 && ov == 5 ? old : nullptr, "exactly the tiles of the plane which pass the filter are painted"); }
  sym_reach("composed");
}
// invalid planes are refused
// @job time=100
HARNESS(c12_plane) { Tile t[3]; t[1].x = 1; t[1].c = 1; t[2].c = 2; t[0].t = t[1].t = t[2].t = 0; t[2].x = 2; for (auto& x : t) { x.pixels(); } auto r = writeDoc(t, 3); CDimCoordinate pc; int c = sym_i32("c"); bool hasC = sym_pick(2, "C"), hasT = sym_pick(2, "T"), hasZ = sym_pick(2, "Z"), hasS = sym_pick(2, "S"); int tt = sym_i32("t"); if (hasC) pc.Set(DimensionIndex::C, c); if (hasT) pc.Set(DimensionIndex::T, tt); if (hasZ) pc.Set(DimensionIndex::Z, 0); if (hasS) pc.Set(DimensionIndex::S, 0); bool good = hasC & (c >= 0) & (c < 3) & (!hasT | (tt == 0)) & !hasZ & !hasS, ok = false; std::shared_ptr<IBitmapData> b; ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = {0, 0, 0}; IntRect roi{0, 0, 4, 2}; try { b = r->CreateSingleChannelTileAccessor()->Get(PixelType::Gray8, roi, &pc, &o); ok = true; } catch (const LibCZIException&) {} sym_assert(ok == good, "exactly the valid planes are accepted"); if (ok) { bool use[3]; for (int i = 0; i < 3; ++i) use[i] = t[i].c == c; check(b.get(), t, 3, use, roi, true, 0, nullptr, "the tiles of this plane are painted"); sym_reach("composed"); } else sym_reach("refused"); }
static const char kXml[] = "<METADATA/>";
// the XML of the sub-block says: chunk container, if there is any (reading XML is C34)
struct Meta : public ISubBlockMetadata {
  bool ok = false; std::wstring Name() const override { return L""; } bool TryGetAttribute(const wchar_t*, std::wstring*) const override { return false; } void EnumAttributes(const std::function<bool(const std::wstring&, const std::wstring&)>&) const override {} bool TryGetValue(std::wstring*) const override { return false; } std::shared_ptr<IXmlNodeRead> GetChildNodeReadonly(const char*) override { return nullptr; } void EnumChildren(const std::function<bool(std::shared_ptr<IXmlNodeRead>)>&) override {}
  bool TryGetAttachmentDataFormat(std::wstring* f) override { if (ok && f) *f = L"CHUNKCONTAINER"; return ok; } bool TryGetTagAsDouble(const std::wstring&, double*) override { return false; } bool TryGetTagAsString(const std::wstring&, std::wstring*) override { return false; } bool TryGetStagePositionFromTags(std::tuple<double, double>*) override { return false; } bool IsXmlValid() const override { return ok; } std::string GetXml() const override { return ""; }
};
namespace libCZI { std::shared_ptr<ISubBlockMetadata> CreateSubBlockMetadataFromSubBlock(const ISubBlock* s) { auto m = std::make_shared<Meta>(); size_t n = 0; s->GetRawData(ISubBlock::MemBlkType::Metadata, &n); m->ok = n > 0; return m; } }
static const uint8_t kMask[16] = {0x67, 0xea, 0xe3, 0xcb, 0xfc, 0x5b, 0x2b, 0x49, 0xa1, 0x6a, 0xec, 0xe3, 0x78, 0x03, 0x14, 0x48};
// masks: only the valid pixels of a tile are painted if masks are to be considered
// @job time=300 shards=8
HARNESS(c12_mask) {
  int k = sym_pick(16, "case"); bool aware = k & 1, vis = k & 2, cached = k & 4, other = k & 8; Tile t[2]; t[0].m = 1; t[1].m = 2; for (int i = 0; i < 2; ++i) { t[i].pixels(); } t[1].xml = kXml; uint8_t* a = t[1].att; memset(a, 0, 64); memcpy(a, kMask, 16); wr32(a + 16, 18); wr32(a + 20, 2); wr32(a + 24, 2); wr32(a + 32, 1); uint8_t bits = sym_u8("mask"), bits2 = sym_u8("mask"); a[36] = bits; a[37] = bits2; t[1].natt = 38; auto r = writeDoc(t, 2); ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = {0, 0, 0}; o.useVisibilityCheckOptimization = vis; o.maskAware = aware; if (cached) { o.subBlockCache = CreateSubBlockCache(); o.onlyUseSubBlockCacheForCompressedData = false; } CDimCoordinate pc{{DimensionIndex::C, 0}}; auto acc = r->CreateSingleChannelTileAccessor(); IntRect roi{0, 0, 2, 2};
  if (cached && other) { o.maskAware = !aware; acc->Get(roi, &pc, &o); o.maskAware = aware; } for (int round = 0; round < (cached ? 2 : 1); ++round) { auto b = acc->Get(roi, &pc, &o); ScopedBitmapLockerSP l{b}; bool ok = true; for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) { bool on = !aware | ((y ? bits2 : bits) >> (7 - x) & 1); uint8_t e0 = *t[0].at(x, y), e1 = *t[1].at(x, y); ok &= ((const uint8_t*)l.ptrDataRoi)[(size_t)y * l.stride + x] == (on ? e1 : e0); } sym_assert(ok, "where the mask of a tile is not set, the tile below is visible (if masks are considered)"); } sym_reach("composed");
}
