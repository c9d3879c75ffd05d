// C21: the sub-block cache returns what was added and its accounting is exact
// @bounds every sequence of 4 operations (thorough: 5) out of add (3 sub-block indices of any value, replacing included), get and prune (all limits) on one cache, followed by a lookup of every index; bitmaps of 6 sizes and 4 pixel types, with and without mask, and all limits for pruning; for pruning three items also all their widths 0..7; the memory accounting of one item for all widths (heights) with 5 heights (widths)
// @assume mask widths below 2^32-7 and bitmap pointers not null
#include "common.h"
#include "subblock_cache.h"
using namespace libCZI; using namespace libCZI::detail; using namespace h;
static const PixelType kP[4] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgra32};
struct Bm : public IBitmapData { PixelType t; uint32_t w, h; PixelType GetPixelType() const override { return t; } IntSize GetSize() const override { return {w, h}; } BitmapLockInfo Lock() override { return {}; } void Unlock() override {} int GetLockCount() const override { return 0; } };
struct Mk : public IBitonalBitmapData { uint32_t w, h; IntSize GetSize() const override { return {w, h}; } BitonalBitmapLockInfo Lock() override { return {}; } void Unlock() override {} int GetLockCount() const override { return 0; } };
struct Item { int key; uint64_t size; IBitmapData* bm; IBitonalBitmapData* mk; };
struct Ref { // least recently used first
  Item it[8]; int n = 0;
  int find(int k) const { for (int i = 0; i < n; ++i) if (it[i].key == k) return i; return -1; }
  void drop(int i) { for (; i + 1 < n; ++i) it[i] = it[i + 1]; --n; }
  uint64_t mem() const { uint64_t s = 0; for (int i = 0; i < n; ++i) s += it[i].size; return s; }
};
static int gId; static bool gSym; static const uint32_t kW[6] = {5, 1, 70000, 9, 0, 33}; static std::shared_ptr<Bm> mkBm() { auto b = std::make_shared<Bm>(); int k = gId++; b->t = kP[k % 4]; b->w = gSym ? sym_u8("w") & 7 : kW[k % 6]; b->h = k % 3 + 1; return b; }
static uint64_t bpp4(PixelType t) { return t == PixelType::Gray8 ? 1 : t == PixelType::Gray16 ? 2 : t == PixelType::Bgr24 ? 3 : 4; }
static void stats(ISubBlockCache& c, const Ref& r) {
  typedef ISubBlockCacheStatistics S; auto a = c.GetStatistics(S::kMemoryUsage), b = c.GetStatistics(S::kElementsCount), d = c.GetStatistics(S::kMemoryUsage | S::kElementsCount);
  sym_assert((a.validityMask == S::kMemoryUsage) & (b.validityMask == S::kElementsCount) & (d.validityMask == (S::kMemoryUsage | S::kElementsCount)), "the statistics asked for are delivered");
  sym_assert((a.memoryUsage == r.mem()) & (d.memoryUsage == r.mem()), "the memory usage is the sum over the items held"); sym_assert((b.elementsCount == (uint32_t)r.n) & (d.elementsCount == (uint32_t)r.n), "the element count is the number of items held");
}
static void lookup(ISubBlockCache& c, Ref& r, int key) { auto g = c.Get(key); int i = r.find(key); if (i < 0) { sym_assert(!g.bitmap && !g.mask && !g.IsValid(), "what is not in the cache is not delivered"); return; } sym_assert(g.bitmap.get() == r.it[i].bm && g.mask.get() == r.it[i].mk && g.IsValid(), "the item added last for this sub-block is delivered"); Item x = r.it[i]; r.drop(i); r.it[r.n++] = x; }
static void run(int steps, int first) {
  auto c = CreateSubBlockCache(); Ref r; gId = 0; int key[3]; for (int i = 0; i < 3; ++i) key[i] = sym_i32("index"); sym_assume((key[0] < key[1]) & (key[1] < key[2]));
  for (int s = 0; s < steps; ++s) { int op = s < 2 ? first / (s ? 7 : 1) % 7 : sym_pick(7, "op");
    if (op < 3) { auto b = mkBm(); std::shared_ptr<Mk> m; uint64_t sz = (uint64_t)b->w * b->h * bpp4(b->t); if (s % 2) { m = std::make_shared<Mk>(); m->w = kW[(gId + 2) % 6] + s; m->h = 2; sz += (((uint64_t)m->w + 7) / 8) * 2; } c->Add(key[op], {b, m}); int i = r.find(key[op]); if (i >= 0) r.drop(i); r.it[r.n++] = {key[op], sz, b.get(), m.get()}; }
    else if (op < 6) lookup(*c, r, key[op - 3]);
    else { ISubBlockCacheControl::PruneOptions o; o.maxMemoryUsage = sym_u64("max memory"); o.maxSubBlockCount = sym_u32("max count"); c->Prune(o); while (r.n && ((r.mem() > o.maxMemoryUsage) | ((uint32_t)r.n > o.maxSubBlockCount))) r.drop(0); sym_reach("pruned"); }
    stats(*c, r); }
  for (int i = 0; i < 3; ++i) lookup(*c, r, key[i]); stats(*c, r); sym_reach("done");
}
// @job time=300 shards=49
HARNESS(c21_history) { run(4, sym_pick(49, "ops")); }
// @job thorough time=3000 shards=49
HARNESS(c21_history5) { run(5, sym_pick(49, "ops")); }
// adding three items and pruning twice
// @job time=300 shards=6
HARNESS(c21_prune) {
  int k = sym_pick(9, "order"); auto c = CreateSubBlockCache(); Ref r; gId = k; gSym = true; int key[3] = {7, -1, 2}; for (int i = 0; i < 3; ++i) { auto b = mkBm(); c->Add(key[i], {b, nullptr}); r.it[r.n++] = {key[i], (uint64_t)b->w * b->h * bpp4(b->t), b.get(), nullptr}; } lookup(*c, r, key[k % 3]); lookup(*c, r, key[k / 3]);
  for (int p = 0; p < 2; ++p) { ISubBlockCacheControl::PruneOptions o; if (p == 0) o.maxMemoryUsage = sym_u64("max memory"); else o.maxSubBlockCount = sym_u32("max count"); c->Prune(o); while (r.n && ((r.mem() > o.maxMemoryUsage) | ((uint32_t)r.n > o.maxSubBlockCount))) r.drop(0); stats(*c, r); } for (int i = 0; i < 3; ++i) lookup(*c, r, key[i]); stats(*c, r); sym_reach("pruned");
}
// @job time=60
HARNESS(c21_size) { auto c = CreateSubBlockCache(); auto b = std::make_shared<Bm>(); b->t = kP[sym_pick(4, "pixeltype")]; static const uint32_t kH[5] = {0, 1, 3, 65537, 0xffffffffu}; int hi = sym_pick(5, "h"); bool flip = sym_pick(2, "flip"); b->w = flip ? kH[hi] : sym_u32("w"); b->h = flip ? sym_u32("h") : kH[hi]; std::shared_ptr<Mk> m; uint64_t s = (uint64_t)b->w * b->h * bpp4(b->t); if (sym_pick(2, "mask")) { m = std::make_shared<Mk>(); m->w = sym_u32("mw"); sym_assume(m->w < 0xfffffff8u); m->h = kH[hi]; s += (((uint64_t)m->w + 7) / 8) * m->h; } c->Add(1, {b, m}); sym_assert(c->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage).memoryUsage == s, "the memory usage is that of bitmap and mask"); sym_reach("added"); ISubBlockCacheControl::PruneOptions o; o.maxSubBlockCount = 0; c->Prune(o); auto d = c->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount); sym_assert((d.memoryUsage == 0) & (d.elementsCount == 0), "an emptied cache uses nothing"); }
