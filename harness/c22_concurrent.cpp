// C22: concurrent use of cache and reader behaves like some sequential order
// @bounds one cache and two threads with two operations each (every combination of 6 operations: add, get, statistics and prune on two indices, items of any size up to 255 bytes), with one item in the cache beforehand, followed by a prune to one item; all interleavings with up to 3 preemptions (switches at every synchronisation operation and at every access to shared memory which may race); one reader with one sub-block and two threads calling two of 10 methods or Close concurrently (up to 2 preemptions)
// @assume sequentially consistent memory (data races are reported, so this is no restriction for race-free code)
#include "doc.h"
#include "subblock_cache.h"
#include <sys/single_threaded.h>
struct Bm : public IBitmapData { uint32_t w; PixelType GetPixelType() const override { return PixelType::Gray8; } IntSize GetSize() const override { return {w, 1}; } BitmapLockInfo Lock() override { return {}; } void Unlock() override {} int GetLockCount() const override { return 0; } };
// the sequential cache: least recently used first
struct Ref { int key[6], id[6], n = 0; int find(int k) const { for (int i = 0; i < n; ++i) if (key[i] == k) return i; return -1; } void drop(int i) { for (; i + 1 < n; ++i) key[i] = key[i + 1], id[i] = id[i + 1]; --n; } void put(int k, int v) { int i = find(k); if (i >= 0) drop(i); key[n] = k; id[n++] = v; } };
static std::shared_ptr<Bm> gBm[6]; static ISubBlockCache* gC; static int gOp[4]; static int gRes[4];
static uint32_t kW[6];
static int idOf(const std::shared_ptr<IBitmapData>& b) { for (int i = 0; i < 6; ++i) if (b.get() == gBm[i].get()) return i; return -1; }
// operation op of slot s; the result is one number
static int doOp(int op, int s) {
  switch (op) { case 0: gC->Add(1, {gBm[1 + s], nullptr}); return 0; case 1: gC->Add(2, {gBm[1 + s], nullptr}); return 0; case 2: return idOf(gC->Get(1).bitmap); case 3: return idOf(gC->Get(2).bitmap);
  case 4: { auto x = gC->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount); return (int)(x.memoryUsage * 8 + x.elementsCount); } default: { ISubBlockCacheControl::PruneOptions o; o.maxSubBlockCount = 1; gC->Prune(o); return 0; } } }
static int refOp(Ref& r, int op, int s) {
  switch (op) { case 0: r.put(1, 1 + s); return 0; case 1: r.put(2, 1 + s); return 0; case 2: case 3: { int i = r.find(op - 1); if (i < 0) return -1; int v = r.id[i]; r.put(op - 1, v); return v; }
  case 4: { int m = 0; for (int i = 0; i < r.n; ++i) m += (int)kW[r.id[i]]; return m * 8 + r.n; } default: while (r.n > 1) r.drop(0); return 0; } }
static void th(void* p) { int b = (int)(intptr_t)p; for (int i = b; i < b + 2; ++i) gRes[i] = doOp(gOp[i], i); }
// final observations: statistics, prune to one item, what is left
static void tail(int* f) { f[0] = doOp(4, 0); doOp(5, 0); f[1] = doOp(2, 0); f[2] = doOp(3, 0); f[3] = doOp(4, 0); }
static void cache(int first) {
  __libc_single_threaded = 0;
  auto c = CreateSubBlockCache(); gC = c.get(); for (int i = 0; i < 6; ++i) { gBm[i] = std::make_shared<Bm>(); kW[i] = sym_u8("size"); gBm[i]->w = kW[i]; } gOp[0] = first % 6; gOp[2] = first / 6; gOp[1] = sym_pick(6, "op"); gOp[3] = sym_pick(6, "op"); bool pre = sym_pick(2, "filled"); if (pre) c->Add(1, {gBm[0], nullptr});
  int t1 = sym_thread_create(th, (void*)0), t2 = sym_thread_create(th, (void*)2); sym_thread_join(t1); sym_thread_join(t2); int f[4]; tail(f); bool ok = false;
  static const int O[6][4] = {{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 2, 3, 1}, {2, 0, 1, 3}, {2, 0, 3, 1}, {2, 3, 0, 1}};
  for (int o = 0; o < 6; ++o) { Ref r; if (pre) r.put(1, 0); bool m = true; for (int i = 0; i < 4; ++i) m &= refOp(r, gOp[O[o][i]], O[o][i]) == gRes[O[o][i]]; int g[4]; g[0] = refOp(r, 4, 0); refOp(r, 5, 0); g[1] = refOp(r, 2, 0); g[2] = refOp(r, 3, 0); g[3] = refOp(r, 4, 0); for (int i = 0; i < 4; ++i) m &= g[i] == f[i]; ok |= m; }
  sym_assert(ok, "the results are those of some sequential order of the calls"); sym_reach("joined"); for (auto& b : gBm) b.reset();
}
// @job time=500 shards=36 switches=2 threads
HARNESS(c22_cache) { cache(sym_pick(36, "ops")); }
// @job thorough time=3000 shards=36 switches=4 threads
HARNESS(c22_cache_deep) { cache(sym_pick(36, "ops")); }
// the reader: any two methods, or a method and Close
static ICZIReader* gR; static int gM[2]; static bool gThrew[2]; static int gVal[2]; static const uint8_t* gPix;
static int call(int m) {
  switch (m) { case 0: { auto s = gR->ReadSubBlock(0); if (!s) return 0; size_t n = 0; auto p = s->GetRawData(ISubBlock::MemBlkType::Data, &n); return n == 4 && eq((const uint8_t*)p.get(), gPix, 4); }
  case 1: return gR->GetStatistics().subBlockCount == 2; case 2: { auto p = gR->GetPyramidStatistics(); return p.scenePyramidStatistics.size() == 1 && p.scenePyramidStatistics.begin()->second.size() == 2; } case 3: { SubBlockInfo i; return gR->TryGetSubBlockInfo(0, &i) && i.logicalRect.w == 2; }
  case 4: { int k = 0; gR->EnumerateSubBlocks([&](int, const SubBlockInfo&) { ++k; return true; }); return k == 2; } case 5: { auto a = gR->CreateSingleChannelTileAccessor(); CDimCoordinate pc{{DimensionIndex::C, 0}}; auto b = a->Get(PixelType::Gray8, IntRect{0, 0, 2, 2}, &pc, nullptr); ScopedBitmapLockerSP l{b}; return *(const uint8_t*)l.ptrDataRoi == gPix[0]; }
  case 6: return gR->GetFileHeaderInfo().majorVersion == 1; case 7: return gR->GetAttachmentCount() == 0; case 8: { SubBlockInfo i; return gR->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(0, i); } case 9: { auto r = gR->TransformPoint({CZIFrameOfReference::PixelCoordinateSystem, {0, 0}}, CZIFrameOfReference::RawSubBlockCoordinateSystem); return r.point.x == 0 && r.point.y == 0; } default: gR->Close(); return 1; } }
static void rth(void* p) { int k = (int)(intptr_t)p; try { gVal[k] = call(gM[k]); } catch (const std::logic_error&) { gThrew[k] = true; } }
static void two(int a, int b) {
  __libc_single_threaded = 0;
  Tile t[2]; t[0].pixels(); t[1].w = t[1].h = 4; t[1].pw = t[1].ph = 2; t[1].py = SubBlockPyramidType::SingleSubBlock; t[1].pixels(); auto r = writeDoc(t, 2); gR = r.get(); gPix = t[0].at(0, 0); gM[0] = a; gM[1] = b; gThrew[0] = gThrew[1] = false; gVal[0] = gVal[1] = 0;
  int t1 = sym_thread_create(rth, (void*)0), t2 = sym_thread_create(rth, (void*)1); sym_thread_join(t1); sym_thread_join(t2); bool closing = a == 10 || b == 10;
  for (int k = 0; k < 2; ++k) { sym_assert(!gThrew[k] || (closing && gM[k] != 10), "a call fails only if the reader is closed"); sym_assert(gThrew[k] || gVal[k] == 1, "a call which succeeds delivers the content of the document"); } sym_reach("joined");
}
// @job time=500 shards=11 switches=1 threads
HARNESS(c22_close) { two(sym_pick(10, "method"), 10); }
// @job time=500 shards=55 switches=1 threads
HARNESS(c22_reader) { int k = sym_pick(55, "methods"), a = 0; while (k >= 10 - a) { k -= 10 - a; ++a; } two(a, a + k); }
