// C10: document statistics are a function of the current sub-blocks
// @bounds sets of 3 sub-blocks added in any order to the statistics (and directories) with all positions and sizes below 2^29 (for 2 sub-blocks in both axes, for 3 sub-blocks in one axis), all M-indices (or none), channel, time and scene indices in -2^30+1..2^30-1 (or absent); pyramid sub-blocks of 8 logical/stored size ratios; reader-writer histories of 3 edits (add, replace, remove; thorough: 4) of such sub-blocks with queries in between, compared also with a freshly opened reader
#include "doc.h"
#include "CziSubBlockDirectory.h"
static const struct { int w, h, sw, sh; uint8_t f, l; } kSz[8] = {{4, 4, 4, 4, 0, 0}, {8, 8, 4, 4, 2, 1}, {12, 12, 4, 4, 3, 1}, {16, 16, 4, 4, 2, 2}, {20, 20, 4, 4, 255, 255}, {36, 36, 4, 4, 3, 2}, {256, 128, 4, 2, 2, 6}, {2, 2, 4, 4, 255, 255}};
struct Sb { int x, y, w, h, sw, sh, c, t, s, m; uint8_t f, l; bool l0() const { return (w == sw) & (h == sh); } };
static bool rectIs(const IntRect& r, int x0, int y0, int x1, int y1) { return (r.x == x0) & (r.y == y0) & (r.w == x1 - x0) & (r.h == y1 - y0); }
struct Box { bool any = false; int x0 = 0, y0 = 0, x1 = 0, y1 = 0; static int mn(int a, int b) { return a < b ? a : b; } static int mx(int a, int b) { return a < b ? b : a; } void add(const Sb& s) { if (!any) { x0 = s.x; y0 = s.y; x1 = s.x + s.w; y1 = s.y + s.h; any = true; } else { x0 = mn(x0, s.x); y0 = mn(y0, s.y); x1 = mx(x1, s.x + s.w); y1 = mx(y1, s.y + s.h); } } bool is(const IntRect& r) const { return any ? rectIs(r, x0, y0, x1, y1) : !r.IsValid(); } };
static void checkDim(const SubBlockStatistics& st, DimensionIndex d, const Sb* b, int n, int Sb::*f) { bool any = false; int lo = 0, hi = 0; for (int i = 0; i < n; ++i) if (b[i].*f != kNo) { int v = b[i].*f; if (!any) lo = hi = v; else { lo = Box::mn(lo, v); hi = Box::mx(hi, v); } any = true; } int s = 0, z = 0; bool has = st.dimBounds.TryGetInterval(d, &s, &z); sym_assert(has == any, "exactly the dimensions of the sub-blocks have bounds"); if (has) sym_assert((s == lo) & (z == hi - lo + 1), "the bounds of a dimension are its minimum and maximum"); }
static void checkStats(const SubBlockStatistics& st, const Sb* b, int n) {
  sym_assert(st.subBlockCount == n, "the number of sub-blocks"); Box all, l0; for (int i = 0; i < n; ++i) { all.add(b[i]); if (b[i].l0()) l0.add(b[i]); } sym_assert(all.is(st.boundingBox), "the bounding box is that of all sub-blocks"); sym_assert(l0.is(st.boundingBoxLayer0Only), "the layer-0 bounding box is that of the sub-blocks on layer 0");
  bool m = false; int lo = INT32_MAX, hi = INT32_MIN; for (int i = 0; i < n; ++i) if (b[i].m != kNo) { m = true; lo = Box::mn(lo, b[i].m); hi = Box::mx(hi, b[i].m); } sym_assert((st.minMindex == lo) & (st.maxMindex == hi) & (st.IsMIndexValid() == m), "the M-index range is that of the sub-blocks with M-index");
  checkDim(st, DimensionIndex::C, b, n, &Sb::c); checkDim(st, DimensionIndex::T, b, n, &Sb::t); checkDim(st, DimensionIndex::S, b, n, &Sb::s); int a, z; sym_assert(!st.dimBounds.TryGetInterval(DimensionIndex::Z, &a, &z), "no bounds for a dimension which does not occur");
  int scenes = 0; for (int i = 0; i < n; ++i) if (b[i].s != kNo) { bool first = true; Box ba, bl; for (int k = 0; k < n; ++k) if (b[k].s == b[i].s) { if (k < i) first = false; ba.add(b[k]); if (b[k].l0()) bl.add(b[k]); } if (!first) continue; ++scenes; auto it = st.sceneBoundingBoxes.find(b[i].s); sym_assert(it != st.sceneBoundingBoxes.end(), "every scene has bounding boxes"); if (it != st.sceneBoundingBoxes.end()) { sym_assert(ba.is(it->second.boundingBox), "the bounding box of a scene is that of its sub-blocks"); sym_assert(bl.is(it->second.boundingBoxLayer0), "the layer-0 bounding box of a scene is that of its sub-blocks on layer 0"); } } sym_assert((int)st.sceneBoundingBoxes.size() == scenes, "only scenes which occur have bounding boxes");
}
static void checkPyr(const PyramidStatistics& p, const Sb* b, int n) {
  int scenes = 0; for (int i = 0; i < n; ++i) { bool first = true; for (int k = 0; k < i; ++k) if (b[k].s == b[i].s) first = false; if (!first) continue; ++scenes; auto it = p.scenePyramidStatistics.find(b[i].s == kNo ? INT32_MAX : b[i].s); sym_assert(it != p.scenePyramidStatistics.end(), "every scene has pyramid statistics"); if (it == p.scenePyramidStatistics.end()) continue; int kinds = 0; bool ok = true;
    for (int k = 0; k < n; ++k) if (b[k].s == b[i].s) { bool f1 = true; int cnt = 0; for (int j = 0; j < n; ++j) if (b[j].s == b[k].s && b[j].f == b[k].f && b[j].l == b[k].l) { ++cnt; if (j < k) f1 = false; } if (!f1) continue; ++kinds; bool found = false; for (auto& e : it->second) if (e.layerInfo.minificationFactor == b[k].f && e.layerInfo.pyramidLayerNo == b[k].l) found |= e.count == cnt; ok &= found; }
    sym_assert(ok && (int)it->second.size() == kinds, "the pyramid statistics count the sub-blocks of every layer"); int last = -1; bool sorted = true; for (auto& e : it->second) { int v = 1; if (e.layerInfo.minificationFactor == 255) v = 1 << 30; else for (int k = 0; k < e.layerInfo.pyramidLayerNo; ++k) v *= e.layerInfo.minificationFactor; sorted &= last < v; last = v; } sym_assert(sorted, "the layers are listed from layer 0 upwards"); }
  sym_assert((int)p.scenePyramidStatistics.size() == scenes, "pyramid statistics only for scenes which occur");
}
static CCziSubBlockDirectoryBase::SubBlkEntry entry(const Sb& b) { CCziSubBlockDirectoryBase::SubBlkEntry e; e.Invalidate(); e.x = b.x; e.y = b.y; e.width = b.w; e.height = b.h; e.storedWidth = b.sw; e.storedHeight = b.sh; e.mIndex = b.m == kNo ? INT32_MIN : b.m; e.PixelType = 0; e.Compression = 0; e.FilePosition = 0; if (b.c != kNo) e.coordinate.Set(DimensionIndex::C, b.c); if (b.t != kNo) e.coordinate.Set(DimensionIndex::T, b.t); if (b.s != kNo) e.coordinate.Set(DimensionIndex::S, b.s); return e; }
// layer: index into kSz (0: layer 0 of any size)
static void symSb(Sb& b, int layer, bool c, bool t, bool s, bool m) {
  b.x = sym_i32("x"); b.y = sym_i32("y"); sym_assume((b.x > -(1 << 29)) & (b.x < 1 << 29) & (b.y > -(1 << 29)) & (b.y < 1 << 29)); b.f = kSz[layer].f; b.l = kSz[layer].l; b.w = kSz[layer].w; b.h = kSz[layer].h; b.sw = kSz[layer].sw; b.sh = kSz[layer].sh; if (!layer) { b.w = b.sw = sym_i32("w"); b.h = b.sh = sym_i32("h"); sym_assume((b.w >= 0) & (b.w < 1 << 29) & (b.h >= 0) & (b.h < 1 << 29)); }
  b.c = b.t = b.s = b.m = kNo; if (c) { b.c = sym_i32("c"); sym_assume((b.c > -(1 << 30)) & (b.c < 1 << 30)); } if (t) { b.t = sym_i32("t"); sym_assume((b.t > -(1 << 30)) & (b.t < 1 << 30)); } if (s) { b.s = sym_i32("s"); sym_assume((b.s > -(1 << 30)) & (b.s < 1 << 30)); } if (m) { b.m = sym_i32("m"); sym_assume(Utils::IsValidMindex(b.m)); }
}
// bounding boxes, dimension bounds and M-index range
// @job time=300 shards=24
HARNESS(c10_bounds) { int k = sym_pick(24, "case"); int mi = k & 3, axis = k >> 2 & 1, la = k / 8; Sb b[3]; for (int i = 0; i < 3; ++i) { symSb(b[i], la == i && i ? 1 : 0, i != 1, i == 0, false, mi == 3 || mi == i); bool l0 = !(la == i && i); if (axis) { b[i].x = 3 * i; if (l0) b[i].w = b[i].sw = 7 - i; } else { b[i].y = -3 * i; if (l0) b[i].h = b[i].sh = 1 + i; } } CSbBlkStatisticsUpdater u; for (int i = 0; i < 3; ++i) { u.UpdateStatistics(entry(b[i])); checkStats(u.GetStatistics(), b, i + 1); } sym_reach("checked"); }
// scenes
// @job time=300 shards=12
HARNESS(c10_scenes) { int k = sym_pick(12, "case"); Sb b[2]; symSb(b[0], k % 2, true, false, k / 2 % 2, false); symSb(b[1], k / 4 == 1 ? 3 : 0, false, false, k / 4 != 2, false); CSbBlkStatisticsUpdater u; for (auto& x : b) u.UpdateStatistics(entry(x)); u.Consolidate(); checkStats(u.GetStatistics(), b, 2); checkPyr(u.GetPyramidStatistics(), b, 2); sym_reach("checked"); }
// no coordinates at all
// @job time=60
HARNESS(c10_bare) { Sb b[2]; int k = sym_pick(4, "M"); symSb(b[0], 0, false, false, false, k & 1); symSb(b[1], 0, false, false, false, k & 2); CSbBlkStatisticsUpdater u; for (auto& x : b) u.UpdateStatistics(entry(x)); checkStats(u.GetStatistics(), b, 2); sym_reach("checked"); }
// pyramid layers
// @job time=300 shards=2 prio=1
HARNESS(c10_pyramid) { int k = sym_pick(512, "layers"), sc = sym_pick(3, "scenes"); Sb b[3]; for (int i = 0; i < 3; ++i) { const auto& z = kSz[(k >> 3 * i) & 7]; b[i] = Sb{10 * i, -16 * i, z.w, z.h, z.sw, z.sh, kNo, kNo, kNo, kNo, z.f, z.l}; if (sc == 1 ? i != 1 : sc == 2) { b[i].s = sym_i32("s"); sym_assume((b[i].s > -(1 << 30)) & (b[i].s < 1 << 30)); } } CSbBlkStatisticsUpdater u; for (int i = 0; i < 3; ++i) { u.UpdateStatistics(entry(b[i])); if (i == 1) { checkPyr(u.GetPyramidStatistics(), b, 2); } } checkPyr(u.GetPyramidStatistics(), b, 3); u.Consolidate(); checkPyr(u.GetPyramidStatistics(), b, 3); checkStats(u.GetStatistics(), b, 3); sym_reach("checked"); }
// an updater which is cleared starts anew
// @job time=100
HARNESS(c10_clear) { Sb b[2]; int k = sym_pick(4, "layers"); symSb(b[0], k & 1 ? 2 : 0, true, false, true, true); symSb(b[1], k & 2 ? 1 : 0, true, false, true, true); CSbBlkStatisticsUpdater u; u.UpdateStatistics(entry(b[0])); u.Consolidate(); u.Clear(); u.UpdateStatistics(entry(b[1])); checkStats(u.GetStatistics(), b + 1, 1); checkPyr(u.GetPyramidStatistics(), b + 1, 1); sym_reach("checked"); }
// reader-writer histories
static void tile(Tile& t, Sb& b, int id) { int layer = id == 2 ? 1 : 0; b.x = sym_range(-8 + 40 * id, 7 + 40 * id, "x"); b.y = sym_range(-8 - 40 * id, 7 - 40 * id, "y"); b.w = kSz[layer].w; b.h = kSz[layer].h; b.sw = b.sh = 4; b.f = kSz[layer].f; b.l = kSz[layer].l; b.c = id; b.t = kNo; b.s = id == 3 ? kNo : id & 1; b.m = layer ? kNo : 10 * id + (int)sym_range(0, 7, "m"); t.x = b.x; t.y = b.y; t.w = b.w; t.h = b.h; t.pw = 4; t.ph = 4; t.c = b.c; t.s = b.s; t.m = b.m; t.py = layer ? SubBlockPyramidType::SingleSubBlock : SubBlockPyramidType::None; t.npx = 16; memset(t.px, 0, 16); }
typedef MemStreamT<24576> St; static St ms;
static void history(int n, int first) {
  ms.size = 0; auto st = ref<St>(&ms); auto rw = CreateCZIReaderWriter(); rw->Create(st); Sb cur[6]; int key[6], cnt = 0, id = 0; auto add = [&]() { Tile t; tile(t, cur[cnt], id); AddSubBlockInfoMemPtr a; fillAdd(a, t); rw->SyncAddSubBlock(a); rw->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { int c; if (i.coordinate.TryGetPosition(DimensionIndex::C, &c) && c == id) key[cnt] = k; return true; }); ++cnt; ++id; }; add(); add();
  for (int i = 0; i < n; ++i) { int op = i ? sym_pick(5, "op") : first % 5; int v = op == 0 ? 0 : op < 3 ? op - 1 : op - 3; if (op && v >= cnt) return; if (op == 0) add(); else if (op < 3) { Tile t; tile(t, cur[v], id++); AddSubBlockInfoMemPtr a; fillAdd(a, t); rw->ReplaceSubBlock(key[v], a); } else { rw->RemoveSubBlock(key[v]); for (int k = v; k + 1 < cnt; ++k) { cur[k] = cur[k + 1]; key[k] = key[k + 1]; } --cnt; }
    int q = first / 5; if (q & 1) checkPyr(rw->GetPyramidStatistics(), cur, cnt); if (q & 2) checkStats(rw->GetStatistics(), cur, cnt); }
  checkStats(rw->GetStatistics(), cur, cnt); checkPyr(rw->GetPyramidStatistics(), cur, cnt); rw->Close(); auto r = CreateCZIReader(); r->Open(st); checkStats(r->GetStatistics(), cur, cnt); checkPyr(r->GetPyramidStatistics(), cur, cnt); sym_reach("checked");
}
// @job time=300 shards=20
HARNESS(c10_history) { history(3, sym_pick(20, "ops")); }
// @job thorough time=2000 shards=20
HARNESS(c10_history4) { history(4, sym_pick(20, "ops")); }
