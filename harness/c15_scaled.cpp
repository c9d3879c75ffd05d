// C15: scaled composition has the documented size, tiles and placement
// @bounds scaling accessor: documents of 1..3 tiles (2x2..4x4 pixels, up to two pyramid layers, two scenes side by side), at zoom 1 with all displacements of -5..7 in one direction, otherwise 7 zoom factors (1, 1/2, 1/3, 1/4, 0.3, 0.75, 1.03), 6 regions, Gray8/Gray16/Bgr24 destinations, all pixel values, with and without visibility optimisation, cache and scene filter, masks of 2x2 pixels with all bit patterns; pyramid-layer accessor: two layers of factor 2 and 3, 4 regions, a tile at -4..4 with a region at -7..7, every minification factor and every layer number in 0..255; bounds of memory accesses, division by zero and termination are checked throughout
// @assume scenes do not overlap (otherwise the scaling accessor paints scene by scene); the XML of a sub-block announces a chunk container exactly if there is any XML (see C34); rounding: a destination pixel may show any source pixel within its footprint enlarged by one source pixel
#include "doc.h"
#include "Site.h"
#include "bitmapData.h"
static const float kZ[7] = {1, 0.5f, 0.25f, 1.f / 3, 0.3f, 0.75f, 1.03f};
static const IntRect kR[6] = {{0, 0, 4, 4}, {-2, -2, 8, 8}, {1, 1, 4, 2}, {10, 10, 4, 4}, {0, 2, 3, 4}, {3, 0, 1, 4}};
typedef ISingleChannelScalingTileAccessor::Options SO; typedef ISingleChannelPyramidLayerTileAccessor::Options PO;
static bool same(IBitmapData* a, IBitmapData* b) { if (a->GetWidth() != b->GetWidth() || a->GetHeight() != b->GetHeight() || a->GetPixelType() != b->GetPixelType()) return false; ScopedBitmapLockerP x{a}, y{b}; bool ok = true; for (unsigned r = 0; r < a->GetHeight(); ++r) ok &= eq((const uint8_t*)x.ptrDataRoi + (size_t)r * x.stride, (const uint8_t*)y.ptrDataRoi + (size_t)r * y.stride, a->GetWidth() * bpp(a->GetPixelType())); return ok; }
struct Set : public IIndexSet { int bits; bool IsContained(int i) const override { return i >= 0 && i < 4 && (bits >> i & 1); } };
static int layout(Tile* t, int k) { // 0: one tile, 1: two overlapping, 2: two scenes side by side, 3: two layers
  t[0].w = t[0].h = 4; t[0].m = 1; int n = 1; if (k == 1) { t[1].x = 2; t[1].y = 1; t[1].w = 3; t[1].h = 4; t[1].m = 0; n = 2; } if (k == 2) { t[0].s = 0; t[1].x = 4; t[1].w = 2; t[1].h = 4; t[1].s = 1; t[1].m = 0; n = 2; } if (k == 3) { t[0].w = t[0].h = 2; t[1].x = t[1].y = 2; t[1].m = 2; t[2].x = t[2].y = 0; t[2].w = t[2].h = 4; t[2].pw = t[2].ph = 2; t[2].py = SubBlockPyramidType::SingleSubBlock; n = 3; } for (int i = 0; i < n; ++i) t[i].pixels(); return n; }
// at zoom 1: the same as the unscaled composition
// @job time=200 shards=12
HARNESS(c15_one) {
  int k = sym_pick(24, "case"); Tile t[3]; int n = layout(t, k % 4); if (k % 4 == 1) { t[0].m = sym_i32("m"); sym_assume(Utils::IsValidMindex(t[0].m)); sym_assume(t[0].m != 0); } auto r = writeDoc(t, n); IntRect roi = kR[k / 4]; if (k & 4) roi.x = sym_pick(13, "x") - 5; else roi.y = sym_pick(13, "y") - 5; CDimCoordinate pc{{DimensionIndex::C, 0}}; SO o; o.Clear(); ISingleChannelTileAccessor::Options p; p.Clear(); o.backGroundColor = p.backGroundColor = {1, 1, 1}; o.useVisibilityCheckOptimization = sym_pick(2, "vis"); auto set = std::make_shared<Set>(); if (k % 4 == 2) { set->bits = sym_pick(5, "filter"); if (set->bits < 4) o.sceneFilter = p.sceneFilter = set; } if (sym_pick(2, "cache")) { o.subBlockCache = CreateSubBlockCache(); o.onlyUseSubBlockCacheForCompressedData = false; } PixelType pt = sym_pick(2, "pt") ? PixelType::Gray8 : PixelType::Bgr24;
  auto s = r->CreateSingleChannelScalingTileAccessor(); auto a = s->Get(pt, roi, &pc, 1, &o), b = r->CreateSingleChannelTileAccessor()->Get(pt, roi, &pc, &p); sym_assert(same(a.get(), b.get()), "at zoom 1 the result equals the unscaled composition"); sym_reach("composed");
}
// size, placement and choice of layer
static bool good(Tile* t, int n, const bool* use, const IntRect& roi, float z, int x, int y, const uint8_t* p, PixelType pt, bool back) {
  // the footprint of the destination pixel, in layer-0 coordinates
  double x0 = roi.x + x / (double)z, y0 = roi.y + y / (double)z, x1 = x0 + 1 / (double)z, y1 = y0 + 1 / (double)z; int B = bpp(pt); bool inside = false, touches = false, any = false;
  for (int i = 0; i < n; ++i) if (use[i]) { double f = (double)t[i].W() / t[i].w; if (x0 >= t[i].x && y0 >= t[i].y && x1 <= t[i].x + t[i].w && y1 <= t[i].y + t[i].h) inside = true; double e = 1 / f + 1 / (double)z; if (x1 + e > t[i].x && y1 + e > t[i].y && x0 - e < t[i].x + t[i].w && y0 - e < t[i].y + t[i].h) touches = true;
    for (int sy = 0; sy < t[i].H(); ++sy) for (int sx = 0; sx < t[i].W(); ++sx) { double px = t[i].x + sx / f, py = t[i].y + sy / f, pe = 1 / f; if (px + 2 * pe >= x0 && px <= x1 + pe && py + 2 * pe >= y0 && py <= y1 + pe) { uint8_t c[8]; convPixel(t[i].pt, pt, t[i].px + ((size_t)sy * t[i].W() + sx) * bpp(t[i].pt), c); any |= eq(c, p, B); } } }
  return inside ? any : touches ? any | back : back;
}
static void scaled(IBitmapData* b, Tile* t, int n, const bool* use, const IntRect& roi, float z) {
  PixelType pt = b->GetPixelType(); int B = bpp(pt); ScopedBitmapLockerP l{b}; bool ok = true; for (int y = 0; y < (int)b->GetHeight(); ++y) for (int x = 0; x < (int)b->GetWidth(); ++x) { const uint8_t* p = (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride + x * B; bool back = true; for (int i = 0; i < B; ++i) back &= p[i] == 255; ok &= good(t, n, use, roi, z, x, y, p, pt, back); }
  sym_assert(ok, "every pixel shows the place it stands for, taken from a tile of the right layer");
}
// @job time=300 shards=12
HARNESS(c15_scaled) {
  int k = sym_pick(24, "case"); Tile t[3]; int n = layout(t, k % 4); auto r = writeDoc(t, n); IntRect roi = kR[k / 4]; float z = kZ[sym_pick(7, "zoom")]; CDimCoordinate pc{{DimensionIndex::C, 0}}; SO o; o.Clear(); o.backGroundColor = {1, 1, 1}; o.useVisibilityCheckOptimization = sym_pick(2, "vis"); auto set = std::make_shared<Set>(); set->bits = 3; if (k % 4 == 2) { int f = sym_pick(5, "filter"); if (f < 4) { set->bits = f; o.sceneFilter = set; } }
  auto s = r->CreateSingleChannelScalingTileAccessor(); IntSize e = s->CalcSize(roi, z); std::shared_ptr<IBitmapData> a; int ov = sym_pick(4, "overload"); PixelType pt = PixelType::Gray8; if (ov == 0) a = s->Get(roi, &pc, z, &o); else if (ov < 3) { pt = ov == 1 ? PixelType::Bgr24 : PixelType::Gray8; a = s->Get(pt, roi, &pc, z, &o); } else { a = CStdBitmapData::Create(pt, e.w, e.h); s->Get(a.get(), roi, &pc, z, &o); }
  sym_assert(a->GetWidth() == e.w && a->GetHeight() == e.h && a->GetPixelType() == pt, "the size is the one announced"); sym_assert(e.w == (uint32_t)(roi.w * z) && e.h == (uint32_t)(roi.h * z), "the size is that of the region times the zoom");
  // the tiles which are expected to be used: those of the lowest resolution which is not below the one requested
  bool use[3]; float best = 100; auto hit = [&](int i) { return t[i].x < roi.x + roi.w && t[i].x + t[i].w > roi.x && t[i].y < roi.y + roi.h && t[i].y + t[i].h > roi.y; }; for (int i = 0; i < n; ++i) { float f = (float)t[i].W() / t[i].w; if (hit(i) && f >= z / 1.05f && f < best) best = f; } for (int i = 0; i < n; ++i) use[i] = (float)t[i].W() / t[i].w == best && (t[i].s == kNo || set->IsContained(t[i].s));
  scaled(a.get(), t, n, use, roi, z); sym_reach("composed");
}
// a bitmap of another size is refused
// @job time=60
HARNESS(c15_wrong_size) { Tile t[3]; layout(t, 0); auto r = writeDoc(t, 1); CDimCoordinate pc{{DimensionIndex::C, 0}}; SO o; o.Clear(); float z = kZ[sym_pick(7, "zoom")]; IntRect roi = kR[sym_pick(3, "roi")]; auto s = r->CreateSingleChannelScalingTileAccessor(); IntSize e = s->CalcSize(roi, z); int dw = sym_pick(3, "dw") - 1, dh = sym_pick(3, "dh") - 1; if ((int)e.w + dw < 1 || (int)e.h + dh < 1) return; auto b = CStdBitmapData::Create(PixelType::Gray8, e.w + dw, e.h + dh); bool ok = false; try { s->Get(b.get(), roi, &pc, z, &o); ok = true; } catch (const std::invalid_argument&) {} sym_assert(ok == (dw == 0 && dh == 0), "only a bitmap of the announced size is accepted"); sym_reach("done"); }
// unusual regions and zooms end with a bitmap of the announced size or an error
// @job time=100
HARNESS(c15_unusual) { static const float Z[9] = {0, -1, -0.5f, 2, 1e-9f, 1e30f, NAN, INFINITY, 1e-40f}; static const IntRect R[7] = {{0, 0, 4, 4}, {0, 0, 0, 0}, {0, 0, 0, 4}, {0, 0, 4, 0}, {0, 0, -4, 4}, {0, 0, INT32_MAX, 1}, {-2, 1, 3, 1}}; int k = sym_pick(4, "layout"); Tile t[3]; int n = layout(t, k); auto r = writeDoc(t, n); float z = Z[sym_pick(9, "zoom")]; IntRect roi = R[sym_pick(7, "roi")]; if (roi.w == INT32_MAX && z >= 1e-3f) return; CDimCoordinate pc{{DimensionIndex::C, 0}}; SO o; o.Clear(); o.backGroundColor = {1, 1, 1}; o.useVisibilityCheckOptimization = sym_pick(2, "vis"); auto s = r->CreateSingleChannelScalingTileAccessor(); try { auto b = s->Get(roi, &pc, z, &o); IntSize e = s->CalcSize(roi, z); sym_assert(b->GetWidth() == e.w && b->GetHeight() == e.h, "the size is the one announced"); sym_reach("bitmap"); } catch (const std::exception&) { sym_reach("error"); } }
// tiles of another size than announced in the directory (no pixels at all, in one direction)
// @job time=100
HARNESS(c15_degenerate) { Tile t[2]; static const int S[5][4] = {{4, 4, 0, 0}, {4, 4, 4, 0}, {4, 4, 0, 4}, {0, 4, 4, 4}, {4, 0, 1, 1}}; const int* q = S[sym_pick(5, "shape")]; t[0].w = q[0]; t[0].h = q[1]; t[0].pw = q[2]; t[0].ph = q[3]; t[1].x = 1; t[1].w = t[1].h = 4; t[0].m = 1; t[1].m = sym_pick(2, "m") * 2; std::shared_ptr<ICZIReader> r; for (auto& x : t) x.pixels(); try { r = writeDoc(t, 2); } catch (const std::exception&) { sym_reach("error"); return; } CDimCoordinate pc{{DimensionIndex::C, 0}}; SO o; o.Clear(); PO p; p.Clear(); o.backGroundColor = p.backGroundColor = {1, 1, 1}; o.useVisibilityCheckOptimization = sym_pick(2, "vis"); try { if (sym_pick(2, "accessor")) { r->CreateSingleChannelScalingTileAccessor()->Get(kR[sym_pick(3, "roi")], &pc, kZ[sym_pick(7, "zoom")], &o); } else { ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi{2, (uint8_t)sym_pick(3, "layer")}; r->CreateSingleChannelPyramidLayerTileAccessor()->Get(kR[sym_pick(3, "roi")], &pc, pi, &p); } sym_reach("bitmap"); } catch (const std::exception&) { sym_reach("error"); } }
// the pyramid-layer accessor
static void layers(int f, int layer) {
  // layer 0: two tiles, layer 1: one tile, layer 2: one tile; the latter are only there if 'have' says so
  int k = sym_pick(16, "case"); int have = k % 4, ri = k / 4; static const IntRect R[4] = {{0, 0, 0, 0}, {-1, -1, 1, 1}, {1, 0, 0, 0}, {20, 20, 0, 0}}; Tile t[4]; int S = f * f; t[0].w = t[0].h = 2; t[0].m = 1; t[1].x = 1; t[1].y = 1; t[1].m = 2; t[2].w = t[2].h = 2 * f; t[2].pw = t[2].ph = 2; t[2].py = SubBlockPyramidType::SingleSubBlock; t[3].w = t[3].h = 2 * S; t[3].pw = t[3].ph = 2; t[3].py = SubBlockPyramidType::MultiSubBlock; Tile d[4]; int n = 2; for (auto& x : t) x.pixels(); d[0] = t[0]; d[1] = t[1]; if (have & 1) d[n++] = t[2]; if (have & 2) d[n++] = t[3]; auto r = writeDoc(d, n); int z = 1; for (int i = 0; i < layer; ++i) z *= f; IntRect roi{R[ri].x * z, R[ri].y * z, 3 * z, 3 * z}; bool vis = sym_pick(2, "sorted"); (void)vis; PO o; o.Clear(); o.backGroundColor = {1, 1, 1}; o.sortByM = true; CDimCoordinate pc{{DimensionIndex::C, 0}}; ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi{(uint8_t)(layer == 0 && vis ? 0 : f), (uint8_t)layer}; auto acc = r->CreateSingleChannelPyramidLayerTileAccessor(); int ov = sym_pick(3, "overload"); std::shared_ptr<IBitmapData> b; PixelType pt = ov == 1 ? PixelType::Bgr24 : PixelType::Gray8; if (ov == 0) b = acc->Get(roi, &pc, pi, &o); else if (ov == 1) b = acc->Get(pt, roi, &pc, pi, &o); else { b = CStdBitmapData::Create(pt, 3, 3); acc->Get(b.get(), roi.x, roi.y, &pc, pi, &o); }
  sym_assert(b->GetWidth() == 3 && b->GetHeight() == 3, "the size is that of the region on this layer"); ScopedBitmapLockerSP l{b}; int B = bpp(pt); bool ok = true; for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) { int X = R[ri].x + x, Y = R[ri].y + y; const Tile* top = nullptr; for (int i = 0; i < n; ++i) { int tl = d[i].W() * z == d[i].w ? layer : -1; if (tl != layer) continue; int tx = d[i].x / z, ty = d[i].y / z; if (X >= tx && X < tx + d[i].W() && Y >= ty && Y < ty + d[i].H()) top = &d[i]; } const uint8_t* p = (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride + x * B; if (top) { uint8_t c[8]; convPixel(top->pt, pt, top->px + ((size_t)(Y - top->y / z) * top->W() + (X - top->x / z)), c); ok &= eq(c, p, B); } else for (int i = 0; i < B; ++i) ok &= p[i] == 255; } sym_assert(ok, "exactly the tiles of the requested layer are painted, at their place"); sym_reach("composed");
}
// @job time=100
HARNESS(c15_layer0) { layers(2 + sym_pick(2, "factor"), 0); }
// @job time=100
HARNESS(c15_layer1) { layers(2 + sym_pick(2, "factor"), 1); }
// @job time=100
HARNESS(c15_layer2) { layers(2 + sym_pick(2, "factor"), 2); }
// any pair of numbers
// @job time=200 shards=4
HARNESS(c15_any_layer) { int k = sym_pick(4, "case"); Tile t[3]; layout(t, 3); if (k & 1) { t[2].w = t[2].h = 1 << 30; t[2].x = t[2].y = -4; } auto r = writeDoc(t, 3); CDimCoordinate pc{{DimensionIndex::C, 0}}; PO o; o.Clear(); o.backGroundColor = {1, 1, 1}; static const int FF[5] = {0, 1, 2, 16, 255}; ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi{k & 2 ? (uint8_t)FF[sym_pick(5, "factor")] : (uint8_t)sym_pick(256, "factor"), k & 2 ? (uint8_t)sym_pick(256, "layer") : (uint8_t)FF[sym_pick(5, "layer")]}; auto acc = r->CreateSingleChannelPyramidLayerTileAccessor(); auto b = CStdBitmapData::Create(PixelType::Gray8, 2, 2); try { acc->Get(b.get(), 0, 0, &pc, pi, &o); sym_reach("bitmap"); } catch (const std::exception&) { sym_assert(pi.pyramidLayerNo > 0, "layer 0 is there"); sym_reach("error"); } }
// the place of a tile on its layer, for tiles and regions which are not aligned to the pixels of the layer
// @job time=200 shards=4
HARNESS(c15_layer_place) {
  int k = sym_pick(4, "case"); bool ver = k & 1; int f = 2 + (k >> 1), p = sym_pick(9, "tile") - 4, q = sym_pick(15, "region") - 7; Tile t[1]; t[0].w = t[0].h = 2 * f; t[0].pw = t[0].ph = 2; t[0].py = SubBlockPyramidType::SingleSubBlock; (ver ? t[0].y : t[0].x) = p; t[0].pixels(); auto r = writeDoc(t, 1); PO o; o.Clear(); o.backGroundColor = {1, 1, 1}; CDimCoordinate pc{{DimensionIndex::C, 0}}; ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi{(uint8_t)f, 1}; int W = ver ? 2 : 5, H = ver ? 5 : 2; auto b = r->CreateSingleChannelPyramidLayerTileAccessor()->Get(PixelType::Gray8, IntRect{ver ? 0 : q, ver ? q : 0, W * f, H * f}, &pc, pi, &o);
  sym_assert(b->GetWidth() == (unsigned)W && b->GetHeight() == (unsigned)H, "the size is that of the region on this layer"); ScopedBitmapLockerSP l{b}; int d = p - q, lo = d >= 0 ? d / f : -((-d + f - 1) / f), hi = lo + (d % f != 0); bool any = false; for (int at = lo; at <= hi; ++at) { bool ok = true; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { int sx = x - (ver ? 0 : at), sy = y - (ver ? at : 0); uint8_t v = *((const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride + x); ok &= sx >= 0 && sx < 2 && sy >= 0 && sy < 2 ? v == t[0].px[sy * 2 + sx] : v == 255; } any |= ok; }
  bool out = d > 0 ? lo >= 5 : hi <= -2; if (!out) sym_assert(any, "the tile is painted at its place, rounded to a pixel of the layer"); sym_reach("composed");
}
