// C14: frame-of-reference transformations are consistent and invertible
// @bounds documents of 1..3 sub-blocks (one of them possibly of a pyramid layer or of another channel) at all positions within +-2^27, sizes 2..4; all points within +-2^28, all rectangles with sizes within 2^27; all four frames (and undefined values of the enumeration) as source, destination and default; reader and reader-writer (there also after adding, moving and removing sub-blocks); accessors: all overloads of the three single-channel tile accessors, 9 placements of the region, all pixel values
// @assume the document has a sub-block on pyramid layer 0 (the origin of the pixel coordinate system is not defined otherwise), no integer overflow in the coordinates
#include "doc.h"
#include "Site.h"
typedef CZIFrameOfReference F;
static const F kF[6] = {F::Invalid, F::Default, F::RawSubBlockCoordinateSystem, F::PixelCoordinateSystem, (F)4, (F)255};
static F norm(F f, F def) { if (f != F::Default) return f; return def == F::PixelCoordinateSystem ? def : F::RawSubBlockCoordinateSystem; }
static bool known(F f) { return f == F::RawSubBlockCoordinateSystem || f == F::PixelCoordinateSystem; }
// the origin of the pixel coordinate system is (ox,oy)
static void transforms(ISubBlockRepository& r, F def, int ox, int oy, int nf = 6) {
  int k = sym_pick(nf * nf, "frames"); F src = kF[k % nf], dst = kF[k / nf]; F s = norm(src, def), d = norm(dst, def); int x = sym_range(-(1 << 28), 1 << 28, "x"), y = sym_range(-(1 << 28), 1 << 28, "y"); IntPointAndFrameOfReference p{src, {x, y}}, q; bool ok = false;
  try { q = r.TransformPoint(p, dst); ok = true; } catch (const std::exception&) {} sym_assert(ok == (known(s) && known(d)), "exactly the transformations between the two systems are possible"); if (!ok) { sym_reach("refused"); return; }
  int dx = s == d ? 0 : s == F::PixelCoordinateSystem ? ox : -ox, dy = s == d ? 0 : s == F::PixelCoordinateSystem ? oy : -oy;
  sym_assert(q.frame_of_reference == d, "the result is in the requested system"); sym_assert((q.point.x == x + dx) & (q.point.y == y + dy), "the systems differ by the origin of the layer-0 bounding box");
  auto b = r.TransformPoint(q, src); sym_assert(b.frame_of_reference == s && (b.point.x == x) & (b.point.y == y), "and back"); int w = sym_range(0, 1 << 27, "w"), h_ = sym_range(0, 1 << 27, "h");
  auto rc = r.TransformRectangle(IntRectAndFrameOfReference{src, IntRect{x, y, w, h_}}, dst); sym_assert(rc.frame_of_reference == d, "the rectangle is in the requested system"); sym_assert((rc.rectangle.x == x + dx) & (rc.rectangle.y == y + dy) & (rc.rectangle.w == w) & (rc.rectangle.h == h_), "a rectangle is moved, its size is kept"); sym_reach("transformed");
}
static void origin(Tile* t, int n, int& ox, int& oy) { bool f = true; for (int i = 0; i < n; ++i) if (t[i].py == SubBlockPyramidType::None) { if (f || t[i].x < ox) ox = t[i].x; if (f || t[i].y < oy) oy = t[i].y; f = false; } }
static int place(Tile* t, int k) { int n = 1 + k % 3; for (int i = 0; i < n; ++i) { t[i].x = sym_range(-(1 << 27), 1 << 27, "tx"); t[i].y = sym_range(-(1 << 27), 1 << 27, "ty"); t[i].m = i; t[i].npx = 4; memset(t[i].px, 0, 4); } if (n > 1 && k / 3 == 1) t[1].c = 1; if (n > 1 && k / 3 == 2) { t[1].w = t[1].h = 4; t[1].pw = t[1].ph = 2; t[1].py = SubBlockPyramidType::SingleSubBlock; } return n; }
// @job time=200 shards=9
HARNESS(c14_reader) {
  int k = sym_pick(9, "document"); Tile t[3]; int n = place(t, k); if (k / 3 == 2 && n > 1) { t[1].x &= ~1; } F def = kF[sym_pick(4, "default")]; ICZIReader::OpenOptions oo; oo.default_frame_of_reference = def; bool plain = def == F::Invalid && sym_pick(2, "no options"); auto r = writeDoc(t, n, true, plain ? nullptr : &oo); int ox, oy; origin(t, n, ox, oy); auto st = r->GetStatistics(); sym_assert((st.boundingBoxLayer0Only.x == ox) & (st.boundingBoxLayer0Only.y == oy), "the bounding box starts at the smallest coordinates of the layer-0 sub-blocks"); transforms(*r, def, ox, oy);
}
struct Info : public CCziReaderWriterInfo { F def; F GetDefaultFrameOfReference() const override { return def; } };
static void editing(int nmax) {
  int k = sym_pick(9, "document"); if (k % 3 >= nmax) return; Tile t[4]; int n = place(t, k); F def = kF[sym_pick(4, "default")];
  static DocStream s; s.size = 0; s.counting = false; auto sp = ref<DocStream>(&s); auto w = CreateCZIWriter(); w->Create(sp, std::make_shared<CCziWriterInfo>()); for (int i = 0; i < n; ++i) { AddSubBlockInfoMemPtr a; fillAdd(a, t[i]); w->SyncAddSubBlock(a); } w->Close();
  auto info = std::make_shared<Info>(); info->def = def; auto rw = CreateCZIReaderWriter(); if (def == F::Invalid && sym_pick(2, "no info")) info = nullptr; rw->Create(sp, info); int op = sym_pick(4, "edit"); AddSubBlockInfoMemPtr a;
  if (op == 1) { t[n].x = sym_range(-(1 << 27), 1 << 27, "tx"); t[n].y = sym_range(-(1 << 27), 1 << 27, "ty"); t[n].m = n; t[n].npx = 4; fillAdd(a, t[n]); rw->SyncAddSubBlock(a); ++n; }
  else if (op == 2) { t[0].x = sym_range(-(1 << 27), 1 << 27, "tx"); t[0].y = sym_range(-(1 << 27), 1 << 27, "ty"); fillAdd(a, t[0]); rw->ReplaceSubBlock(0, a); }
  else if (op == 3) { if (n < 2 || (k / 3 == 2 && n == 2)) return; rw->RemoveSubBlock(0); for (int i = 1; i < n; ++i) t[i - 1] = t[i]; --n; }
  int ox, oy; origin(t, n, ox, oy); transforms(*rw, def, ox, oy, 4);
}
// @job time=200 shards=9
HARNESS(c14_rw) { editing(2); }
// @job thorough time=1500 shards=9
HARNESS(c14_rw_three) { editing(3); }
// before a document is opened
// @job time=60
HARNESS(c14_closed) { int k = sym_pick(2, "kind"); auto r = CreateCZIReader(); auto rw = CreateCZIReaderWriter(); ISubBlockRepository& s = k ? (ISubBlockRepository&)*rw : (ISubBlockRepository&)*r; F a = kF[sym_pick(6, "src")], b = kF[sym_pick(6, "dst")]; IntPointAndFrameOfReference p{a, {1, 2}}; bool ok = false; try { auto q = s.TransformPoint(p, b); ok = true; } catch (const std::exception&) {} if (ok) sym_assert(a == b || a == F::Default || b == F::Default, "no transformation without a document"); sym_reach("done"); }
static bool same(IBitmapData* a, IBitmapData* b) { if (a->GetWidth() != b->GetWidth() || a->GetHeight() != b->GetHeight() || a->GetPixelType() != b->GetPixelType()) return false; ScopedBitmapLockerP x{a}, y{b}; bool ok = true; for (unsigned r = 0; r < a->GetHeight(); ++r) ok &= eq((const uint8_t*)x.ptrDataRoi + (size_t)r * x.stride, (const uint8_t*)y.ptrDataRoi + (size_t)r * y.stride, a->GetWidth() * bpp(a->GetPixelType())); return ok; }
// regions given in either system give the same result, and the default decides about the others
// @job time=200 shards=9
HARNESS(c14_accessors) {
  static const int O[3] = {-3, 0, 1000}; int k = sym_pick(9, "position"); Tile t[3]; int ox = O[k % 3], oy = O[k / 3]; t[0].x = ox; t[0].y = oy + 1; t[1].x = ox + 1; t[1].y = oy; t[1].m = 2; t[0].m = 1; t[2].x = ox - 2; t[2].y = oy - 2; t[2].w = t[2].h = 8; t[2].pw = t[2].ph = 4; t[2].py = SubBlockPyramidType::SingleSubBlock; for (auto& x : t) x.pixels();
  F def = kF[sym_pick(4, "default")]; ICZIReader::OpenOptions oo; oo.default_frame_of_reference = def; auto r = writeDoc(t, 3, false, &oo); CDimCoordinate pc{{DimensionIndex::C, 0}}; F f = sym_pick(2, "system") ? F::Default : F::PixelCoordinateSystem; bool pixel = norm(f, def) == F::PixelCoordinateSystem; static const IntRect R[3] = {{0, 0, 4, 4}, {-1, -2, 6, 6}, {1, 1, 2, 4}}; IntRect roi = R[sym_pick(3, "region")], raw = roi; raw.x += ox; raw.y += oy; IntRect given = pixel ? roi : raw; IntRectAndFrameOfReference A{f, given}, B{F::RawSubBlockCoordinateSystem, raw}; IntPointAndFrameOfReference PA{f, {given.x, given.y}}, PB{F::RawSubBlockCoordinateSystem, {raw.x, raw.y}}; RgbFloatColor bg{0, 0, 0};
  std::shared_ptr<IBitmapData> a, b; auto mk = [&](int w, int h_) { return GetSite()->CreateBitmap(PixelType::Gray8, w, h_); };
  switch (int v = sym_pick(12, "call")) {
  case 0: case 1: case 2: case 3: { auto acc = r->CreateSingleChannelTileAccessor(); ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = bg; if (v == 0) { a = acc->Get(A, &pc, &o); b = acc->Get(B, &pc, &o); } else if (v == 1) { a = acc->Get(PixelType::Gray16, A, &pc, &o); b = acc->Get(PixelType::Gray16, B, &pc, &o); } else if (v == 2) { a = mk(roi.w, roi.h); b = mk(roi.w, roi.h); acc->Get(a.get(), PA, &pc, &o); acc->Get(b.get(), PB, &pc, &o); } else { a = acc->Get(raw, &pc, &o); b = acc->Get(B, &pc, &o); if (f != F::Default) return; } break; }
  case 4: case 5: case 6: case 7: { auto acc = r->CreateSingleChannelScalingTileAccessor(); ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor = bg; float z = sym_pick(2, "zoom") ? 0.5f : 1; if (v == 4) { a = acc->Get(A, &pc, z, &o); b = acc->Get(B, &pc, z, &o); } else if (v == 5) { a = acc->Get(PixelType::Gray16, A, &pc, z, &o); b = acc->Get(PixelType::Gray16, B, &pc, z, &o); } else if (v == 6) { int w = int(roi.w * z), h_ = int(roi.h * z); a = mk(w, h_); b = mk(w, h_); acc->Get(a.get(), A, &pc, z, &o); acc->Get(b.get(), B, &pc, z, &o); } else { if (f != F::Default) return; a = acc->Get(raw, &pc, z, &o); b = acc->Get(B, &pc, z, &o); } break; }
  default: { auto acc = r->CreateSingleChannelPyramidLayerTileAccessor(); ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.backGroundColor = bg; ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi{2, (uint8_t)sym_pick(2, "layer")}; int z = pi.pyramidLayerNo ? 2 : 1; if (v == 8) { a = acc->Get(A, &pc, pi, &o); b = acc->Get(B, &pc, pi, &o); } else if (v == 9) { a = acc->Get(PixelType::Gray16, A, &pc, pi, &o); b = acc->Get(PixelType::Gray16, B, &pc, pi, &o); } else if (v == 10) { a = mk(roi.w / z, roi.h / z); b = mk(roi.w / z, roi.h / z); acc->Get(a.get(), PA, &pc, pi, &o); acc->Get(b.get(), PB, &pc, pi, &o); } else { if (f != F::Default) return; a = acc->Get(raw, &pc, pi, &o); b = acc->Get(B, &pc, pi, &o); } } }
  sym_assert(same(a.get(), b.get()), "the same region in either system gives the same bitmap"); sym_reach("composed");
}
