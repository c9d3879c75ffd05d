// C11: queries return exactly the matching sub-blocks and attachments
// @bounds documents of 2 or 3 sub-blocks at 4 arrangements of positions (overlapping, touching, far apart, at -2^29 and 2^29), coordinates over C, T and B (present or absent, arbitrary values), one of them optionally a pyramid sub-block; all regions with coordinates below 2^29 and all query coordinates over these dimensions (present or absent), or none; callbacks stopping at any point; reader and reader-writer; documents of 3 attachments with names of 0..3 and types of 0..8 arbitrary characters and queries with such names and types; all int values as index
#include "doc.h"
typedef MemStreamT<24576> St; static St ms; static std::shared_ptr<St> gSt;
static const DimensionIndex kD[3] = {DimensionIndex::C, DimensionIndex::T, DimensionIndex::B};
struct Sb { int x, y, w, h; bool l0; bool has[3]; int v[3]; };
static void symCoord(bool* has, int* v, int mask) { for (int d = 0; d < 3; ++d) { has[d] = mask >> d & 1; v[d] = has[d] ? sym_i32("coordinate") : 0; } }
static void toDim(CDimCoordinate& c, const bool* has, const int* v) { for (int d = 0; d < 3; ++d) if (has[d]) c.Set(kD[d], v[d]); }
static void add(ICziWriter& w, Sb& b) { AddSubBlockInfoMemPtr a; a.Clear(); toDim(a.coordinate, b.has, b.v); a.mIndexValid = false; a.x = b.x; a.y = b.y; a.logicalWidth = b.w; a.logicalHeight = b.h; a.physicalWidth = b.l0 ? b.w : 1; a.physicalHeight = b.l0 ? b.h : 1; a.PixelType = PixelType::Gray8; a.SetCompressionMode(CompressionMode::UnCompressed); static uint8_t px[64]; a.ptrData = px; a.dataSize = a.physicalWidth * a.physicalHeight; w.SyncAddSubBlock(a); }
static bool match(const Sb& b, const bool* has, const int* v) { bool m = true; for (int d = 0; d < 3; ++d) if (has[d]) m &= b.has[d] & (b.v[d] == v[d]); return m; }
static void mkDoc(Sb* b, int n, const int* masks, int pyr, int place = -1) { ms.size = 0; ms.counting = false; gSt = ref<St>(&ms); CZIWriterOptions wo; wo.allow_duplicate_subblocks = true; auto w = CreateCZIWriter(&wo); w->Create(gSt, std::make_shared<CCziWriterInfo>()); for (int i = 0; i < n; ++i) { b[i].w = 2 + i; b[i].h = 3 - i; b[i].l0 = !(pyr >> i & 1); static const int X[4][6] = {{0, 0, 2, 1, 5, -3}, {-7, 4, -9, 2, 1000, 5}, {-(1 << 29), 1 << 29, 1 << 29, -(1 << 29), 0, 0}, {1, 1, 1, 1, 2, 2}}; if (place >= 0) { b[i].x = X[place][2 * i]; b[i].y = X[place][2 * i + 1]; } else { b[i].x = sym_range(-3, 3, "x"); b[i].y = sym_range(-3, 3, "y"); } symCoord(b[i].has, b[i].v, masks[i]); add(*w, b[i]); } w->Close(); }
struct Rd { std::shared_ptr<ICZIReader> r; std::shared_ptr<ICziReaderWriter> rw; ISubBlockRepository* s; IAttachmentRepository* a; Rd(bool useRw) { if (useRw) { rw = CreateCZIReaderWriter(); rw->Create(gSt); s = rw.get(); a = rw.get(); } else { r = CreateCZIReader(); r->Open(gSt); s = r.get(); a = r.get(); } } };
static void query(Sb* b, int n, ISubBlockRepository& r, int qmask, int useRoi, bool only0) {
  bool qh[3]; int qv[3]; symCoord(qh, qv, qmask < 0 ? 0 : qmask); CDimCoordinate pc; toDim(pc, qh, qv); IntRect roi{0, 0, 0, 0}; if (useRoi) { roi.x = sym_i32("roi.x"); roi.y = sym_i32("roi.y"); roi.w = sym_i32("roi.w"); roi.h = sym_i32("roi.h"); sym_assume((roi.x > -(1 << 29)) & (roi.x < 1 << 29) & (roi.y > -(1 << 29)) & (roi.y < 1 << 29) & (roi.w > -(1 << 29)) & (roi.w < 1 << 29) & (roi.h > -(1 << 29)) & (roi.h < 1 << 29)); }
  // the sub-block with index i is the one with these sizes
  auto which = [&](const SubBlockInfo& i) { for (int k = 0; k < n; ++k) if (i.logicalRect.w == b[k].w && i.logicalRect.h == b[k].h) return k; return -1; };
  int cnt[4] = {0, 0, 0, 0}; bool bad = false; r.EnumSubset(qmask < 0 ? nullptr : &pc, useRoi ? &roi : nullptr, only0, [&](int idx, const SubBlockInfo& i) { int k = which(i); if (k < 0) bad = true; else { ++cnt[k]; SubBlockInfo i2; if (!r.TryGetSubBlockInfo(idx, &i2) || which(i2) != k) bad = true; } return true; });
  sym_assert(!bad, "only sub-blocks of the document are delivered, with their index"); bool ok = true; for (int k = 0; k < n; ++k) { bool m = match(b[k], qh, qv) & (!only0 | b[k].l0); if (useRoi) m &= (roi.w > 0) & (roi.h > 0) & (b[k].x < roi.x + roi.w) & (roi.x < b[k].x + b[k].w) & (b[k].y < roi.y + roi.h) & (roi.y < b[k].y + b[k].h); ok &= cnt[k] == (m ? 1 : 0); } sym_assert(ok, "exactly the matching sub-blocks are delivered, each once"); sym_reach("queried");
}
// coordinates (no region)
// @job time=300 shards=16
HARNESS(c11_coordinate) { int k = sym_pick(32, "case"); static const int M[4][2] = {{7, 7}, {1, 3}, {0, 1}, {5, 4}}; Sb b[2]; mkDoc(b, 2, M[k & 3], 0, 0); Rd r(k >> 2 & 1); query(b, 2, *r.s, (k >> 3) == 0 ? -1 : (k >> 3) == 1 ? 1 : (k >> 3) == 2 ? 5 : 7, 0, false); }
// regions
// @job time=300 shards=8
HARNESS(c11_region) { int k = sym_pick(8, "case"); static const int M[3] = {1, 1, 1}; Sb b[3]; mkDoc(b, 3, M, k & 3, sym_pick(4, "place")); Rd r(k >> 2 & 1); query(b, 3, *r.s, k & 1 ? -1 : 1, 1, sym_pick(2, "layer 0 only")); }
// layer 0 only, three sub-blocks, and stopping
// @job time=300 shards=16
HARNESS(c11_stop) {
  int k = sym_pick(16, "case"); static const int M[3] = {1, 1, 1}; Sb b[3]; mkDoc(b, 3, M, k & 7, 1); Rd r(k >> 3); bool only0 = sym_pick(2, "layer 0 only"); int stop = sym_pick(4, "stop after"); CDimCoordinate pc; int c = sym_i32("c"); pc.Set(DimensionIndex::C, c); int n = 0, all = 0; for (int i = 0; i < 3; ++i) all += (b[i].v[0] == c) & (!only0 | b[i].l0); r.s->EnumSubset(&pc, nullptr, only0, [&](int, const SubBlockInfo& i) { int cc = 0; sym_assert(i.coordinate.TryGetPosition(DimensionIndex::C, &cc) && cc == c, "the coordinate agrees"); ++n; return n <= stop; }); sym_assert(n == (all < stop + 1 ? all : stop + 1), "the enumeration stops when asked to"); int m = 0; r.s->EnumerateSubBlocks([&](int, const SubBlockInfo&) { ++m; return m <= stop; }); sym_assert(m == (stop < 2 ? stop + 1 : 3), "enumerating all sub-blocks delivers each one and stops when asked to"); sym_reach("queried"); }
// an arbitrary sub-block of a channel
// @job time=200 shards=8
HARNESS(c11_channel) { int k = sym_pick(8, "case"); static const int M[4][3] = {{1, 1, 1}, {1, 0, 3}, {0, 0, 0}, {2, 1, 0}}; Sb b[3]; mkDoc(b, 3, M[k & 3], 0, 0); Rd r(k >> 2); int c = sym_i32("c"); SubBlockInfo i; bool ok = r.s->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, i), any = false, none = true; for (auto& x : b) { any |= x.has[0] & (x.v[0] == c); none &= !x.has[0]; } sym_assert(ok == (any | none), "a sub-block is found if the channel exists, or if there are no channels"); if (ok && !none) { int cc = 0; sym_assert(i.coordinate.TryGetPosition(DimensionIndex::C, &cc) && cc == c, "it is one of this channel"); } PixelType pt = Utils::TryDeterminePixelTypeForChannel(r.s, c); sym_assert((pt == PixelType::Gray8) == (any | none) && (pt == PixelType::Gray8 || pt == PixelType::Invalid), "the pixel type of the channel"); sym_reach("queried"); }
// any index
// @job time=100 shards=4
HARNESS(c11_index) {
  int k = sym_pick(4, "case"); ms.size = 0; gSt = ref<St>(&ms); auto w = CreateCZIWriter(); w->Create(gSt, std::make_shared<CCziWriterInfo>()); uint8_t d[3] = {1, 2, 3}; for (int i = 0; i < 2; ++i) { AddAttachmentInfo a; memset(&a, 0, sizeof(a)); a.contentGuid.Data1 = i + 1; a.SetContentFileType("T"); a.SetName(i ? "b" : "a"); a.ptrData = d; a.dataSize = 3; w->SyncAddAttachment(a); Sb b; b.x = i; b.y = 0; b.w = b.h = 2; b.l0 = true; b.has[0] = true; b.v[0] = i; b.has[1] = b.has[2] = false; add(*w, b); } w->Close(); Rd r(k & 1); int idx = sym_i32("index"); bool in = (idx == 0) | (idx == 1); static volatile int V[2] = {0, 1}; if (idx == 0) idx = V[0]; else if (idx == 1) idx = V[1];
  if (k & 2) { AttachmentInfo i; bool ok = r.a->TryGetAttachmentInfo(idx, &i); sym_assert(ok == in, "exactly the valid indices of attachments are accepted"); if (ok) sym_assert((int)i.contentGuid.Data1 == idx + 1, "the attachment is the one with this index"); auto a = r.a->ReadAttachment(idx); sym_assert((a != nullptr) == in, "exactly the valid indices of attachments can be read"); }
  else { SubBlockInfo i; bool ok = r.s->TryGetSubBlockInfo(idx, &i); sym_assert(ok == in, "exactly the valid indices of sub-blocks are accepted"); if (ok) sym_assert(i.logicalRect.x == idx, "the sub-block is the one with this index"); auto s = r.s->ReadSubBlock(idx); sym_assert((s != nullptr) == in, "exactly the valid indices of sub-blocks can be read"); } sym_reach("queried"); }
// attachments by type and name
static int txt(char* p, int n, const char* nm) { for (int i = 0; i < n; ++i) { p[i] = (char)sym_u8(nm); sym_assume(p[i] != 0); } p[n] = 0; return n; }
static bool same(const char* a, int n, const char* b, int m) { return n == m && eq((const uint8_t*)a, (const uint8_t*)b, n); }
// @job time=300 shards=16
HARNESS(c11_attachments) {
  int k = sym_pick(64, "case"); static const int NL[4] = {0, 1, 2, 3}, TL[4] = {1, 3, 8, 7}; ms.size = 0; gSt = ref<St>(&ms); auto w = CreateCZIWriter(); w->Create(gSt, std::make_shared<CCziWriterInfo>()); struct { char name[8], type[16]; int n, t; } a[3]; uint8_t d[3] = {1, 2, 3};
  for (int i = 0; i < 3; ++i) { a[i].n = txt(a[i].name, i == 2 ? 2 : NL[k & 3], "name"); a[i].t = txt(a[i].type, i == 2 ? 8 : TL[k >> 2 & 3], "type"); AddAttachmentInfo f; memset(&f, 0, sizeof(f)); f.contentGuid.Data1 = i + 1; memcpy(f.contentFileType, a[i].type, a[i].t); memcpy(f.name, a[i].name, a[i].n); f.ptrData = d; f.dataSize = 3; w->SyncAddAttachment(f); } w->Close(); Rd r(k >> 4 & 1);
  char qn[8], qt[16]; int useN = sym_pick(4, "by name"), useT = sym_pick(4, "by type"); if (useN == 3 && useT == 3) return; int n = txt(qn, useN == 2 ? 2 : NL[k & 3], "query name"), t = txt(qt, useT == 2 ? 9 : useT == 1 ? 8 : TL[k >> 2 & 3], "query type"); int cnt[4] = {0, 0, 0, 0}; int stop = k >> 5 ? 1 : 9, got = 0; r.a->EnumerateSubset(useT == 3 ? nullptr : qt, useN == 3 ? nullptr : qn, [&](int idx, const AttachmentInfo& i) { int q = (int)i.contentGuid.Data1 - 1; if (q < 0 || q > 2) q = 3; ++cnt[q]; AttachmentInfo i2; sym_assert(r.a->TryGetAttachmentInfo(idx, &i2) && (int)i2.contentGuid.Data1 == q + 1, "the index is that of the attachment"); return ++got < stop; });
  bool ok = cnt[3] == 0; int m = 0; bool e[3]; for (int i = 0; i < 3; ++i) { e[i] = (useT == 3 || same(qt, t, a[i].type, a[i].t)) && (useN == 3 || same(qn, n, a[i].name, a[i].n)); ok &= stop == 9 ? cnt[i] == e[i] : cnt[i] <= e[i]; m += e[i]; } if (stop == 1) ok &= got == (m < 1 ? m : 1); sym_assert(ok, "exactly the attachments with this type and name are delivered"); sym_reach("queried");
}
