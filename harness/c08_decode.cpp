// C08: directory entries are decoded faithfully and strictness options are honoured
// @bounds one directory entry; dimension entries in 12 arrangements (all 9 plane dimensions, X, Y, M, upper and lower case, several orders, missing ones); all 32-bit starts; sizes of all dimensions other than X and Y all 32-bit values; X/Y sizes: equal to the stored ones (all 32-bit values) or 4 unequal pairs; all pixel types, compressions, spare bytes, file positions
// @bounds precedence/discrepancy policy: header and directory with arbitrary values in every field, compared field by field
#include "pieces.h"
static MiniDoc doc;
static const char* const kArr[] = {"XYC", "xymczt", "CMYX", "ZRSIHVBTCXYM", "YX", "X", "Y", "C", "MXY", "MYXB", "XYS", ""};
struct D { char c; int32_t start, size, stored; };
static int fill(D* d, const char* a, int z) {
  int n = 0; for (; a[n]; ++n) { d[n].c = a[n]; d[n].start = sym_i32("start"); char u = a[n] & ~0x20; if (u == 'X' || u == 'Y') { static const int s[] = {0, 10, 20, 1, 7}, t[] = {0, 5, 7, 0, 9}; if (z == 0) d[n].size = d[n].stored = sym_i32("size"); else { d[n].size = s[z]; d[n].stored = t[z]; } } else { d[n].size = sym_i32("size"); d[n].stored = sym_i32("stored"); } doc.dim(d[n].c, d[n].start, d[n].size, d[n].stored); }
  return n;
}
static const D* find(const D* d, int n, char c) { for (int i = 0; i < n; ++i) if ((d[i].c & ~0x20) == c) return d + i; return nullptr; }
static const DimensionIndex kDimOf(char c) { static const char l[] = "ZCTRSIHVB"; for (int i = 0; i < 9; ++i) if (l[i] == c) return kDims[i]; return DimensionIndex::invalid; }
static void common(uint8_t* e, int& pt, int& comp, uint64_t& pos, uint8_t& spare) { pt = sym_i32("pixeltype"); sym_assume((pt >= 0) & (pt <= 14)); comp = sym_i32("compression"); pos = sym_u64("filepos"); spare = sym_u8("spare"); wr32(e + 2, pt); wr64(e + 6, pos); wr32(e + 18, comp); e[22] = spare; }
template <class I> static void check(const I& i, const D* d, int n, int pt, int comp, uint8_t spare) {
  for (const char* c = "ZCTRSIHVB"; *c; ++c) { int v = 0; bool h = i.coordinate.TryGetPosition(kDimOf(*c), &v); const D* q = find(d, n, *c); sym_assert(h == (q != nullptr), "exactly the stored dimensions are reported"); if (q && h) sym_assert(v == q->start, "coordinate value"); }
  const D *x = find(d, n, 'X'), *y = find(d, n, 'Y'), *m = find(d, n, 'M');
  if (x) sym_assert((i.logicalRect.x == x->start) & (i.logicalRect.w == x->size) & ((int)i.physicalSize.w == x->stored), "x, width, stored width"); if (y) sym_assert((i.logicalRect.y == y->start) & (i.logicalRect.h == y->size) & ((int)i.physicalSize.h == y->stored), "y, height, stored height");
  if (m) sym_assert(i.mIndex == m->start, "M-index"); else sym_assert(!i.IsMindexValid(), "no M-index"); sym_assert(i.compressionModeRaw == comp, "compression");
  bool known = (pt <= 4) | ((pt >= 8) & (pt <= 13)); sym_assert(known ? (int)i.pixelType == pt : i.pixelType == PixelType::Invalid, "pixel type"); sym_assert((int)(uint8_t)i.pyramidType == (spare <= 2 ? spare : 255), "pyramid type");
}
// @job time=200 shards=12
HARNESS(c08_strict) {
  PieceStream s; doc.init(); int a = sym_pick(12, "arrangement"), z = sym_pick(5, "sizes"), mode = sym_pick(4, "mode"); D d[16]; int n = fill(d, kArr[a], z), pt, comp; uint64_t pos; uint8_t spare; common(doc.body, pt, comp, pos, spare); doc.finish(s, false, false);
  bool strict = mode == 1 || mode == 2, ignoreM = mode == 2 || mode == 3; const D *x = find(d, n, 'X'), *y = find(d, n, 'Y'), *m = find(d, n, 'M'); bool good = true; bool layer0 = (!x || x->size == x->stored) && (!y || y->size == y->stored);
  if (strict) { good = x && y; for (int i = 0; i < n; ++i) { char u = d[i].c & ~0x20; if (u != 'X' && u != 'Y' && u != 'M') good = good & (d[i].size == 1) & (d[i].stored == 1); } if (m) good = good & ((m->size == 1) | (ignoreM & !layer0)); }
  auto r = CreateCZIReader(); ICZIReader::OpenOptions o; o.lax_subblock_coordinate_checks = !strict; o.ignore_sizem_for_pyramid_subblocks = ignoreM; bool ok = true; try { r->Open(ref<PieceStream>(&s), &o); } catch (const LibCZICZIParseException& e) { ok = false; sym_assert(e.GetErrorCode() == LibCZICZIParseException::ErrorCode::NonConformingSubBlockDimensionEntry, "the error says why"); }
  sym_assert(ok == good, "an entry is refused exactly if it violates an enabled check"); if (!ok) { sym_reach("refused"); return; }
  int cnt = 0; r->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { sym_assert(k == 0, "index"); ++cnt; check(i, d, n, pt, comp, spare); return true; }); sym_assert(cnt == 1, "one sub-block");
  r->EnumerateSubBlocksEx([&](int k, const DirectorySubBlockInfo& i) { ++cnt; check(i, d, n, pt, comp, spare); sym_assert(i.filePosition == pos, "file position"); return true; }); sym_assert(cnt == 2, "one sub-block"); SubBlockInfo i; sym_assert(r->TryGetSubBlockInfo(0, &i), "info"); check(i, d, n, pt, comp, spare); sym_assert(!r->TryGetSubBlockInfo(1, nullptr), "no further sub-block"); sym_reach("decoded");
}
// the reader-writer decodes the same way
// @job time=200 shards=4
HARNESS(c08_rw) {
  PieceStream s; doc.init(); int a = sym_pick(12, "arrangement"), z = sym_pick(2, "sizes"); D d[16]; int n = fill(d, kArr[a], z), pt, comp; uint64_t pos; uint8_t spare; common(doc.body, pt, comp, pos, spare); doc.finish(s, false, false);
  static uint8_t segh[32]; memset(segh, 0, 32); memcpy(segh, "ZISRAWSUBBLOCK\0\0", 16); auto r = CreateCZIReaderWriter(); r->Create(ref<PieceStream>(&s), nullptr); int cnt = 0; r->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { ++cnt; check(i, d, n, pt, comp, spare); SubBlockInfo j; sym_assert(r->TryGetSubBlockInfo(k, &j), "info"); check(j, d, n, pt, comp, spare); return true; }); sym_assert(cnt == 1, "one sub-block"); sym_reach("decoded");
}
// which of directory and header is authoritative
static uint8_t seg[32 + 256];
// @job time=200 shards=8
HARNESS(c08_policy) {
  static const char* const ar[] = {"XYC", "XYCM", "XY", "YXZM"}; PieceStream s; doc.init(); int a = sym_pick(4, "dir"), b = sym_pick(4, "header"), pol = sym_pick(4, "policy"); D d[8], e[8]; int pt, comp, pt2, comp2; uint64_t pos, pos2; uint8_t sp, sp2; common(doc.body, pt, comp, pos, sp); wr64(doc.body + 6, MiniDoc::kSub);
  int n = fill(d, ar[a], 0); doc.finish(s, false, false); memset(seg, 0, sizeof(seg)); memcpy(seg, "ZISRAWSUBBLOCK\0\0", 16); seg[48] = 'D'; seg[49] = 'V'; common(seg + 48, pt2, comp2, pos2, sp2); int m = 0; for (; ar[b][m]; ++m) { uint8_t* q = seg + 80 + 20 * m; q[0] = e[m].c = ar[b][m]; e[m].start = sym_i32("start"); e[m].size = sym_i32("size"); e[m].stored = sym_i32("stored"); wr32(q + 4, e[m].start); wr32(q + 8, e[m].size); wr32(q + 16, e[m].stored); } wr32(seg + 48 + 28, m);
  s.add(MiniDoc::kSub, seg, sizeof(seg)); auto r = CreateCZIReader(); ICZIReader::OpenOptions o; typedef ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy P; bool hdrFirst = pol & 1, ignore = pol & 2; o.subBlockDirectoryInfoPolicy = (P)((hdrFirst ? 1 : 0) | (ignore ? 0x80 : 0)); r->Open(ref<PieceStream>(&s), &o);
  bool same = (pt == pt2) & (comp == comp2); for (const char* c = "XYCZM"; *c; ++c) { const D *p = find(d, n, *c), *q = find(e, m, *c); bool valid = true; if (*c == 'M') { bool pv = p && (p->start != INT32_MAX && p->start != INT32_MIN), qv = q && (q->start != INT32_MAX && q->start != INT32_MIN); same &= pv == qv; if (!pv || !qv) continue; } if (!p || !q) { same &= !p && !q; continue; } same &= p->start == q->start; if (*c == 'X' || *c == 'Y') same &= (p->size == q->size) & (p->stored == q->stored); (void)valid; }
  std::shared_ptr<ISubBlock> sb; bool ok = true; try { sb = r->ReadSubBlock(0); } catch (const LibCZICZIParseException& x) { ok = false; sym_assert(x.GetErrorCode() == LibCZICZIParseException::ErrorCode::SubBlockDirectoryToSubBlockHeaderMismatch, "the error says why"); }
  sym_assert(ok == (ignore | same), "a discrepancy is reported unless it is to be ignored"); if (!ok) { sym_reach("refused"); return; } if (hdrFirst) check(sb->GetSubBlockInfo(), e, m, pt2, comp2, sp2); else check(sb->GetSubBlockInfo(), d, n, pt, comp, sp); sym_reach("read");
}
