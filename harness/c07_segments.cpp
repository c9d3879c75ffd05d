// C07: reading arbitrary sub-block, attachment and metadata segments is memory-safe and yields exactly the stored bytes
// @bounds sub-block segment: the complete header (288 bytes, all sizes, all dimension counts, schema) arbitrary, except: the dimension letters come from a few; the file holds 0..3 bytes after the header, or is cut off; up to 41 dimension entries
// @bounds attachment and metadata segment: the complete header arbitrary, 0..3 bytes after it; reader and reader-writer; all combinations of the directory/header precedence policy
#include "pieces.h"
static const int kExtra = 3;
static MiniDoc doc; static uint8_t seg[32 + 16 + 32 + 20 * 41 + kExtra + 8];
template <class F> static void withDoc(PieceStream& s, int how, F f) {
  auto st = ref<PieceStream>(&s);
  if (how < 4) { auto r = CreateCZIReader(); ICZIReader::OpenOptions o; typedef ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy P; o.subBlockDirectoryInfoPolicy = (P)((how & 1) | (how & 2 ? 0x80 : 0)); r->Open(st, &o); f(*r, how); }
  else { auto r = CreateCZIReaderWriter(); try { r->Create(st, nullptr); } catch (const std::exception&) { sym_reach("refused"); return; } f(*r, how); }
}
static bool rng(const void* p, size_t n, const uint8_t* base, uint64_t off, uint64_t total) { if (off > total || n > total - off) return false; return n == 0 || (p && eq(p, base + off, n)); }
static void checkSeg(ISubBlock& b, uint64_t total) {
  uint64_t dc = rd32(seg + 32 + 16 + 28), ms = rd32(seg + 32), as = rd32(seg + 36), ds = rd64(seg + 40); bool dv = seg[32 + 16 + 1] == 'V'; uint64_t l = dv ? 48 + 20 * dc : 128; if (l < 256) l = 256; l += 32;
  const void* p; size_t n; b.DangerousGetRawData(ISubBlock::Metadata, p, n); sym_assert(n == ms && rng(p, n, seg, l, total), "sub-block metadata is the byte range of the file"); b.DangerousGetRawData(ISubBlock::Data, p, n); sym_assert(n == ds && rng(p, n, seg, l + ms, total), "data is the byte range of the file"); b.DangerousGetRawData(ISubBlock::Attachment, p, n); sym_assert(n == as && rng(p, n, seg, l + ms + ds, total), "sub-block attachment is the byte range of the file");
  const SubBlockInfo& i = b.GetSubBlockInfo(); sym_assert(!sym_mem_is_undef(&i.logicalRect, sizeof(i.logicalRect)) && !sym_mem_is_undef(&i.mIndex, 4) && !sym_mem_is_undef(&i.physicalSize, 8) && !sym_mem_is_undef(&i.pixelType, 1) && !sym_mem_is_undef(&i.pyramidType, 1), "no uninitialised values are reported");
}
template <class R> static void readSub(R& r, uint64_t total) { std::shared_ptr<ISubBlock> b; try { b = r.ReadSubBlock(0); } catch (const std::exception&) { sym_reach("refused"); return; } sym_assert(b != nullptr, "sub-block"); checkSeg(*b, total); sym_reach("read"); }
// header with few dimensions: sizes, schema, count arbitrary
// @job time=200 shards=15
HARNESS(c07_subblock) {
  PieceStream s; doc.init(); int pk = sym_pick(30, "how_avail"), how = pk % 5, avail = pk / 5; doc.dim('X', 0, 5, 5); doc.dim('Y', 0, 6, 6); doc.dim('C', 1, 1, 1);
  sym_bytes(seg, 288 + kExtra, "segment"); for (int k = 0; k < 10; ++k) { uint8_t* d = seg + 32 + 48 + 20 * k; memset(d, 0, 20); d[0] = "XYCZTIHVBS"[k]; if (k < 3) { memcpy(d, doc.body + 32 + 20 * k, 20); sym_bytes(d + 4, k == 0 ? 16 : 4, "dim"); } } seg[32 + 48 + 20 * 2] = sym_u8("letter");
  int dc = rd32(seg + 32 + 16 + 28); sym_assume((dc <= 3) | (dc > 40)); if (avail != 5) memcpy(seg, "ZISRAWSUBBLOCK\0\0", 16);
  uint64_t total = avail < 4 ? 288 + avail : avail == 4 ? 287 : 288; doc.finish(s, false, false); s.add(MiniDoc::kSub, seg, total); withDoc(s, how, [&](auto& r, int) { readSub(r, total); });
}
// number of dimension entries
// @job time=200 shards=15
HARNESS(c07_dimcount) {
  PieceStream s; doc.init(); int pk = sym_pick(15, "how_mode"), how = pk % 5, mode = pk / 5; int nd = 41; memset(seg, 0, sizeof(seg)); memcpy(seg, "ZISRAWSUBBLOCK\0\0", 16); seg[48] = 'D'; seg[49] = 'V'; int dc = sym_i32("dimcount"); wr32(seg + 48 + 28, dc); int ds = sym_pick(3, "size"); wr32(seg + 32, ds); wr64(seg + 40, 1); if (mode == 2) sym_assume((dc < 12) | (dc > 38));
  for (int k = 0; k < nd; ++k) { uint8_t* d = seg + 80 + 20 * k; d[0] = "XYCZTIHVBSM"[k % 11]; wr32(d + 4, 0); wr32(d + 8, 1); wr32(d + 16, 1); } sym_bytes(seg + 80 + 20 * nd, 3, "tail");
  for (int k = 0; k < 11; ++k) doc.dim("XYCZTIHVBSM"[k], 0, 1, 1); doc.finish(s, false, false); uint64_t total = mode == 0 ? sizeof(seg) : mode == 1 ? 288 + 7 : 32 + 48 + 20 * 40; s.add(MiniDoc::kSub, seg, total); withDoc(s, how, [&](auto& r, int) { readSub(r, total); });
}
// @job time=200 shards=4
HARNESS(c07_attachment) {
  PieceStream s; doc.init(); int how = sym_pick(2, "how") * 4, avail = sym_pick(6, "avail"); sym_bytes(seg, 288 + kExtra, "segment"); if (avail != 5) memcpy(seg, "ZISRAWATTACH\0\0\0\0", 16); uint64_t total = avail < 4 ? 288 + avail : avail == 4 ? 287 : 288; doc.dim('X', 0, 1, 1); doc.dim('Y', 0, 1, 1); doc.finish(s, true, false); s.add(MiniDoc::kAtt, seg, total);
  withDoc(s, how, [&](auto& r, int) { std::shared_ptr<IAttachment> a; try { a = r.ReadAttachment(0); } catch (const std::exception&) { sym_reach("refused"); return; } sym_assert(a != nullptr, "attachment"); const void* p; size_t n; a->DangerousGetRawData(p, n); sym_assert(n == rd64(seg + 32) && rng(p, n, seg, 288, total), "attachment data is the byte range of the file"); size_t n2; auto q = a->GetRawData(&n2); sym_assert(n2 == n && q.get() == p, "both accessors agree"); sym_reach("read"); });
}
// @job time=200 shards=4
HARNESS(c07_metadata) {
  PieceStream s; doc.init(); int how = sym_pick(2, "how") * 4, avail = sym_pick(6, "avail"); sym_bytes(seg, 288 + kExtra, "segment"); if (avail != 5) memcpy(seg, "ZISRAWMETADATA\0\0", 16); uint64_t total = avail < 4 ? 288 + avail : avail == 4 ? 287 : 288; doc.dim('X', 0, 1, 1); doc.dim('Y', 0, 1, 1); doc.finish(s, false, true); s.add(MiniDoc::kMeta, seg, total);
  withDoc(s, how, [&](auto& r, int) { std::shared_ptr<IMetadataSegment> a; try { a = r.ReadMetadataSegment(); } catch (const std::exception&) { sym_reach("refused"); return; } sym_assert(a != nullptr, "metadata"); const void* p; size_t n; a->DangerousGetRawData(IMetadataSegment::XmlMetadata, p, n); uint64_t xs = rd32(seg + 32), as = rd32(seg + 36); sym_assert(n == xs && rng(p, n, seg, 288, total), "XML is the byte range of the file"); size_t n2; auto q = a->GetRawData(IMetadataSegment::Attachment, &n2); sym_assert(n2 == as && rng(q.get(), n2, seg, 288 + xs, total), "metadata attachment is the byte range of the file"); sym_reach("read"); });
}
