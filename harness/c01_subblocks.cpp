// C01: a written sub-block is read back unchanged
// @bounds one sub-block: every subset of the 9 dimensions with all 32-bit coordinates, all M-indices (valid or absent), all 32-bit positions and sizes (logical = stored), all pixel types, all 32-bit compression ids, pyramid types
// @bounds scaled sub-blocks: logical sizes all 31-bit values, stored width and height each one of 0,1,5,100,30000
// @bounds payload (data, metadata, attachment): each 0..2 bytes or one of 60,170,300 bytes, arbitrary content; files of up to 3 sub-blocks; strided and linewise bitmaps up to 3x3 pixels, strides up to 40
#include "rt.h"

template <class ADD> static void roundtripA(Blk** b, int n, ADD add) {
  static MemStream ms; ms.size = 0;
  auto st = ref<MemStream>(&ms); 
  auto w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>());
  for (int i = 0; i < n; ++i) add(*w, *b[i]);
  w->Close(); 
  auto r = CreateCZIReader(); r->Open(st);
  // the directory is sorted, so match the sub-blocks by the (distinct) size of their data
  int cnt = 0, hits[8] = {0}; SubBlockInfo inf[8]; r->EnumerateSubBlocks([&](int index, const SubBlockInfo& info) { sym_assert(index == cnt, "indices are consecutive"); if (index < n) inf[index] = info; ++cnt; return true; });
  sym_assert(cnt == n, "every sub-block is enumerated exactly once");
  for (int k = 0; k < n; ++k) {
    auto s = r->ReadSubBlock(k); const void* q = nullptr; size_t m = 0; s->DangerousGetRawData(ISubBlock::Data, q, m);
    int who = -1; for (int i = 0; i < n; ++i) if (m == b[i]->i.dataSize) who = i; sym_assert(who >= 0, "data size is read back"); if (who < 0) return; ++hits[who]; checkInfo(inf[k], *b[who]); checkSub(*r, k, *b[who]);
  }
  for (int i = 0; i < n; ++i) sym_assert(hits[i] == 1, "every sub-block is found exactly once");
  sym_assert(r->GetStatistics().subBlockCount == n, "statistics count");
}
static void roundtrip(Blk** b, int n) { roundtripA(b, n, [](ICziWriter& w, Blk& k) { w.SyncAddSubBlock(k.i); }); }

// @job shards=16 time=200
HARNESS(c01_one) {
  int mask = sym_pick(512, "mask"); bool mv = sym_pick(2, "mvalid");
  static Blk b; symInfo(b, mask, mv); setPayload(b, 2, 1, 3); Blk* p[1] = {&b}; roundtrip(p, 1); sym_reach("read back");
}
static const int kPhys[] = {0, 1, 5, 100, 30000};
// @job shards=4 time=200
HARNESS(c01_scaled) {
  static Blk b; int m = sym_pick(4, "mask"); symInfo(b, m == 0 ? 0 : m == 1 ? 2 : m == 2 ? 16 : 511, true, true); b.i.physicalWidth = kPhys[sym_pick(5, "pw")]; b.i.physicalHeight = kPhys[sym_pick(5, "ph")]; setPayload(b, 1, 1, 1); Blk* p[1] = {&b}; roundtrip(p, 1); sym_reach("read back");
}
static int paySize(int k) { static const int s[] = {0, 1, 2, 60, 170, 300}; return s[k]; }
// @job shards=8 time=200
HARNESS(c01_payload) {
  int nd = paySize(sym_pick(6, "nd")), nm = paySize(sym_pick(6, "nm")), na = paySize(sym_pick(6, "na"));
  static Blk b; symInfo(b, sym_pick(2, "dims") ? 511 : 2, true); setPayload(b, nd, nm, na); Blk* p[1] = {&b}; roundtrip(p, 1); sym_reach("read back");
}
// @job shards=6 time=150
HARNESS(c01_many) {
  static Blk b[3]; Blk* p[3] = {b, b + 1, b + 2}; int k = sym_pick(6, "k"); int n = k < 4 ? 2 : 3; int mask = k < 4 ? (k & 1 ? 18 : 3) : 2; bool mv = k < 4 ? k >= 2 : k == 5;
  for (int i = 0; i < n; ++i) { symInfo(b[i], mask, mv); setPayload(b[i], 1 + i, i, 2 * i); b[i].i.logicalWidth = b[i].i.physicalWidth = 4; b[i].i.logicalHeight = b[i].i.physicalHeight = 5; b[i].i.x = k < 4 ? (int8_t)sym_u8("x") : 7 - i; b[i].i.y = 3; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) sym_assume(!(sameCoord(b[i].i.coordinate, b[j].i.coordinate) & (!mv | (b[i].i.mIndex == b[j].i.mIndex))));
  roundtrip(p, n); sym_reach("read back");
}
static const PixelType kPT[] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgra32, PixelType::Gray32Float, PixelType::Bgr48};
static const int kBpp[] = {1, 2, 3, 4, 4, 6};
template <class INF> static void copyBase(INF& d, const Blk& b) { (AddSubBlockInfoBase&)d = (const AddSubBlockInfoBase&)b.i; d.ptrSbBlkMetadata = b.i.ptrSbBlkMetadata; d.sbBlkMetadataSize = b.i.sbBlkMetadataSize; d.ptrSbBlkAttachment = b.i.ptrSbBlkAttachment; d.sbBlkAttachmentSize = b.i.sbBlkAttachmentSize; }
// @job shards=6 time=200
HARNESS(c01_bitmap) {
  int t = sym_pick(6, "pixeltype"), w = 1 + sym_pick(3, "w"), hh = 1 + sym_pick(3, "h"), extra = sym_pick(3, "pad"); bool lines = sym_pick(2, "linewise");
  static Blk b; symInfo(b, 2, false); setPayload(b, 0, 1, 2); b.i.PixelType = kPT[t]; b.i.logicalWidth = b.i.physicalWidth = w; b.i.logicalHeight = b.i.physicalHeight = hh;
  static uint8_t bmp[256]; int stride = w * kBpp[t] + extra * 11; sym_bytes(bmp, (hh - 1) * stride + w * kBpp[t], "bitmap");
  for (int y = 0; y < hh; ++y) memcpy(b.data + y * w * kBpp[t], bmp + y * stride, w * kBpp[t]);
  b.i.dataSize = w * hh * kBpp[t]; Blk* p[1] = {&b};
  roundtripA(p, 1, [&](ICziWriter& wr, Blk& k) {
    if (lines) { AddSubBlockInfoLinewiseBitmap i; copyBase(i, k); i.getBitmapLine = [&](int l) -> const void* { return bmp + l * stride; }; wr.SyncAddSubBlock(i); }
    else { AddSubBlockInfoStridedBitmap i; copyBase(i, k); i.ptrBitmap = bmp; i.strideBitmap = stride; wr.SyncAddSubBlock(i); }
  });
  sym_reach("read back");
}
// data delivered piecewise by a functor which stops early: the rest reads as zero
// @bounds functors delivering 0..2 pieces of 3 or 5000 bytes and then stopping, announced sizes 3, 5000, 9000 or 12500 bytes of data (or metadata or attachment)
// @job shards=8 time=200
HARNESS(c01_partial) {
  static const int kSz[] = {3, 5000, 9000, 12500}; int sz = kSz[sym_pick(4, "size")], pieces = sym_pick(3, "pieces"), plen = sym_pick(2, "plen") ? 5000 : 3, part = sym_pick(3, "part");
  static MemStreamT<65536> ms; ms.size = 0; auto st = ref<MemStreamT<65536>>(&ms); static Blk b; symInfo(b, 2, true); setPayload(b, 2, 1, 3);
  static uint8_t src[12600], exp[12600]; memset(exp, 0, sizeof(exp)); for (int i = 0; i < 12600; ++i) src[i] = (uint8_t)(i * 5 + 1); sym_bytes(src, 3, "src"); sym_bytes(src + 4998, 4, "src");
  int given = pieces * plen; if (given > sz) given = sz; memcpy(exp, src, given);
  AddSubBlockInfo a; (AddSubBlockInfoBase&)a = (const AddSubBlockInfoBase&)b.i; const void* ptr[3] = {b.data, b.meta, b.att}; size_t len[3] = {2, 1, 3};
  auto full = [&](int i) { return [=](int, size_t off, const void*& p, size_t& n) { if (off >= len[i]) return false; p = (const uint8_t*)ptr[i] + off; n = len[i] - off; return true; }; };
  auto part_ = [&](int call, size_t off, const void*& p, size_t& n) { if (call >= pieces) return false; p = src + off; n = plen; return true; };
  a.sizeData = 2; a.getData = full(0); a.sizeMetadata = 1; a.getMetaData = full(1); a.sizeAttachment = 3; a.getAttachment = full(2);
  if (part == 0) { a.sizeData = sz; a.getData = part_; } else if (part == 1) { a.sizeMetadata = sz; a.getMetaData = part_; } else { a.sizeAttachment = sz; a.getAttachment = part_; }
  auto w = CreateCZIWriter(); w->Create(st, nullptr); w->SyncAddSubBlock(a); w->Close(); auto r = CreateCZIReader(); r->Open(st); auto s = r->ReadSubBlock(0); checkInfo(s->GetSubBlockInfo(), b);
  static const ISubBlock::MemBlkType kT[] = {ISubBlock::Data, ISubBlock::Metadata, ISubBlock::Attachment};
  for (int i = 0; i < 3; ++i) { if (i == part) checkBlob(*s, kT[i], exp, sz, "bytes not supplied read as zero, the others are read back"); else checkBlob(*s, kT[i], ptr[i], len[i], "the other blobs are unaffected"); }
  sym_reach("read back");
}
