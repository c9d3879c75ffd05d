// Shared by the harnesses that write a file and read it back.
#pragma once
#include "common.h"
using namespace libCZI; using namespace h;
struct Blk { AddSubBlockInfoMemPtr i; uint8_t data[320], meta[320], att[320]; };
static void symInfo(Blk& b, int mask, bool mvalid, bool scaled = false) {
  b.i.Clear();
  for (int d = 0; d < 9; ++d) if (mask >> d & 1) b.i.coordinate.Set(kDims[d], sym_i32("coord"));
  b.i.mIndexValid = mvalid; b.i.mIndex = sym_i32("mIndex"); sym_assume(Utils::IsValidMindex(b.i.mIndex));
  b.i.x = sym_i32("x"); b.i.y = sym_i32("y");
  if (scaled) { b.i.logicalWidth = sym_range(0, INT32_MAX, "lw"); b.i.logicalHeight = sym_range(0, INT32_MAX, "lh"); }
  else { b.i.logicalWidth = b.i.physicalWidth = sym_i32("w"); b.i.logicalHeight = b.i.physicalHeight = sym_i32("h"); sym_assume((b.i.logicalWidth >= 0) & (b.i.logicalHeight >= 0)); }
  int pt = sym_u8("pixeltype"); sym_assume(pt <= 4 || (pt >= 8 && pt <= 13)); b.i.PixelType = (PixelType)pt;
  b.i.compressionModeRaw = sym_i32("compression"); sym_assume(b.i.compressionModeRaw != INT32_MIN); int py = sym_u8("pyramid"); sym_assume(py <= 2); b.i.pyramid_type = (SubBlockPyramidType)py;
}
static void setPayload(Blk& b, int nd, int nm, int na) {
  sym_bytes(b.data, nd, "data"); sym_bytes(b.meta, nm, "meta"); sym_bytes(b.att, na, "att");
  b.i.ptrData = b.data; b.i.dataSize = nd; b.i.ptrSbBlkMetadata = b.meta; b.i.sbBlkMetadataSize = nm; b.i.ptrSbBlkAttachment = b.att; b.i.sbBlkAttachmentSize = na;
}
static void checkInfo(const SubBlockInfo& r, const Blk& b) {
  sym_assert(sameCoord(r.coordinate, b.i.coordinate), "coordinate is read back");
  sym_assert(b.i.mIndexValid ? r.mIndex == b.i.mIndex : !r.IsMindexValid(), "M-index is read back");
  sym_assert((r.logicalRect.x == b.i.x) & (r.logicalRect.y == b.i.y) & (r.logicalRect.w == b.i.logicalWidth) & (r.logicalRect.h == b.i.logicalHeight), "logical rectangle is read back");
  sym_assert(((int)r.physicalSize.w == b.i.physicalWidth) & ((int)r.physicalSize.h == b.i.physicalHeight), "physical size is read back");
  sym_assert(r.pixelType == b.i.PixelType, "pixel type is read back"); sym_assert(r.compressionModeRaw == b.i.compressionModeRaw, "compression is read back"); sym_assert(r.pyramidType == b.i.pyramid_type, "pyramid type is read back");
}
static void checkBlob(ISubBlock& s, ISubBlock::MemBlkType t, const void* p, size_t n, const char* msg) {
  const void* q = nullptr; size_t m = 99; s.DangerousGetRawData(t, q, m); sym_assert(m == n, msg); if (n) sym_assert(eq(p, q, n), msg);
  size_t m2 = 98; auto sp = s.GetRawData(t, &m2); sym_assert(m2 == n, msg); if (n) sym_assert(eq(sp.get(), p, n), msg);
}
static void checkSub(ICZIReader& rd, int idx, const Blk& b) {
  auto s = rd.ReadSubBlock(idx); sym_assert(s != nullptr, "sub-block can be read"); checkInfo(s->GetSubBlockInfo(), b);
  checkBlob(*s, ISubBlock::Data, b.data, b.i.dataSize, "pixel data is read back"); checkBlob(*s, ISubBlock::Metadata, b.meta, b.i.sbBlkMetadataSize, "sub-block metadata is read back"); checkBlob(*s, ISubBlock::Attachment, b.att, b.i.sbBlkAttachmentSize, "sub-block attachment is read back");
}
