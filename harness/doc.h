// A small document made of tiles, written with the writer and opened with the reader.
#pragma once
#include "pix.h"
enum : int { kNo = INT32_MIN };
struct Tile { int x = 0, y = 0, w = 2, h = 2, pw = -1, ph = -1, c = 0, t = kNo, s = kNo, m = kNo; PixelType pt = PixelType::Gray8; SubBlockPyramidType py = SubBlockPyramidType::None; uint8_t px[96]; int npx = 0; const char* xml = nullptr; uint8_t att[64]; int natt = 0;
  int W() const { return pw < 0 ? w : pw; } int H() const { return ph < 0 ? h : ph; }
  void pixels() { npx = W() * H() * bpp(pt); sym_bytes(px, npx, "px"); }
  bool covers(int X, int Y) const { return (X >= x) & (X < (int64_t)x + w) & (Y >= y) & (Y < (int64_t)y + h); }
  const uint8_t* at(int X, int Y) const { return px + ((size_t)(Y - y) * W() + (X - x)) * bpp(pt); } };
typedef MemStreamT<24576> DocStream;
static void fillAdd(AddSubBlockInfoMemPtr& a, Tile& t) { a.Clear(); if (t.c != kNo) a.coordinate.Set(DimensionIndex::C, t.c); if (t.t != kNo) a.coordinate.Set(DimensionIndex::T, t.t); if (t.s != kNo) a.coordinate.Set(DimensionIndex::S, t.s); a.mIndexValid = t.m != kNo; if (a.mIndexValid) a.mIndex = t.m; a.x = t.x; a.y = t.y; a.logicalWidth = t.w; a.logicalHeight = t.h; a.physicalWidth = t.W(); a.physicalHeight = t.H(); a.PixelType = t.pt; a.pyramid_type = t.py; a.SetCompressionMode(CompressionMode::UnCompressed); a.ptrData = t.px; a.dataSize = t.npx; if (t.xml) { a.ptrSbBlkMetadata = t.xml; a.sbBlkMetadataSize = (uint32_t)strlen(t.xml); } if (t.natt) { a.ptrSbBlkAttachment = t.att; a.sbBlkAttachmentSize = t.natt; } }
static std::shared_ptr<ICZIReader> writeDoc(Tile* t, int n, bool dup = false, const ICZIReader::OpenOptions* oo = nullptr) {
  static DocStream ms; ms.size = 0; ms.counting = false; auto st = ref<DocStream>(&ms); CZIWriterOptions wo; wo.allow_duplicate_subblocks = dup; auto w = CreateCZIWriter(&wo); w->Create(st, std::make_shared<CCziWriterInfo>());
  for (int i = 0; i < n; ++i) { AddSubBlockInfoMemPtr a; fillAdd(a, t[i]); w->SyncAddSubBlock(a); }
  w->Close(); auto r = CreateCZIReader(); r->Open(st, oo); return r;
}
