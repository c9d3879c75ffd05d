// Shared by C03 and C05: a walker over the segments of a file and a model of what a reader-writer history should leave behind.
#pragma once
#include "rt.h"
typedef MemStreamT<32768> RwStream;
enum SegKind { kHdr, kSub, kDir, kAtt, kAttDir, kMeta, kDeleted, kNone };
static SegKind segKind(const uint8_t* p) {
  static const char* const n[] = {"ZISRAWFILE", "ZISRAWSUBBLOCK", "ZISRAWDIRECTORY", "ZISRAWATTACH", "ZISRAWATTDIR", "ZISRAWMETADATA", "DELETED"};
  for (int k = 0; k < 7; ++k) { size_t l = strlen(n[k]); if (memcmp(p, n[k], l) == 0 && (l == 16 || p[l] == 0)) return (SegKind)k; }
  return kNone;
}
struct Walk { uint64_t pos[40]; SegKind kind[40]; uint64_t alloc[40], used[40]; int n = 0; uint64_t end = 0; int at(uint64_t p) const { for (int i = 0; i < n; ++i) if (pos[i] == p) return i; return -1; } };
// walks the segments; 'exact': they fill the file completely, otherwise bytes after the last referenced segment are not looked at
template <class S> static void walkFile(const S& s, Walk& w, bool exact, int nsub = -1, int natt = -1) {
  uint64_t p = 0; w.n = 0;
  while (p + 32 <= s.size && w.n < 40) {
    SegKind k = segKind(s.buf + p); if (k == kNone) break;
    uint64_t a = rd64(s.buf + p + 16), u = rd64(s.buf + p + 24);
    sym_assert(p % 32 == 0, "segments start at 32-byte aligned positions"); sym_assert(u <= a, "used size <= allocated size"); if (k == kDeleted && a > s.size - p - 32) { p = s.size; break; } // an unused reservation at the end need not be written completely
    sym_assert(a <= s.size - p - 32, "segment lies inside the file"); if (a > s.size - p - 32) break;
    w.pos[w.n] = p; w.kind[w.n] = k; w.alloc[w.n] = a; w.used[w.n] = u; ++w.n; p += 32 + a;
  }
  w.end = p; if (exact) sym_assert(p == s.size, "the segments follow one another and fill the file");
  sym_assert(w.n > 0 && w.kind[0] == kHdr, "the file header is the first segment"); if (!w.n) return;
  uint64_t dir = rd64(s.buf + 32 + 52), meta = rd64(s.buf + 32 + 60), ad = rd64(s.buf + 32 + 72); int i;
  i = w.at(dir); sym_assert(i >= 0 && w.kind[i] == kDir, "the header refers to the sub-block directory");
  if (i >= 0) {
    uint32_t n = rd32(s.buf + dir + 32); if (nsub >= 0) sym_assert((int)n == nsub, "number of directory entries"); uint64_t q = dir + 32 + 128;
    for (uint32_t k = 0; k < n; ++k) {
      uint64_t fp = rd64(s.buf + q + 6); int j = w.at(fp); sym_assert(j >= 0 && w.kind[j] == kSub, "a directory entry refers to a sub-block segment"); uint32_t dc = rd32(s.buf + q + 28); sym_assert(dc <= 40 && q + 32 + 20 * dc <= dir + 32 + w.used[i], "directory entries lie within the used part of the directory"); if (dc > 40) return;
      if (j >= 0) { sym_assert(eq(s.buf + q, s.buf + fp + 32 + 16, 32 + 20 * dc), "the entry in the sub-block segment equals the one in the directory"); uint64_t hd = 16 + 32 + 20 * dc; if (hd < 256) hd = 256; sym_assert(hd + rd32(s.buf + fp + 32) + rd32(s.buf + fp + 36) + rd64(s.buf + fp + 40) <= w.used[j], "the sub-block's blobs lie within its segment"); }
      q += 32 + 20 * dc;
    }
  }
  if (natt > 0) sym_assert(ad != 0, "attachment directory present");
  if (ad != 0) {
    i = w.at(ad); sym_assert(i >= 0 && w.kind[i] == kAttDir, "the header refers to the attachment directory");
    if (i >= 0) { uint32_t n = rd32(s.buf + ad + 32); if (natt >= 0) sym_assert((int)n == natt, "number of attachment entries"); sym_assert(256 + 128ull * n <= w.used[i], "attachment entries lie within the directory");
      for (uint32_t k = 0; k < n && k < 8; ++k) { uint64_t fp = rd64(s.buf + ad + 32 + 256 + 128 * k + 12); int j = w.at(fp); sym_assert(j >= 0 && w.kind[j] == kAtt, "an attachment entry refers to an attachment segment"); if (j >= 0) sym_assert(256 + rd64(s.buf + fp + 32) <= w.used[j], "the attachment lies within its segment"); } }
  }
  if (meta != 0) { i = w.at(meta); sym_assert(i >= 0 && w.kind[i] == kMeta, "the header refers to the metadata segment"); if (i >= 0) sym_assert(256ull + rd32(s.buf + meta + 32) + rd32(s.buf + meta + 36) <= w.used[i], "the metadata lies within its segment"); }
}
struct RAtt { AddAttachmentInfo i; uint8_t data[320]; };
static void mkRAtt(RAtt& a, int id, int size) { memset(&a.i, 0, sizeof(a.i)); sym_bytes(&a.i.contentGuid, 16, "guid"); a.i.contentGuid.Data1 = id; memcpy(a.i.contentFileType, "ABC", 3); a.i.contentFileType[2] = (char)sym_range(1, 127, "type"); a.i.name[0] = (char)('a' + id); a.i.name[1] = (char)sym_range(1, 127, "name"); sym_bytes(a.data, size < 4 ? size : 4, "att"); for (int k = 4; k < size; ++k) a.data[k] = (uint8_t)(k + id); a.i.ptrData = a.data; a.i.dataSize = size; }
struct Model {
  struct { bool alive = false; Blk b; } sb[8]; struct { bool alive = false; RAtt a; } at[8]; bool md = false; char xml[700]; int len = 0; int nsb = 0, nat = 0; GUID guid; bool guidKnown = false; int igSub = -1, igAtt = -1; bool igMd = false; // items whose state is not specified after a fault
  void newSub(int slot, int size, int meta = 1) { Blk& b = sb[slot].b; symInfo(b, 2, true); b.i.logicalWidth = b.i.physicalWidth = 4; b.i.logicalHeight = b.i.physicalHeight = 5 + slot; b.i.x = sym_range(1000 * slot - 8000, 1000 * slot - 8000 + 127, "x"); b.i.y = sym_range(9000 - 1000 * slot, 9127 - 1000 * slot, "y"); b.i.mIndex = sym_range(200 * slot, 200 * slot + 127, "m"); b.i.coordinate.Set(DimensionIndex::C, slot); int nd = size < 4 ? size : 4; setPayload(b, nd, meta, 2); for (int k = 4; k < size; ++k) b.data[k] = (uint8_t)(k * 3 + slot); b.i.dataSize = size; sb[slot].alive = true; }
  void newAtt(int slot, int size) { mkRAtt(at[slot].a, slot, size); at[slot].alive = true; }
  void newMd(int n) { len = n; md = true; for (int k = 0; k < n; ++k) xml[k] = 'a' + k % 20; sym_bytes(xml, n < 3 ? n : 3, "xml"); xml[n - 1] = sym_u8("xml"); }
  WriteMetadataInfo mdInfo() { WriteMetadataInfo wi; wi.Clear(); wi.szMetadata = xml; wi.szMetadataSize = len; return wi; }
  int subs() { int n = 0; for (auto& s : sb) n += s.alive; return n; } int atts() { int n = 0; for (auto& s : at) n += s.alive; return n; }
  static void checkAtt(const AttachmentInfo& r, const RAtt& a) { sym_assert(eq(&r.contentGuid, &a.i.contentGuid, 16), "attachment GUID"); sym_assert(r.contentFileType[8] == 0 && eq(r.contentFileType, a.i.contentFileType, 8), "attachment type"); sym_assert(r.name.size() == 2 && r.name[0] == (char)a.i.name[0] && r.name[1] == (char)a.i.name[1], "attachment name"); }
  template <class R> int keySub(R& r, int slot) { int key = -1; r.EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { int c = -1; i.coordinate.TryGetPosition(DimensionIndex::C, &c); if (c == slot) { key = k; return false; } return true; }); return key; }
  template <class R> int keyAtt(R& r, int slot) { int key = -1; r.EnumerateAttachments([&](int k, const AttachmentInfo& i) { if ((int)i.contentGuid.Data1 == slot) { key = k; return false; } return true; }); return key; }
  template <class R> void check(R& r) {
    int n = 0, ig = 0; bool seen[8] = {false}; r.EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { int c = -1; i.coordinate.TryGetPosition(DimensionIndex::C, &c); if (igSub >= 0 && c == igSub) { ++ig; return true; } ++n; sym_assert(c >= 0 && c < 8 && sb[c].alive && !seen[c], "only the sub-blocks which should be there are enumerated, once"); if (c < 0 || c >= 8 || !sb[c].alive) return true; seen[c] = true; checkInfo(i, sb[c].b); SubBlockInfo i2; sym_assert(r.TryGetSubBlockInfo(k, &i2), "sub-block info available"); checkInfo(i2, sb[c].b); return true; });
    sym_assert(n == subs(), "every sub-block is enumerated"); sym_assert(ig <= 1 && r.GetStatistics().subBlockCount == n + ig, "sub-block count");
    for (int s = 0; s < 8; ++s) if (sb[s].alive) { int key = keySub(r, s); auto b = r.ReadSubBlock(key); sym_assert(b != nullptr, "sub-block can be read"); if (!b) continue; checkInfo(b->GetSubBlockInfo(), sb[s].b); checkBlob(*b, ISubBlock::Data, sb[s].b.data, sb[s].b.i.dataSize, "pixel data"); checkBlob(*b, ISubBlock::Metadata, sb[s].b.meta, sb[s].b.i.sbBlkMetadataSize, "sub-block metadata"); checkBlob(*b, ISubBlock::Attachment, sb[s].b.att, sb[s].b.i.sbBlkAttachmentSize, "sub-block attachment"); }
    n = ig = 0; r.EnumerateAttachments([&](int k, const AttachmentInfo& i) { int c = (int)i.contentGuid.Data1; if (igAtt >= 0 && c == igAtt) { ++ig; return true; } ++n; sym_assert(c >= 0 && c < 8 && at[c].alive, "only the attachments which should be there are enumerated"); if (c < 0 || c >= 8 || !at[c].alive) return true; checkAtt(i, at[c].a); AttachmentInfo i2; sym_assert(r.TryGetAttachmentInfo(k, &i2), "attachment info"); checkAtt(i2, at[c].a); return true; });
    sym_assert(n == atts(), "every attachment is enumerated"); sym_assert(ig <= 1 && r.GetAttachmentCount() == n + ig, "attachment count");
    for (int s = 0; s < 8; ++s) if (at[s].alive) { int key = keyAtt(r, s); auto b = r.ReadAttachment(key); sym_assert(b != nullptr, "attachment can be read"); if (!b) continue; checkAtt(b->GetAttachmentInfo(), at[s].a); size_t sz; auto p = b->GetRawData(&sz); sym_assert(sz == at[s].a.i.dataSize && (!sz || eq(p.get(), at[s].a.data, sz)), "attachment data"); }
    if (!igMd) { std::shared_ptr<IMetadataSegment> m; try { m = r.ReadMetadataSegment(); } catch (const LibCZISegmentNotPresent&) {}
    if (!md) sym_assert(m == nullptr, "no metadata"); else { sym_assert(m != nullptr, "metadata present"); if (m) { size_t s; auto d = m->GetRawData(IMetadataSegment::XmlMetadata, &s); sym_assert(s == (size_t)len, "metadata size"); if (s == (size_t)len) sym_assert(eq(d.get(), xml, len), "metadata bytes"); } } }
    if (guidKnown) { FileHeaderInfo f = r.GetFileHeaderInfo(); sym_assert(eq(&f.fileGuid, &guid, 16), "file GUID"); }
  }
};
// start: 0 empty stream, 1 writer file (2 sub-blocks, 1 attachment, metadata), 2 writer file with reservations, 3 writer file with one sub-block only
static void startFile(RwStream& ms, Model& m, int start) {
  ms.size = 0; m.guid = GUID{7, 8, 9, {1, 2, 3, 4, 5, 6, 7, 8}}; m.guidKnown = start != 0; if (start == 0) return;
  auto o = std::make_shared<CCziWriterInfo>(m.guid); if (start == 2) { o->SetReservedSizeForAttachmentsDirectory(true, 2); o->SetReservedSizeForSubBlockDirectory(true, 3); o->SetReservedSizeForMetadataSegment(true, 100); }
  auto w = CreateCZIWriter(); w->Create(ref<RwStream>(&ms), o); m.newSub(0, 40); w->SyncAddSubBlock(m.sb[0].b.i);
  if (start != 3) { m.newSub(1, 5); w->SyncAddSubBlock(m.sb[1].b.i); m.newAtt(0, 40); w->SyncAddAttachment(m.at[0].a.i); m.newMd(50); w->SyncWriteMetadata(m.mdInfo()); }
  w->Close();
}
// one edit; returns false if the operation makes no sense in the current state
static const int kOps = 14;
static bool edit(ICziReaderWriter& rw, Model& m, int op) {
  int a = -1, b = -1; for (int i = 0; i < 8; ++i) { if (m.sb[i].alive) { if (a < 0) a = i; b = i; } } int freeS = -1; for (int i = 0; i < 8; ++i) if (!m.sb[i].alive) { freeS = i; break; }
  int c = -1, d = -1, freeA = -1; for (int i = 0; i < 8; ++i) { if (m.at[i].alive) { if (c < 0) c = i; d = i; } else if (freeA < 0) freeA = i; }
  switch (op) {
    case 0: m.newSub(freeS, 3); rw.SyncAddSubBlock(m.sb[freeS].b.i); return true;
    case 1: m.newSub(freeS, 300); rw.SyncAddSubBlock(m.sb[freeS].b.i); return true;
    case 2: case 3: case 4: { if (a < 0) return false; int s = op == 4 ? b : a; if (op == 4 && a == b) return false; int k = m.keySub(rw, s); sym_assert(k >= 0, "key known"); m.newSub(s, op == 2 ? 2 : op == 3 ? 310 : 200); rw.ReplaceSubBlock(k, m.sb[s].b.i); return true; }
    case 5: case 6: { if (a < 0) return false; int s = op == 5 ? a : b; if (op == 6 && a == b) return false; int k = m.keySub(rw, s); m.sb[s].alive = false; rw.RemoveSubBlock(k); sym_assert(rw.ReadSubBlock(k) == nullptr, "a removed sub-block is gone"); return true; }
    case 7: m.newAtt(freeA, 2); rw.SyncAddAttachment(m.at[freeA].a.i); return true;
    case 8: case 9: { if (c < 0) return false; int s = op == 8 ? c : d; int k = m.keyAtt(rw, s); m.newAtt(s, op == 8 ? 300 : 3); rw.ReplaceAttachment(k, m.at[s].a.i); return true; }
    case 10: { if (c < 0) return false; int k = m.keyAtt(rw, c); m.at[c].alive = false; rw.RemoveAttachment(k); sym_assert(rw.ReadAttachment(k) == nullptr, "a removed attachment is gone"); return true; }
    case 11: m.newMd(4); rw.SyncWriteMetadata(m.mdInfo()); return true;
    case 12: m.newMd(600); rw.SyncWriteMetadata(m.mdInfo()); return true;
    case 13: m.newAtt(freeA, 310); rw.SyncAddAttachment(m.at[freeA].a.i); return true;
  }
  return false;
}
