// C02: attachments, metadata and the file GUID are read back unchanged
// @bounds 0..2 attachments; GUIDs arbitrary; content types of 0..8 arbitrary bytes; names of 0,1,3 arbitrary non-zero characters or 79 characters (3 of them arbitrary); payloads of 0..3, 40 or 300 bytes
// @bounds metadata absent, 1, 3, 150 or 4300 bytes (arbitrary first/last bytes), metadata attachment 0 or 2 bytes; metadata written up to twice; every combination of reserving the directories/metadata (default size, small, larger)
#include "rt.h"
typedef MemStreamT<65536> BigStream;
static BigStream ms;
struct Att { AddAttachmentInfo i; uint8_t data[320]; int typeLen, nameLen; };
static void mkAtt(Att& a, int typeLen, int nameLen, int size) {
  memset(&a.i, 0, sizeof(a.i)); sym_bytes(&a.i.contentGuid, sizeof(GUID), "guid"); a.typeLen = typeLen; a.nameLen = nameLen;
  sym_bytes(a.i.contentFileType, typeLen, "type"); bool ok = true; for (int k = 0; k < typeLen; ++k) ok &= a.i.contentFileType[k] != 0;
  if (nameLen > 4) { memset(a.i.name, 'n', nameLen); sym_bytes(a.i.name, 1, "name"); sym_bytes(a.i.name + 40, 1, "name"); sym_bytes(a.i.name + nameLen - 1, 1, "name"); } else sym_bytes(a.i.name, nameLen, "name");
  for (int k = 0; k < nameLen; ++k) ok &= a.i.name[k] != 0; sym_assume(ok);
  sym_bytes(a.data, size < 8 ? size : 4, "att"); for (int k = 4; k < size; ++k) a.data[k] = (uint8_t)(k * 7 + 1); a.i.ptrData = a.data; a.i.dataSize = size;
}
static void checkInfo(const AttachmentInfo& r, const Att& a) {
  sym_assert(eq(&r.contentGuid, &a.i.contentGuid, 16), "attachment GUID"); sym_assert(eq(r.contentFileType, a.i.contentFileType, 8) && r.contentFileType[8] == 0, "attachment content type");
  sym_assert(r.name.size() == (size_t)a.nameLen, "attachment name length"); if (r.name.size() == (size_t)a.nameLen) sym_assert(eq(r.name.data(), a.i.name, a.nameLen), "attachment name");
}
template <class R> static void checkAtts(R& r, Att** a, int n) {
  sym_assert(r.GetAttachmentCount() == n, "attachment count"); int cnt = 0;
  r.EnumerateAttachments([&](int idx, const AttachmentInfo& i) { sym_assert(idx == cnt && cnt < n, "attachment index"); checkInfo(i, *a[cnt]); ++cnt; return true; }); sym_assert(cnt == n, "attachments enumerated");
  for (int k = 0; k < n; ++k) {
    AttachmentInfo i; sym_assert(r.TryGetAttachmentInfo(k, &i), "attachment info"); checkInfo(i, *a[k]);
    auto at = r.ReadAttachment(k); sym_assert(at != nullptr, "attachment readable"); checkInfo(at->GetAttachmentInfo(), *a[k]);
    const void* p; size_t sz; at->DangerousGetRawData(p, sz); sym_assert(sz == a[k]->i.dataSize, "attachment size"); if (sz == a[k]->i.dataSize) sym_assert(eq(p, a[k]->data, sz), "attachment data");
    size_t s2; auto sp = at->GetRawData(&s2); sym_assert(s2 == sz && (!sz || eq(sp.get(), a[k]->data, sz)), "attachment data");
  }
  AttachmentInfo i; sym_assert(!r.TryGetAttachmentInfo(n, &i), "no further attachment"); sym_assert(r.ReadAttachment(n) == nullptr, "no further attachment");
}
static std::shared_ptr<CCziWriterInfo> options(int k, const GUID& g) { // k: 2 bits per reservation
  auto o = std::make_shared<CCziWriterInfo>(g); int a = k & 3, s = k >> 2 & 3, m = k >> 4 & 3;
  if (a) o->SetReservedSizeForAttachmentsDirectory(true, a == 1 ? 1 : a == 2 ? 2 : 0); if (s) o->SetReservedSizeForSubBlockDirectory(true, s == 1 ? 1 : s == 2 ? 3 : 0); if (m) o->SetReservedSizeForMetadataSegment(true, m == 1 ? 1 : m == 2 ? 200 : 0);
  return o;
}
// one or two attachments, all name/type/payload shapes
// @job shards=8 time=200
HARNESS(c02_attachment) {
  static const int tl[] = {0, 1, 7, 8}, nl[] = {0, 1, 3, 79}, sz[] = {0, 1, 2, 3, 40, 300}; int k = sym_pick(96, "shape"); ms.size = 0; auto st = ref<BigStream>(&ms);
  static Att a; mkAtt(a, tl[k & 3], nl[k >> 2 & 3], sz[k >> 4]); Att* p[1] = {&a};
  auto w = CreateCZIWriter(); w->Create(st, nullptr); w->SyncAddAttachment(a.i); w->Close();
  auto r = CreateCZIReader(); r->Open(st); checkAtts(*r, p, 1); sym_reach("read back");
}
// lookup of attachments by content type and/or name
// @job shards=4 time=200
HARNESS(c02_subset) {
  static const int tl[] = {0, 3, 8}, nl[] = {0, 2, 79}; int k = sym_pick(9, "shape"); ms.size = 0; auto st = ref<BigStream>(&ms);
  static Att a[2]; mkAtt(a[0], tl[k % 3], nl[k / 3], 2); mkAtt(a[1], 3, 2, 1); a[1].i.contentGuid = a[0].i.contentGuid; a[1].i.contentGuid.Data1 ^= 1;
  auto w = CreateCZIWriter(); w->Create(st, nullptr); w->SyncAddAttachment(a[0].i); w->SyncAddAttachment(a[1].i); w->Close();
  auto r = CreateCZIReader(); r->Open(st); char t[9], n[81]; memset(t, 0, 9); memset(n, 0, 81); memcpy(t, a[0].i.contentFileType, 8); memcpy(n, a[0].i.name, 80);
  bool useT = sym_pick(2, "byType"), useN = sym_pick(2, "byName"); bool hit[2] = {false, false};
  r->EnumerateSubset(useT ? t : nullptr, useN ? n : nullptr, [&](int i, const AttachmentInfo& inf) { if (i == 0 || i == 1) { sym_assert(!hit[i], "reported once"); hit[i] = true; checkInfo(inf, a[i]); } else sym_assert(false, "index"); return true; });
  bool m = (!useT || eq(a[1].i.contentFileType, t, 8)) && (!useN || eq(a[1].i.name, n, 80));
  sym_assert(hit[0], "attachment is found by its own type/name"); sym_assert(hit[1] == m, "exactly the matching attachments are reported"); sym_reach("subset");
}
// reservations x number of items
// @job shards=8 time=200
HARNESS(c02_reserve) {
  int k = sym_pick(64, "reserve"), n = sym_pick(4, "n"), md = sym_pick(3, "md"); ms.size = 0; auto st = ref<BigStream>(&ms);
  static Att a[3]; Att* p[3] = {a, a + 1, a + 2}; for (int i = 0; i < n; ++i) { mkAtt(a[i], 3, 1, i + 1); a[i].i.contentGuid.Data1 = 100 + i; }
  GUID g; sym_bytes(&g, sizeof(g), "fileguid"); sym_assume(g.Data1 != 0);
  static Blk b; symInfo(b, 2, true); setPayload(b, 2, 1, 1); static char xml[256]; sym_bytes(xml, 3, "xml"); for (int i = 3; i < 256; ++i) xml[i] = 'a' + i % 20; int len = md == 0 ? 0 : md == 1 ? 3 : 250;
  auto w = CreateCZIWriter(); w->Create(st, options(k, g)); WriteMetadataInfo wi; wi.Clear(); wi.szMetadata = xml; wi.szMetadataSize = len;
  if (md == 2) w->SyncWriteMetadata(wi); w->SyncAddSubBlock(b.i); for (int i = 0; i < n; ++i) w->SyncAddAttachment(a[i].i); if (md == 1) w->SyncWriteMetadata(wi); w->Close();
  auto r = CreateCZIReader(); r->Open(st); checkAtts(*r, p, n); FileHeaderInfo fh = r->GetFileHeaderInfo(); sym_assert(eq(&fh.fileGuid, &g, 16), "file GUID"); checkSub(*r, 0, b); sym_assert(r->GetStatistics().subBlockCount == 1, "sub-block count");
  std::shared_ptr<IMetadataSegment> m; bool none = false; try { m = r->ReadMetadataSegment(); } catch (const LibCZISegmentNotPresent&) { none = true; }
  if (md == 0) sym_assert(none || m == nullptr, "no metadata"); else { sym_assert(m != nullptr, "metadata present"); size_t s; auto d = m->GetRawData(IMetadataSegment::XmlMetadata, &s); sym_assert(s == (size_t)len && eq(d.get(), xml, len), "metadata bytes"); }
  sym_reach("read back");
}
// metadata sizes, attachment of the metadata, rewriting the metadata
// @job shards=8 time=200
HARNESS(c02_metadata) {
  static const int sz[] = {1, 3, 150, 4300}; int k = sym_pick(16, "sizes"), rs = sym_pick(4, "reserve"), na = sym_pick(2, "att") * 2, order = sym_pick(2, "order"); ms.size = 0; auto st = ref<BigStream>(&ms);
  static char x[2][4400]; int len[2] = {sz[k & 3], sz[k >> 2]}; for (int j = 0; j < 2; ++j) { for (int i = 0; i < 4400; ++i) x[j][i] = (char)('a' + (i + j) % 23); sym_bytes(x[j], 1, "xml"); sym_bytes(x[j] + len[j] - 1, 1, "xml"); }
  uint8_t ma[4]; sym_bytes(ma, 2, "mdatt"); static Blk b; symInfo(b, 2, true); setPayload(b, 2, 1, 1); GUID g = {1, 2, 3, {4}};
  auto w = CreateCZIWriter(); w->Create(st, options(rs << 4, g)); WriteMetadataInfo wi; wi.Clear();
  for (int j = 0; j < 2; ++j) { wi.szMetadata = x[j]; wi.szMetadataSize = len[j]; wi.ptrAttachment = ma; wi.attachmentSize = j ? na : 0; w->SyncWriteMetadata(wi); if (order == j) w->SyncAddSubBlock(b.i); } w->Close();
  auto r = CreateCZIReader(); r->Open(st); checkSub(*r, 0, b); auto m = r->ReadMetadataSegment(); sym_assert(m != nullptr, "metadata present");
  size_t s; auto d = m->GetRawData(IMetadataSegment::XmlMetadata, &s); sym_assert(s == (size_t)len[1], "metadata size"); if (s == (size_t)len[1]) sym_assert(eq(d.get(), x[1], len[1]), "the metadata written last is read back");
  d = m->GetRawData(IMetadataSegment::Attachment, &s); sym_assert(s == (size_t)na && (!na || eq(d.get(), ma, na)), "metadata attachment"); sym_reach("read back");
}
