// C03: segments of a written file are well-formed and never overlap
// @bounds writer: 0..3 sub-blocks with payload sizes 0..70 (all residues modulo 32) plus metadata/attachment blobs, 0..3 attachments, metadata absent/short/long and written up to twice, all combinations of reserving the two directories and the metadata segment (off, too small, sufficient, default)
// @bounds reader-writer: histories of up to 3 edits of 14 kinds from 4 starting files, optionally closed and reopened in between (see C05); arbitrary payloads
#include "rw.h"
static RwStream ms;
// @job shards=8 time=150
HARNESS(c03_writer) {
  int k = sym_pick(64, "reserve"), n = sym_pick(4, "subblocks"), na = sym_pick(4, "attachments"), md = sym_pick(4, "metadata"); ms.size = 0; static Model m;
  auto o = std::make_shared<CCziWriterInfo>(GUID{1, 2, 3, {4}}); int a = k & 3, s = k >> 2 & 3, t = k >> 4 & 3;
  if (a) o->SetReservedSizeForAttachmentsDirectory(true, a == 1 ? 1 : a == 2 ? 2 : 0); if (s) o->SetReservedSizeForSubBlockDirectory(true, s == 1 ? 1 : s == 2 ? 3 : 0); if (t) o->SetReservedSizeForMetadataSegment(true, t == 1 ? 1 : t == 2 ? 200 : 0);
  auto w = CreateCZIWriter(); static MemStreamT<65536> big; big.size = 0; w->Create(ref<MemStreamT<65536>>(&big), o); if (md >= 2) { m.newMd(md == 2 ? 5 : 300); w->SyncWriteMetadata(m.mdInfo()); }
  for (int i = 0; i < n; ++i) { m.newSub(i, i * 31, i); w->SyncAddSubBlock(m.sb[i].b.i); } for (int i = 0; i < na; ++i) { m.newAtt(i, i * 33); w->SyncAddAttachment(m.at[i].a.i); }
  if (md == 1 || md == 3) { m.newMd(md == 1 ? 5 : 100); w->SyncWriteMetadata(m.mdInfo()); } w->Close(); static Walk wk; walkFile(big, wk, true, n, na); sym_reach("walked");
}
// @job shards=4 time=100
HARNESS(c03_sizes) {
  int sz = sym_pick(71, "size"), mt = sym_pick(3, "meta"); ms.size = 0; static Model m; auto w = CreateCZIWriter(); w->Create(ref<RwStream>(&ms), nullptr);
  m.newSub(0, sz, mt * 7); w->SyncAddSubBlock(m.sb[0].b.i); m.newAtt(0, sz); w->SyncAddAttachment(m.at[0].a.i); m.newMd(sz + 1); w->SyncWriteMetadata(m.mdInfo()); m.newSub(1, 3); w->SyncAddSubBlock(m.sb[1].b.i); w->Close();
  static Walk wk; walkFile(ms, wk, true, 2, 1); sym_assert(wk.n == 7, "nothing but the expected segments"); sym_reach("walked");
}
static void history(int n) {
  int start = sym_pick(4, "start"); static Model m; startFile(ms, m, start); auto st = ref<RwStream>(&ms); auto rw = CreateCZIReaderWriter(); rw->Create(st); int reopen = sym_pick(n + 1, "reopen");
  for (int i = 0; i < n; ++i) { int op = sym_pick(kOps, "op"); if (!edit(*rw, m, op)) return; if (reopen == i + 1) { rw->Close(); rw.reset(); rw = CreateCZIReaderWriter(); rw->Create(st); } }
  rw->Close(); rw.reset(); static Walk wk; walkFile(ms, wk, reopen == 0, m.subs(), m.atts()); sym_reach("walked");
}
// @job shards=8 time=60
HARNESS(c03_rw_two) { history(2); }
// @job shards=8 time=300
HARNESS(c03_rw_three) { history(3); }
