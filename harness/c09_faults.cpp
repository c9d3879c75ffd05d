// C09: stream faults surface as errors, never as wrong data or silent loss
// @bounds reader: documents with 0..2 sub-blocks, an attachment and metadata (with and without reservations), opened and read completely, with a failing read or a read which is short by 1, 16 or all bytes at any position; the same for the single-channel tile accessor on two tiles
// @bounds writer: a document with two sub-blocks, an attachment and metadata, with a failing or short write at any position, the failed operation being repeated or not; reader-writer: every edit operation (and every pair of an addition and an edit) on a file with two sub-blocks, an attachment and metadata or on a new file, with a failing or short write or read at any position
// @assume a short read at offset 0 of a reader-writer means that the file is new (documented); what was being replaced in place when a write failed is not specified
#include "rw.h"
static RwStream ms;
static void arm(int kind, int k, bool wr) { ms.reads = ms.writes = 0; ms.faulted = false; ms.failRead = ms.failWrite = ms.shortRead = ms.shortWrite = -1; ms.counting = true; static const uint64_t by[] = {0, 1, 16, 1000000}; ms.shortBy = by[kind]; (wr ? (kind == 0 ? ms.failWrite : ms.shortWrite) : (kind == 0 ? ms.failRead : ms.shortRead)) = k; }
static bool hit(int, bool) { return ms.faulted; } static void disarm() { ms.failRead = ms.failWrite = ms.shortRead = ms.shortWrite = -1; }
// @job time=150 shards=4
HARNESS(c09_reader) {
  int start = 1 + sym_pick(3, "start"), kind = sym_pick(4, "fault"), k = sym_pick(24, "position"); static Model m; m = Model(); disarm(); startFile(ms, m, start); arm(kind, k, false); auto r = CreateCZIReader(); bool open = false, thrown = false;
  try { r->Open(ref<RwStream>(&ms)); open = true; m.check(*r); } catch (std::exception&) { thrown = true; }
  bool h = hit(k, false); disarm(); if (!h) sym_assert(!thrown, "no error without a fault"); if (h && kind == 0) sym_assert(thrown, "a failing read is reported"); sym_reach(thrown ? "error" : h ? "not needed" : "no fault"); if (open) { m.check(*r); sym_reach("afterwards"); } else { r->Open(ref<RwStream>(&ms)); m.check(*r); sym_reach("opened again"); }
}
// @job time=150 shards=4
HARNESS(c09_writer) {
  int kind = sym_pick(4, "fault"), k = sym_pick(44, "position"), res = sym_pick(2, "reservations"); bool again = sym_pick(2, "repeat"); static Model m; m = Model(); disarm(); ms.size = 0; m.guid = GUID{7, 8, 9, {1, 2, 3, 4, 5, 6, 7, 8}}; m.guidKnown = true; auto o = std::make_shared<CCziWriterInfo>(m.guid); if (res) { o->SetReservedSizeForAttachmentsDirectory(true, 2); o->SetReservedSizeForSubBlockDirectory(true, 3); o->SetReservedSizeForMetadataSegment(true, 100); }
  m.newSub(0, 40); m.newSub(1, 5); m.newAtt(0, 40); m.newMd(50); arm(kind, k, true); auto w = CreateCZIWriter(); int bad = -1;
  for (int s = 0; s < 6; ++s) for (int t = 0; t < 2; ++t) {
    bool thrown = false, before = hit(k, true); try { switch (s) { case 0: w->Create(ref<RwStream>(&ms), o); break; case 1: w->SyncAddSubBlock(m.sb[0].b.i); break; case 2: w->SyncAddAttachment(m.at[0].a.i); break; case 3: w->SyncAddSubBlock(m.sb[1].b.i); break; case 4: w->SyncWriteMetadata(m.mdInfo()); break; case 5: w->Close(); break; } } catch (std::exception&) { thrown = true; }
    sym_assert(thrown == (!before && hit(k, true)), "an error exactly if a write of this operation failed or was short"); if (!thrown) break; bad = s; if (s == 0 || s == 5) { sym_reach("not created or not closed"); return; } if (!again) { if (s == 1) m.sb[0].alive = false; if (s == 2) m.at[0].alive = false; if (s == 3) m.sb[1].alive = false; if (s == 4) m.igMd = true; break; }
  }
  disarm(); auto r = CreateCZIReader(); r->Open(ref<RwStream>(&ms)); m.check(*r); sym_reach(bad < 0 ? "no fault" : again ? "repeated" : "left out");
}
// a failing read or a failing or short write is an error; a short read is one if the data is needed
static void same(bool thrown, bool fault, bool strict) { if (!fault) sym_assert(!thrown, "no error without a fault"); else if (strict) sym_assert(thrown, "a failing read or write or a short write is reported"); }
static void rw(int start, int op1, int op2, int kind, int k, bool wr) {
  static Model m; m = Model(); disarm(); startFile(ms, m, start); arm(kind, k, wr); auto rw = CreateCZIReaderWriter(); bool thrown = false;
  try { rw->Create(ref<RwStream>(&ms)); } catch (std::exception&) { thrown = true; } same(thrown, hit(k, wr), wr || kind == 0); if (thrown) { sym_reach("not opened"); return; }
  for (int s = 0; s < 2; ++s) { int op = s == 0 ? op1 : op2; if (op < 0) continue; static Model old; old = m; bool before = hit(k, wr), done = false; try { done = edit(*rw, m, op); } catch (std::exception&) { thrown = true; } if (!thrown && !done) { sym_reach("not applicable"); return; } bool h = hit(k, wr) && !before; same(thrown, h, wr || kind == 0);
    if (thrown) { // everything but the item concerned is as before; an item which could not be added is not there
      int ds = -1, da = -1; for (int i = 0; i < 8; ++i) { if (old.sb[i].alive || m.sb[i].alive) if (old.sb[i].alive != m.sb[i].alive) ds = i; if (old.at[i].alive != m.at[i].alive) da = i; }
      bool add = op == 0 || op == 1 || op == 7 || op == 13; if (op <= 1) m.sb[ds].alive = false; if (op == 7 || op == 13) m.at[da].alive = false; if (!add) { if (op >= 2 && op <= 6) { int a = -1, b = -1; for (int i = 0; i < 8; ++i) if (old.sb[i].alive) { if (a < 0) a = i; b = i; } int t = op == 4 || op == 6 ? b : a; m.igSub = t; m.sb[t].alive = false; } else if (op >= 8 && op <= 10) { int c = -1, d = -1; for (int i = 0; i < 8; ++i) if (old.at[i].alive) { if (c < 0) c = i; d = i; } int t = op == 9 ? d : c; m.igAtt = t; m.at[t].alive = false; } else m.igMd = true; }
      disarm(); m.check(*rw); sym_reach("error"); break; } }
  bool before = hit(k, wr), cl = false; try { rw->Close(); } catch (std::exception&) { cl = true; } if (!thrown) same(cl, hit(k, wr) && !before, wr || kind == 0); else sym_assert(!cl, "closing succeeds"); if (cl) { sym_reach("not closed"); return; }
  disarm(); auto r = CreateCZIReader(); r->Open(ref<RwStream>(&ms)); m.check(*r); sym_reach(thrown ? "closed after an error" : "closed");
}
// @job time=200 shards=7
HARNESS(c09_edit) { int op = sym_pick(kOps, "operation"), start = sym_pick(2, "start"), kind = sym_pick(3, "fault"), k = sym_pick(20, "position"); bool wr = sym_pick(2, "write"); if (!wr && kind && k == 0) return; rw(start, op, -1, kind, k, wr); }
// @job time=200 shards=7
HARNESS(c09_edit2) { int op = sym_pick(kOps, "operation"), first = sym_pick(2, "first"), kind = sym_pick(2, "fault"), k = sym_pick(26, "position"); bool wr = sym_pick(2, "write"); if (!wr && kind && k == 0) return; rw(1, first ? 7 : 0, op, kind, k, wr); }
// @job time=100
HARNESS(c09_accessor) {
  int kind = sym_pick(4, "fault"), k = sym_pick(10, "position"), what = sym_pick(2, "what"); static Model m; m = Model(); disarm(); startFile(ms, m, 0); auto w = CreateCZIWriter(); w->Create(ref<RwStream>(&ms), std::make_shared<CCziWriterInfo>()); uint8_t px[2][4]; for (int i = 0; i < 2; ++i) { sym_bytes(px[i], 4, "px"); AddSubBlockInfoMemPtr a; a.Clear(); a.coordinate.Set(DimensionIndex::C, 0); a.mIndexValid = true; a.mIndex = i; a.x = 2 * i; a.y = 0; a.logicalWidth = a.physicalWidth = a.logicalHeight = a.physicalHeight = 2; a.PixelType = PixelType::Gray8; a.SetCompressionMode(CompressionMode::UnCompressed); a.ptrData = px[i]; a.dataSize = 4; w->SyncAddSubBlock(a); } w->Close();
  auto r = CreateCZIReader(); r->Open(ref<RwStream>(&ms)); arm(kind, k, false); CDimCoordinate pl{{DimensionIndex::C, 0}}; std::shared_ptr<IBitmapData> b; bool thrown = false; auto acc = r->CreateSingleChannelTileAccessor();
  try { if (what) { ISingleChannelTileAccessor::Options o; o.Clear(); b = acc->Get(PixelType::Gray8, IntRect{0, 0, 4, 2}, &pl, &o); } else { auto bb = GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(PixelType::Gray8, 4, 2); try { acc->Get(bb.get(), 0, 0, &pl, nullptr); b = bb; } catch (...) { sym_assert(bb->GetLockCount() == 0, "the bitmap is not locked"); throw; } } } catch (std::exception&) { thrown = true; }
  bool h = hit(k, false); if (!h) sym_assert(!thrown, "no error without a fault"); if (h && kind == 0) sym_assert(thrown, "a failing read is reported"); if (!thrown) { ScopedBitmapLockerSP l{b}; bool ok = true; for (int y = 0; y < 2; ++y) for (int x = 0; x < 4; ++x) ok &= ((uint8_t*)l.ptrDataRoi)[y * l.stride + x] == px[x / 2][y * 2 + x % 2]; sym_assert(ok, "the pixels are right"); } sym_reach(thrown ? "error" : "composed");
}
