// C04: the writer rejects duplicates and out-of-bounds coordinates, accepts everything else, and still writes a correct file
// @bounds two sub-blocks: every pair out of 6 dimension masks, all 32-bit coordinates, M-indices (each present or absent), positions (32-bit if neither dimension nor M-index is given); equal sizes or different zoom; duplicates allowed or not
// @bounds three sub-blocks: all M-indices, or without M-index x or y positions k*2^29 and k*2^29+1 over the whole 32-bit range
// @bounds attachments: two with arbitrary GUID, 2-character type and name; bounds: 1..2 bounded dimensions with all starts and sizes, every subset of 3 dimensions in the sub-block, all M bounds
#include "rt.h"
typedef MemStreamT<8192> S4;
static const int kMask[] = {0, 1, 2, 3, 18, 256};
static void simple(Blk& b, int mask, bool mv) { symInfo(b, mask, mv); b.i.logicalWidth = b.i.physicalWidth = 4; b.i.logicalHeight = b.i.physicalHeight = 5; b.i.compressionModeRaw = 0; b.i.PixelType = PixelType::Gray8; b.i.pyramid_type = SubBlockPyramidType::None; }
static bool add(ICziWriter& w, Blk& b, LibCZIWriteException::ErrorType exp, int* which = nullptr) { try { w.SyncAddSubBlock(b.i); return true; } catch (const LibCZIWriteException& e) { if (which) *which = (int)e.GetErrorType(); else sym_assert(e.GetErrorType() == exp, "the error says why"); return false; } }
static bool isDup(const Blk& a, const Blk& b, bool sameZoom) {
  bool m = a.i.mIndexValid ? (b.i.mIndexValid && a.i.mIndex == b.i.mIndex) : (!b.i.mIndexValid && (a.i.x == b.i.x) & (a.i.y == b.i.y));
  return sameZoom & sameCoord(a.i.coordinate, b.i.coordinate) & m;
}
// the file holds exactly the accepted sub-blocks (data sizes are distinct)
static void verify(S4& ms, Blk* b, const bool* ok, int n) {
  auto r = CreateCZIReader(); r->Open(ref<S4>(&ms)); int cnt = 0, want = 0; for (int i = 0; i < n; ++i) want += ok[i];
  r->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { ++cnt; auto s = r->ReadSubBlock(k); const void* q; size_t m; s->DangerousGetRawData(ISubBlock::Data, q, m); int who = (int)m - 1; sym_assert(who >= 0 && who < n && ok[who], "only accepted sub-blocks are in the file"); if (who >= 0 && who < n) { checkInfo(i, b[who]); checkSub(*r, k, b[who]); } return true; });
  sym_assert(cnt == want, "every accepted sub-block is in the file, no rejected one");
}
// @job shards=16 time=200
HARNESS(c04_two) {
  static S4 ms; ms.size = 0; static Blk b[2]; bool allow = sym_pick(2, "allow"); int zoom = sym_pick(2, "zoom");
  for (int i = 0; i < 2; ++i) { simple(b[i], kMask[sym_pick(6, "mask")], sym_pick(2, "mvalid")); setPayload(b[i], 1 + i, i, 0); }
  // positions: free if neither dimension nor M-index is given, otherwise from a small range (they must not matter if an M-index is given)
  for (int i = 0; i < 2; ++i) if (b[i].i.mIndexValid) { b[i].i.x = 10 * i; b[i].i.y = 3; } else if (!(b[i].i.coordinate.GetNumberOfValidDimensions() == 0)) { b[i].i.x = sym_range(0, 1, "x"); b[i].i.y = 3; } else if (sym_pick(2, "axis")) b[i].i.x = 5; else b[i].i.y = 5;
  if (zoom) { b[1].i.logicalWidth *= 2; b[1].i.logicalHeight *= 2; }
  CZIWriterOptions o; o.allow_duplicate_subblocks = allow; auto w = CreateCZIWriter(&o); w->Create(ref<S4>(&ms), nullptr);
  bool ok[2]; ok[0] = add(*w, b[0], LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting); sym_assert(ok[0], "the first sub-block is accepted");
  ok[1] = add(*w, b[1], LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting); bool dup = isDup(b[0], b[1], !zoom);
  sym_assert(ok[1] == (allow | !dup), "a duplicate is rejected unless allowed, anything else accepted"); w->Close(); verify(ms, b, ok, 2); if (!ok[1]) sym_reach("duplicate rejected"); else sym_reach("accepted");
}
// @job shards=8 time=200
HARNESS(c04_three) {
  static S4 ms; ms.size = 0; static Blk b[3]; bool ok[3]; auto w = CreateCZIWriter(); w->Create(ref<S4>(&ms), nullptr); bool useM = sym_pick(2, "m"); bool axis = !useM && sym_pick(2, "axis");
  for (int i = 0; i < 3; ++i) { simple(b[i], 0, useM); setPayload(b[i], 1 + i, 0, 0); b[i].i.logicalHeight = b[i].i.physicalHeight = 5; if (useM) { b[i].i.x = b[i].i.y = i; } else { (axis ? b[i].i.x : b[i].i.y) = 7; (axis ? b[i].i.y : b[i].i.x) = (int32_t)((uint32_t)sym_int(3, "hi") << 29 | (uint32_t)sym_int(1, "lo")); }
    ok[i] = add(*w, b[i], LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting); bool dup = false; for (int j = 0; j < i; ++j) dup |= ok[j] & isDup(b[j], b[i], true); sym_assert(ok[i] == !dup, "exactly the duplicates are rejected"); }
  w->Close(); verify(ms, b, ok, 3); sym_reach("done");
}
// through the reader-writer: a layer-0 sub-block with the same coordinate and M-index is rejected
// @job shards=4 time=200
HARNESS(c04_rw) {
  static S4 ms; ms.size = 0; static Blk b[2]; auto rw = CreateCZIReaderWriter(); rw->Create(ref<S4>(&ms), std::make_shared<CCziReaderWriterInfo>()); bool ok[2] = {true, true};
  for (int i = 0; i < 2; ++i) { simple(b[i], kMask[sym_pick(6, "mask")], true); setPayload(b[i], 1 + i, 0, 0); b[i].i.x = 10 * i; b[i].i.y = 3; }
  rw->SyncAddSubBlock(b[0].i); bool dup = sameCoord(b[0].i.coordinate, b[1].i.coordinate) & (b[0].i.mIndex == b[1].i.mIndex);
  try { rw->SyncAddSubBlock(b[1].i); } catch (const LibCZIReaderWriteException& e) { ok[1] = false; sym_assert(e.GetErrorType() == LibCZIReaderWriteException::ErrorType::AddCoordinateAlreadyExisting, "the error says why"); }
  sym_assert(ok[1] == !dup, "exactly a duplicate is rejected by the reader-writer"); rw->Close(); verify(ms, b, ok, 2); if (dup) sym_reach("rejected"); else sym_reach("accepted");
}
struct A4 { AddAttachmentInfo i; uint8_t d[4]; };
static void mkA(A4& a, int n) { memset(&a.i, 0, sizeof(a.i)); sym_bytes(&a.i.contentGuid, 16, "guid"); for (int k = 0; k < 2; ++k) { a.i.contentFileType[k] = sym_u8("type"); a.i.name[k] = (char)sym_range(0, 127, "name"); } a.i.contentFileType[7] = sym_u8("type"); sym_bytes(a.d, n, "d"); a.i.ptrData = a.d; a.i.dataSize = n; }
static bool strEq(const void* pa, const void* pb, int n) { const uint8_t* a = (const uint8_t*)pa; const uint8_t* b = (const uint8_t*)pb; bool same = true, live = true; for (int k = 0; k < n; ++k) { same &= !live | (a[k] == b[k]); live &= (a[k] != 0); } return same; }
// @job shards=4 time=200
HARNESS(c04_attachment) {
  static S4 ms; ms.size = 0; static A4 a[2]; mkA(a[0], 1); mkA(a[1], 2); bool useRw = sym_pick(2, "readerwriter"), ok = true;
  bool dup = eq(&a[0].i.contentGuid, &a[1].i.contentGuid, 16) & strEq(a[0].i.contentFileType, a[1].i.contentFileType, 8) & strEq(a[0].i.name, a[1].i.name, 3);
  if (useRw) { auto w = CreateCZIReaderWriter(); w->Create(ref<S4>(&ms), std::make_shared<CCziReaderWriterInfo>()); w->SyncAddAttachment(a[0].i); try { w->SyncAddAttachment(a[1].i); } catch (const LibCZIReaderWriteException& e) { ok = false; sym_assert(e.GetErrorType() == LibCZIReaderWriteException::ErrorType::AddAttachmentAlreadyExisting, "the error says why"); } w->Close(); }
  else { auto w = CreateCZIWriter(); w->Create(ref<S4>(&ms), nullptr); w->SyncAddAttachment(a[0].i); try { w->SyncAddAttachment(a[1].i); } catch (const LibCZIWriteException& e) { ok = false; sym_assert(e.GetErrorType() == LibCZIWriteException::ErrorType::AddAttachmentAlreadyExisting, "the error says why"); } w->Close(); }
  sym_assert(ok == !dup, "exactly an attachment with the same GUID, type and name is rejected");
  auto r = CreateCZIReader(); r->Open(ref<S4>(&ms)); int n = 0; bool have[2] = {false, false}; r->EnumerateAttachments([&](int k, const AttachmentInfo&) { ++n; auto at = r->ReadAttachment(k); size_t s; auto p = at->GetRawData(&s); sym_assert(s == 1 || s == 2, "size"); if (s == 1 || s == 2) { have[s - 1] = true; sym_assert(eq(p.get(), a[s - 1].d, s), "attachment content"); } return true; });
  sym_assert(n == (ok ? 2 : 1) && have[0] && have[1] == ok, "the file holds exactly the accepted attachments"); if (ok) sym_reach("accepted"); else sym_reach("rejected");
}
// @job shards=8 time=200
HARNESS(c04_bounds) {
  typedef LibCZIWriteException::ErrorType E; static S4 ms; ms.size = 0; static Blk b; int bm = sym_pick(5, "bounded"), cm = sym_pick(8, "coordinate"), mb = sym_pick(2, "mbounds"); bool mv = sym_pick(2, "mvalid");
  static const int bmask[] = {0, 1, 2, 3, 4}; int bmk = bmask[bm]; CDimBounds db; int st[3], sz[3]; for (int d = 0; d < 3; ++d) if (bmk >> d & 1) { st[d] = sym_i32("start"); sz[d] = sym_i32("size"); sym_assume(sz[d] >= 0); db.Set(kDims[d], st[d], sz[d]); }
  int mmin = sym_i32("mmin"), mmax = sym_i32("mmax"); if (mb) sym_assume(mmin <= mmax); simple(b, cm, mv); setPayload(b, 1, 0, 0);
  std::shared_ptr<CCziWriterInfo> inf = mb ? std::make_shared<CCziWriterInfo>(GUID{1, 2, 3, {4}}, db, mmin, mmax) : std::make_shared<CCziWriterInfo>(GUID{1, 2, 3, {4}}, db);
  bool none = bmk == 0 && sym_pick(2, "nobounds"); if (none) { inf = std::make_shared<CCziWriterInfo>(GUID{1, 2, 3, {4}}); if (mb) inf->SetMIndexBounds(mmin, mmax); }
  auto w = CreateCZIWriter(); w->Create(ref<S4>(&ms), inf); int why = -1; bool ok = add(*w, b, E::AddCoordinateAlreadyExisting, &why);
  bool in = true, missing = false, extra = false; for (int d = 0; d < 3; ++d) { bool B = bmk >> d & 1, C = cm >> d & 1; if (B && !C) missing = true; if (!B && C) extra = true; if (B && C) { int v = 0; b.i.coordinate.TryGetPosition(kDims[d], &v); in &= ((int64_t)v >= st[d]) & ((int64_t)v < (int64_t)st[d] + sz[d]); } }
  bool good = none || (in & !missing & !extra); if (mb) good = good & mv & (b.i.mIndex >= mmin) & (b.i.mIndex <= mmax);
  sym_assert(ok == good, "exactly the sub-blocks inside the bounds are accepted"); if (!ok) sym_assert(why == (int)E::SubBlockCoordinateOutOfBounds || why == (int)E::SubBlockCoordinateInsufficient || why == (int)E::AddCoordinateContainsUnexpectedDimension, "the error says why");
  w->Close(); verify(ms, &b, &ok, 1); if (ok) sym_reach("accepted"); else sym_reach("rejected");
}
