// C06: opening arbitrary bytes is memory-safe and ends in success or an exception
// @bounds file header: all 544 bytes arbitrary, delivered completely or cut off; sub-block directory: segment header arbitrary (all 64-bit sizes, all entry counts), one entry with arbitrary bytes and one dimension entry with arbitrary bytes; one entry with 2 or 3 dimension entries or two entries with one each, where the dimension letter is one of a few; one entry with every number of dimensions
// @bounds logical and stored sizes: equal 32-bit values or a few unequal pairs (the pyramid classification of unequal sizes is floating-point); attachment directory: all entry counts, up to 2 entries with arbitrary bytes
// @bounds both the reader (strict, lax, ignoring size of M) and the reader-writer; afterwards everything that was opened is enumerated
#include "common.h"
using namespace libCZI; using namespace h;
// delivers for each position one of a few prepared pieces; a read of more than there is gets a short read
struct Piece { uint64_t pos; uint8_t* p; uint64_t n; };
struct PieceStream : public IInputOutputStream {
  Piece pc[6]; int n = 0; void add(uint64_t pos, uint8_t* p, uint64_t len) { pc[n].pos = pos; pc[n].p = p; pc[n].n = len; ++n; }
  void Read(uint64_t off, void* pv, uint64_t size, uint64_t* got) override {
    uint64_t m = 0; for (int i = 0; i < n; ++i) if (off == pc[i].pos) { m = size < pc[i].n ? size : pc[i].n; m = sym_concretize(m); if (m) memcpy(pv, pc[i].p, m); break; }
    if (got) *got = m;
  }
  void Write(uint64_t, const void*, uint64_t n, uint64_t* d) override { if (d) *d = n; }
};
static uint8_t hdr[544], dirh[160], body[1200], ath[288], ab[256];
static void fixHeader() { memset(hdr, 0, 544); memcpy(hdr, "ZISRAWFILE", 10); wr64(hdr + 16, 512); wr64(hdr + 24, 512); wr32(hdr + 32, 1); wr64(hdr + 32 + 52, 0x1000); }
template <class R> static void touch(R& r) {
  int n = 0; r.EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { ++n; SubBlockInfo j; sym_assert(r.TryGetSubBlockInfo(k, &j), "info"); sym_assert(!sym_mem_is_undef(&i.logicalRect, sizeof(i.logicalRect)) && !sym_mem_is_undef(&i.mIndex, sizeof(i.mIndex)) && !sym_mem_is_undef(&i.physicalSize, sizeof(i.physicalSize)) && !sym_mem_is_undef(&i.compressionModeRaw, 4), "no uninitialised values are reported"); return true; });
  sym_assert(r.GetStatistics().subBlockCount == n, "statistics count the sub-blocks"); auto p = r.GetPyramidStatistics(); (void)p;
  int a = 0; r.EnumerateAttachments([&](int k, const AttachmentInfo& i) { ++a; AttachmentInfo j; sym_assert(r.TryGetAttachmentInfo(k, &j), "attachment info"); sym_assert(j.name.size() < 80, "name"); sym_assert(i.contentFileType[8] == 0, "type is terminated"); return true; });
  sym_assert(r.GetAttachmentCount() == a, "attachment count"); r.GetFileHeaderInfo();
}
static bool openIt(PieceStream& s, int how) {
  auto st = ref<PieceStream>(&s);
  if (how < 3) { auto r = CreateCZIReader(); ICZIReader::OpenOptions o; o.lax_subblock_coordinate_checks = how == 0; o.ignore_sizem_for_pyramid_subblocks = how == 2; try { r->Open(st, &o); } catch (const std::exception&) { return false; } touch(*r); return true; }
  auto r = CreateCZIReaderWriter(); try { r->Create(st, nullptr); } catch (const std::exception&) { return false; } touch(*r); return true;
}
// @job time=200 shards=2
HARNESS(c06_header) {
  PieceStream s; sym_bytes(hdr, 544, "hdr"); static const int len[] = {0, 1, 543, 544}; s.add(0, hdr, len[sym_pick(4, "len")]); bool ok = openIt(s, sym_pick(2, "how") * 3); if (ok) sym_reach("opened"); else sym_reach("refused");
}
// where attachment directory and sub-block directory point at is arbitrary
static void dims(uint8_t* e, int n) { // n dimension entries with arbitrary content
  int zz = n > 1 ? sym_pick(2, "sizes") : 0;
  for (int k = 0; k < n; ++k) { uint8_t* d = e + 20 * k; sym_bytes(d, 20, "dim"); if (n > 1) d[0] = "XyMcs?"[sym_pick(6, "dimension")]; int z = n > 1 ? 2 * zz : sym_pick(4, "sizes"); if (z == 0) { memcpy(d + 16, d + 8, 4); } else { static const uint32_t a[] = {1, 5, 0}, b[] = {0, 2, 7}; wr32(d + 8, a[z - 1]); wr32(d + 16, b[z - 1]); } }
}
// @job time=250 shards=32
HARNESS(c06_directory) {
  PieceStream s; fixHeader(); sym_bytes(dirh, 160, "dirhdr"); memcpy(dirh, "ZISRAWDIRECTORY\0", 16); s.add(0, hdr, 544); s.add(0x1000, dirh, 160);
  int combo = sym_pick(32, "shape_how"), shape = combo % 8, how = combo / 8, n = 0; sym_bytes(body, 32, "entry"); static const int nd[] = {0, 1, 2, 3};
  if (shape < 4) { dims(body + 32, nd[shape]); n = 32 + 20 * nd[shape]; if (shape > 1) { wr32(body + 28, nd[shape]); body[0] = 'D'; body[1] = 'V'; } } else if (shape == 4) { dims(body + 32, 1); body[32] = "Xz"[sym_pick(2, "dimension")]; sym_bytes(body + 52, 32, "entry"); dims(body + 84, 1); body[84] = "xM"[sym_pick(2, "dimension")]; n = 104; memset(body + 2, 0, 4); memset(body + 54, 0, 4); memset(body + 40, 1, 4); memset(body + 48, 1, 4); body[0] = 'D'; body[1] = 'V'; wr32(body + 28, 1); } else if (shape == 5) { n = 31; } else if (shape == 6) { n = 3; } else { n = 0; }
  s.add(0x1000 + 160, body, n); uint64_t used = rd64(dirh + 24); if (n > 0) sym_assume(used == 128 + (uint64_t)n || used == 0); if (used == 0) sym_assume(rd64(dirh + 16) == 128 + (uint64_t)n || rd64(dirh + 16) < 128 || rd64(dirh + 16) > 5000);
  bool ok = openIt(s, how); if (ok) sym_reach("opened"); else sym_reach("refused");
}
// the number of dimensions
// @job time=200 shards=4
HARNESS(c06_dimcount) {
  PieceStream s; fixHeader(); memset(dirh, 0, 160); memcpy(dirh, "ZISRAWDIRECTORY\0", 16); int cap = sym_pick(2, "cap") ? 46 : 40; wr64(dirh + 24, 128 + 32 + 20 * cap); wr32(dirh + 32, sym_pick(2, "two") + 1); s.add(0, hdr, 544); s.add(0x1000, dirh, 160);
  memset(body, 0, sizeof(body)); body[0] = 'D'; body[1] = 'V'; int dc = sym_i32("dimcount"); wr32(body + 28, dc); for (int k = 0; k < cap; ++k) { body[32 + 20 * k] = "XYCZT"[k % 5]; wr32(body + 32 + 20 * k + 8, 1); wr32(body + 32 + 20 * k + 16, 1); }
  s.add(0x1000 + 160, body, 32 + 20 * cap); bool ok = openIt(s, sym_pick(2, "how") * 3); sym_assert(!ok || (dc >= 0 && dc <= 40), "more dimensions than supported are refused"); if (ok) sym_reach("opened"); else sym_reach("refused");
}
// sizes which cannot be allocated or which are not there
// @job time=200
HARNESS(c06_size) {
  PieceStream s; fixHeader(); sym_bytes(dirh, 160, "dirhdr"); memcpy(dirh, "ZISRAWDIRECTORY\0", 16); memset(body, 0, 64); s.add(0, hdr, 544); s.add(0x1000, dirh, 160); s.add(0x1000 + 160, body, 40); int k = sym_pick(2, "field"); if (k) wr64(dirh + 24, 0); uint64_t used = rd64(dirh + (k ? 16 : 24)); sym_assume(used > 300);
  bool ok = openIt(s, sym_pick(2, "how") * 3); sym_assert(!ok, "a directory which is not completely there is refused"); sym_reach("refused");
}
// @job time=200 shards=4
HARNESS(c06_attachments) {
  PieceStream s; fixHeader(); wr64(hdr + 32 + 72, 0x2000); memset(dirh, 0, 160); memcpy(dirh, "ZISRAWDIRECTORY\0", 16); wr64(dirh + 24, 128); s.add(0, hdr, 544); s.add(0x1000, dirh, 160); s.add(0x1000 + 160, body, 0);
  sym_bytes(ath, 288, "atthdr"); int have = sym_pick(4, "have"); sym_bytes(ab, 256, "entries"); s.add(0x2000, ath, have == 3 ? 200 : 288); s.add(0x2000 + 288, ab, have == 3 ? 0 : 128 * have); int cnt = rd32(ath + 32); sym_assume((cnt <= 2) | (cnt > 100));
  bool ok = openIt(s, sym_pick(2, "how") * 3); if (ok) { sym_assert(have != 3 && cnt <= have, "an attachment directory which is not completely there is refused"); sym_reach("opened"); } else sym_reach("refused");
}
