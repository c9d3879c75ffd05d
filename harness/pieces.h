// A stream made of a few prepared pieces; whatever lies outside of them is not there (short read).
#pragma once
#include "common.h"
using namespace libCZI; using namespace h;
struct Piece { uint64_t pos; uint8_t* p; uint64_t n; };
struct PieceStream : public IInputOutputStream {
  Piece pc[8]; int n = 0; int reads = 0; void add(uint64_t pos, uint8_t* p, uint64_t len) { pc[n].pos = pos; pc[n].p = p; pc[n].n = len; ++n; }
  void Read(uint64_t off, void* pv, uint64_t size, uint64_t* got) override {
    ++reads; uint64_t m = 0;
    for (int i = 0; i < n; ++i) if (off >= pc[i].pos && off - pc[i].pos < pc[i].n) { uint64_t o = sym_concretize(off - pc[i].pos), av = pc[i].n - o; m = size < av ? size : av; m = sym_concretize(m); if (m) memcpy(pv, pc[i].p + o, m); break; }
    if (got) *got = m;
  }
  void Write(uint64_t, const void*, uint64_t n, uint64_t* d) override { if (d) *d = n; }
};
// a minimal document: header, directory with one sub-block entry (given), optionally attachment directory and metadata position
struct MiniDoc {
  uint8_t hdr[544], dirh[160], body[32 + 20 * 41], ath[288], ab[128];
  static const uint64_t kDir = 0x1000, kSub = 0x3000, kAtt = 0x4000, kMeta = 0x5000, kAttDir = 0x2000;
  int dims = 0;
  void dim(char c, int start, int size, int stored) { uint8_t* d = body + 32 + 20 * dims; memset(d, 0, 20); d[0] = c; wr32(d + 4, start); wr32(d + 8, size); wr32(d + 16, stored); ++dims; }
  void init() { memset(hdr, 0, 544); memcpy(hdr, "ZISRAWFILE", 10); wr64(hdr + 16, 512); wr64(hdr + 24, 512); wr32(hdr + 32, 1); wr64(hdr + 32 + 52, kDir); memset(dirh, 0, 160); memcpy(dirh, "ZISRAWDIRECTORY\0", 16); memset(body, 0, sizeof(body)); body[0] = 'D'; body[1] = 'V'; wr64(body + 6, kSub); dims = 0; memset(ath, 0, 288); memcpy(ath, "ZISRAWATTDIR", 12); memset(ab, 0, 128); ab[0] = 'A'; ab[1] = '1'; wr64(ab + 12, kAtt); }
  void finish(PieceStream& s, bool att, bool meta) { wr32(body + 28, dims); int n = 32 + 20 * dims; wr64(dirh + 16, 128 + n); wr64(dirh + 24, 128 + n); wr32(dirh + 32, 1); if (att) { wr64(hdr + 32 + 72, kAttDir); wr32(ath + 32, 1); s.add(kAttDir, ath, 288); s.add(kAttDir + 288, ab, 128); } if (meta) wr64(hdr + 32 + 60, kMeta); s.add(0, hdr, 544); s.add(kDir, dirh, 160); s.add(kDir + 160, body, n); }
};
