// C05: in-place edits keep everything that was not edited
// @bounds histories of up to 3 edits (thorough: also 4) out of 14 kinds (add small/large sub-block, replace first by smaller/larger, replace last, remove first/last; the same for attachments; write small/large metadata), optionally closing and reopening the reader-writer in between, starting from an empty stream, a file of 2 sub-blocks + attachment + metadata, the same with reserved directories, or a file with one sub-block
// @bounds arbitrary payload bytes, pixel types, compression ids, GUID parts; positions and M-indices within disjoint windows of 128 values per sub-block; size and coordinate fixed per sub-block
#include "rw.h"
static RwStream ms; static Model* mm;
static void history(int n, bool allOps) {
  int start = sym_pick(4, "start"); static Model m; startFile(ms, m, start); auto st = ref<RwStream>(&ms);
  auto rw = CreateCZIReaderWriter(); rw->Create(st); int reopen = sym_pick(n + 1, "reopen");
  for (int i = 0; i < n; ++i) {
    int op = sym_pick(kOps, "op"); if (!edit(*rw, m, op)) return;
    if (reopen == i + 1) { rw->Close(); rw.reset(); rw = CreateCZIReaderWriter(); rw->Create(st); }
  }
  m.check(*rw); rw->Close(); rw.reset();
  auto r = CreateCZIReader(); r->Open(st); m.check(*r); sym_reach("read back");
}
// @job shards=8 time=120
HARNESS(c05_two) { history(2, true); }
// @job shards=8 time=400
HARNESS(c05_three) { history(3, true); }
