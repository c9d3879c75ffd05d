// C26: MD5 digests (buffers of any size)
// @bounds all buffers of any multiple of 64 bytes up to 2^50 bytes, at any position of the message which is a multiple of 64
// @assume the block function is replaced by one which records what it was given; the data itself is never read
#include "common.h"
#include "MD5Sum.h"
#include <cstdint>
namespace { bool record; uint8_t rec[512]; size_t nrec; int calls; uint64_t total; const void* at; bool cont; }
namespace libCZI { namespace detail { const std::uint8_t* CMd5Sum::md5_transform(md5_context*, const void* data, std::uintmax_t size) { if (record) { memcpy(rec + nrec, data, size); nrec += size; } if (calls++) cont &= data == at; else at = data; total += size; at = (const uint8_t*)data + size; return (const uint8_t*)data + size; } } }
using namespace libCZI; using namespace libCZI::detail;
// @job time=100
HARNESS(c26_large) { static uint8_t d[64]; CMd5Sum s; cont = true; int pre = sym_pick(3, "updates before"); for (int i = 0; i < pre; ++i) s.update(d, 64); calls = 0; total = 0; cont = true; uint64_t n = (uint64_t)sym_int(44, "blocks") * 64; s.update((const void*)d, n); sym_assert(total == n && cont, "every block of the buffer goes into the digest, exactly once"); sym_reach("updated"); }
// padding, for every length
// @job time=100 shards=4
HARNESS(c26_padding) { record = true; nrec = 0; int n = sym_pick(141, "length"), k = sym_pick(3, "split"); static uint8_t m[160], e[256]; sym_bytes(m, n, "message"); CMd5Sum s; if (k == 0) s.update(m, n); else { int c = k == 1 ? n / 2 : n > 70 ? 70 : n; s.update(m, c); s.update(m + c, n - c); } s.complete(); memset(e, 0, sizeof(e)); memcpy(e, m, n); e[n] = 0x80; size_t t = ((size_t)n + 8) / 64 * 64 + 64; e[t - 8] = (uint8_t)(n * 8); e[t - 7] = (uint8_t)(n * 8 >> 8); sym_assert(nrec == t && h::eq(rec, e, t), "the blocks are those of the padded message"); sym_reach("updated"); }
