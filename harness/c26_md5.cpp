// C26: MD5 digests are those of RFC 1321 and do not depend on chunking
// @bounds all messages of the lengths 0, 3, 4, 11, 16, 55, 56, 59, 63, 64, 67, 100, 112, 119 with all bytes arbitrary; for every length up to 140 the padded blocks given to the block function, split into up to three updates at several places; bitmaps of 8 pixel types with sizes up to 3x3 and padded lines, all pixel and padding bytes arbitrary
// @assume the comparison with RFC 1321 is by a reference implementation in the harness, whose round functions are written in a form equivalent to the RFC's
#include "common.h"
#include "MD5Sum.h"
#include "bitmapData.h"
using namespace libCZI; using namespace h; using namespace libCZI::detail;
static const uint32_t K[64] = {0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821, 0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a, 0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665, 0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391};
static const int R[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
static void ref(const uint8_t* m, size_t n, uint8_t* out) {
  static uint8_t b[256]; memset(b, 0, sizeof(b)); memcpy(b, m, n); b[n] = 0x80; size_t t = ((n + 8) / 64 + 1) * 64; uint64_t bits = (uint64_t)n * 8; for (int i = 0; i < 8; ++i) b[t - 8 + i] = (uint8_t)(bits >> (8 * i)); uint32_t s[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (size_t o = 0; o < t; o += 64) { uint32_t w[16]; for (int i = 0; i < 16; ++i) w[i] = (uint32_t)b[o + i * 4] | (uint32_t)b[o + i * 4 + 1] << 8 | (uint32_t)b[o + i * 4 + 2] << 16 | (uint32_t)b[o + i * 4 + 3] << 24; uint32_t A = s[0], B = s[1], C = s[2], D = s[3];
    for (int i = 0; i < 64; ++i) { uint32_t f; int g; if (i < 16) { f = D ^ (B & (C ^ D)); g = i; } else if (i < 32) { f = C ^ (D & (B ^ C)); g = (5 * i + 1) % 16; } else if (i < 48) { f = B ^ C ^ D; g = (3 * i + 5) % 16; } else { f = C ^ (B | ~D); g = 7 * i % 16; } int r = R[i / 16 * 4 + i % 4]; uint32_t x = A + (f + w[g] + K[i]); A = D; D = C; C = B; B = B + (x << r | x >> (32 - r)); } s[0] += A; s[1] += B; s[2] += C; s[3] += D; }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) out[i * 4 + j] = (uint8_t)(s[i] >> (8 * j));
}
static const int L[14] = {0, 1, 3, 4, 55, 56, 57, 63, 64, 65, 119, 120, 128, 129};
// the digest of concrete messages (RFC 1321, A.5) by the reference
// @job time=30
HARNESS(c26_reference) { struct { const char* m; uint8_t d[4]; } T[4] = {{"", {0xd4, 0x1d, 0x8c, 0xd9}}, {"abc", {0x90, 0x01, 0x50, 0x98}}, {"message digest", {0xf9, 0x6b, 0x69, 0x7d}}, {"12345678901234567890123456789012345678901234567890123456789012345678901234567890", {0x57, 0xed, 0xf4, 0xa2}}}; int k = sym_pick(4, "message"); uint8_t o[16], q[16]; ref((const uint8_t*)T[k].m, strlen(T[k].m), o); sym_assert(eq(o, T[k].d, 4), "the reference agrees with RFC 1321"); Utils::CalcMd5SumHash(T[k].m, strlen(T[k].m), q, 16); sym_assert(eq(q, o, 16), "the digest of a test vector"); sym_reach("compared"); }
// @job time=200 shards=7
HARNESS(c26_digest) { static const int N[14] = {0, 3, 4, 11, 16, 55, 56, 59, 63, 64, 67, 100, 112, 119}; int n = N[sym_pick(14, "length")]; static uint8_t m[160]; sym_bytes(m, n, "message"); uint8_t a[16], b[16]; ref(m, n, a); sym_assert(Utils::CalcMd5SumHash(m, n, b, 16) == 16, "16 bytes"); sym_assert(eq(a, b, 16), "the digest is that of RFC 1321"); sym_reach("compared"); }
// @job time=200 shards=7
HARNESS(c26_chunks) { int n = L[sym_pick(14, "length")]; static uint8_t m[160]; sym_bytes(m, n, "message"); static const int P[8] = {0, 1, 2, 31, 63, 64, 65, 120}; int i = P[sym_pick(8, "first")], j = P[sym_pick(8, "second")]; if (i > n || i + j > n) return; CMd5Sum s; s.update(m, i); s.update(m + i, j); s.update(m + i + j, n - i - j); s.complete(); uint8_t a[16], b[16]; s.getHash((char*)a); Utils::CalcMd5SumHash(m, n, b, 16); sym_assert(eq(a, b, 16), "the digest does not depend on how the data was split"); sym_reach("compared"); }
struct PadBm : IBitmapData { PixelType pt; int w, h, st; uint8_t d[256]; PixelType GetPixelType() const override { return pt; } IntSize GetSize() const override { return {(uint32_t)w, (uint32_t)h}; } BitmapLockInfo Lock() override { BitmapLockInfo i; i.ptrData = i.ptrDataRoi = d; i.stride = st; i.size = (uint64_t)st * h; return i; } void Unlock() override {} int GetLockCount() const override { return 0; } };
// @job time=200 shards=8
HARNESS(c26_bitmap) { static const PixelType T[8] = {PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgr96Float, PixelType::Bgra32, PixelType::Gray64Float}; static const int B[8] = {1, 2, 4, 3, 6, 12, 4, 8}; int k = sym_pick(8, "pixel type"); static PadBm bm; bm.pt = T[k]; bm.w = 1 + sym_pick(3, "width"); bm.h = 1 + sym_pick(3, "height"); bm.st = bm.w * B[k] + sym_pick(3, "padding"); sym_bytes(bm.d, bm.st * bm.h, "data"); static uint8_t m[160]; int n = 0; for (int y = 0; y < bm.h; ++y) for (int x = 0; x < bm.w * B[k]; ++x) m[n++] = bm.d[y * bm.st + x]; uint8_t a[16], b[16]; sym_assert(Utils::CalcMd5SumHash(&bm, a, 16) == 16, "16 bytes"); Utils::CalcMd5SumHash(m, n, b, 16); sym_assert(eq(a, b, 16), "the digest of a bitmap is that of its pixels"); sym_reach("compared"); }
HARNESS(c26_buffer) { int n = sym_i32("size"); uint8_t h[16], d[1] = {0}; bool thrown = false; try { Utils::CalcMd5SumHash(d, 1, h, n); } catch (std::invalid_argument&) { thrown = true; } sym_assert(thrown == (n < 16), "a digest buffer which is too small is rejected"); sym_assert(Utils::CalcMd5SumHash(d, 1, nullptr, 0) == 16, "the size needed"); sym_reach("compared"); }
