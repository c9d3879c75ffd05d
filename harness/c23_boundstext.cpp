// C23: the text of bounds
// @bounds texts of bounds from templates with up to 4 arbitrary ASCII characters; bounds of up to 3 dimensions with values within small ranges and extreme values
#include "common.h"
#include <climits>
using namespace libCZI; using namespace h; using std::string;
static DimensionIndex D(int i) { return (DimensionIndex)(i + 1); }
static bool ws(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); } static bool dg(char c) { return (c >= '0') & (c <= '9'); }
static bool num(const char*& s, long long* v) { bool neg = *s == '-'; if (neg || *s == '+') ++s; if (!dg(*s)) return false; long long x = 0; while (dg(*s)) { if (x < 100000000000ll) x = x * 10 + (*s - '0'); ++s; } *v = neg ? -x : x; return x <= INT_MAX || (neg && x == (long long)INT_MAX + 1); }
// own reading: dimension, start, colon, size; white space around such groups. neg: a negative size was given (not specified)
static bool read(const char* s, bool* has, long long* st, long long* sz, bool* neg) { static const char* N = "ZCTRSIHVB"; int n = 0; while (ws(*s)) ++s; while (*s) { int d = -1; for (int i = 0; i < 9; ++i) if (*s == N[i] || *s == N[i] + 32) d = i; if (d < 0) return false; ++s; long long a, b; if (!num(s, &a)) return false; if (*s != ':') return false; ++s; if (!num(s, &b)) return false; if (b == 0 || has[d]) return false; if (b < 0) *neg = true; has[d] = true; st[d] = a; sz[d] = b; ++n; while (ws(*s)) ++s; } return n > 0; }
static void chk(const char* s) { bool has[9] = {}, neg = false; long long st[9], sz[9]; bool want = read(s, has, st, sz, &neg), thrown = false; CDimBounds b; try { b = CDimBounds::Parse(s); } catch (LibCZIStringParseException&) { thrown = true; } if (neg && want) { sym_reach("parsed"); return; } sym_assert(thrown == !want, "exactly texts of bounds are accepted"); if (want && !thrown) { bool ok = true; for (int d = 0; d < 9; ++d) { int x = 0, y = 0; bool r = b.TryGetInterval(D(d), &x, &y); ok &= r == has[d] && (!r || (x == st[d] && y == sz[d])); } sym_assert(ok, "the bounds are those of the text"); } sym_reach("parsed"); }
// @job time=200 shards=8
HARNESS(c23_bounds_parse) { static const char* F[24] = {"?0:3", "C?:3", "C0?3", "C0:?", "C0:3?", "?C0:3", "C0:3?T1:2", "C0:3?1:2", "C?1:?", "T-1:1??Z0:1", "C0:3 T1:2?", "??0:3", "C0:2147483647?", "C-2147483648:1", "C2147483648:1", "C0:2147483648", "C99999999999999999999:1", "", " ", "C1:2C3:4", "c+1:+2 b-7:5", "C?5:3", "C0:3T?:2?", "C0:3,T1:1"}; string s; for (const char* p = F[sym_pick(24, "text")]; *p; ++p) { if (*p == '?') { uint8_t c = sym_u8("char"); sym_assume(c > 0 && c < 128); s += (char)c; } else s += *p; } chk(s.c_str()); }
static void rt(const CDimBounds& b) { sym_fmt = 1; string s = Utils::DimBoundsToString(&b); CDimBounds r; bool thrown = false; try { r = CDimBounds::Parse(s.c_str()); } catch (LibCZIStringParseException&) { thrown = true; } sym_assert(!thrown, "the text of bounds can be parsed"); bool ok = true; for (int d = 0; d < 9; ++d) { int x = 0, y = 0, u = 0, v = 0; bool p = b.TryGetInterval(D(d), &x, &y), q = r.TryGetInterval(D(d), &u, &v); ok &= p == q && (!p || (x == u && y == v)); } sym_assert(ok, "the text denotes the bounds"); sym_reach("text"); }
// @job time=200 shards=9
HARNESS(c23_bounds_text) { CDimBounds b; int d = sym_pick(9, "dimension"), k = sym_pick(4, "more"); b.Set(D(d), sym_range(-300, 300, "start"), sym_range(1, 130, "size")); if (k > 0) b.Set(D((d + 4) % 9), sym_range(-12, 12, "start"), 3); if (k > 1) b.Set(D((d + 7) % 9), -5, sym_range(1, 12, "size")); if (k == 3) b.Set(D((d + 1) % 9), INT_MIN, INT_MAX); rt(b); }
