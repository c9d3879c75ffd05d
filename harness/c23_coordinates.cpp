// C23: plane coordinates and bounds behave as values and survive text conversion
// @bounds coordinates and bounds over all 9 dimensions with arbitrary int values and every subset of up to 9 dimensions (set, overwritten, cleared); comparison of any three coordinates over 3 dimensions; text of every coordinate with up to 3 dimensions and values of any number of digits in a range of 12 bits, and of the extreme ints; parsing of all strings of up to 4 arbitrary characters and of longer ones from 14 patterns; bounds of up to 3 dimensions with any start and sizes 1..3
#include "common.h"
#include <climits>
using namespace libCZI; using namespace h;
static DimensionIndex D(int i) { return (DimensionIndex)(i + 1); }
// set, overwrite and clear in any order
// @job time=100 shards=3
HARNESS(c23_values) { CDimCoordinate c; CDimBounds b; bool has[9] = {}; int v[9], z[9]; for (int i = 0; i < 4; ++i) { int op = sym_pick(4, "operation"), d = op == 3 ? 0 : sym_pick(i < 2 ? 9 : 3, "dimension"); if (op < 2) { int x = sym_i32("value"), y = sym_i32("size"); c.Set(D(d), x); b.Set(D(d), x, y); has[d] = true; v[d] = x; z[d] = y; } else if (op == 2) { c.Clear(D(d)); b.Clear(D(d)); has[d] = false; } else { c.Clear(); b.Clear(); for (auto& x : has) x = false; } }
  CDimCoordinate c2(&c), c3 = c; CDimBounds b2(&b); int n = 0; bool ok = true; for (int d = 0; d < 9; ++d) { n += has[d]; for (const CDimCoordinate* p : {&c, &c2, &c3}) { int x = 0; bool r = p->TryGetPosition(D(d), &x); ok &= r == has[d] && p->IsValid(D(d)) == has[d]; if (r) ok &= x == v[d]; } for (const CDimBounds* p : {&b, &b2}) { int x = 0, y = 0; bool r = p->TryGetInterval(D(d), &x, &y); ok &= r == has[d] && p->IsValid(D(d)) == has[d]; if (r) ok &= (x == v[d]) & (y == z[d]); } } sym_assert(ok, "exactly the values set are returned, by the object and its copies"); sym_assert(c.GetValidDimensionsCount() == n && c.GetNumberOfValidDimensions() == n && b.IsEmpty() == (n == 0), "the number of valid dimensions"); int m = 0; bool e = true; c.EnumValidDimensions([&](DimensionIndex d, int x) { e &= has[(int)d - 1] && x == v[(int)d - 1]; ++m; return true; }); b.EnumValidDimensions([&](DimensionIndex d, int x, int y) { e &= has[(int)d - 1] && x == v[(int)d - 1] && y == z[(int)d - 1]; ++m; return true; }); sym_assert(e && m == 2 * n, "the enumeration delivers each dimension once"); sym_reach("values"); }
struct C3 { CDimCoordinate c; int mask; int v[3]; }; static void mk(C3& x, int mask) { static const int d[3] = {0, 4, 8}; x.mask = mask; for (int i = 0; i < 3; ++i) if (mask >> i & 1) { x.v[i] = sym_i32("value"); x.c.Set(D(d[i]), x.v[i]); } }
// @job time=100 shards=8
HARNESS(c23_order) { C3 a, b, c; mk(a, sym_pick(8, "dimensions")); mk(b, sym_pick(8, "dimensions")); mk(c, sym_pick(8, "dimensions")); int ab = Utils::Compare(&a.c, &b.c), ba = Utils::Compare(&b.c, &a.c), bc = Utils::Compare(&b.c, &c.c), ac = Utils::Compare(&a.c, &c.c); bool same = a.mask == b.mask; for (int i = 0; i < 3; ++i) if ((a.mask & b.mask) >> i & 1) same &= a.v[i] == b.v[i]; sym_assert((ab == 0) == same, "equal exactly if the same values for the same dimensions"); sym_assert((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), "antisymmetric"); if (ab <= 0 && bc <= 0) { sym_assert(ac <= 0, "transitive"); if (ab < 0 || bc < 0) sym_assert(ac < 0, "transitive"); } sym_assert(Utils::Compare(&a.c, &a.c) == 0, "reflexive"); sym_assert(Utils::HasSameDimensions(&a.c, &b.c) == (a.mask == b.mask), "same dimensions"); sym_reach("compared"); }
// text and back
static void rt(const CDimCoordinate& c) { sym_fmt = 1; std::string s = Utils::DimCoordinateToString(&c); CDimCoordinate r; sym_assert(Utils::StringToDimCoordinate(s.c_str(), &r), "the text of a coordinate can be parsed"); bool ok = true; for (int d = 0; d < 9; ++d) { int x = 0, y = 0; bool p = c.TryGetPosition(D(d), &x), q = r.TryGetPosition(D(d), &y); ok &= p == q; if (p && q) ok &= x == y; } sym_assert(ok, "the text parses back to the same coordinate"); sym_reach("parsed"); }
// @job time=200 shards=9
HARNESS(c23_text) { CDimCoordinate c; int d = sym_pick(9, "dimension"), k = sym_pick(3, "more"); c.Set(D(d), sym_range(-2047, 2047, "value")); if (k > 0) c.Set(D((d + 4) % 9), sym_range(-100, 100, "value")); if (k > 1) c.Set(D((d + 7) % 9), sym_range(0, 12, "value")); rt(c); }
HARNESS(c23_extremes) { static const int V[8] = {0, -1, 9, 10, INT_MAX, INT_MIN, INT_MIN + 1, 1000000000}; CDimCoordinate c; for (int d = 0; d < 9; d += 3) { int k = sym_pick(9, "value"); if (k < 8) c.Set(D(d), V[k]); } rt(c); }
// parsing: an independent recogniser. Separators: blank, tab, comma, semicolon; between dimension and number, and sign and number: blank, tab
static bool sep(char c) { return (c == ' ') | (c == '\t') | (c == ',') | (c == ';'); } static bool bl(char c) { return (c == ' ') | (c == '\t'); }
static bool parse(const char* s, bool* has, long long* v) { static const char* N = "ZCTRSIHVB"; while (*s) { while (sep(*s)) ++s; int d = -1; for (int i = 0; i < 9; ++i) if (*s == N[i] || *s == N[i] + 32) d = i; if (d < 0) return false; ++s; while (bl(*s)) ++s; bool neg = false; if (*s == '-' || *s == '+') { neg = *s == '-'; ++s; while (bl(*s)) ++s; } if (*s < '0' || *s > '9') return false; long long x = 0; for (; *s >= '0' && *s <= '9'; ++s) x = x * 10 + (*s - '0'); if (neg) x = -x; if (x > INT_MAX || x < INT_MIN || has[d]) return false; has[d] = true; v[d] = x; while (sep(*s)) ++s; } return true; }
static void chk(const char* s) { bool has[9] = {}; long long v[9]; bool want = parse(s, has, v); CDimCoordinate c; bool thrown = false, got = Utils::StringToDimCoordinate(s, &c); try { CDimCoordinate::Parse(s); } catch (LibCZIStringParseException&) { thrown = true; } sym_assert(got == want && thrown == !want, "exactly the well-formed strings are accepted"); if (!got) { sym_reach("rejected"); return; } bool ok = true; for (int d = 0; d < 9; ++d) { int x = 0; bool r = c.TryGetPosition(D(d), &x); ok &= r == has[d]; if (r && has[d]) ok &= x == v[d]; } sym_assert(ok, "the coordinate is the one written"); sym_reach("parsed"); }
// @job time=200 shards=1
HARNESS(c23_parse) { char s[8]; int n = sym_pick(5, "length"); for (int i = 0; i < n; ++i) { s[i] = (char)sym_u8("char"); sym_assume(s[i] != 0); } s[n] = 0; chk(s); }
// @job time=200 shards=7
HARNESS(c23_patterns) { static const char* F[14] = {"C9T9", "c99 z9", "C9,T9;Z9", "C-9B+9", "C2147483699", "C-2147483699", "C+ 99", "C99C9", " C9", "C9 ", "C0009", "C9?", "S9H9V9R9", "C99999"}; int k = sym_pick(14, "pattern"); char s[32]; int n = 0; for (const char* f = F[k]; *f; ++f) { if (*f == '9') s[n] = '0' + (char)sym_range(0, 9, "digit"); else if (*f == '?') { s[n] = (char)sym_u8("char"); sym_assume(s[n] != 0); } else s[n] = *f; ++n; } s[n] = 0; chk(s); }
// all coordinates of a bound
// @job time=200 shards=8
HARNESS(c23_enumerate) { int m = sym_pick(8, "dimensions"), st[3], sz[3] = {1, 1, 1}; CDimBounds b; static const int d[3] = {0, 2, 8}; int tot = 1; for (int i = 0; i < 3; ++i) { st[i] = 0; if (m >> i & 1) { sz[i] = 1 + sym_pick(3, "size"); st[i] = sym_range(-1000, 1000, "start"); b.Set(D(d[i]), st[i], sz[i]); tot *= sz[i]; } } int seen[27] = {}, n = 0, stop = sym_pick(3, "stop") == 0 ? 2 : 100; bool ok = true; bool r = Utils::EnumAllCoordinates(b, [&](uint64_t no, const CDimCoordinate& c) { ok &= no == (uint64_t)n; ++n; int ix = 0, mul = 1; for (int i = 0; i < 3; ++i) { int x = 0; bool h = c.TryGetPosition(D(d[i]), &x); ok &= h == (bool)(m >> i & 1); if (h) { int o = -1; for (int k = 0; k < sz[i]; ++k) if (x == st[i] + k) o = k; if (o < 0) { ok = false; o = 0; } ix += mul * o; mul *= sz[i]; } } ++seen[ix]; return n < stop; }); if (m == 0) tot = 0; sym_assert(ok, "only coordinates in the bounds are delivered, numbered consecutively"); sym_assert(n == (tot < stop ? tot : stop) && r == (tot < stop), "as many as there are, unless stopped"); if (n == tot) { bool once = true; for (int i = 0; i < tot; ++i) once &= seen[i] == 1; sym_assert(once, "each coordinate exactly once"); } sym_reach("enumerated"); }
// characters of dimensions
HARNESS(c23_chars) { char ch = (char)sym_u8("char"); DimensionIndex d = Utils::CharToDimension(ch); if (d != DimensionIndex::invalid) { char b = Utils::DimensionToChar(d); sym_assert(b == ch || b + 32 == ch, "the dimension has this character"); } int i = sym_pick(9, "dimension"); sym_assert(Utils::CharToDimension(Utils::DimensionToChar(D(i))) == D(i), "the character of a dimension denotes it"); sym_reach("chars"); }
