// C24: index sets contain exactly the numbers their text describes
// @bounds all strings of up to 5 arbitrary wide characters; strings of up to 13 characters made of two numbers of up to 4 arbitrary digits (up to 11 digits with the last three arbitrary, around the limits of int) each with optional signs, of 'inf' in either place, and of two or three such parts; membership for all int values
#include "common.h"
#include <climits>
using namespace std; using namespace libCZI;
// the grammar, written down independently. 0: not an index set; 1: described (the set is [lo, hi]); 2: described only if white space is allowed everywhere (may be rejected)
static bool ws(wchar_t c) { return (c == L' ') | ((c >= 9) & (c <= 13)); }
static bool dig(wchar_t c) { return (c >= L'0') & (c <= L'9'); }
static int num(const wchar_t*& p, const wchar_t* e, long long& v) { int r = 1; bool neg = false; if (p < e && (*p == L'-' || *p == L'+')) { neg = *p == L'-'; ++p; while (p < e && ws(*p)) { ++p; r = 2; } } if (e - p >= 3 && p[0] == L'i' && p[1] == L'n' && p[2] == L'f') { p += 3; v = neg ? (long long)INT_MIN : INT_MAX; return r; } if (p == e || !dig(*p)) return 0; v = 0; for (; p < e && dig(*p); ++p) v = v * 10 + (*p - L'0'); if (neg) v = -v; if (v > INT_MAX || v < INT_MIN) return 0; return r; }
static int part(const wchar_t* p, const wchar_t* e, long long& lo, long long& hi) { while (p < e && (*p == L' ' || *p == L'\t')) ++p; while (p < e && (e[-1] == L' ' || e[-1] == L'\t')) --e; int r = num(p, e, lo); if (!r) return 0; while (p < e && ws(*p)) { ++p; r = 2; } if (p == e) { hi = lo; return r; } if (*p != L'-') return 0; ++p; while (p < e && ws(*p)) { ++p; r = 2; } int q = num(p, e, hi); if (!q) return 0; if (q == 2) r = 2; while (p < e && ws(*p)) { ++p; r = 2; } if (p != e) return 0; return lo > hi ? 0 : r; }
static void check(const wchar_t* s, int n) {
  wstring t(s, n); shared_ptr<IIndexSet> set; bool rejected = false; try { set = Utils::IndexSetFromString(t); } catch (LibCZIStringParseException&) { rejected = true; }
  long long lo[8], hi[8]; int k = 0, r = 1; const wchar_t *p = s, *e = s + n; for (;;) { const wchar_t* q = p; while (q < e && *q != L',') ++q; if (q > p) { int x = part(p, q, lo[k], hi[k]); if (x == 0) { r = 0; break; } if (x == 2) r = 2; ++k; } if (q == e) break; p = q + 1; }
  if (r == 0) { sym_assert(rejected, "a string which is not an index set is rejected"); sym_reach("rejected"); return; } if (r == 1) sym_assert(!rejected, "a well-formed index set is accepted"); if (rejected) return; int i = sym_i32("index"); bool in = false; for (int j = 0; j < k; ++j) in |= (lo[j] <= i) & (i <= hi[j]); sym_assert(set->IsContained(i) == in, "the set contains exactly the numbers described"); sym_reach("contained");
}
// @job time=200 shards=1
HARNESS(c24_any) { wchar_t s[8]; int n = sym_pick(5, "length"); for (int i = 0; i < n; ++i) { s[i] = (wchar_t)sym_i32("char"); sym_assume(s[i] != 0); } s[n] = 0; check(s, n); }
// @job thorough
// @job time=1500 shards=1
HARNESS(c24_any5) { wchar_t s[8]; int n = 5; for (int i = 0; i < n; ++i) { s[i] = (wchar_t)sym_i32("char"); sym_assume(s[i] != 0); } s[n] = 0; check(s, n); }
// @job time=200 shards=8
HARNESS(c24_numbers) { int k = sym_pick(24, "case"); static const char* F[24] = {"9", "99", "2147483999", "-2147483999", "21474836999", "+99", "9-9", "99-99", "-99-99", "-99--9", "9-inf", "-inf-9", "-inf-inf", "inf", "99-+9", "9-+inf", "9,9", "9-9,9", "-inf-9,9-inf", "9,9,9-9", " 9 , -9", "-9 -9", "9,,9", "-4294967999"}; wchar_t s[32]; int n = 0; for (const char* f = F[k]; *f; ++f) { if (*f == '9') { s[n] = L'0' + (wchar_t)sym_range(0, 9, "digit"); } else s[n] = (wchar_t)*f; ++n; } s[n] = 0; check(s, n); }
