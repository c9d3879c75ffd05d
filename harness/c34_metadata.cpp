// C34: XML metadata is built and interpreted faithfully
// @bounds integer and boolean node values: all values of all supported types; text values and attribute values of up to 2 arbitrary code points; number and boolean texts from templates with up to 3 arbitrary characters; floating-point values from a table; paths from templates with arbitrary characters; document information with one arbitrary character per field
#include "md.h"
// integer values of every type come back unchanged
// @job time=200 shards=5
HARNESS(c34_ints) { int k = sym_pick(5, "type"); auto b = CreateMetadataBuilder(); auto n = b->GetRootNode()->GetOrCreateChildNode("A/B"); uint64_t v = near(); if (k == 0) n->SetValueI32((int)v); else if (k == 1) n->SetValueUI32((uint32_t)v); else if (k == 2) n->SetValueI64((long long)v); else if (k == 3) n->SetValueUI64(v); else n->SetValueBool(v & 1);
  auto m = reread(b.get()); auto r = m->GetChildNodeReadonly("ImageDocument/A/B"); sym_assert(!!r, "the node is found"); if (!r) return; int32_t i = 0; uint32_t u = 0; int64_t l = 0; uint64_t ul = 0; bool bo = false, ok = k == 0 ? r->TryGetValueAsInt32(&i) && i == (int32_t)v : k == 1 ? r->TryGetValueAsUInt32(&u) && u == (uint32_t)v : k == 2 ? r->TryGetValueAsInt64(&l) && l == (int64_t)v : k == 3 ? r->TryGetValueAsUInt64(&ul) && ul == v : r->TryGetValueAsBool(&bo) && bo == (bool)(v & 1); sym_assert(ok, "the value read is the one written"); sym_reach("value"); }
// @job time=200 shards=1
HARNESS(c34_text) { int n = sym_pick(3, "length"), k = sym_pick(2, "kind"); wchar_t s[4] = {}; for (int i = 0; i < n; ++i) s[i] = cp(); auto b = CreateMetadataBuilder(); auto nd = b->GetRootNode()->GetOrCreateChildNode("A"); bool blank = true; for (int i = 0; i < n; ++i) blank = blank && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n');
  if (k == 0) { if (blank) return; nd->SetValue(s); } else { for (int i = 0; i < n; ++i) sym_assume(s[i] != '\t'); nd->SetAttribute(L"Q", s); }
  auto m = reread(b.get()); auto r = m->GetChildNodeReadonly("ImageDocument/A"); sym_assert(!!r, "the node is found"); if (!r) return; wstring w; bool ok = k == 0 ? r->TryGetValue(&w) : r->TryGetAttribute(L"Q", &w); sym_assert(ok && w == wstring(s, n), "the text read is the one written"); sym_reach("text"); }
static bool sp(wchar_t c) { return c == ' ' || (c >= 9 && c <= 13); }
// own reading of a decimal number: blanks, sign, digits, blanks
static bool number(const wchar_t* s, int n, bool& neg, uint64_t& v, bool& big) { int i = 0; while (i < n && sp(s[i])) ++i; neg = false; big = false; v = 0; if (i < n && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-'; int d = 0; for (; i < n && s[i] >= '0' && s[i] <= '9'; ++i, ++d) { uint64_t x = (uint64_t)(s[i] - '0'); if (v > (UINT64_MAX - x) / 10) big = true; v = v * 10 + x; } if (!d) return false; while (i < n && sp(s[i])) ++i; return i == n; }
static int fill(wchar_t* s, const wchar_t* p, uint32_t lim = 0x110000) { int n = 0; for (; *p; ++p) { if (*p == L'?') { uint32_t c = sym_u32("char"); sym_assume(c > 0 && c < lim && !(c >= 0xd800 && c < 0xe000)); s[n++] = (wchar_t)c; } else s[n++] = *p; } s[n] = 0; return n; }
// texts are read as numbers exactly if they are numbers
// @job time=200 shards=4
HARNESS(c34_number) { int k = sym_pick(4, "type"); static const wchar_t* P[10] = {L"", L"?", L"??", L"1??", L"-?", L" ?2 ?", L"214748364?", L"-214748364?", L"429496729?", L"1844674407370955161?"}; wchar_t s[32]; int n = fill(s, P[sym_pick(10, "text")]); auto b = CreateMetadataBuilder(); auto r = b->GetRootNode()->GetOrCreateChildNode("A"); r->SetValue(s); bool neg, big; uint64_t v; bool num = number(s, n, neg, v, big); int32_t i = 77; uint32_t u = 77; int64_t l = 77; uint64_t ul = 77; bool ok = k == 0 ? r->TryGetValueAsInt32(&i) : k == 1 ? r->TryGetValueAsInt64(&l) : k == 2 ? r->TryGetValueAsUInt32(&u) : r->TryGetValueAsUInt64(&ul);
  if (k >= 2 && neg) { sym_reach("number"); return; } int64_t sv = (int64_t)(neg ? 0 - v : v); bool fits = num && !big && (k == 0 ? v <= 2147483647u + (uint64_t)neg : k == 1 ? v <= 9223372036854775807ull + (uint64_t)neg : k == 2 ? v <= UINT32_MAX : true); sym_assert(ok == fits, "a value is reported exactly for texts which are numbers of that type"); if (ok && fits) sym_assert(k == 0 ? i == sv : k == 1 ? l == sv : k == 2 ? u == v : ul == v, "the value is the number"); if (!ok) sym_assert(i == 77 && u == 77 && l == 77 && ul == 77, "nothing is stored without a value"); sym_reach("number"); }
// @job time=100 shards=1
HARNESS(c34_double) { static const struct { const wchar_t* s; bool ok; double v; } P[9] = {{L"1.5", true, 1.5}, {L" -0.25 ", true, -0.25}, {L"3e2", true, 300}, {L"", false, 0}, {L" ", false, 0}, {L"abc", false, 0}, {L"1.5x", false, 0}, {L"2,5", false, 0}, {L"1 2", false, 0}}; auto& p = P[sym_pick(9, "text")]; int k = sym_pick(3, "tail"); wchar_t s[16]; int n = 0; for (const wchar_t* q = p.s; *q; ++q) s[n++] = *q; s[n] = 0; bool tail = true; if (k && p.ok) for (int i = 0; i < k; ++i) { uint32_t c = sym_u32("char"); sym_assume(c > 0 && c < 0x110000 && !(c >= '0' && c <= '9') && c != 'e' && c != 'E' && c != '.'); s[n++] = (wchar_t)c; s[n] = 0; tail = tail & sp((wchar_t)c); } auto b = CreateMetadataBuilder(); auto r = b->GetRootNode()->GetOrCreateChildNode("A"); r->SetValue(s); double d = 77; float f = 77; bool ok = r->TryGetValueAsDouble(&d), ok2 = r->TryGetValueAsFloat(&f); sym_assert(ok == (p.ok && tail) && ok2 == ok, "a value is reported exactly for texts which are numbers"); if (ok) sym_assert(d == p.v && f == (float)p.v, "the value is the number"); sym_reach("number"); }
static wchar_t low(wchar_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
// @job time=100 shards=1
HARNESS(c34_bool) { static const wchar_t* P[9] = {L"?", L"??", L"???", L"tr?e", L"?rue?", L"f?lse", L"fals?", L" y?s ", L"n? "}; wchar_t s[16]; int n = fill(s, P[sym_pick(9, "text")], 128); auto b = CreateMetadataBuilder(); auto r = b->GetRootNode()->GetOrCreateChildNode("A"); r->SetValue(s); bool v = false, ok = r->TryGetValueAsBool(&v); int lo = 0, hi = n; while (lo < hi && (s[lo] == ' ' || s[lo] == '\t')) ++lo; while (lo < hi && (s[hi - 1] == ' ' || s[hi - 1] == '\t')) --hi; static const struct { const wchar_t* t; bool v; } T[6] = {{L"yes", true}, {L"true", true}, {L"1", true}, {L"no", false}, {L"false", false}, {L"0", false}}; bool want = false, wv = false; for (auto& t : T) { int m = (int)wcslen(t.t); bool e = m == hi - lo; for (int i = 0; i < m && e; ++i) e = low(s[lo + i]) == t.t[i]; if (e) { want = true; wv = t.v; } } sym_assert(ok == want, "exactly the truth words are accepted"); if (ok) sym_assert(v == wv, "the value is the one written"); sym_reach("bool"); }
// the document addressed by the paths below: children of the root, numbered by their value
struct Nd { const char* name; const char* at; const char* av; const char* bt; const char* bv; };
static const Nd kDoc[6] = {{"A", nullptr, nullptr, nullptr, nullptr}, {"B", "I", "x", nullptr, nullptr}, {"B", "I", "y", "N", "z"}, {"C", nullptr, nullptr, nullptr, nullptr}, {"C", nullptr, nullptr, nullptr, nullptr}, {"B", "I", "y", nullptr, nullptr}};
static std::shared_ptr<ICziMetadataBuilder> doc6() { auto b = CreateMetadataBuilder(); auto r = b->GetRootNode(); for (int i = 0; i < 6; ++i) { auto n = r->AppendChildNode(kDoc[i].name); if (kDoc[i].at) n->SetAttribute(kDoc[i].at, kDoc[i].av); if (kDoc[i].bt) n->SetAttribute(kDoc[i].bt, kDoc[i].bv); n->SetValueI32(i); } return b; }
// own reading of a single path step; -1: malformed, -2: no such node
static bool attr(const Nd& d, const string& k, const string& v) { return (d.at && k == d.at && v == d.av) || (d.bt && k == d.bt && v == d.bv); }
static int step(const string& t, bool create, std::vector<std::pair<string, string>>* out = nullptr) { size_t o = t.find_first_of("[]"); if (o == 0 || t.empty()) return -1; string name = t.substr(0, o); bool spec = o != string::npos; string in; if (spec) { if (t[o] != '[') return -1; size_t c = t.find_first_of("[]", o + 1); if (c == string::npos || t[c] != ']' || c + 1 != t.size()) return -1; in = t.substr(o + 1, c - o - 1); }
  std::vector<std::pair<string, string>> kv; if (spec) { size_t a = 0, z = in.size(); while (a < z && sp(in[a])) ++a; while (z > a && sp(in[z - 1])) --z; bool num = z > a; for (size_t i = a; i < z; ++i) num = num && in[i] >= '0' && in[i] <= '9'; if (num && !create) { int want = 0; for (size_t i = a; i < z; ++i) want = want * 10 + in[i] - '0'; for (int i = 0; i < 6; ++i) if (name == kDoc[i].name && want-- == 0) return i; return -2; }
    for (size_t p = 0;;) { size_t q = in.find_first_of(",;", p); string e = in.substr(p, q == string::npos ? q : q - p); size_t g = e.find('='); if (g == 0 || g == string::npos) return -1; bool dup = false; for (auto& x : kv) dup = dup || x.first == e.substr(0, g); if (!dup) kv.emplace_back(e.substr(0, g), e.substr(g + 1)); if (q == string::npos) break; p = q + 1; } }
  if (out) *out = kv; for (int i = 0; i < 6; ++i) { bool m = name == kDoc[i].name; for (auto& x : kv) m = m && attr(kDoc[i], x.first, x.second); if (m) return i; } return -2; }
static const char* kPath[12] = {"?", "??", "B[I=?]", "B[?=y]", "B[I=y?N=z]", "B[I?y,N=z]", "C[?]", "C[??]", "B?I=y]", "B[I=y?", "C[ ?]", "B[N=z,?=y]"};
static int path(char* s, int k) { int n = 0; for (const char* p = kPath[k]; *p; ++p) { if (*p == '?') { uint8_t c = sym_u8("char"); sym_assume(c > 0 && c < 128 && c != '/'); s[n++] = (char)c; } else s[n++] = *p; } s[n] = 0; return n; }
// a path addresses the node it describes
// @job time=200 shards=6
HARNESS(c34_path) { int k = sym_pick(12, "path"); bool rd = sym_pick(2, "reader"); auto b = doc6(); std::shared_ptr<ICziMetadata> m; std::shared_ptr<IXmlNodeRead> base; if (rd) { m = reread(b.get()); base = m->GetChildNodeReadonly("ImageDocument"); } else base = b->GetRootNode(); char s[16]; int n = path(s, k); int want = step(string(s, n), false); bool thrown = false; std::shared_ptr<IXmlNodeRead> r; try { r = base->GetChildNodeReadonly(s); } catch (LibCZIException&) { thrown = true; } sym_assert(thrown == (want == -1), "exactly malformed paths are rejected"); if (!thrown) { sym_assert(!!r == (want >= 0), "a node is found exactly if there is one"); int32_t v = -1; if (r && want >= 0) sym_assert(r->TryGetValueAsInt32(&v) && v == want, "the node found is the one addressed"); } sym_reach("path"); }
// @job time=200 shards=6
HARNESS(c34_create) { int k = sym_pick(12, "path"); auto b = doc6(); auto root = b->GetRootNode(); char s[16]; int n = path(s, k); std::vector<std::pair<string, string>> kv; int want = step(string(s, n), true, &kv); bool thrown = false; std::shared_ptr<IXmlNodeRw> r; try { r = root->GetOrCreateChildNode(s); } catch (LibCZIException&) { thrown = true; } sym_assert(thrown == (want == -1), "exactly malformed paths are rejected"); int cnt = 0; root->EnumChildren([&](std::shared_ptr<IXmlNodeRead> c) { int32_t v = -1; bool ok = c->TryGetValueAsInt32(&v); if (cnt < 6) sym_assert(ok && v == cnt, "existing nodes are kept"); ++cnt; return true; }); sym_assert(cnt == 6 + (!thrown && want == -2), "a node is created exactly if there was none"); if (!thrown) { sym_assert(!!r, "a node is returned"); int32_t v = -1; if (want >= 0) sym_assert(r->TryGetValueAsInt32(&v) && v == want, "the node found is the one addressed"); else for (auto& x : kv) { wstring w, key(x.first.begin(), x.first.end()), val(x.second.begin(), x.second.end()); sym_assert(r->TryGetAttribute(key.c_str(), &w) && w == val, "a created node has the attributes of the path"); } } sym_reach("path"); }
// general document information
static wstring tx() { wchar_t c = cp(); wstring s(L"a"); s += c; return s; }
// @job time=200 shards=4
HARNESS(c34_info) { int k = sym_pick(8, "field"); GeneralDocumentInfo g; wstring w = k == 7 ? wstring() : tx(); int rating = k == 7 ? (int)(near() & 0x7fffffff) : 3; wstring o = L"other"; g.SetName(k == 0 ? w : o); g.SetTitle(k == 1 ? w : wstring(L"t")); g.SetUserName(k == 2 ? w : wstring(L"u")); g.SetDescription(k == 3 ? w : wstring(L"d")); g.SetComment(k == 4 ? w : wstring(L"c")); g.SetKeywords(k == 5 ? w : wstring(L"k")); g.SetCreationDate(k == 6 ? w : wstring(L"1999-01-02T03:04:05")); g.SetRating(rating); uint8_t drop = (uint8_t)(1 << sym_pick(8, "missing")) & (uint8_t)~(1 << k); if (drop & 1) g.name_valid = false; if (drop & 2) g.title_valid = false; if (drop & 4) g.userName_valid = false; if (drop & 8) g.description_valid = false; if (drop & 16) g.comment_valid = false; if (drop & 32) g.keywords_valid = false; if (drop & 64) g.creationDateTime_valid = false; if (drop & 128) g.rating_valid = false;
  auto b = CreateMetadataBuilder(); MetadataUtils::WriteGeneralDocumentInfo(b.get(), g); auto m = reread(b.get()); auto r = m->GetDocumentInfo()->GetGeneralDocumentInfo(); auto same = [](bool av, const wstring& a, bool bv, const wstring& b) { return av == bv && (!av || a == b); }; sym_assert(same(g.name_valid, g.name, r.name_valid, r.name) && same(g.title_valid, g.title, r.title_valid, r.title) && same(g.userName_valid, g.userName, r.userName_valid, r.userName) && same(g.description_valid, g.description, r.description_valid, r.description) && same(g.comment_valid, g.comment, r.comment_valid, r.comment) && same(g.keywords_valid, g.keywords, r.keywords_valid, r.keywords) && same(g.creationDateTime_valid, g.creationDateTime, r.creationDateTime_valid, r.creationDateTime), "texts of the document information come back"); sym_assert(g.rating_valid == r.rating_valid && (!g.rating_valid || g.rating == r.rating), "the rating comes back"); sym_reach("info"); }
