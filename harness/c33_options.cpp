// C33: compression options given as text
// @bounds texts of compression options from templates with up to 3 arbitrary ASCII characters
#include "common.h"
#include <climits>
using namespace libCZI; using namespace h; using std::string;
static bool ws(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); } static bool dg(char c) { return (c >= '0') & (c <= '9'); } static bool al(char c) { char l = c | 32; return dg(c) | ((l >= 'a') & (l <= 'z')); }
static bool same(const string& a, const char* b) { size_t n = 0; for (; b[n]; ++n) { if (n >= a.size()) return false; char l = (a[n] >= 'A' && a[n] <= 'Z') ? a[n] + 32 : a[n]; if (l != b[n]) return false; } return n == a.size(); }
struct Opt { int mode; bool level; long long v; bool pack; };
// own reading: method ":" (key "=" value) separated by ";", the last one may be missing
static bool read(const string& s, Opt* o) { size_t p = 0, n = s.size(); auto skip = [&] { while (p < n && ws(s[p])) ++p; }; *o = Opt{-1, false, 0, false}; skip(); size_t q = p; while (p < n && al(s[p])) ++p; string m = s.substr(q, p - q); skip(); if (m.empty() || p >= n || s[p] != ':') return false; ++p;
  static const char* N[5] = {"uncompressed", "jpg", "jpgxr", "zstd0", "zstd1"}; static const int M[5] = {0, 1, 4, 5, 6}; for (int i = 0; i < 5; ++i) if (same(m, N[i])) o->mode = M[i]; bool bad = o->mode < 0;
  for (;;) { skip(); if (p >= n) break; q = p; while (p < n && al(s[p])) ++p; string k = s.substr(q, p - q); skip(); if (p >= n || s[p] != '=') return false; ++p; skip(); q = p; while (p < n && (al(s[p]) | (s[p] == '.') | (s[p] == '+') | (s[p] == '-'))) ++p; string v = s.substr(q, p - q); skip(); if (p < n) { if (s[p] != ';') return false; ++p; }
    if (same(k, "explicitlevel")) { size_t i = 0; bool neg = false; if (i < v.size() && (v[i] == '-' || v[i] == '+')) { neg = v[i] == '-'; ++i; } if (i >= v.size()) bad = true; long long x = 0; for (; i < v.size(); ++i) { if (!dg(v[i])) { bad = true; break; } if (x < 100000000000ll) x = x * 10 + (v[i] - '0'); } if (neg) x = -x; if (x > INT_MAX || x < INT_MIN) bad = true; o->level = true; o->v = x; } else if (same(k, "preprocess") && same(v, "hilobyteunpack")) o->pack = true; }
  return !bad; }
// @job time=200 shards=8
HARNESS(c33_options) { static const char* F[24] = {"zstd?:ExplicitLevel=3", "zstd1?ExplicitLevel=3", "zstd1:ExplicitLevel?3", "zstd1:ExplicitLevel=?", "zstd1:ExplicitLevel=??", "zstd1:ExplicitLevel=3?PreProcess=HiLoByteUnpack", "zstd1:ExplicitLevel=1?;PreProcess=HiLoByteUnpack", "zstd1:PreProcess=HiLoByteUnpac?", "?std0:", "zstd0:?", "zstd0: ?=??", "jpgxr:ExplicitLevel=12;ExplicitLevel=?", "uncompressed:", "JPG :", " zStD1 : explicitlevel = -5 ; preprocess = hilobyteunpack ?", "zstd0:ExplicitLevel=99999999999", "zstd0", "zstd0:;", "zstd0:ExplicitLevel=4;", "zstd0:ExplicitLevel=4;;", "zstd0:?xplicitLevel=4", "zstd1:PreProcess?HiLoByteUnpack;ExplicitLevel=7", "", "zstd0:a=b;ExplicitLevel=-2147483648;c=d"}; string s; for (const char* p = F[sym_pick(24, "text")]; *p; ++p) { if (*p == '?') { uint8_t c = sym_u8("char"); sym_assume(c > 0 && c < 128); s += (char)c; } else s += *p; }
  Opt o; bool want = read(s, &o), thrown = false; Utils::CompressionOption r; try { r = Utils::ParseCompressionOptions(s); } catch (std::logic_error&) { thrown = true; } sym_assert(thrown == !want, "exactly texts of compression options are accepted");
  if (want && !thrown) { sym_assert((int)r.first == o.mode, "the compression method is the one given"); sym_assert(r.second != nullptr, "there are parameters"); CompressParameter p; bool h = r.second->TryGetProperty(CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL, &p); sym_assert(h == o.level && (!h || (p.GetType() == CompressParameter::Type::Int32 && p.GetInt32() == o.v)), "the level is the one given"); CompressParameter q; h = r.second->TryGetProperty(CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING, &q); sym_assert(h == o.pack && (!h || (q.GetType() == CompressParameter::Type::Boolean && q.GetBoolean())), "the packing is the one given"); sym_reach("accepted"); } else sym_reach("rejected"); }
// the name of every method is accepted
HARNESS(c33_method_names) { static const CompressionMode M[5] = {CompressionMode::UnCompressed, CompressionMode::Jpg, CompressionMode::JpgXr, CompressionMode::Zstd0, CompressionMode::Zstd1}; auto m = M[sym_pick(5, "method")]; auto r = Utils::ParseCompressionOptions(string(Utils::CompressionModeToInformalString(m)) + ":"); sym_assert(r.first == m, "the name of a method denotes it"); sym_reach("name"); }
