// Minimal replacement of the iostream library for symbolic execution: formatting to strings only.
#pragma once
#include <iosfwd>
#include <string>
#include <cstring>
#include <cstdint>
#include <stdexcept>
#include <functional>
extern "C" int sym_is_symbolic(unsigned long long); extern "C" unsigned long long sym_hidden(int); extern "C" void sym_assume(bool); extern "C" int sym_fmt;
extern "C" void sym_unsupported(const char*);
extern "C" int sym_rt_fmt_double(char* buf, double v, int prec, int mode);
namespace std {
class ios_base {
 public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static const fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, boolalpha = 8, uppercase = 16, fixed = 32, scientific = 64, floatfield = 96, left = 128, right = 256, internal = 512, adjustfield = 896, showbase = 1024, skipws = 2048, showpoint=4096;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4; static const openmode in = 1, out = 2, binary = 4, ate = 8, app = 16, trunc = 32; static const seekdir beg = 0, cur = 1, end = 2;
  class failure : public std::runtime_error { public: using runtime_error::runtime_error; };
  fmtflags flags_ = dec; long width_ = 0; int prec_ = 6; iostate st_ = 0;
  fmtflags flags() const { return flags_; } fmtflags setf(fmtflags f) { flags_ |= f; return flags_; } fmtflags setf(fmtflags f, fmtflags m) { flags_ = (flags_ & ~m) | (f & m); return flags_; } void unsetf(fmtflags f) { flags_ &= ~f; }
  long width() const { return width_; } long width(long w) { long o = width_; width_ = w; return o; } long precision() const { return prec_; } long precision(long p) { long o = prec_; prec_ = (int)p; return o; }
};
template <typename C, typename T> class basic_ios : public ios_base {
 public:
  C fill_ = C(' '); C fill() const { return fill_; } basic_ios& copyfmt(const basic_ios& o) { this->flags_ = o.flags_; this->prec_ = o.prec_; this->width_ = o.width_; fill_ = o.fill_; return *this; } C fill(C c) { C o = fill_; fill_ = c; return o; }
  bool good() const { return st_ == 0; } bool fail() const { return (st_ & (failbit | badbit)) != 0; } bool bad() const { return st_ & badbit; } bool eof() const { return (st_ & eofbit) != 0; } iostate rdstate() const { return st_; } void clear(iostate s = 0) { st_ = s; } void setstate(iostate s) { st_ |= s; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); } template <class L> L imbue(const L& l) { return l; } void exceptions(iostate) {}
};
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; } inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; } inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; } inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; } inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; }
struct sym_setw { int n; }; struct sym_setprec { int n; }; template <class C> struct sym_setfill { C c; };
inline sym_setw setw(int n) { return {n}; } inline sym_setprec setprecision(int n) { return {n}; } template <class C> inline sym_setfill<C> setfill(C c) { return {c}; }

template <typename C, typename T> class basic_streambuf { public: virtual ~basic_streambuf() {} };
template <typename C, typename T> class basic_ostream : public virtual basic_ios<C, T> {
 public:
  typedef C char_type; typedef streampos pos_type; typedef streamoff off_type; basic_string<C> buf_; basic_ostream() {} explicit basic_ostream(basic_streambuf<C, T>*) {} virtual ~basic_ostream() {}
  basic_ostream& write(const C* p, streamsize n) { buf_.append(p, (size_t)n); return *this; } basic_ostream& put(C c) { buf_.push_back(c); return *this; } basic_ostream& flush() { return *this; }
  void sym_pad(const C* p, size_t n) { long w = this->width_; this->width_ = 0; if ((long)n < w && !(this->flags_ & ios_base::left)) buf_.append((size_t)(w - (long)n), this->fill_); buf_.append(p, n); if ((long)n < w && (this->flags_ & ios_base::left)) buf_.append((size_t)(w - (long)n), this->fill_); }
  void sym_num(unsigned long long mag, bool neg, unsigned long long raw) { C t[72]; int n = 0; if (sym_is_symbolic(mag)) { if (!sym_fmt) { t[n++] = C('?'); sym_pad(t, n); return; }
    // the digits of a symbolic number: the path is split by their number, their values are defined by the sum they make
    bool dec = !(this->flags_ & (ios_base::hex | ios_base::oct)); if (!dec) { mag = raw; neg = false; } int k = 1; unsigned long long p = dec ? 10 : (this->flags_ & ios_base::hex) ? 16 : 8, b = p; while (k < 22 && mag >= p) { ++k; if (p > ~0ull / b) break; p *= b; } if (neg) t[n++] = C('-');
    if (k == 1) { t[n++] = C(mag < 10 ? mag + '0' : mag + (((this->flags_ & ios_base::uppercase) ? 'A' : 'a') - 10)); } else { unsigned long long sum = 0; for (int i = 0; i < k; ++i) { unsigned long long d = sym_hidden(4); sym_assume(d < b); sum = sum * b + d; t[n++] = b <= 10 ? C(d + '0') : C(d < 10 ? d + '0' : d + (((this->flags_ & ios_base::uppercase) ? 'A' : 'a') - 10)); } sym_assume(sum == mag); } sym_pad(t, n); return; } unsigned base = (this->flags_ & ios_base::hex) ? 16 : (this->flags_ & ios_base::oct) ? 8 : 10; if (base != 10) { mag = raw; neg = false; } C r[70]; int k = 0; do { int d = (int)(mag % base); r[k++] = C(d < 10 ? '0' + d : ((this->flags_ & ios_base::uppercase) ? 'A' : 'a') + d - 10); mag /= base; } while (mag); if (neg) t[n++] = C('-'); while (k) t[n++] = r[--k]; sym_pad(t, n); }
  basic_ostream& operator<<(bool v) { if (this->flags_ & ios_base::boolalpha) { if (sym_is_symbolic(v)) return *this << "?"; return *this << (v ? "true" : "false"); } sym_num(v, false, v); return *this; }
  basic_ostream& operator<<(short v) { sym_num(v < 0 ? 0ull - (long long)v : (unsigned long long)v, v < 0, (unsigned short)v); return *this; } basic_ostream& operator<<(unsigned short v) { sym_num(v, false, v); return *this; }
  template <class I> void sym_sig(I v, unsigned long long raw) { if (!sym_fmt && sym_is_symbolic((unsigned long long)v)) { *this << "?"; return; } sym_num(v < 0 ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v, v < 0, raw); }
  basic_ostream& operator<<(int v) { sym_sig(v, (unsigned)v); return *this; } basic_ostream& operator<<(unsigned v) { sym_num(v, false, v); return *this; } basic_ostream& operator<<(long v) { sym_sig(v, (unsigned long)v); return *this; } basic_ostream& operator<<(unsigned long v) { sym_num(v, false, v); return *this; } basic_ostream& operator<<(long long v) { sym_sig(v, (unsigned long long)v); return *this; } basic_ostream& operator<<(unsigned long long v) { sym_num(v, false, v); return *this; }
  basic_ostream& operator<<(double v) { unsigned long long raw; memcpy(&raw, &v, 8); if (sym_is_symbolic(raw)) return *this << "?"; char b[400]; int n = sym_rt_fmt_double(b, v, this->prec_, (this->flags_ & ios_base::fixed) ? 1 : (this->flags_ & ios_base::scientific) ? 2 : 0); C t[400]; for (int i = 0; i < n; ++i) t[i] = C(b[i]); sym_pad(t, n); return *this; } basic_ostream& operator<<(float v) { return *this << (double)v; } 
  basic_ostream& operator<<(const void* p) { return *this << "0x?"; } basic_ostream& operator<<(nullptr_t) { return *this << "nullptr"; }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; } basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(sym_setw w) { this->width_ = w.n; return *this; } basic_ostream& operator<<(sym_setprec w) { this->prec_ = w.n; return *this; } basic_ostream& operator<<(sym_setfill<C> w) { this->fill_ = w.c; return *this; }
  streampos tellp() { return streampos((long)buf_.size()); }
};
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put(C('\n')); return o; } template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, C c) { o.sym_pad(&c, 1); return o; } template <class T> basic_ostream<wchar_t, T>& operator<<(basic_ostream<wchar_t, T>& o, char c) { wchar_t w = c; o.sym_pad(&w, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char x = (char)c; o.sym_pad(&x, 1); return o; } template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char x = (char)c; o.sym_pad(&x, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { o.sym_pad(s, strlen(s)); return o; } template <class T> basic_ostream<wchar_t, T>& operator<<(basic_ostream<wchar_t, T>& o, const char* s) { basic_string<wchar_t> w; while (*s) w.push_back((wchar_t)*s++); o.sym_pad(w.data(), w.size()); return o; } template <class T> basic_ostream<wchar_t, T>& operator<<(basic_ostream<wchar_t, T>& o, const wchar_t* s) { basic_string<wchar_t> w(s); o.sym_pad(w.data(), w.size()); return o; }
template <class O, class X> typename enable_if<is_base_of<ios_base, typename remove_reference<O>::type>::value && !is_lvalue_reference<O>::value, O&&>::type operator<<(O&& o, const X& x) { o << x; return static_cast<O&&>(o); }

template <typename C, typename T> class basic_istream : public virtual basic_ios<C, T> {
 public:
  typedef C char_type; typedef streampos pos_type; typedef streamoff off_type; basic_string<C> in_; size_t pos_ = 0; streamsize gc_ = 0; basic_istream() {} explicit basic_istream(basic_streambuf<C, T>*) {} virtual ~basic_istream() {}
  void sym_ws() { while (pos_ < in_.size() && (in_[pos_] == ' ' || (in_[pos_] >= 9 && in_[pos_] <= 13))) ++pos_; }
  template <class I> basic_istream& sym_int(I& v) { sym_ws(); bool neg = false; size_t st = pos_; unsigned base = (this->flags_ & ios_base::hex) ? 16 : 10; if (pos_ < in_.size() && (in_[pos_] == '-' || in_[pos_] == '+')) { neg = in_[pos_] == '-'; ++pos_; } unsigned long long r = 0; bool any = false; while (pos_ < in_.size()) { C c = in_[pos_]; unsigned d; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; r = r * base + d; any = true; ++pos_; } if (pos_ >= in_.size()) this->st_ |= ios_base::eofbit; if (!any) { this->st_ |= ios_base::failbit; v = 0; } else v = (I)(neg ? 0 - r : r); (void)st; return *this; }
  basic_istream& operator>>(int& v) { return sym_int(v); } basic_istream& operator>>(unsigned& v) { return sym_int(v); } basic_istream& operator>>(long& v) { return sym_int(v); } basic_istream& operator>>(unsigned long& v) { return sym_int(v); } basic_istream& operator>>(long long& v) { return sym_int(v); } basic_istream& operator>>(unsigned long long& v) { return sym_int(v); } basic_istream& operator>>(short& v) { return sym_int(v); } basic_istream& operator>>(unsigned short& v) { return sym_int(v); } basic_istream& operator>>(double& v) { sym_unsupported("istream >> double"); return *this; } basic_istream& operator>>(float& v) { sym_unsupported("istream >> float"); return *this; } basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_istream& read(C* p, streamsize n) { size_t k = in_.size() - pos_; if ((size_t)n < k) k = n; memcpy(p, in_.data() + pos_, k * sizeof(C)); pos_ += k; gc_ = k; if (k < (size_t)n) this->st_ |= ios_base::eofbit | ios_base::failbit; return *this; } streamsize gcount() const { return gc_; } int get() { if (pos_ >= in_.size()) { this->st_ |= 6; return -1; } return in_[pos_++]; } int peek() { return pos_ < in_.size() ? (int)in_[pos_] : -1; } basic_istream& ignore(streamsize n = 1, int d = -1) { pos_ += n; if (pos_ > in_.size()) pos_ = in_.size(); return *this; } streampos tellg() { return streampos((long)pos_); } basic_istream& seekg(streamoff o, ios_base::seekdir d) { long b = d == 0 ? 0 : d == 1 ? (long)pos_ : (long)in_.size(); pos_ = b + o; return *this; } basic_istream& seekg(streampos p) { pos_ = (size_t)(streamoff)p; return *this; }
};
inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) { s.clear(); if (i.pos_ >= i.in_.size()) { i.st_ |= 6; return i; } while (i.pos_ < i.in_.size()) { char c = i.in_[i.pos_++]; if (c == d) return i; s.push_back(c); } i.st_ |= 2; return i; }
inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s) { return getline(i, s, char('\n')); }
inline basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s) { i.sym_ws(); s.clear(); while (i.pos_ < i.in_.size() && !(i.in_[i.pos_] == ' ' || (i.in_[i.pos_] >= 9 && i.in_[i.pos_] <= 13))) s.push_back(i.in_[i.pos_++]); if (s.empty()) i.st_ |= 4; if (i.pos_ >= i.in_.size()) i.st_ |= 2; return i; }
inline basic_istream<wchar_t>& getline(basic_istream<wchar_t>& i, basic_string<wchar_t>& s, wchar_t d) { s.clear(); if (i.pos_ >= i.in_.size()) { i.st_ |= 6; return i; } while (i.pos_ < i.in_.size()) { wchar_t c = i.in_[i.pos_++]; if (c == d) return i; s.push_back(c); } i.st_ |= 2; return i; }
inline basic_istream<wchar_t>& getline(basic_istream<wchar_t>& i, basic_string<wchar_t>& s) { return getline(i, s, wchar_t('\n')); }
inline basic_istream<wchar_t>& operator>>(basic_istream<wchar_t>& i, basic_string<wchar_t>& s) { i.sym_ws(); s.clear(); while (i.pos_ < i.in_.size() && !(i.in_[i.pos_] == ' ' || (i.in_[i.pos_] >= 9 && i.in_[i.pos_] <= 13))) s.push_back(i.in_[i.pos_++]); if (s.empty()) i.st_ |= 4; if (i.pos_ >= i.in_.size()) i.st_ |= 2; return i; }
template <class C, class T> basic_istream<C, T>& operator>>(basic_istream<C, T>& i, C& c) { i.sym_ws(); if (i.pos_ >= i.in_.size()) { i.st_ |= 6; return i; } c = i.in_[i.pos_++]; return i; }
template <class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { i.sym_ws(); return i; }
template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {};
template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> { public: basic_ostringstream() {} explicit basic_ostringstream(ios_base::openmode) {} explicit basic_ostringstream(const basic_string<C>& s) { this->buf_ = s; } basic_string<C> str() const { return this->buf_; } void str(const basic_string<C>& s) { this->buf_ = s; } };
template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> { public: basic_istringstream() {} explicit basic_istringstream(const basic_string<C>& s, ios_base::openmode = 0) { this->in_ = s; } basic_string<C> str() const { return this->in_; } void str(const basic_string<C>& s) { this->in_ = s; this->pos_ = 0; } };
template <typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> { public: void swap(basic_stringstream& o) { this->buf_.swap(o.buf_); this->in_.swap(o.in_); size_t p = this->pos_; this->pos_ = o.pos_; o.pos_ = p; auto f = this->flags_; this->flags_ = o.flags_; o.flags_ = f; auto st = this->st_; this->st_ = o.st_; o.st_ = st; } basic_stringstream() {} explicit basic_stringstream(const basic_string<C>& s, ios_base::openmode = 0) { this->in_ = s; this->buf_ = s; } explicit basic_stringstream(ios_base::openmode) {} basic_string<C> str() const { return this->buf_; } void str(const basic_string<C>& s) { this->buf_ = s; this->in_ = s; this->pos_ = 0; } };
_GLIBCXX_END_NAMESPACE_CXX11
template <typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {};
template <typename C, typename T> class basic_ifstream : public basic_istream<C, T> { public: basic_ifstream() {} template <class S> explicit basic_ifstream(const S&, ios_base::openmode = 0) { sym_unsupported("ifstream"); } template <class S> void open(const S&, ios_base::openmode = 0) { sym_unsupported("ifstream"); } bool is_open() const { return false; } void close() {} };
template <typename C, typename T> class basic_ofstream : public basic_ostream<C, T> { public: basic_ofstream() {} template <class S> explicit basic_ofstream(const S&, ios_base::openmode = 0) { sym_unsupported("ofstream"); } template <class S> void open(const S&, ios_base::openmode = 0) { sym_unsupported("ofstream"); } bool is_open() const { return false; } void close() {} };
extern ostream cout, cerr, clog; extern istream cin;
class locale { public: locale() {} explicit locale(const char*) {} static const locale& classic() { static locale l; return l; } };
template <typename C> class codecvt_utf8 {}; template <typename C> class codecvt_utf8_utf16 {};
template <class X, class W = wchar_t> class wstring_convert {
 public:
  std::string to_bytes(const std::basic_string<W>& w) { std::string r; for (W c0 : w) { unsigned c = (unsigned)c0; if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else if (c < 0x110000) { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else throw std::range_error("wstring_convert::to_bytes"); } return r; }
  std::string to_bytes(const W* w) { return to_bytes(std::basic_string<W>(w)); }
  std::basic_string<W> from_bytes(const char* b, const char* e) { return from_bytes(std::string(b, e)); } std::basic_string<W> from_bytes(const char* s) { return from_bytes(std::string(s)); }
  std::basic_string<W> from_bytes(const std::string& s) { std::basic_string<W> r; size_t n = s.size(); for (size_t i = 0; i < n;) { unsigned char c = s[i]; unsigned v; int k; if (c < 0x80) { v = c; k = 0; } else if (c >= 0xc2 && c < 0xe0) { v = c & 31; k = 1; } else if (c >= 0xe0 && c < 0xf0) { v = c & 15; k = 2; } else if (c >= 0xf0 && c < 0xf5) { v = c & 7; k = 3; } else throw std::range_error("wstring_convert::from_bytes"); if (i + k >= n + (k ? 0 : 1)) throw std::range_error("wstring_convert::from_bytes"); for (int j = 1; j <= k; ++j) { unsigned char d = s[i + j]; if ((d & 0xc0) != 0x80) throw std::range_error("wstring_convert::from_bytes"); v = v << 6 | (d & 63); } if ((k == 2 && v < 0x800) || (k == 3 && (v < 0x10000 || v > 0x10ffff))) throw std::range_error("wstring_convert::from_bytes"); r += (W)v; i += k + 1; } return r; }
};
template <class C> bool isspace(C c, const locale&) { return c == ' ' || (c >= 9 && c <= 13); } template <class C> C tolower(C c, const locale&) { return (c >= 'A' && c <= 'Z') ? C(c + 32) : c; } template <class C> C toupper(C c, const locale&) { return (c >= 'a' && c <= 'z') ? C(c - 32) : c; } template <class C> bool isdigit(C c, const locale&) { return c >= '0' && c <= '9'; }
}
