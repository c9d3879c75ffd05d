// Library functions for the symbolic machine: the parts of libstdc++/libc that are normally linked as binaries.
#include <new>
#include <exception>
#include <stdexcept>
#include <string>
#include <memory>
#include <functional>
#include <typeinfo>
#include <map>
#include <list>
#include <unordered_map>
#include <system_error>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cwchar>
#include <cwctype>
#include <cctype>
#include <cerrno>
#include <mutex>
#include <future>
#include "../shadow/sym_iostream_impl.h"
extern "C" { char __libc_single_threaded = 1; int __attribute__((weak)) dummy_sym_rt; void sym_rt_throw_bad_alloc() { throw std::bad_alloc(); } }
void* __dso_handle_sym;
#include <exception>
std::nested_exception::~nested_exception() noexcept {}
namespace std {
const nothrow_t nothrow{};
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {} bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; } bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
#if __cplusplus >= 201103L
#endif
static char* dupMsg(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
__cow_string::__cow_string() { _M_p = dupMsg(""); } __cow_string::__cow_string(const std::string& s) { _M_p = dupMsg(s.c_str()); } __cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; } __cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupMsg(o._M_p); } __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupMsg(o._M_p); } return *this; } __cow_string::~__cow_string() { free((void*)_M_p); } __cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = dupMsg(""); } __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define ERRBASE(X) X::X(const string& s) : _M_msg(s) {} X::X(const char* s) : _M_msg(s, strlen(s)) {} X::~X() noexcept {} const char* X::what() const noexcept { return _M_msg._M_p; } X::X(const X& o) noexcept : exception(o), _M_msg(o._M_msg) {} X& X::operator=(const X& o) noexcept { _M_msg = o._M_msg; return *this; } X::X(X&& o) noexcept : exception(o), _M_msg(o._M_msg) {} X& X::operator=(X&& o) noexcept { _M_msg = o._M_msg; return *this; }
ERRBASE(logic_error) ERRBASE(runtime_error)
#define ERRD(X, B) X::X(const string& s) : B(s) {} X::X(const char* s) : B(s) {} X::~X() noexcept {}
ERRD(invalid_argument, logic_error) ERRD(out_of_range, logic_error) ERRD(length_error, logic_error) ERRD(domain_error, logic_error) ERRD(range_error, runtime_error) ERRD(overflow_error, runtime_error) ERRD(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_bad_function_call() { throw bad_function_call(); } void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_typeid() { throw bad_typeid(); }
struct sym_system_error : runtime_error { using runtime_error::runtime_error; };
void __throw_system_error(int) { throw sym_system_error("system_error"); } void __throw_future_error(int) { throw sym_system_error("future_error"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { abort(); }
namespace __detail { void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; } void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; } void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } } void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
// hash tables: small prime growth, like libstdc++ in spirit (bucket counts are not observable through the API used)
static const unsigned long primes[] = {1, 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (unsigned long p : primes) if (p >= n) { _M_next_resize = (size_t)p; return p; } _M_next_resize = n; return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const { if (n_elt + n_ins > _M_next_resize) { size_t want = n_elt + n_ins; if (_M_next_resize == 0 && want < 11) want = 11; if (want >= n_bkt) { size_t g = n_bkt * 2; return {true, _M_next_bkt((want + 1 > g) ? want + 1 : g)}; } _M_next_resize = n_bkt; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed ^ n; for (size_t i = 0; i < n; ++i) h = h * 31 + ((const unsigned char*)p)[i]; return h; } size_t _Fnv_hash_bytes(const void* p, size_t n, size_t s) { return _Hash_bytes(p, n, s); }
// red-black tree (insertion balanced; erase as in libstdc++)
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); } const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); } _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec(x); } const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left != 0) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right != 0) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) { _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { _Rb_tree_node_base* const y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); } }
    else { _Rb_tree_node_base* const y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); } } }
  root->_M_color = _S_black; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left; _Rb_tree_node_base*& rm = h._M_right; _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x; if (lm == z) { if (z->_M_right == 0) lm = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; lm = m; } } if (rm == z) { if (z->_M_left == 0) rm = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rm = m; } } }
  if (y->_M_color != _S_red) { while (x != root && (x == 0 || x->_M_color == _S_black)) if (x == xp->_M_left) { _Rb_tree_node_base* w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; } if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; } }
    else { _Rb_tree_node_base* w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; } if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; } } if (x) x->_M_color = _S_black; }
  return y; }
_Sp_make_shared_tag const* sym_unused_tag = nullptr;
bool _Sp_make_shared_tag::_S_eq(const type_info& ti) noexcept { return ti == typeid(_Sp_make_shared_tag); }
ostream cout, cerr, clog; istream cin;
}
// vtables of the RTTI classes (only their addresses matter to the machine)
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) { ++a; ++b; } return lc((unsigned char)*a) - lc((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while (n && *a && lc((unsigned char)*a) == lc((unsigned char)*b)) { ++a; ++b; --n; } return n ? lc((unsigned char)*a) - lc((unsigned char)*b) : 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* rt_strchr(const char* s, int c) __asm__("strchr"); char* rt_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* rt_strrchr(const char* s, int c) __asm__("strrchr"); char* rt_strrchr(const char* s, int c) { char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* rt_strstr(const char* h, const char* n) __asm__("strstr"); char* rt_strstr(const char* h, const char* n) { size_t l = strlen(n); for (; *h; ++h) if (!strncmp(h, n, l)) return (char*)h; return l ? nullptr : (char*)h; }
void* rt_memchr(const void* p, int c, size_t n) __asm__("memchr"); void* rt_memchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
void* memcpy_rt_unused;
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; } wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; } wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; } wchar_t* rt_wmemchr(const wchar_t* s, wchar_t c, size_t n) __asm__("wmemchr"); wchar_t* rt_wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] == c) return (wchar_t*)s + i; return nullptr; }
int wcscmp(const wchar_t* a, const wchar_t* b) { while (*a && *a == *b) { ++a; ++b; } return *a < *b ? -1 : *a > *b; } int wcsncmp(const wchar_t* a, const wchar_t* b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (*a < *b ? -1 : *a > *b) : 0; } 
int wcscasecmp(const wchar_t* a, const wchar_t* b) { while (*a && lc(*a) == lc(*b)) { ++a; ++b; } return lc(*a) - lc(*b); }
static void ctArg(int c) { if ((c < -128) | (c > 255)) *(volatile char*)0x10 = 0; } // the table of <ctype.h> has entries for -128..255 only
int (isspace)(int c) { ctArg(c); return (c == ' ') | ((c >= 9) & (c <= 13)); } int (isdigit)(int c) { ctArg(c); return (c >= '0') & (c <= '9'); } int (isalpha)(int c) { ctArg(c); return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); } int (isalnum)(int c) { ctArg(c); return (isalpha)(c) | (isdigit)(c); } int (isxdigit)(int c) { ctArg(c); return (isdigit)(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); } int (tolower)(int c) { return lc(c); } int (toupper)(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; } int (isupper)(int c) { ctArg(c); return (c >= 'A') & (c <= 'Z'); } int (islower)(int c) { ctArg(c); return (c >= 'a') & (c <= 'z'); } int (isprint)(int c) { return (c >= 32) & (c < 127); } int (iscntrl)(int c) { return (c < 32) | (c == 127); } int (ispunct)(int c) { return (isprint)(c) & !(isalnum)(c) & (c != 32); }
int (iswspace)(wint_t c) { return (c == ' ') | ((c >= 9) & (c <= 13)); } int (iswdigit)(wint_t c) { return (c >= '0') & (c <= '9'); } wint_t (towlower)(wint_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; } wint_t (towupper)(wint_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c; } int (iswxdigit)(wint_t c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); } int (iswalpha)(wint_t c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); } int (iswalnum)(wint_t c) { return (iswalpha)(c) | (iswdigit)(c); }
}
template <class C> static unsigned long long strtoInt(const C* s, C** e, int base, bool isSigned, unsigned long long maxPos, unsigned long long maxNeg, bool& ovf, bool& neg) {
  const C* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p; neg = false; if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; } if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { C c = p[2]; if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) { p += 2; base = 16; } } if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false; ovf = false; for (;; ++p) { int d; C c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = true; unsigned long long lim = neg ? maxNeg : maxPos; if (v > lim / base || v * base > lim - d) ovf = true; v = v * base + d; }
  if (e) *e = (C*)(any ? p : s); return v; }
template <class C> static long long sgn(const C* s, C** e, int b) { bool o, n; unsigned long long v = strtoInt(s, e, b, true, 0x7fffffffffffffffull, 0x8000000000000000ull, o, n); if (o) { errno = ERANGE; return n ? (long long)0x8000000000000000ull : 0x7fffffffffffffffll; } return (long long)(n ? 0 - v : v); }
template <class C> static unsigned long long uns(const C* s, C** e, int b) { bool o, n; unsigned long long v = strtoInt(s, e, b, false, ~0ull, ~0ull, o, n); if (o) { errno = ERANGE; return ~0ull; } return n ? 0 - v : v; }
extern "C" { int sym_fmt; int sym_is_symbolic(unsigned long long);
long strtol(const char* s, char** e, int b) { return sgn(s, e, b); } long long strtoll(const char* s, char** e, int b) { return sgn(s, e, b); } unsigned long strtoul(const char* s, char** e, int b) { return uns(s, e, b); } unsigned long long strtoull(const char* s, char** e, int b) { return uns(s, e, b); }
long wcstol(const wchar_t* s, wchar_t** e, int b) { return sgn(s, e, b); } unsigned long wcstoul(const wchar_t* s, wchar_t** e, int b) { return uns(s, e, b); } long long wcstoll(const wchar_t* s, wchar_t** e, int b) { return sgn(s, e, b); } unsigned long long wcstoull(const wchar_t* s, wchar_t** e, int b) { return uns(s, e, b); }
int rt_atoi(const char* s) __asm__("atoi"); int rt_atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
// decimal texts of doubles: the engine's host computes them for concrete values; reading scans the text (which may be symbolic) for the longest number
int sym_host_fmt(char* buf, unsigned long long raw, int prec, int mode); unsigned long long sym_host_strtod(const char* s, int* range);
int sym_rt_fmt_double(char* buf, double v, int prec, int mode) { unsigned long long raw; memcpy(&raw, &v, 8); return sym_host_fmt(buf, raw, prec, mode); }
}
template <class C> static double strtoDbl(const C* s, C** e) {
  const C* p = s; char b[512]; int n = 0; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
  const C* end = s; if (*p == '+' || *p == '-') b[n++] = (char)*p++;
  auto word = [&](const char* w) { const C* q = p; for (; *w; ++w, ++q) if (*q != *w && *q != *w - 32) return false; return true; };
  if (word("inf") || word("nan")) { bool i = word("inf"); end = p + (word("infinity") ? 8 : 3); for (int k = 0; k < 3; ++k) b[n++] = i ? "inf"[k] : "nan"[k]; b[n] = 0; int r; unsigned long long raw = sym_host_strtod(b, &r); double d; memcpy(&d, &raw, 8); if (e) *e = (C*)end; return d; }
  int m = n, d = 0; for (; *p >= '0' && *p <= '9' && n < 400; ++p, ++d) b[n++] = (char)*p; if (*p == '.') { b[n++] = '.'; ++p; for (; *p >= '0' && *p <= '9' && n < 400; ++p, ++d) b[n++] = (char)*p; }
  if (d) { m = n; end = p; if (*p == 'e' || *p == 'E') { b[n++] = 'e'; ++p; if (*p == '+' || *p == '-') b[n++] = (char)*p++; int x = 0; for (; *p >= '0' && *p <= '9' && n < 500; ++p, ++x) b[n++] = (char)*p; if (x) { m = n; end = p; } } }
  if (e) *e = (C*)end; if (!d) return 0; b[m] = 0; int r = 0; unsigned long long raw = sym_host_strtod(b, &r); if (r) errno = ERANGE; double v; memcpy(&v, &raw, 8); return v; }
extern "C" {
double strtod(const char* s, char** e) { return strtoDbl(s, e); } double wcstod(const wchar_t* s, wchar_t** e) { return strtoDbl(s, e); } float strtof(const char* s, char** e) { return (float)strtoDbl(s, e); } float wcstof(const wchar_t* s, wchar_t** e) { return (float)strtoDbl(s, e); }
}
