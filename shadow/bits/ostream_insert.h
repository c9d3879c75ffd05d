#pragma once
#include <iosfwd>
namespace std { template <class C, class T> basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { o.sym_pad(s, (size_t)n); return o; } }
