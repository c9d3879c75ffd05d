// std::to_wstring formats integers with vswprintf; this overload (preferred over the variadic one) does it digit by digit.
#pragma once
#include_next <ext/string_conversions.h>
#include <type_traits>
namespace __gnu_cxx {
template <typename S, typename C, typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
S __to_xstring(int (*)(C*, std::size_t, const C*, __builtin_va_list), std::size_t, const C*, T v) {
  typedef typename std::make_unsigned<T>::type U; C buf[24]; int n = 24; bool neg = v < 0; U u = neg ? U(0) - U(v) : U(v);
  do { buf[--n] = C('0' + (int)(u % 10)); u /= 10; } while (u);
  if (neg) buf[--n] = C('-');
  return S(buf + n, buf + 24);
}
}
