// Engine build only: keeps std::endl a call, which the engine treats as output.
#pragma once
#ifdef __cplusplus
#include <iosfwd>
namespace std {
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>&);
template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>&);
template <> basic_ostream<char>& endl<char, char_traits<char>>(basic_ostream<char>&);
template <> basic_ostream<char>& flush<char, char_traits<char>>(basic_ostream<char>&);
}
#endif
