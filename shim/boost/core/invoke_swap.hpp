#pragma once
#include <utility>
namespace boost { namespace core {
template <class T> inline void invoke_swap(T& a, T& b) { using std::swap; swap(a, b); }
}}
