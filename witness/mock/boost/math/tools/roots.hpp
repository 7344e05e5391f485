// stand-in: a root finder about which nothing is known but the interval it is given
#pragma once
#include <cstdint>
#include <utility>
extern "C" double vg_pos(int) noexcept __attribute__((const));
namespace boost { using uintmax_t = std::uintmax_t; namespace math { namespace tools {
inline struct { double lo, hi, at_lo, at_hi, at; int calls; } bisection{};
template <class T> struct eps_tolerance { explicit eps_tolerance(unsigned) {} };
template <class F, class T, class Tol> std::pair<T, T> bisect(F f, T lo, T hi, Tol, boost::uintmax_t&) {
  bisection = {lo, hi, f(lo), f(hi), f(vg_pos(602)), bisection.calls + 1};
  return {vg_pos(600), vg_pos(601)};
}
}}}
