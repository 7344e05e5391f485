// Common vocabulary of the witness translation units.
//
// A witness is never executed.  It is compiled to LLVM IR together with the
// code under analysis and its value graph is inspected by tools/vg.
//
// A law <name> is a pair of functions <name>__L and <name>__R which have to
// denote the same outputs for all inputs.  vg_in/vg_pos/vg_int are free
// symbols, vg_uf* are uninterpreted functions.
#ifndef VERIF_W_HPP
#define VERIF_W_HPP
#include <array>
#include <cmath>
#include <cstddef>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

extern "C" {
double vg_in(int) noexcept __attribute__((const));  // free real
double vg_pos(int) noexcept __attribute__((const)); // free positive real
int vg_int(int) noexcept __attribute__((const));    // free integer
long vg_long(int) noexcept __attribute__((const));  // free integer
bool vg_bool(int) noexcept __attribute__((const));  // free truth value
// uninterpreted functions
double vg_uf1(int, double) noexcept __attribute__((const));
double vg_uf2(int, double, double) noexcept __attribute__((const));
double vg_uf3(int, double, double, double) noexcept __attribute__((const));
double vg_uf4(int, double, double, double, double) noexcept
    __attribute__((const));
double vg_uf5(int, double, double, double, double, double) noexcept
    __attribute__((const));
bool vg_ufb2(int, double, double) noexcept __attribute__((const));
// the given number, unknown to the compiler (it does not fold it with rounding)
double vg_num(double) noexcept __attribute__((const));
// path assumption: trials in which the argument is not positive are discarded
void vg_assume_pos(double) noexcept;
// follow loops whose trip count depends on the input for this many iterations
void vg_loop_bound(int) noexcept;
}

#define LAW_L(name)                                                            \
  extern "C" __attribute__((visibility("default"))) void name##__L(      \
      double* __restrict out)
#define LAW_R(name)                                                            \
  extern "C" __attribute__((visibility("default"))) void name##__R(      \
      double* __restrict out)

#define LAW(name, lhs, ...)                                                    \
  LAW_L(name) {                                                                \
    w::Out o{out};                                                             \
    lhs;                                                                       \
  }                                                                            \
  LAW_R(name) {                                                                \
    w::Out o{out};                                                             \
    __VA_ARGS__;                                                                       \
  }

#ifdef FUB_STATE_HPP
#error "include w.hpp before fub headers"
#endif

namespace w {
constexpr bool positive_name(std::string_view n) {
  return n == "Density" || n == "Pressure" || n == "SpeedOfSound" ||
         n == "Height" || n == "Temperature" || n == "Energy" ||
         n == "HeatCapacityAtConstantPressure" || n == "HeatCapacityRatio" ||
         n == "Species" || n == "MolarMass" || n == "cp" || n == "Gamma";
}

template <class S, int Pass = 0> struct NamesOf {
  static constexpr auto names = S::Traits::names;
};

inline double sym(bool pos, int id) { return pos ? vg_pos(id) : vg_in(id); }

template <class X> void fill_member(X& x, bool pos, int& id) {
  if constexpr (std::is_same_v<X, double>) {
    x = sym(pos, id++);
  } else {
    for (int i = 0; i < x.size(); ++i) {
      x[i] = sym(pos, id++);
    }
  }
}

template <class X>
void fill_lane_member(X& x, bool pos, int lane, int& id) {
  if constexpr (X::RowsAtCompileTime == 1) {
    x(lane) = sym(pos, id++);
  } else {
    for (int i = 0; i < x.rows(); ++i) {
      x(i, lane) = sym(pos, id++);
    }
  }
}

template <class S, std::size_t... Is>
void fill_impl(S& s, int& id, std::index_sequence<Is...>) {
  using Tr = typename S::Traits;
  (fill_member(s.*std::get<Is>(Tr::pointers_to_member),
               positive_name(std::get<Is>(Tr::names)), id),
   ...);
}
template <class S, std::size_t... Is>
void fill_lane_impl(S& s, int lane, int& id, std::index_sequence<Is...>) {
  using Tr = typename S::Traits;
  (fill_lane_member(s.*std::get<Is>(Tr::pointers_to_member),
                    positive_name(std::get<Is>(Tr::names)), lane, id),
   ...);
}
template <class S> constexpr auto members() {
  return std::make_index_sequence<
      std::tuple_size_v<std::decay_t<decltype(S::Traits::pointers_to_member)>>>{};
}
/// every scalar of s becomes a fresh symbol numbered from base
template <class S> void fill(S& s, int base) {
  fill_impl(s, base, members<S>());
}
/// lane `lane` of an array state
template <class S> void fill_lane(S& s, int lane, int base) {
  fill_lane_impl(s, lane, base, members<S>());
}
/// Fill all lanes; lane `lane` gets the symbols `base`.., the other lanes get
/// unrelated symbols.
template <class S> void fill_lanes(S& s, int lane, int base, int width = 8) {
  for (int i = 0; i < width; ++i) {
    fill_lane(s, i, i == lane ? base : base + 20000);
  }
}

struct Out {
  double* p;
  void put(double x) { *p++ = x; }
};
template <class X> void put_member(Out& o, const X& x) {
  if constexpr (std::is_arithmetic_v<X>) {
    o.put(x);
  } else {
    for (int i = 0; i < x.size(); ++i)
      o.put(x[i]);
  }
}
template <class X> void put_lane_member(Out& o, const X& x, int lane) {
  if constexpr (X::RowsAtCompileTime == 1) {
    o.put(x(lane));
  } else {
    for (int i = 0; i < x.rows(); ++i)
      o.put(x(i, lane));
  }
}
template <class S, std::size_t... Is>
void put_impl(Out& o, const S& s, std::index_sequence<Is...>) {
  using Tr = typename S::Traits;
  (put_member(o, s.*std::get<Is>(Tr::pointers_to_member)), ...);
}
template <class S, std::size_t... Is>
void put_lane_impl(Out& o, const S& s, int lane, std::index_sequence<Is...>) {
  using Tr = typename S::Traits;
  (put_lane_member(o, s.*std::get<Is>(Tr::pointers_to_member), lane), ...);
}
template <class S> void put(Out& o, const S& s) {
  put_impl(o, s, members<S>());
}
template <class S> void put_lane(Out& o, const S& s, int lane) {
  put_lane_impl(o, s, lane, members<S>());
}
template <class X> void set_lane_member(X& x, double v, int lane) { x(lane) = v; }
template <class X, class V> void set_lane_m(X& x, const V& v, int lane) {
  if constexpr (std::is_arithmetic_v<V>) {
    x(lane) = v;
  } else {
    for (int i = 0; i < v.size(); ++i)
      x(i, lane) = v[i];
  }
}
template <class A, class S, std::size_t... Is>
void set_lane_impl(A& a, const S& s, int lane, std::index_sequence<Is...>) {
  using TA = typename A::Traits;
  using TS = typename S::Traits;
  (set_lane_m(a.*std::get<Is>(TA::pointers_to_member), s.*std::get<Is>(TS::pointers_to_member), lane), ...);
}
/// lane `lane` of the array state a becomes the scalar state s
template <class A, class S> void set_lane(A& a, const S& s, int lane) {
  set_lane_impl(a, s, lane, members<A>());
}
template <class A, std::size_t... Is>
void zero_lane_impl(A& a, int lane, std::index_sequence<Is...>) {
  using TA = typename A::Traits;
  ((a.*std::get<Is>(TA::pointers_to_member)).col(lane).setZero(), ...);
}
template <class A> void zero_lane(A& a, int lane) {
  zero_lane_impl(a, lane, members<A>());
}
template <class X> void scale_member(X& x, double c) {
  if constexpr (std::is_arithmetic_v<X>) {
    x = c == 0.0 ? 0.0 : c * x;
  } else {
    for (int i = 0; i < x.size(); ++i)
      x[i] = c == 0.0 ? 0.0 : c * x[i];
  }
}
template <class S, std::size_t... Is>
void scale_impl(S& s, double c, std::index_sequence<Is...>) {
  using Tr = typename S::Traits;
  (scale_member(s.*std::get<Is>(Tr::pointers_to_member), c), ...);
}
template <class S> void scale(S& s, double c) { scale_impl(s, c, members<S>()); }
template <class S> void zero(S& s) { scale_impl(s, 0.0, members<S>()); }
} // namespace w
#endif
