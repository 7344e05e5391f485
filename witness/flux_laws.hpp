// Laws every numerical flux method has to obey, generic over
//   T::Eq, T::eq(), T::eos(eq,k), T::method(eq), T::mirror(eq,q,dir),
#ifndef VERIF_FLUX_LAWS_HPP
#define VERIF_FLUX_LAWS_HPP
#include "w.hpp"
#include "fub/flux_method/FluxMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/GodunovMethod.hpp"

using namespace fub;
using w::Out;

template <class T> using EqOf = typename T::Eq;
template <class T> using CompT = Complete<EqOf<T>>;
template <class T> using ConsT = Conservative<EqOf<T>>;
template <class T> using CompA = CompleteArray<EqOf<T>>;
template <class T> using ConsA = ConservativeArray<EqOf<T>>;

/// array state with lane l == s, other lanes: admissible copies of other data
template <class T> CompA<T> Lanes(const EqOf<T>& eq, const CompT<T>& s, int l, int base) {
  CompA<T> a(eq);
  w::fill_lanes(a, l, base + 100);
  w::set_lane(a, s, l);
  return a;
}
template <class T> CompA<T> LanesMasked(const EqOf<T>& eq, const CompT<T>& s, int l, unsigned bits) {
  CompA<T> a(eq);
  for (int i = 0; i < 8; ++i) {
    if (i == l) w::set_lane(a, s, l);
    else if ((bits >> i) & 1u) w::fill_lane(a, i, 30000 + 500 * i);
    else w::zero_lane(a, i);
  }
  return a;
}
inline Array1d Fractions(int l, unsigned bits) {
  Array1d f = Array1d::Zero();
  for (int i = 0; i < 8; ++i)
    if (i == l || ((bits >> i) & 1u)) f[i] = vg_pos(8000 + i);
  return f;
}

template <class T> struct FluxLaws {
  using Eq = EqOf<T>;
  static auto flux1(typename std::decay_t<decltype(T::method(T::eq()))>& m, const Eq& eq, const CompT<T>& l, const CompT<T>& r, Direction d) {
    ConsT<T> f(eq);
    std::array<CompT<T>, 2> st{l, r};
    m.ComputeNumericFlux(f, st, Duration(vg_pos(9100)), vg_pos(9101), d);
    return f;
  }
  static ConsT<T> flux(const Eq& eq, const CompT<T>& l, const CompT<T>& r, Direction d) {
    auto m = T::method(eq);
    return flux1(m, eq, l, r, d);
  }
  // ---- consistency
  static void cons_code(Out o, Direction d) { auto eq = T::eq(); auto q = T::eos(eq, 0); w::put(o, flux(eq, q, q, d)); }
  static void cons_spec(Out o, Direction d) { auto eq = T::eq(); auto q = T::eos(eq, 0); ConsT<T> f(eq); eq.Flux(f, q, d); w::put(o, f); }
  // ---- scalar, array, masked
  static void num_s(Out o, Direction d) { auto eq = T::eq(); w::put(o, flux(eq, T::eos(eq, 0), T::eos(eq, 50), d)); }
  static void num_a(Out o, Direction d, int l) {
    auto eq = T::eq(); auto m = T::method(eq); ConsA<T> f(eq);
    std::array<CompA<T>, 2> st{Lanes<T>(eq, T::eos(eq, 0), l, 0), Lanes<T>(eq, T::eos(eq, 50), l, 9000)};
    m.ComputeNumericFlux(f, st, Duration(vg_pos(9100)), vg_pos(9101), d);
    w::put_lane(o, f, l);
  }
  static void num_m(Out o, Direction d, int l, unsigned bits) {
    auto eq = T::eq(); auto m = T::method(eq); ConsA<T> f(eq);
    std::array<CompA<T>, 2> st{LanesMasked<T>(eq, T::eos(eq, 0), l, bits), LanesMasked<T>(eq, T::eos(eq, 50), l, bits)};
    Array1d ff = Fractions(l, bits);
    std::array<Array1d, 2> vf{ff, ff};
    m.ComputeNumericFlux(f, ff, st, vf, Duration(vg_pos(9100)), vg_pos(9101), d);
    w::put_lane(o, f, l);
  }
  // covered faces carry no flux
  static void num_off(Out o, Direction d, int l, unsigned bits) {
    auto eq = T::eq(); auto m = T::method(eq); ConsA<T> f(eq); w::fill_lanes(f, l, 900); // held something else before
    unsigned on = bits & ~(1u << l); int first = 0; while (on && !((on >> first) & 1u)) ++first;
    if (!on) first = 8;
    std::array<CompA<T>, 2> st{LanesMasked<T>(eq, T::eos(eq, 0), first, on), LanesMasked<T>(eq, T::eos(eq, 50), first, on)};
    Array1d ff = Fractions(first, on);
    std::array<Array1d, 2> vf{ff, ff};
    m.ComputeNumericFlux(f, ff, st, vf, Duration(vg_pos(9100)), vg_pos(9101), d);
    w::put_lane(o, f, l);
  }
  static void num_off0(Out o) { auto eq = T::eq(); ConsT<T> f(eq); w::zero(f); w::put(o, f); }
  // ---- stable time step
  static void dt_s(Out o, Direction d) { auto eq = T::eq(); auto m = T::method(eq); std::array<CompT<T>, 2> st{T::eos(eq, 0), T::eos(eq, 50)}; o.put(m.ComputeStableDt(st, vg_pos(9101), d)); }
  static void dt_a(Out o, Direction d, int l) {
    auto eq = T::eq(); auto m = T::method(eq);
    std::array<CompA<T>, 2> st{Lanes<T>(eq, T::eos(eq, 0), l, 0), Lanes<T>(eq, T::eos(eq, 50), l, 9000)};
    o.put(m.ComputeStableDt(st, vg_pos(9101), d)[l]);
  }
  static void dt_m(Out o, Direction d, int l, unsigned bits) {
    auto eq = T::eq(); auto m = T::method(eq);
    std::array<CompA<T>, 2> st{LanesMasked<T>(eq, T::eos(eq, 0), l, bits), LanesMasked<T>(eq, T::eos(eq, 50), l, bits)};
    Array1d ff = Fractions(l, bits);
    std::array<Array1d, 2> vf{ff, ff};
    o.put(m.ComputeStableDt(st, ff, vf, vg_pos(9101), d)[l]);
  }
  // dt(left,right) mirrored
  static void dtm_s(Out o, Direction d) { auto eq = T::eq(); auto m = T::method(eq); std::array<CompT<T>, 2> st{T::mirror(eq, T::eos(eq, 50), d), T::mirror(eq, T::eos(eq, 0), d)}; o.put(m.ComputeStableDt(st, vg_pos(9101), d)); }
  // ---- an object that has computed something else before
  static std::array<CompT<T>, 2> other(const Eq& eq) { return {T::eos(eq, 1000), T::eos(eq, 1050)}; }
  template <class M> static void use_s(M& m, const Eq& eq, Direction d) {
    ConsT<T> f(eq); auto st = other(eq); const Direction e = Direction((int(d) + 1) % Eq::Rank());
    m.ComputeNumericFlux(f, st, Duration(vg_pos(9110)), vg_pos(9111), e); m.ComputeStableDt(st, vg_pos(9111), d);
  }
  template <class M> static void use_a(M& m, const Eq& eq, Direction d, int l) {
    ConsA<T> f(eq); auto q = other(eq); const Direction e = Direction((int(d) + 1) % Eq::Rank());
    std::array<CompA<T>, 2> st{Lanes<T>(eq, q[0], l, 20000), Lanes<T>(eq, q[1], l, 29000)};
    m.ComputeNumericFlux(f, st, Duration(vg_pos(9110)), vg_pos(9111), e); m.ComputeStableDt(st, vg_pos(9111), d);
  }
  static void again_s(Out o, Direction d) {
    auto eq = T::eq(); auto m = T::method(eq); use_a(m, eq, d, 2); use_s(m, eq, d);
    ConsT<T> f(eq); w::fill(f, 700); std::array<CompT<T>, 2> st{T::eos(eq, 0), T::eos(eq, 50)};
    m.ComputeNumericFlux(f, st, Duration(vg_pos(9100)), vg_pos(9101), d); w::put(o, f); o.put(m.ComputeStableDt(st, vg_pos(9101), d));
  }
  static void fresh_s(Out o, Direction d) {
    auto eq = T::eq(); auto m = T::method(eq); std::array<CompT<T>, 2> st{T::eos(eq, 0), T::eos(eq, 50)};
    w::put(o, flux(eq, st[0], st[1], d)); o.put(m.ComputeStableDt(st, vg_pos(9101), d));
  }
  static void fresh_a(Out o, Direction d, int l) {
    auto eq = T::eq(); auto m = T::method(eq); auto m2 = T::method(eq); ConsA<T> f(eq);
    std::array<CompA<T>, 2> st{Lanes<T>(eq, T::eos(eq, 0), l, 0), Lanes<T>(eq, T::eos(eq, 50), l, 9000)};
    m.ComputeNumericFlux(f, st, Duration(vg_pos(9100)), vg_pos(9101), d); w::put_lane(o, f, l); o.put(m2.ComputeStableDt(st, vg_pos(9101), d)[l]);
  }
  static void again_a(Out o, Direction d, int l) {
    auto eq = T::eq(); auto m = T::method(eq); use_s(m, eq, d); use_a(m, eq, d, l);
    ConsA<T> f(eq); w::fill_lanes(f, l, 900);
    std::array<CompA<T>, 2> st{Lanes<T>(eq, T::eos(eq, 0), l, 0), Lanes<T>(eq, T::eos(eq, 50), l, 9000)};
    m.ComputeNumericFlux(f, st, Duration(vg_pos(9100)), vg_pos(9101), d); w::put_lane(o, f, l); o.put(m.ComputeStableDt(st, vg_pos(9101), d)[l]);
  }
  // ---- mirror symmetry: F(Sr, Sl) = -S F(l, r)
  static void mir_code(Out o, Direction d) { auto eq = T::eq(); w::put(o, flux(eq, T::mirror(eq, T::eos(eq, 50), d), T::mirror(eq, T::eos(eq, 0), d), d)); }
  static void mir_spec(Out o, Direction d) { auto eq = T::eq(); auto f = flux(eq, T::eos(eq, 0), T::eos(eq, 50), d); f = T::mirror_cons(eq, f, d); w::scale(f, -1.0); w::put(o, f); }
  // ---- direction equivariance: F(P l, P r, P d) = P F(l, r, d), P = cyclic shift of the axes
  static void rot_code(Out o, Direction d) { auto eq = T::eq(); w::put(o, flux(eq, T::shift(eq, T::eos(eq, 0)), T::shift(eq, T::eos(eq, 50)), Direction((int(d) + 1) % Eq::Rank()))); }
  static void rot_spec(Out o, Direction d) { auto eq = T::eq(); auto f = flux(eq, T::eos(eq, 0), T::eos(eq, 50), d); w::put(o, T::shift_cons(eq, f)); }
};

#define FLUX_SAV(N, T, D, d, l, b)                                             \
  LAW(R02_##N##_flux_##d##_lane##l, FluxLaws<T>::num_s(o, D), FluxLaws<T>::num_a(o, D, l))             \
  LAW(R02_##N##_dt_##d##_lane##l, FluxLaws<T>::dt_s(o, D), FluxLaws<T>::dt_a(o, D, l))
// the same for second order methods T::M on stencils of four cells; S: scalar version exists
template <class T, bool S = true> struct Again4 {
  using Eq = EqOf<T>;
  static std::array<CompT<T>, 4> at(const Eq& eq, int k) { return {T::eos(eq, k), T::eos(eq, k + 50), T::eos(eq, k + 100), T::eos(eq, k + 150)}; }
  static std::array<CompA<T>, 4> lanes(const Eq& eq, int k, int l) { auto q = at(eq, k); return {Lanes<T>(eq, q[0], l, 3 * k), Lanes<T>(eq, q[1], l, 3 * k + 2000), Lanes<T>(eq, q[2], l, 3 * k + 4000), Lanes<T>(eq, q[3], l, 3 * k + 6000)}; }
  template <class M> static void use(M& m, const Eq& eq, Direction d, int l) {
    const Direction e = Direction((int(d) + 1) % Eq::Rank()); const Duration dt(vg_pos(9110)); const double dx = vg_pos(9111);
    if constexpr (S) { ConsT<T> f(eq); auto st = at(eq, 10000); m.ComputeNumericFlux(f, st, dt, dx, e); m.ComputeStableDt(st, dx, d); }
    ConsA<T> f(eq); auto st = lanes(eq, 10000, l); m.ComputeNumericFlux(f, st, dt, dx, e); m.ComputeStableDt(st, dx, d);
  }
  template <class M> static void mask(M& m, const Eq& eq, Direction d, int l) {
    const Direction e = Direction((int(d) + 1) % Eq::Rank()); const Duration dt(vg_pos(9110)); const double dx = vg_pos(9111);
    ConsA<T> f(eq); auto q = at(eq, 12000); std::array<CompA<T>, 4> st{LanesMasked<T>(eq, q[0], l, 0x4u), LanesMasked<T>(eq, q[1], l, 0x4u), LanesMasked<T>(eq, q[2], l, 0x4u), LanesMasked<T>(eq, q[3], l, 0x4u)};
    Array1d ff = Fractions(l, 0x4u); std::array<Array1d, 4> vf{ff, ff, ff, ff}; m.ComputeNumericFlux(f, ff, st, vf, dt, dx, e); m.ComputeStableDt(st, ff, vf, dx, d);
  }
  static void scalar(Out o, Direction d, int l, bool again, bool masked) {
    auto eq = T::eq(); typename T::M m(eq), n(eq); ConsT<T> f(eq); if (again) { use(m, eq, d, l); if constexpr (std::is_same_v<typename T::Masked, std::true_type>) if (masked) mask(m, eq, d, l); w::fill(f, 700); }
    auto st = at(eq, 0); m.ComputeNumericFlux(f, st, Duration(vg_pos(9100)), vg_pos(9101), d); w::put(o, f); o.put((again ? m : n).ComputeStableDt(st, vg_pos(9101), d));
  }
  static void array(Out o, Direction d, int l, bool again, bool masked) {
    auto eq = T::eq(); typename T::M m(eq), n(eq); ConsA<T> f(eq); if (again) { if constexpr (std::is_same_v<typename T::Masked, std::true_type>) if (masked) mask(m, eq, d, l); use(m, eq, d, l); w::fill_lanes(f, l, 900); }
    auto st = lanes(eq, 0, l); m.ComputeNumericFlux(f, st, Duration(vg_pos(9100)), vg_pos(9101), d); w::put_lane(o, f, l); o.put((again ? m : n).ComputeStableDt(st, vg_pos(9101), d)[l]);
  }
  static void masked(Out o, Direction d, int l, bool again) {
    auto eq = T::eq(); typename T::M m(eq), n(eq); ConsA<T> f(eq); if (again) { use(m, eq, d, l); mask(m, eq, d, l); w::fill_lanes(f, l, 900); }
    auto q = at(eq, 0); std::array<CompA<T>, 4> st{LanesMasked<T>(eq, q[0], l, 0x2cu), LanesMasked<T>(eq, q[1], l, 0x2cu), LanesMasked<T>(eq, q[2], l, 0x2cu), LanesMasked<T>(eq, q[3], l, 0x2cu)};
    Array1d ff = Fractions(l, 0x2cu); std::array<Array1d, 4> vf{ff, ff, ff, ff};
    m.ComputeNumericFlux(f, ff, st, vf, Duration(vg_pos(9100)), vg_pos(9101), d); w::put_lane(o, f, l); o.put((again ? m : n).ComputeStableDt(st, ff, vf, vg_pos(9101), d)[l]);
  }
};
template <class B, bool K> struct WithMask : B { using Masked = std::bool_constant<K>; };
#define AGAIN4_S(N, T, K, D, d, l) LAW(R08_##N##_##d, (Again4<WithMask<T, K>>::scalar(o, D, l, true, true)), (Again4<WithMask<T, K>>::scalar(o, D, l, false, false)))
#define AGAIN4_A(N, T, S, K, D, d, l) LAW(R08_##N##_##d##_lane##l, (Again4<WithMask<T, K>, S>::array(o, D, l, true, true)), (Again4<WithMask<T, K>, S>::array(o, D, l, false, false)))
#define AGAIN4_M(N, T, S, D, d, l) LAW(R08_##N##_##d##_mask##l, (Again4<WithMask<T, true>, S>::masked(o, D, l, true)), (Again4<WithMask<T, true>, S>::masked(o, D, l, false)))
#define FLUX_AGAIN(N, T, D, d, l)                                              \
  LAW(R08_##N##_flux_##d, FluxLaws<T>::again_s(o, D), FluxLaws<T>::fresh_s(o, D))                      \
  LAW(R08_##N##_flux_##d##_lane##l, FluxLaws<T>::again_a(o, D, l), FluxLaws<T>::fresh_a(o, D, l))
#define FLUX_MASK(N, T, D, d, l, b)                                            \
  LAW(R02_##N##_flux_##d##_mask##l, FluxLaws<T>::num_s(o, D), FluxLaws<T>::num_m(o, D, l, b))          \
  LAW(R02_##N##_dt_##d##_mask##l, FluxLaws<T>::dt_s(o, D), FluxLaws<T>::dt_m(o, D, l, b))              \
  LAW(R02_##N##_covered_##d##_mask##l, FluxLaws<T>::num_off(o, D, l, b), FluxLaws<T>::num_off0(o))     \
  LAW(R02_##N##_allcovered_##d##_mask##l, FluxLaws<T>::num_off(o, D, l, 0u), FluxLaws<T>::num_off0(o))
#define FLUX_SYM(N, T, D, d)                                                   \
  LAW(R01_##N##_consistent_##d, FluxLaws<T>::cons_code(o, D), FluxLaws<T>::cons_spec(o, D))            \
  LAW(R03_##N##_mirror_##d, FluxLaws<T>::mir_code(o, D), FluxLaws<T>::mir_spec(o, D))                  \
  LAW(R03_##N##_dtmirror_##d, FluxLaws<T>::dtm_s(o, D), FluxLaws<T>::dt_s(o, D))
#define FLUX_ROT(N, T, D, d)                                                   \
  LAW(R03_##N##_equivariant_##d, FluxLaws<T>::rot_code(o, D), FluxLaws<T>::rot_spec(o, D))
#endif
