// SOURCES: src/equations/PerfectGas.cpp
#include "pg.hpp"

// ---------------------------------------------------------------- E01: the
// scalar, array and masked variants of every equation function agree
template <int R> void flux_s(Out o, Direction d) {
  auto eq = Gas<R>(); Conservative<PerfectGas<R>> f(eq); eq.Flux(f, Any(eq, 0), d); w::put(o, f);
}
template <int R> void flux_a(Out o, Direction d, int l) {
  auto eq = Gas<R>(); ConservativeArray<PerfectGas<R>> f(eq); eq.Flux(f, AnyArr(eq, l, 0), d); w::put_lane(o, f, l);
}
template <int R> void flux_m(Out o, Direction d, int l, unsigned m) {
  auto eq = Gas<R>(); ConservativeArray<PerfectGas<R>> f(eq); eq.Flux(f, AnyArr(eq, l, 0), MaskWith(l, m), d); w::put_lane(o, f, l);
}
template <int R> void cfc_s(Out o) {
  auto eq = Gas<R>(); Complete<PerfectGas<R>> q(eq); Conservative<PerfectGas<R>> c(eq); w::fill(c, 0); eq.CompleteFromCons(q, c); w::put(o, q);
}
template <int R> void cfc_a(Out o, int l) {
  auto eq = Gas<R>(); CompleteArray<PerfectGas<R>> q(eq); ConservativeArray<PerfectGas<R>> c(eq); w::fill_lanes(c, l, 0); eq.CompleteFromCons(q, c); w::put_lane(o, q, l);
}
template <int R> void cfc_m(Out o, int l, unsigned m) {
  auto eq = Gas<R>(); CompleteArray<PerfectGas<R>> q(eq); ConservativeArray<PerfectGas<R>> c(eq); w::fill_lanes(c, l, 0); eq.CompleteFromCons(q, c, MaskWith(l, m)); w::put_lane(o, q, l);
}
template <int R> void cfp_s(Out o) {
  auto eq = Gas<R>(); Complete<PerfectGas<R>> q(eq); Primitive<PerfectGas<R>> p(eq); w::fill(p, 0); CompleteFromPrim(eq, q, p); w::put(o, q);
}
template <int R> void cfp_a(Out o, int l) {
  auto eq = Gas<R>(); CompleteArray<PerfectGas<R>> q(eq); PrimitiveArray<PerfectGas<R>> p(eq); w::fill_lanes(p, l, 0); CompleteFromPrim(eq, q, p); w::put_lane(o, q, l);
}
template <int R> void cfp_m(Out o, int l, unsigned m) {
  auto eq = Gas<R>(); PrimitiveArray<PerfectGas<R>> p(eq); w::fill_lanes(p, l, 0); auto q = eq.CompleteFromPrim(p.density, p.velocity, p.pressure, MaskWith(l, m)); w::put_lane(o, q, l);
}
template <int R> void pfc_s(Out o) {
  auto eq = Gas<R>(); Primitive<PerfectGas<R>> p(eq); PrimFromComplete(eq, p, Any(eq, 0)); w::put(o, p);
}
template <int R> void pfc_a(Out o, int l) {
  auto eq = Gas<R>(); PrimitiveArray<PerfectGas<R>> p(eq); PrimFromComplete(eq, p, AnyArr(eq, l, 0)); w::put_lane(o, p, l);
}
template <int R> void aux_s(Out o) {
  auto eq = Gas<R>(); auto q = Any(eq, 0); o.put(eq.Temperature(q)); auto v = eq.Velocity(q); for (int d = 0; d < R; ++d) o.put(v[d]);
  o.put(euler::Gamma(eq, q)); o.put(euler::Density(eq, q)); o.put(euler::Energy(eq, q)); o.put(euler::Pressure(eq, q)); o.put(euler::SpeedOfSound(eq, q));
}
template <int R> void aux_a(Out o, int l) {
  auto eq = Gas<R>(); auto q = AnyArr(eq, l, 0); o.put(eq.Temperature(q)(l)); auto v = eq.Velocity(q); for (int d = 0; d < R; ++d) o.put(v(d, l));
  o.put(euler::Gamma(eq, q)(l)); o.put(euler::Density(eq, q)(l)); o.put(euler::Energy(eq, q)(l)); o.put(euler::Pressure(eq, q)(l)); o.put(euler::SpeedOfSound(eq, q)(l));
}
#define E01_DIR(R, D, d, l)                                                    \
  LAW(E01_pg##R##_flux_##d##_lane##l, (flux_s<R>(o, D)), (flux_a<R>(o, D, l)))      \
  LAW(E01_pg##R##_flux_##d##_mask##l, (flux_s<R>(o, D)), (flux_m<R>(o, D, l, 0x36)))
#define E01_PG(R, l)                                                           \
  LAW(E01_pg##R##_completefromcons_lane##l, (cfc_s<R>(o)), (cfc_a<R>(o, l)))        \
  LAW(E01_pg##R##_completefromcons_mask##l, (cfc_s<R>(o)), (cfc_m<R>(o, l, 0x5a)))  \
  LAW(E01_pg##R##_completefromprim_lane##l, (cfp_s<R>(o)), (cfp_a<R>(o, l)))        \
  LAW(E01_pg##R##_completefromprim_mask##l, (cfp_s<R>(o)), (cfp_m<R>(o, l, 0x5a)))  \
  LAW(E01_pg##R##_primfromcomplete_lane##l, (pfc_s<R>(o)), (pfc_a<R>(o, l)))        \
  LAW(E01_pg##R##_observers_lane##l, (aux_s<R>(o)), (aux_a<R>(o, l)))
E01_PG(1, 0) E01_PG(1, 5) E01_PG(2, 1) E01_PG(2, 7) E01_PG(3, 2) E01_PG(3, 6)
E01_DIR(1, X, x, 0) E01_DIR(2, X, x, 1) E01_DIR(2, Y, y, 7) E01_DIR(3, X, x, 2) E01_DIR(3, Y, y, 4) E01_DIR(3, Z, z, 6)

// ---------------------------------------------------------------- E02: the
// complete state satisfies the ideal gas law, conversions are inverse to each
// other
template <int R> void eos_code(Out o) {
  auto eq = Gas<R>(); Complete<PerfectGas<R>> q(eq); Conservative<PerfectGas<R>> c(eq); auto r = Eos(eq, 0);
  c.density = r.density; c.momentum = r.momentum; c.energy = r.energy; eq.CompleteFromCons(q, c); w::put(o, q);
}
template <int R> void eos_prim(Out o) {
  auto eq = Gas<R>(); Array<double, R, 1> u; for (int d = 0; d < R; ++d) u[d] = vg_in(2 + d);
  w::put(o, eq.CompleteFromPrim(vg_pos(0), u, vg_pos(1)));
}
template <int R> void eos_spec(Out o) { auto eq = Gas<R>(); w::put(o, Eos(eq, 0)); }
template <int R> void prim_rt(Out o) {
  auto eq = Gas<R>(); Primitive<PerfectGas<R>> p(eq), r(eq); Complete<PerfectGas<R>> q(eq); w::fill(p, 0); CompleteFromPrim(eq, q, p); PrimFromComplete(eq, r, q); w::put(o, r);
}
template <int R> void prim_id(Out o) { auto eq = Gas<R>(); Primitive<PerfectGas<R>> p(eq); w::fill(p, 0); w::put(o, p); }
template <int R> void comp_rt(Out o) {
  auto eq = Gas<R>(); auto q = Eos(eq, 0); Primitive<PerfectGas<R>> p(eq); Complete<PerfectGas<R>> r(eq); PrimFromComplete(eq, p, q); CompleteFromPrim(eq, r, p); w::put(o, r);
}
template <int R> void comp_idem(Out o) {
  auto eq = Gas<R>(); Conservative<PerfectGas<R>> c(eq); w::fill(c, 0); Complete<PerfectGas<R>> q(eq), r(eq); eq.CompleteFromCons(q, c); eq.CompleteFromCons(r, AsCons(q)); w::put(o, r);
}
template <int R> void comp_once(Out o) {
  auto eq = Gas<R>(); Conservative<PerfectGas<R>> c(eq); w::fill(c, 0); Complete<PerfectGas<R>> q(eq); eq.CompleteFromCons(q, c); w::put(o, q);
}
template <int R> void thermo_code(Out o) {
  auto eq = Gas<R>(); auto q = Eos(eq, 0); o.put(eq.Temperature(q) * eq.Rspec * q.density); auto u = eq.Velocity(q); for (int d = 0; d < R; ++d) o.put(u[d]); const double M = eq.Machnumber(q); o.put(M * M * q.speed_of_sound * q.speed_of_sound);
}
template <int R> void thermo_spec(Out o) {
  o.put(vg_pos(1)); double s = 0; for (int d = 0; d < R; ++d) { o.put(vg_in(2 + d)); s += vg_in(2 + d) * vg_in(2 + d); } o.put(s);
}
template <int R> void generic_cfc(Out o) {
  auto eq = Gas<R>(); Conservative<PerfectGas<R>> c(eq); w::fill(c, 0); Complete<PerfectGas<R>> q(eq); ::fub::CompleteFromCons(eq, q, c); w::put(o, q);
}
#define E02(R)                                                                 \
  LAW(E02_pg##R##_eos_from_cons, (eos_code<R>(o)), (eos_spec<R>(o)))                \
  LAW(E02_pg##R##_eos_from_prim, (eos_prim<R>(o)), (eos_spec<R>(o)))                \
  LAW(E02_pg##R##_prim_roundtrip, (prim_rt<R>(o)), (prim_id<R>(o)))                 \
  LAW(E02_pg##R##_complete_roundtrip, (comp_rt<R>(o)), (eos_spec<R>(o)))            \
  LAW(E02_pg##R##_completion_idempotent, (comp_idem<R>(o)), (comp_once<R>(o)))      \
  LAW(E02_pg##R##_generic_dispatch, (generic_cfc<R>(o)), (comp_once<R>(o)))         \
  LAW(E02_pg##R##_thermo, (thermo_code<R>(o)), (thermo_spec<R>(o)))
E02(1) E02(2) E02(3)

// ---------------------------------------------------------------- E03: the
// physical flux is the Euler flux; rotations and reflections are covariant
template <int R> void euler_flux(Out o, Direction d) {
  auto eq = Gas<R>(); auto q = Any(eq, 0); const double u = q.momentum[int(d)] / q.density;
  o.put(q.momentum[int(d)]); for (int k = 0; k < R; ++k) o.put(q.momentum[k] * u + (k == int(d) ? q.pressure : 0.0)); o.put(u * (q.energy + q.pressure));
}
LAW(E03_pg1_eulerflux_x, (flux_s<1>(o, X)), (euler_flux<1>(o, X)))
LAW(E03_pg2_eulerflux_x, (flux_s<2>(o, X)), (euler_flux<2>(o, X)))
LAW(E03_pg2_eulerflux_y, (flux_s<2>(o, Y)), (euler_flux<2>(o, Y)))
LAW(E03_pg3_eulerflux_x, (flux_s<3>(o, X)), (euler_flux<3>(o, X)))
LAW(E03_pg3_eulerflux_y, (flux_s<3>(o, Y)), (euler_flux<3>(o, Y)))
LAW(E03_pg3_eulerflux_z, (flux_s<3>(o, Z)), (euler_flux<3>(o, Z)))

// rotation matrix from an (unnormalised) angle: c=(1-t^2)/(1+t^2), s=2t/(1+t^2)
inline Eigen::Matrix<double, 2, 2> Rot2() { double t = vg_in(7000); double c = (1 - t * t) / (1 + t * t), s = 2 * t / (1 + t * t); Eigen::Matrix<double, 2, 2> m; m << c, -s, s, c; return m; }
inline Eigen::Matrix<double, 3, 3> Rot3() {
  double a = vg_in(7001), b = vg_in(7002); double c = (1 - a * a) / (1 + a * a), s = 2 * a / (1 + a * a), e = (1 - b * b) / (1 + b * b), g = 2 * b / (1 + b * b);
  Eigen::Matrix<double, 3, 3> m, n; m << c, -s, 0, s, c, 0, 0, 0, 1; n << 1, 0, 0, 0, e, -g, 0, g, e; return m * n; }
template <int R> Eigen::Matrix<double, R, R> Rot() { if constexpr (R == 2) return Rot2(); else return Rot3(); }
template <class S, int R> void rotate_code(Out o) { auto eq = Gas<R>(); S q(eq), r(eq); w::fill(q, 0); Rotate(r, q, Rot<R>(), eq); w::put(o, r); }
template <class S, int R> void rotate_spec(Out o) {
  auto eq = Gas<R>(); S q(eq); w::fill(q, 0); auto m = Rot<R>(); double v[R]; for (int i = 0; i < R; ++i) { v[i] = 0; for (int j = 0; j < R; ++j) v[i] += m(i, j) * q.momentum[j]; } for (int i = 0; i < R; ++i) q.momentum[i] = v[i]; w::put(o, q); }
LAW(E03_pg2_rotate_cons, (rotate_code<Conservative<PerfectGas<2>>, 2>(o)), (rotate_spec<Conservative<PerfectGas<2>>, 2>(o)))
LAW(E03_pg2_rotate_complete, (rotate_code<Complete<PerfectGas<2>>, 2>(o)), (rotate_spec<Complete<PerfectGas<2>>, 2>(o)))
LAW(E03_pg3_rotate_cons, (rotate_code<Conservative<PerfectGas<3>>, 3>(o)), (rotate_spec<Conservative<PerfectGas<3>>, 3>(o)))
LAW(E03_pg3_rotate_complete, (rotate_code<Complete<PerfectGas<3>>, 3>(o)), (rotate_spec<Complete<PerfectGas<3>>, 3>(o)))

template <int R> Eigen::Matrix<double, R, 1> UnitNormal() {
  Eigen::Matrix<double, R, 1> n; if constexpr (R == 1) n[0] = 1; else if constexpr (R == 2) { double t = vg_in(7010); n << (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t); } else { double t = vg_in(7010), b = vg_in(7011); n << (1 - t * t) / (1 + t * t) * (1 - b * b) / (1 + b * b), 2 * t / (1 + t * t) * (1 - b * b) / (1 + b * b), 2 * b / (1 + b * b); } return n; }
template <class Q> auto& Vec(Q& q) { if constexpr (std::is_same_v<typename Q::Traits, StateTraits<ScalarStateBase<typename Q::Equation::PrimitiveDepths>>>) return q.velocity; else return q.momentum; }
template <class S, int R> void reflect_code(Out o) { auto eq = Gas<R>(); S q(eq), r(eq); w::fill(q, 0); Reflect(r, q, UnitNormal<R>(), eq); w::put(o, r); }
template <class S, int R> void reflect_twice(Out o) { auto eq = Gas<R>(); S q(eq), r(eq), s(eq); w::fill(q, 0); Reflect(r, q, UnitNormal<R>(), eq); Reflect(s, r, UnitNormal<R>(), eq); w::put(o, s); }
template <class S, int R> void reflect_alias(Out o) { auto eq = Gas<R>(); S q(eq); w::fill(q, 0); Reflect(q, q, UnitNormal<R>(), eq); w::put(o, q); }
template <class S, int R> void ident(Out o) { auto eq = Gas<R>(); S q(eq); w::fill(q, 0); w::put(o, q); }
template <class S, int R> void reflect_spec(Out o) { auto eq = Gas<R>(); S q(eq); w::fill(q, 0); auto n = UnitNormal<R>(); auto& v = Vec(q); double s = 0; for (int i = 0; i < R; ++i) s += v[i] * n[i]; for (int i = 0; i < R; ++i) v[i] -= 2 * s * n[i]; w::put(o, q); }
#define E03_REFL(R, S)                                                         \
  LAW(E03_pg##R##_reflect_##S, (reflect_code<S<PerfectGas<R>>, R>(o)), (reflect_spec<S<PerfectGas<R>>, R>(o))) \
  LAW(E03_pg##R##_reflect_##S##_twice, (reflect_twice<S<PerfectGas<R>>, R>(o)), (ident<S<PerfectGas<R>>, R>(o)))
E03_REFL(1, Conservative) E03_REFL(2, Conservative) E03_REFL(3, Conservative)
E03_REFL(1, Complete) E03_REFL(2, Complete) E03_REFL(3, Complete)
E03_REFL(1, Primitive) E03_REFL(2, Primitive) E03_REFL(3, Primitive)
