// SOURCES: src/equations/PerfectGasMix.cpp
#include "mix.hpp"
template <int R> using E = PerfectGasMix<R>;
template <int R> CompleteArray<E<R>> AnyMixArr(const E<R>& eq, int l, int k) { CompleteArray<E<R>> q(eq); w::fill_lanes(q, l, k); return q; }
// ------------------------------------------------- E01: scalar, array, masked
template <int R> void flux_s(Out o, Direction d) { auto eq = Mix<R>(); Conservative<E<R>> f(eq); eq.Flux(f, AnyMix(eq, 0), d); w::put(o, f); }
template <int R> void flux_a(Out o, Direction d, int l) { auto eq = Mix<R>(); ConservativeArray<E<R>> f(eq); eq.Flux(f, AnyMixArr(eq, l, 0), d); w::put_lane(o, f, l); }
template <int R> void flux_m(Out o, Direction d, int l, unsigned m) { auto eq = Mix<R>(); ConservativeArray<E<R>> f(eq); eq.Flux(f, AnyMixArr(eq, l, 0), MaskWith(l, m), d); w::put_lane(o, f, l); }
template <int R> void cfc_s(Out o) { auto eq = Mix<R>(); Complete<E<R>> q(eq); Conservative<E<R>> c(eq); w::fill(c, 0); eq.CompleteFromCons(q, c); w::put(o, q); }
template <int R> void cfc_a(Out o, int l) { auto eq = Mix<R>(); CompleteArray<E<R>> q(eq); ConservativeArray<E<R>> c(eq); w::fill_lanes(c, l, 0); eq.CompleteFromCons(q, c); w::put_lane(o, q, l); }
template <int R> void cfc_m(Out o, int l, unsigned m) { auto eq = Mix<R>(); CompleteArray<E<R>> q(eq); ConservativeArray<E<R>> c(eq); w::fill_lanes(c, l, 0); eq.CompleteFromCons(q, c, MaskWith(l, m)); w::put_lane(o, q, l); }
template <int R> void cfc_off(Out o, int l, unsigned m) { auto eq = Mix<R>(); CompleteArray<E<R>> q(eq); ConservativeArray<E<R>> c(eq); w::fill_lanes(c, l, 0); auto k = MaskWith(l, m); k(l) = false; eq.CompleteFromCons(q, c, k); w::put_lane(o, q, l); }
template <int R> void cfc_zero(Out o) { auto eq = Mix<R>(); Complete<E<R>> q(eq); w::zero(q); w::put(o, q); }
template <int R> void cfp_s(Out o) { auto eq = Mix<R>(); Complete<E<R>> q(eq); Primitive<E<R>> p(eq); w::fill(p, 0); CompleteFromPrim(eq, q, p); w::put(o, q); }
template <int R> void cfp_a(Out o, int l) { auto eq = Mix<R>(); CompleteArray<E<R>> q(eq); PrimitiveArray<E<R>> p(eq); w::fill_lanes(p, l, 0); CompleteFromPrim(eq, q, p); w::put_lane(o, q, l); }
template <int R> void pfc_s(Out o) { auto eq = Mix<R>(); Primitive<E<R>> p(eq); PrimFromComplete(eq, p, AnyMix(eq, 0)); w::put(o, p); }
template <int R> void pfc_a(Out o, int l) { auto eq = Mix<R>(); PrimitiveArray<E<R>> p(eq); PrimFromComplete(eq, p, AnyMixArr(eq, l, 0)); w::put_lane(o, p, l); }
template <int R> void aux_s(Out o) { auto eq = Mix<R>(); auto q = AnyMix(eq, 0); o.put(eq.Temperature(q)); auto v = eq.Velocity(q); for (int d = 0; d < R; ++d) o.put(v[d]); v = euler::Velocity(eq, q); for (int d = 0; d < R; ++d) o.put(v[d]);
  o.put(euler::Gamma(eq, q)); o.put(euler::Density(eq, q)); o.put(euler::Energy(eq, q)); o.put(euler::Pressure(eq, q)); o.put(euler::SpeedOfSound(eq, q)); o.put(euler::InternalEnergy(eq, q)); o.put(euler::TotalEnthalpy(eq, q)); o.put(euler::Temperature(eq, q)); for (int s = 0; s < NS; ++s) o.put(euler::Species(eq, q, s)); }
template <int R> void aux_a(Out o, int l) { auto eq = Mix<R>(); auto q = AnyMixArr(eq, l, 0); o.put(eq.Temperature(q)(l)); auto v = eq.Velocity(q); for (int d = 0; d < R; ++d) o.put(v(d, l)); v = euler::Velocity(eq, q); for (int d = 0; d < R; ++d) o.put(v(d, l));
  o.put(euler::Gamma(eq, q)(l)); o.put(euler::Density(eq, q)(l)); o.put(euler::Energy(eq, q)(l)); o.put(euler::Pressure(eq, q)(l)); o.put(euler::SpeedOfSound(eq, q)(l)); Array1d e = euler::InternalEnergy(eq, q); o.put(e(l)); o.put(euler::TotalEnthalpy(eq, q)(l)); o.put(euler::Temperature(eq, q)(l)); for (int s = 0; s < NS; ++s) { Array1d y = euler::Species(eq, q, s); o.put(y(l)); } }
// kinetic states: density, temperature, mass fractions of all species
template <int R> void kfc_s(Out o) { auto eq = Mix<R>(); KineticState<E<R>> k(eq); euler::KineticStateFromComplete(eq, k, EosMix(eq, 0)); w::put(o, k); }
template <int R> void kfc_a(Out o, int l) { auto eq = Mix<R>(); KineticStateArray<E<R>> k(eq); CompleteArray<E<R>> q(eq); w::fill_lanes(q, l, 5000); w::set_lane(q, EosMix(eq, 0), l); euler::KineticStateFromComplete(eq, k, q); w::put_lane(o, k, l); }
template <int R> void cfk_s(Out o) { auto eq = Mix<R>(); KineticState<E<R>> k(eq); w::fill(k, 0); Array<double, R, 1> u; for (int d = 0; d < R; ++d) u[d] = vg_in(50 + d); Complete<E<R>> q(eq); euler::CompleteFromKineticState(eq, q, k, u); w::put(o, q); }
template <int R> void cfk_a(Out o, int l) { auto eq = Mix<R>(); KineticStateArray<E<R>> k(eq); w::fill_lanes(k, l, 0); Array<double, R> u = Array<double, R>::Constant(1.0); for (int d = 0; d < R; ++d) u(d, l) = vg_in(50 + d); CompleteArray<E<R>> q(eq); euler::CompleteFromKineticState(eq, q, k, u); w::put_lane(o, q, l); }
#define E01_DIR(R, D, d, l)                                                    \
  LAW(E01_mix##R##_flux_##d##_lane##l, (flux_s<R>(o, D)), (flux_a<R>(o, D, l)))     \
  LAW(E01_mix##R##_flux_##d##_mask##l, (flux_s<R>(o, D)), (flux_m<R>(o, D, l, 0x36)))
#define E01_MIX(R, l)                                                          \
  LAW(E01_mix##R##_completefromcons_lane##l, (cfc_s<R>(o)), (cfc_a<R>(o, l)))       \
  LAW(E01_mix##R##_completefromcons_mask##l, (cfc_s<R>(o)), (cfc_m<R>(o, l, 0x5a))) \
  LAW(E01_mix##R##_completefromcons_off##l, (cfc_off<R>(o, l, 0x5a)), (cfc_zero<R>(o))) \
  LAW(E01_mix##R##_completefromprim_lane##l, (cfp_s<R>(o)), (cfp_a<R>(o, l)))       \
  LAW(E01_mix##R##_primfromcomplete_lane##l, (pfc_s<R>(o)), (pfc_a<R>(o, l)))       \
  LAW(E01_mix##R##_observers_lane##l, (aux_s<R>(o)), (aux_a<R>(o, l)))              \
  LAW(E01_mix##R##_kineticfromcomplete_lane##l, (kfc_s<R>(o)), (kfc_a<R>(o, l)))    \
  LAW(E01_mix##R##_completefromkinetic_lane##l, (cfk_s<R>(o)), (cfk_a<R>(o, l)))
E01_MIX(1, 0) E01_MIX(1, 5) E01_MIX(2, 1) E01_MIX(2, 7) E01_MIX(3, 2) E01_MIX(3, 6)
E01_DIR(1, X, x, 0) E01_DIR(2, X, x, 1) E01_DIR(2, Y, y, 7) E01_DIR(3, X, x, 2) E01_DIR(3, Y, y, 4) E01_DIR(3, Z, z, 6)
// ------------------------------------------------------ E02: equation of state
template <int R> void eos_code(Out o) { auto eq = Mix<R>(); Complete<E<R>> q(eq); Conservative<E<R>> c(eq); auto r = EosMix(eq, 0); c.density = r.density; c.momentum = r.momentum; c.energy = r.energy; c.species = r.species; c.passive_scalars = r.passive_scalars; eq.CompleteFromCons(q, c); w::put(o, q); }
template <int R> void eos_spec(Out o) { auto eq = Mix<R>(); w::put(o, EosMix(eq, 0)); }
template <int R> void prim_rt(Out o) { auto eq = Mix<R>(); Primitive<E<R>> p(eq), r(eq); Complete<E<R>> q(eq); w::fill(p, 0); CompleteFromPrim(eq, q, p); PrimFromComplete(eq, r, q); w::put(o, r); }
template <int R> void prim_id(Out o) { auto eq = Mix<R>(); Primitive<E<R>> p(eq); w::fill(p, 0); w::put(o, p); }
template <int R> void comp_rt(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); Primitive<E<R>> p(eq); Complete<E<R>> r(eq); PrimFromComplete(eq, p, q); CompleteFromPrim(eq, r, p); w::put(o, r); }
template <int R> void kin_rt(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); KineticState<E<R>> k(eq); Complete<E<R>> r(eq); euler::KineticStateFromComplete(eq, k, q); euler::CompleteFromKineticState(eq, r, k, euler::Velocity(eq, q)); w::put(o, r); }
template <int R> void kin_code(Out o) { auto eq = Mix<R>(); KineticState<E<R>> k(eq); euler::KineticStateFromComplete(eq, k, EosMix(eq, 0)); w::put(o, k); }
template <int R> void kin_spec(Out o) { o.put(vg_pos(0)); o.put(vg_pos(1) / vg_pos(0)); for (int s = 0; s <= NS; ++s) o.put(Frac(10, s)); for (int s = 0; s < NP; ++s) o.put(vg_in(20 + s)); }
template <int R> void kin_p(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); KineticState<E<R>> k(eq); euler::KineticStateFromComplete(eq, k, q); o.put(euler::Pressure(eq, k)); o.put(euler::InternalEnergy(eq, k)); Conservative<E<R>> c(eq); AsCons(c) = AsCons(q); o.put(euler::Pressure(eq, c)); o.put(euler::TotalEnthalpy(eq, q) * q.density - q.energy); }
template <int R> void kin_p_spec(Out o) { o.put(vg_pos(1)); o.put(vg_pos(1) / vg_pos(0) / vg_pos(9001)); o.put(vg_pos(1)); o.put(vg_pos(1)); }
template <int R> void setv(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); Array<double, R, 1> u; for (int d = 0; d < R; ++d) u[d] = vg_in(50 + d); euler::SetVelocity(eq, q, u); w::put(o, q); }
template <int R> void setv_spec(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); double k = 0; for (int d = 0; d < R; ++d) { q.momentum[d] = q.density * vg_in(50 + d); k += vg_in(50 + d) * vg_in(50 + d); } q.energy = q.pressure / vg_pos(9001) + 0.5 * q.density * k; w::put(o, q); }
template <int R> void thermo_code(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); o.put(eq.Temperature(q) * q.density); const double M = eq.Machnumber(q); o.put(M * M * q.speed_of_sound * q.speed_of_sound); }
template <int R> void thermo_spec(Out o) { o.put(vg_pos(1)); double s = 0; for (int d = 0; d < R; ++d) s += vg_in(2 + d) * vg_in(2 + d); o.put(s); }
#define E02(R)                                                                 \
  LAW(E02_mix##R##_eos_from_cons, (eos_code<R>(o)), (eos_spec<R>(o)))               \
  LAW(E02_mix##R##_prim_roundtrip, (prim_rt<R>(o)), (prim_id<R>(o)))                \
  LAW(E02_mix##R##_complete_roundtrip, (comp_rt<R>(o)), (eos_spec<R>(o)))           \
  LAW(E02_mix##R##_kinetic_roundtrip, (kin_rt<R>(o)), (eos_spec<R>(o)))             \
  LAW(E02_mix##R##_kinetic_state, (kin_code<R>(o)), (kin_spec<R>(o)))               \
  LAW(E02_mix##R##_kinetic_thermo, (kin_p<R>(o)), (kin_p_spec<R>(o)))               \
  LAW(E02_mix##R##_setvelocity, (setv<R>(o)), (setv_spec<R>(o)))                    \
  LAW(E02_mix##R##_thermo, (thermo_code<R>(o)), (thermo_spec<R>(o)))
E02(1) E02(2) E02(3)
LAW(E02_mix_constants, auto c = ComputeConstants(vg_pos(9000), 1.0 + vg_pos(9001)); o.put(c.Msq); o.put(c.Msqinv); o.put(c.gamma_minus_one); o.put(c.gamma_minus_one_inv); o.put(c.gamma_inv); o.put(c.gamma_over_gamma_minus_one); o.put(c.gamma_minus_one_over_gamma); o.put(c.ooRspec); o.put(c.gamma_array_(3)); o.put(c.heat_capacity_at_constant_pressure - c.heat_capacity_at_constant_volume),
  const double g = 1.0 + vg_pos(9001); o.put(1.0); o.put(1.0); o.put(g - 1.0); o.put(1.0 / (g - 1.0)); o.put(1.0 / g); o.put(g / (g - 1.0)); o.put((g - 1.0) / g); o.put(1.0 / vg_pos(9000)); o.put(g); o.put(1.0))
// -------------------------------------------------------- E03: flux, rotations
template <int R> void euler_flux(Out o, Direction d) {
  auto eq = Mix<R>(); auto q = AnyMix(eq, 0); const double u = q.momentum[int(d)] / q.density;
  o.put(q.momentum[int(d)]); for (int k = 0; k < R; ++k) o.put(q.momentum[k] * u + (k == int(d) ? q.pressure : 0.0)); o.put(u * (q.energy + q.pressure)); for (int s = 0; s < NS; ++s) o.put(u * q.species[s]); for (int s = 0; s < NP; ++s) o.put(u * q.passive_scalars[s]); }
LAW(E03_mix1_eulerflux_x, (flux_s<1>(o, X)), (euler_flux<1>(o, X)))
LAW(E03_mix2_eulerflux_x, (flux_s<2>(o, X)), (euler_flux<2>(o, X)))
LAW(E03_mix2_eulerflux_y, (flux_s<2>(o, Y)), (euler_flux<2>(o, Y)))
LAW(E03_mix3_eulerflux_x, (flux_s<3>(o, X)), (euler_flux<3>(o, X)))
LAW(E03_mix3_eulerflux_y, (flux_s<3>(o, Y)), (euler_flux<3>(o, Y)))
LAW(E03_mix3_eulerflux_z, (flux_s<3>(o, Z)), (euler_flux<3>(o, Z)))
inline Eigen::Matrix<double, 2, 2> Rot2() { double t = vg_in(7000); double c = (1 - t * t) / (1 + t * t), s = 2 * t / (1 + t * t); Eigen::Matrix<double, 2, 2> m; m << c, -s, s, c; return m; }
inline Eigen::Matrix<double, 3, 3> Rot3() { double a = vg_in(7001), b = vg_in(7002); double c = (1 - a * a) / (1 + a * a), s = 2 * a / (1 + a * a), e = (1 - b * b) / (1 + b * b), g = 2 * b / (1 + b * b); Eigen::Matrix<double, 3, 3> m, n; m << c, -s, 0, s, c, 0, 0, 0, 1; n << 1, 0, 0, 0, e, -g, 0, g, e; return m * n; }
template <int R> Eigen::Matrix<double, R, R> Rot() { if constexpr (R == 2) return Rot2(); else return Rot3(); }
template <int R> Eigen::Matrix<double, R, 1> Nrm() { Eigen::Matrix<double, R, 1> n; if constexpr (R == 1) n[0] = 1; else if constexpr (R == 2) { double t = vg_in(7010); n << (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t); } else { double t = vg_in(7010), b = vg_in(7011); n << (1 - t * t) / (1 + t * t) * (1 - b * b) / (1 + b * b), 2 * t / (1 + t * t) * (1 - b * b) / (1 + b * b), 2 * b / (1 + b * b); } return n; }
template <class S, int R> void rotate_code(Out o) { auto eq = Mix<R>(); S q(eq), r(eq); w::fill(q, 0); Rotate(r, q, Rot<R>(), eq); w::put(o, r); }
template <class S, int R> void rotate_spec(Out o) { auto eq = Mix<R>(); S q(eq); w::fill(q, 0); auto m = Rot<R>(); double v[R]; for (int i = 0; i < R; ++i) { v[i] = 0; for (int j = 0; j < R; ++j) v[i] += m(i, j) * q.momentum[j]; } for (int i = 0; i < R; ++i) q.momentum[i] = v[i]; w::put(o, q); }
template <class S, int R> void reflect_code(Out o) { auto eq = Mix<R>(); S q(eq), r(eq); w::fill(q, 0); Reflect(r, q, Nrm<R>(), eq); w::put(o, r); }
template <class S, int R> void reflect_spec(Out o) { auto eq = Mix<R>(); S q(eq); w::fill(q, 0); auto n = Nrm<R>(); double s = 0; for (int i = 0; i < R; ++i) s += q.momentum[i] * n[i]; for (int i = 0; i < R; ++i) q.momentum[i] -= 2 * s * n[i]; w::put(o, q); }
#define E03_ROT(R, S) LAW(E03_mix##R##_rotate_##S, (rotate_code<S<E<R>>, R>(o)), (rotate_spec<S<E<R>>, R>(o)))
#define E03_REFL(R, S) LAW(E03_mix##R##_reflect_##S, (reflect_code<S<E<R>>, R>(o)), (reflect_spec<S<E<R>>, R>(o)))
E03_ROT(2, Conservative) E03_ROT(2, Complete) E03_ROT(3, Conservative) E03_ROT(3, Complete)
E03_REFL(1, Conservative) E03_REFL(2, Conservative) E03_REFL(3, Conservative) E03_REFL(1, Complete) E03_REFL(2, Complete) E03_REFL(3, Complete)
// ------------------------------- E04: isentropic changes of state of a mixture
template <int R> void isen(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); Complete<E<R>> r(eq); euler::SetIsentropicPressure(eq, r, q, vg_pos(70)); w::put(o, r); }
template <int R> void isen_alias(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); euler::SetIsentropicPressure(eq, q, q, vg_pos(70)); w::put(o, q); }
template <int R> void isen_spec(Out o) {
  auto eq = Mix<R>(); auto q = EosMix(eq, 0); const double g = 1.0 + vg_pos(9001), p = vg_pos(70); double u2 = 0; for (int d = 0; d < R; ++d) u2 += vg_in(2 + d) * vg_in(2 + d);
  // total state, then expand to the new pressure
  const double c2 = g * q.pressure / q.density, a = 1.0 + 0.5 * (g - 1.0) * u2 / c2; const double T0 = q.pressure / q.density * a, p0 = q.pressure * std::pow(a, g / (g - 1.0)), r0 = q.density * std::pow(a, 1.0 / (g - 1.0));
  const double rho = r0 * std::pow(p / p0, 1.0 / g), T = p / rho, v2 = 2.0 * g / (g - 1.0) * (T0 - T);
  Complete<E<R>> r(eq); r.density = rho; r.pressure = p; r.momentum.setZero(); const double v = (v2 > 0.0 ? 1.0 : v2 < 0.0 ? -1.0 : 0.0) * std::sqrt(std::abs(v2));
  r.momentum[0] = rho * v; r.energy = p / (g - 1.0) + 0.5 * r.momentum[0] * r.momentum[0] / rho; r.speed_of_sound = std::sqrt(g * p / rho);
  for (int s = 0; s < NS; ++s) r.species[s] = rho * (q.species[s] / q.density); for (int s = 0; s < NP; ++s) r.passive_scalars[s] = rho * (q.passive_scalars[s] / q.density);
  w::put(o, r); }
// total enthalpy of the expanded gas; kinetic energy gained is `efficiency` times the enthalpy drop
template <int R> void expand(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); Complete<E<R>> r(eq); euler::IsentropicExpansionWithoutDissipation(eq, r, q, vg_pos(70), vg_pos(71));
  const double g = 1.0 + vg_pos(9001); o.put(r.pressure); o.put(r.density); double m2 = 0; for (int d = 0; d < R; ++d) m2 += r.momentum[d] * r.momentum[d]; o.put(r.energy - 0.5 * m2 / r.density); o.put(m2 / r.density / r.density); for (int s = 0; s < NS; ++s) o.put(r.species[s]); for (int d = 1; d < R; ++d) o.put(r.momentum[d]); }
template <int R> void expand_spec(Out o) { auto eq = Mix<R>(); auto q = EosMix(eq, 0); const double g = 1.0 + vg_pos(9001), p = vg_pos(70); const double rho = q.density * std::pow(p / q.pressure, 1.0 / g); double u2 = 0; for (int d = 0; d < R; ++d) u2 += vg_in(2 + d) * vg_in(2 + d);
  const double dh = g / (g - 1.0) * (q.pressure / q.density - p / rho); o.put(p); o.put(rho); o.put(p / (g - 1.0)); o.put(dh == 0.0 ? u2 : 2.0 * vg_pos(71) * std::abs(dh) + u2); for (int s = 0; s < NS; ++s) o.put(rho * Frac(10, s)); for (int d = 1; d < R; ++d) o.put(0.0); }
#define E04(R) LAW(E04_mix##R##_isentropic, isen<R>(o), isen_spec<R>(o)) LAW(E04_mix##R##_isentropic_inplace, isen_alias<R>(o), isen_spec<R>(o)) LAW(E04_mix##R##_expansion, expand<R>(o), expand_spec<R>(o))
E04(1) E04(2) E04(3)
