// TIES-OFF: completefromcons
// SOURCES: src/equations/ideal_gas_mix/FlameMasterReactor.cpp src/equations/IdealGasMix.cpp
#include "igm.hpp"
template <int R> using E = IdealGasMix<R>;
static MaskArray MaskWith(int l, unsigned m) { MaskArray k; for (int i = 0; i < 8; ++i) k(i) = i == l || ((m >> i) & 1u); return k; }
template <int R> CompleteArray<E<R>> Arr(const E<R>& eq, int l) { CompleteArray<E<R>> q(eq); w::fill_lanes(q, l, 0); return q; }
// ------------------------------------------------- E01: scalar, array, masked
template <int R> void flux_s(Out o, Direction d) { auto eq = Mix<R>(); Complete<E<R>> q(eq); w::fill(q, 0); Conservative<E<R>> f(eq); eq.Flux(f, q, d); w::put(o, f); }
template <int R> void flux_a(Out o, Direction d, int l) { auto eq = Mix<R>(); ConservativeArray<E<R>> f(eq); eq.Flux(f, Arr(eq, l), d); w::put_lane(o, f, l); }
template <int R> void flux_m(Out o, Direction d, int l, unsigned m, bool off = false) { auto eq = Mix<R>(); ConservativeArray<E<R>> f(eq); auto k = MaskWith(l, m); if (off) k(l) = false; eq.Flux(f, Arr(eq, l), k, d); w::put_lane(o, f, l); }
template <int R> void flux_zero(Out o) { for (int i = 0; i < 2 + R + NSP; ++i) o.put(0.0); }
template <int R> void vel_s(Out o) { auto eq = Mix<R>(); Complete<E<R>> q(eq); w::fill(q, 0); for (int d = 0; d < R; ++d) o.put(q.momentum[d] / q.density); }
template <int R> void vel_c(Out o) { auto eq = Mix<R>(); Complete<E<R>> q(eq); w::fill(q, 0); auto v = eq.Velocity(q); for (int d = 0; d < R; ++d) o.put(v[d]); }
template <int R> void vel_a(Out o, int l) { auto eq = Mix<R>(); auto v = eq.Velocity(Arr(eq, l)); for (int d = 0; d < R; ++d) o.put(v(d, l)); }
template <int R> void vel_m(Out o, int l, unsigned m, bool off) { auto eq = Mix<R>(); auto k = MaskWith(l, m); if (off) k(l) = false; auto v = eq.Velocity(Arr(eq, l), k); for (int d = 0; d < R; ++d) o.put(v(d, l)); }
// completing a conserved state with the temperature T close to 300 K; the heat capacities are constant
template <int R> void near() { for (int k : {0, 5000}) { const double T = vg_pos(k + 5); vg_assume_pos(100.0 - (T - 300.0)); vg_assume_pos(100.0 + (T - 300.0)); } }
template <int R> void eos_s(Out o) { near<R>(); auto eq = Mix<R>(); w::put(o, EosMix<R>(eq, 0)); }
template <int R> void cfc_s(Out o) { vg_loop_bound(2); near<R>(); auto eq = Mix<R>(); auto c = EosMix<R>(eq, 0); Complete<E<R>> q(eq); eq.CompleteFromCons(q, AsCons(c)); w::put(o, q); }
template <int R> void cfc_alias(Out o) { vg_loop_bound(2); near<R>(); auto eq = Mix<R>(); auto c = EosMix<R>(eq, 0); eq.CompleteFromCons(c, AsCons(c)); w::put(o, c); }
template <int R> CompleteArray<E<R>> EosArr(const E<R>& eq, int l) { CompleteArray<E<R>> q(eq); auto a = EosMix<R>(eq, 0), b = EosMix<R>(eq, 5000); for (int i = 0; i < 8; ++i) w::set_lane(q, i == l ? a : b, i); return q; }
template <int R> void cfc_a(Out o, int l) { vg_loop_bound(2); near<R>(); auto eq = Mix<R>(); auto c = EosArr<R>(eq, l); CompleteArray<E<R>> q(eq); eq.CompleteFromCons(q, AsCons(c)); w::put_lane(o, q, l); }
template <int R> void cfc_m(Out o, int l, unsigned m, bool off) { vg_loop_bound(2); near<R>(); auto eq = Mix<R>(); auto c = EosArr<R>(eq, l); CompleteArray<E<R>> q(eq); auto k = MaskWith(l, m); if (off) { k(l) = false; w::fill_lane(c, l, 900); } eq.CompleteFromCons(q, AsCons(c), k); w::put_lane(o, q, l); }
template <int R> void cfc_none(Out o, int l) { auto eq = Mix<R>(); auto c = Arr(eq, l); CompleteArray<E<R>> q(eq); w::fill_lanes(q, l, 900); MaskArray k = MaskArray::Constant(false); eq.CompleteFromCons(q, AsCons(c), k); w::put_lane(o, q, l); }
template <int R> void zero(Out o) { for (int i = 0; i < 7 + R + NSP; ++i) o.put(0.0); }
// the complete state of a reactor
template <int R> void cfr_s(Out o) { auto eq = IdealGasMix<R>(FlameMasterReactor(mech_)); Set(eq.GetReactor()); Complete<E<R>> q(eq); Eigen::Array<double, R, 1> u; for (int d = 0; d < R; ++d) u[d] = vg_in(50 + d); eq.CompleteFromReactor(q, u); w::put(o, q); }
template <int R> void cfr_0(Out o, bool def) { auto eq = IdealGasMix<R>(FlameMasterReactor(mech_)); Set(eq.GetReactor()); Complete<E<R>> q(eq); if (def) eq.CompleteFromReactor(q); else eq.CompleteFromReactor(q, Eigen::Array<double, R, 1>(Eigen::Array<double, R, 1>::Zero())); w::put(o, q); }
template <int R> void cfr_a(Out o, int l) { auto eq = IdealGasMix<R>(FlameMasterReactor(mech_)); SetLane(eq.GetReactor(), l); CompleteArray<E<R>> q(eq); Array<double, R> u = Array<double, R>::Constant(vg_in(49)); for (int d = 0; d < R; ++d) u(d, l) = vg_in(50 + d); eq.CompleteFromReactor(q, u); w::put_lane(o, q, l); }
template <int R> void cfr_m(Out o, int l, unsigned m) { auto eq = IdealGasMix<R>(FlameMasterReactor(mech_)); SetLane(eq.GetReactor(), l); CompleteArray<E<R>> q(eq); Array<double, R> u = Array<double, R>::Constant(vg_in(49)); for (int d = 0; d < R; ++d) u(d, l) = vg_in(50 + d); eq.CompleteFromReactor(q, u, MaskWith(l, m)); w::put_lane(o, q, l); }
template <int R> void cfr_spec(Out o) { const double rho = vg_pos(0), T = vg_pos(1), Rm = Rgas() / Mbar(); double h = 0, cp = 0, ke = 0; for (int i = 0; i < NSP; ++i) { h += Fy(10, i) * H(i, T); cp += Fy(10, i) * CP(i, T); } for (int d = 0; d < R; ++d) ke += vg_in(50 + d) * vg_in(50 + d);
  o.put(rho); for (int d = 0; d < R; ++d) o.put(rho * vg_in(50 + d)); o.put(rho * (h - Rm * T) + 0.5 * rho * ke); for (int i = 0; i < NSP; ++i) o.put(rho * Fy(10, i)); const double p = rho * Rm * T; o.put(p); o.put(std::sqrt(cp / (cp - Rm) * p / rho)); o.put(T); o.put(cp); o.put(cp / (cp - Rm)); }
// and the reactor of a complete state
template <int R> void sr(Out o) { auto eq = Mix<R>(); auto q = EosMix<R>(eq, 0); eq.SetReactorStateFromComplete(q); const auto& r = eq.GetReactor(); o.put(r.GetDensity()); o.put(r.GetTemperature()); o.put(r.GetPressure()); o.put(r.GetCp()); for (int i = 0; i < NSP; ++i) o.put(r.GetMassFractions()[i]); Complete<E<R>> p(eq); eq.CompleteFromReactor(p, eq.Velocity(q)); w::put(o, p); }
template <int R> void sr_spec(Out o) { auto eq = Mix<R>(); auto q = EosMix<R>(eq, 0); o.put(q.density); o.put(q.temperature); o.put(q.pressure); o.put(q.c_p); for (int i = 0; i < NSP; ++i) o.put(Fy(10, i)); w::put(o, q); }
#define E01_DIR(R, D, d, l) LAW(E01_igm##R##_flux_##d##_lane##l, (flux_s<R>(o, D)), (flux_a<R>(o, D, l))) LAW(E01_igm##R##_flux_##d##_mask##l, (flux_s<R>(o, D)), (flux_m<R>(o, D, l, 0x36))) LAW(E01_igm##R##_flux_##d##_off##l, (flux_m<R>(o, D, l, 0x36, true)), (flux_zero<R>(o)))
E01_DIR(1, X, x, 0) E01_DIR(2, X, x, 1) E01_DIR(2, Y, y, 7) E01_DIR(3, X, x, 2) E01_DIR(3, Y, y, 4) E01_DIR(3, Z, z, 6)
#define E01(R, l) LAW(E01_igm##R##_velocity_lane##l, vel_a<R>(o, l), vel_s<R>(o)) LAW(E01_igm##R##_velocity_mask##l, (vel_m<R>(o, l, 0x36, false)), vel_s<R>(o)) LAW(E01_igm##R##_velocity_off##l, (vel_m<R>(o, l, 0x36, true)), for (int d = 0; d < R; ++d) o.put(0.0)) \
  LAW(E01_igm##R##_completefromcons_lane##l, cfc_a<R>(o, l), eos_s<R>(o)) LAW(E01_igm##R##_completefromcons_mask##l, (cfc_m<R>(o, l, 0x5a, false)), eos_s<R>(o)) LAW(E01_igm##R##_completefromcons_off##l, (cfc_m<R>(o, l, 0x5a, true)), near<R>(); zero<R>(o)) LAW(E01_igm##R##_completefromcons_none##l, cfc_none<R>(o, l), zero<R>(o)) \
  LAW(E01_igm##R##_completefromreactor_lane##l, cfr_a<R>(o, l), cfr_s<R>(o)) LAW(E01_igm##R##_completefromreactor_mask##l, (cfr_m<R>(o, l, 0x5a)), cfr_s<R>(o))
E01(1, 0) E01(1, 5) E01(2, 1) E01(3, 2) E01(3, 7)
// ------------------------------------------------------ E02: equation of state
#define E02(R) LAW(E02_igm##R##_eos_from_cons, cfc_s<R>(o), eos_s<R>(o)) LAW(E02_igm##R##_eos_from_cons_inplace, cfc_alias<R>(o), eos_s<R>(o)) LAW(E02_igm##R##_from_reactor, cfr_s<R>(o), cfr_spec<R>(o)) LAW(E02_igm##R##_from_reactor_at_rest, cfr_0<R>(o, true), cfr_0<R>(o, false)) LAW(E02_igm##R##_reactor_roundtrip, sr<R>(o), sr_spec<R>(o)) LAW(E02_igm##R##_velocity, vel_c<R>(o), vel_s<R>(o))
E02(1) E02(2) E02(3)
// -------------------------------------------------------- E03: flux, rotations
template <int R> void euler_flux(Out o, Direction d) { auto eq = Mix<R>(); Complete<E<R>> q(eq); w::fill(q, 0); const double u = q.momentum[int(d)] / q.density; o.put(q.momentum[int(d)]); for (int k = 0; k < R; ++k) o.put(q.momentum[k] * u + (k == int(d) ? q.pressure : 0.0)); o.put(u * (q.energy + q.pressure)); for (int s = 0; s < NSP; ++s) o.put(u * q.species[s]); }
#define E03_FLUX(R, D, d) LAW(E03_igm##R##_eulerflux_##d, (flux_s<R>(o, D)), (euler_flux<R>(o, D)))
E03_FLUX(1, X, x) E03_FLUX(2, X, x) E03_FLUX(2, Y, y) E03_FLUX(3, X, x) E03_FLUX(3, Y, y) E03_FLUX(3, Z, z)
template <int R> Eigen::Matrix<double, R, R> Rot() { Eigen::Matrix<double, R, R> m; for (int i = 0; i < R; ++i) for (int j = 0; j < R; ++j) m(i, j) = vg_in(7000 + 3 * i + j); return m; }
template <int R> Eigen::Matrix<double, R, 1> Nrm() { Eigen::Matrix<double, R, 1> n; for (int i = 0; i < R; ++i) n[i] = vg_in(7020 + i); return n; }
template <class S, int R> void rotate(Out o, bool spec) { auto eq = Mix<R>(); S q(eq), r(eq); w::fill(q, 0); auto m = Rot<R>(); if (!spec) { Rotate(r, q, m, eq); w::put(o, r); return; } double v[R]; for (int i = 0; i < R; ++i) { v[i] = 0; for (int j = 0; j < R; ++j) v[i] += m(i, j) * q.momentum[j]; } for (int i = 0; i < R; ++i) q.momentum[i] = v[i]; w::put(o, q); }
template <class S, int R> void reflect(Out o, bool spec) { auto eq = Mix<R>(); S q(eq), r(eq); w::fill(q, 0); auto n = Nrm<R>(); if (!spec) { Reflect(r, q, n, eq); w::put(o, r); return; } double s = 0; for (int i = 0; i < R; ++i) s += q.momentum[i] * n[i]; for (int i = 0; i < R; ++i) q.momentum[i] -= 2 * s * n[i]; w::put(o, q); }
#define E03_ROT(R, S) LAW(E03_igm##R##_rotate_##S, (rotate<S<E<R>>, R>(o, false)), (rotate<S<E<R>>, R>(o, true)))
#define E03_REFL(R, S) LAW(E03_igm##R##_reflect_##S, (reflect<S<E<R>>, R>(o, false)), (reflect<S<E<R>>, R>(o, true)))
E03_ROT(2, Conservative) E03_ROT(2, Complete) E03_ROT(3, Conservative) E03_ROT(3, Complete) E03_REFL(1, Complete) E03_REFL(2, Complete) E03_REFL(3, Complete)
// ------------------------------ R08: what the equation has completed before leaves no trace
template <int R> void again_s(Out o, int l, bool again) { vg_loop_bound(2); near<R>(); auto eq = Mix<R>(); auto c = EosMix<R>(eq, 0), b = EosMix<R>(eq, 5000); Complete<E<R>> q(eq);
  if (again) { CompleteArray<E<R>> p(eq); eq.CompleteFromCons(p, AsCons(EosArr<R>(eq, l))); eq.CompleteFromCons(p, AsCons(EosArr<R>(eq, l)), MaskWith(l, 0x5a)); eq.CompleteFromCons(q, AsCons(b)); eq.SetReactorStateFromComplete(b); }
  eq.CompleteFromCons(q, AsCons(c)); w::put(o, q); }
template <int R> void again_a(Out o, int l, bool again) { vg_loop_bound(2); near<R>(); auto eq = Mix<R>(); auto b = EosMix<R>(eq, 5000); CompleteArray<E<R>> q(eq);
  if (again) { CompleteArray<E<R>> p(eq); Complete<E<R>> z(eq); for (int i = 0; i < 8; ++i) w::set_lane(p, b, i); eq.CompleteFromCons(q, AsCons(p)); eq.CompleteFromCons(q, AsCons(p), MaskWith(l, 0x5a)); eq.CompleteFromCons(z, AsCons(b)); }
  eq.CompleteFromCons(q, AsCons(EosArr<R>(eq, l))); w::put_lane(o, q, l); }
#define AGAIN(R, l) LAW(R08_igm##R##_complete, again_s<R>(o, l, true), again_s<R>(o, l, false)) LAW(R08_igm##R##_complete_lane##l, again_a<R>(o, l, true), again_a<R>(o, l, false))
AGAIN(1, 2) AGAIN(2, 5) AGAIN(3, 0)
