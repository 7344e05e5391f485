// SOURCES: src/equations/ideal_gas_mix/FlameMasterReactor.cpp src/equations/IdealGasMix.cpp
// SOURCES: src/equations/ideal_gas_mix/EinfeldtSignalVelocities_1d.cpp src/equations/ideal_gas_mix/EinfeldtSignalVelocities_2d.cpp src/equations/ideal_gas_mix/EinfeldtSignalVelocities_3d.cpp
// SOURCES: src/equations/ideal_gas_mix/HlleMethod_1d.cpp src/equations/ideal_gas_mix/HlleMethod_2d.cpp src/equations/ideal_gas_mix/HlleMethod_3d.cpp
// SOURCES: src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod_1d.cpp src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod_2d.cpp src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod_3d.cpp
// SOURCES: src/equations/ideal_gas_mix/MusclHancockPrimMethod_1d.cpp src/equations/ideal_gas_mix/MusclHancockPrimMethod_2d.cpp src/equations/ideal_gas_mix/MusclHancockPrimMethod_3d.cpp
#include "igm.hpp"
#include "flux_laws.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp"
/// the state with the given density (pressure), velocity and composition; nothing is known about the mechanism
template <int R> struct Pv { double rho, T, p, u[3], Y[NSP]; };
template <int R> Complete<IdealGasMix<R>> comp(const IdealGasMix<R>& eq, const Pv<R>& w) {
  Complete<IdealGasMix<R>> q(eq); double h = 0, cp = 0, ke = 0, m = 0; for (int i = 0; i < NSP; ++i) { h += w.Y[i] * H(i, w.T); cp += w.Y[i] * CP(i, w.T); m += w.Y[i] / MM(i); q.species[i] = w.rho * w.Y[i]; }
  const double Rm = Rgas() * m; for (int d = 0; d < R; ++d) { q.momentum[d] = w.rho * w.u[d]; ke += w.u[d] * w.u[d]; }
  q.density = w.rho; q.pressure = w.p; q.temperature = w.T; q.energy = w.rho * (h - Rm * w.T) + 0.5 * w.rho * ke; q.c_p = cp; q.gamma = cp / (cp - Rm); q.speed_of_sound = std::sqrt(q.gamma * w.p / w.rho); return q; }
template <int R> Pv<R> prim(int k) { Pv<R> w; w.rho = vg_pos(k); w.T = vg_pos(k + 5); for (int d = 0; d < 3; ++d) w.u[d] = d < R ? vg_in(k + 2 + d) : 0.0; for (int i = 0; i < NSP; ++i) w.Y[i] = Fy(k + 10, i); w.p = w.rho * Rgas() / Mbar(k + 10) * w.T; return w; }
template <int R> struct Igm {
  using Eq = IdealGasMix<R>;
  static Eq eq() { return Eq(FlameMasterReactor(mech_)); }
  static Complete<Eq> eos(const Eq& e, int k) { return comp<R>(e, prim<R>(k)); }
};
template <int R> struct Chr : Igm<R> { using M = ideal_gas::MusclHancockCharacteristic<R>; };
template <int R> struct Pri : Igm<R> { using M = ideal_gas::MusclHancockPrimitive<R>; };
inline Duration DT() { return Duration(vg_pos(9100)); }
inline double DX() { return vg_pos(9101); }
// the other lanes hold one common state
template <class T> CompA<T> Ln(const EqOf<T>& eq, const CompT<T>& q, int l) { CompA<T> a(eq); const auto b = T::eos(eq, 5000); for (int i = 0; i < 8; ++i) w::set_lane(a, i == l ? q : b, i); return a; }
template <class T> CompA<T> LnMask(const EqOf<T>& eq, const CompT<T>& q, int l, unsigned bits) { CompA<T> a(eq); const auto b = T::eos(eq, 5000); auto z = b; w::zero(z); for (int i = 0; i < 8; ++i) w::set_lane(a, i == l ? q : (bits >> i) & 1u ? b : z, i); return a; }
template <class T> std::array<CompT<T>, 4> Sten(const EqOf<T>& eq) { return {T::eos(eq, 0), T::eos(eq, 50), T::eos(eq, 100), T::eos(eq, 150)}; }
template <class T> void f_s(Out o, Direction d);
template <class T> void f_s_(Out o, Direction d) { auto eq = T::eq(); typename T::M m(eq); ConsT<T> f(eq); auto st = Sten<T>(eq); m.ComputeNumericFlux(f, st, DT(), DX(), d); w::put(o, f); }
template <class T> void f_a(Out o, Direction d, int l) { auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); auto st = Sten<T>(eq); std::array<CompA<T>, 4> sa{Ln<T>(eq, st[0], l), Ln<T>(eq, st[1], l), Ln<T>(eq, st[2], l), Ln<T>(eq, st[3], l)}; m.ComputeNumericFlux(f, sa, DT(), DX(), d); w::put_lane(o, f, l); }
template <class T> void f_m(Out o, Direction d, int l, unsigned bits, unsigned cells = 15u) {
  auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); auto st = Sten<T>(eq); std::array<CompA<T>, 4> sa{LnMask<T>(eq, st[0], l, bits), LnMask<T>(eq, st[1], l, bits), LnMask<T>(eq, st[2], l, bits), LnMask<T>(eq, st[3], l, bits)};
  Array1d ff = Fractions(l, bits); std::array<Array1d, 4> vf{ff, ff, ff, ff}; for (int i = 0; i < 4; ++i) if (!((cells >> i) & 1u)) { vf[i][l] = 0.0; w::zero_lane(sa[i], l); }
  m.ComputeNumericFlux(f, ff, sa, vf, DT(), DX(), d); w::put_lane(o, f, l); }
// lane l is covered, the others as in bits; the flux held something else before
template <class T> void f_off(Out o, Direction d, int l, unsigned bits) { auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); w::fill_lanes(f, l, 900); auto st = Sten<T>(eq); const unsigned on = bits & ~(1u << l); std::array<CompA<T>, 4> sa{CompA<T>(eq), CompA<T>(eq), CompA<T>(eq), CompA<T>(eq)}; Array1d ff = Array1d::Zero(); for (int i = 0; i < 8; ++i) if ((on >> i) & 1u) { ff[i] = vg_pos(8000); for (int j = 0; j < 4; ++j) w::set_lane(sa[j], st[j], i); }
  std::array<Array1d, 4> vf{ff, ff, ff, ff}; m.ComputeNumericFlux(f, ff, sa, vf, DT(), DX(), d); w::put_lane(o, f, l); }
template <class T> void f_zero(Out o) { auto eq = T::eq(); ConsT<T> f(eq); w::zero(f); w::put(o, f); }
template <int R> Hll<IdealGasMix<R>, EinfeldtSignalVelocities<IdealGasMix<R>>> Base(const IdealGasMix<R>& eq) { return {eq, EinfeldtSignalVelocities<IdealGasMix<R>>{}}; }
template <int R> void base(Out o, const IdealGasMix<R>& eq, const std::array<Complete<IdealGasMix<R>>, 2>& q, Direction d) { auto m = Base<R>(eq); Conservative<IdealGasMix<R>> f(eq); m.ComputeNumericFlux(f, q, DT(), DX(), d); w::put(o, f); }
template <class T> void t_s(Out o, Direction d) { auto eq = T::eq(); typename T::M m(eq); auto st = Sten<T>(eq); o.put(m.ComputeStableDt(st, DX(), d)); }
template <class T> void t_spec(Out o, Direction d) { auto eq = T::eq(); auto m = Base<EqOf<T>::Rank()>(eq); std::array<CompT<T>, 2> st{T::eos(eq, 50), T::eos(eq, 100)}; o.put(m.ComputeStableDt(st, DX(), d)); }
template <class T> void t_a(Out o, Direction d, int l) { auto eq = T::eq(); typename T::M m(eq); auto st = Sten<T>(eq); std::array<CompA<T>, 4> sa{Ln<T>(eq, st[0], l), Ln<T>(eq, st[1], l), Ln<T>(eq, st[2], l), Ln<T>(eq, st[3], l)}; o.put(m.ComputeStableDt(sa, DX(), d)[l]); }
template <class T> void t_m(Out o, Direction d, int l, unsigned bits) { auto eq = T::eq(); typename T::M m(eq); auto st = Sten<T>(eq); std::array<CompA<T>, 4> sa{LnMask<T>(eq, st[0], l, bits), LnMask<T>(eq, st[1], l, bits), LnMask<T>(eq, st[2], l, bits), LnMask<T>(eq, st[3], l, bits)};
  Array1d ff = Fractions(l, bits); std::array<Array1d, 4> vf{ff, ff, ff, ff}; vf[0][l] = vf[3][l] = 0.0; o.put(m.ComputeStableDt(sa, ff, vf, DX(), d)[l]); }
template <class T> void k_spec(Out o, Direction d) { auto eq = T::eq(); ConsT<T> f(eq); auto q = T::eos(eq, 0); eq.Flux(f, q, d); w::put(o, f); }
template <class T> void k_s(Out o, Direction d) { auto eq = T::eq(); typename T::M m(eq); ConsT<T> f(eq); auto q = T::eos(eq, 0); std::array<CompT<T>, 4> st{q, q, q, q}; m.ComputeNumericFlux(f, st, DT(), DX(), d); w::put(o, f); }
// ------------------------------------------------------------------ textbook
inline double vanleer(double a, double b) { const double c = 2 * a * b; return c > 0 ? c / (a + b) : 0.0; }
inline double pri_lim(double a, double b, double c) { const double dq = (c - a) / 2; const bool rel = std::abs(dq) > 1e-12; const double rl = rel ? (b - a) / dq : 0.0, rr = rel ? (c - b) / dq : 0.0; const double r = (rl > 0 && rr > 0) ? (rr < rl ? rr : rl) : 0.0; return (r < 1 ? 2 * r / (1 + r) : (1 + r) / 2); }
inline double pri_slope(double a, double b, double c) { return pri_lim(a, b, c) * (c - a) / 2; }
/// slopes of the characteristic variables of b, as slopes of density, velocity, pressure and mass fractions
template <int R> Pv<R> chr_slope(const Pv<R>& a, const Pv<R>& b, const Pv<R>& c, double cs, int n) {
  Pv<R> g{}; const double rc = b.rho * cs, q = 1 / (cs * cs); double L[3], Rr[3], x[3];
  auto amp = [&](const Pv<R>& l, const Pv<R>& r, double* y) { const double dp = r.p - l.p, du = r.u[n] - l.u[n]; y[0] = dp - rc * du; y[1] = dp + rc * du; y[2] = r.rho - l.rho - q * dp; };
  amp(a, b, L); amp(b, c, Rr); for (int i = 0; i < 3; ++i) x[i] = vanleer(L[i], Rr[i]);
  g.p = (x[0] + x[1]) / 2; g.u[n] = (x[1] - x[0]) / (2 * rc); g.rho = g.p * q + x[2];
  for (int i = 1; i < R; ++i) { const int t = (n + i) % R; g.u[t] = vanleer(b.u[t] - a.u[t], c.u[t] - b.u[t]); }
  for (int i = 0; i < NSP; ++i) g.Y[i] = vanleer(b.Y[i] - a.Y[i], c.Y[i] - b.Y[i]);
  return g; }
/// the reconstructed states are states: density and temperature are positive
template <int R> void physical(const Pv<R>& w) { vg_assume_pos(w.rho); vg_assume_pos(w.T); }
/// negative mass fractions are dropped
template <int R> void norm(Pv<R>& r) { double s = 0; for (int i = 0; i < NSP; ++i) { r.Y[i] = r.Y[i] > 0 ? r.Y[i] : 0.0; s += r.Y[i]; } vg_assume_pos(s); for (int i = 0; i < NSP; ++i) r.Y[i] /= s; }
template <int R> double Rsp(const Pv<R>& w) { double m = 0; for (int i = 0; i < NSP; ++i) m += w.Y[i] / MM(i); return Rgas() * m; }
template <int R> Pv<R> chr_evolve(const Pv<R>& w, const Pv<R>& s, double c, int n, int side) {
  Pv<R> r{}; const double t = DT().count() / DX() / 2, e = side * 0.5;
  r.rho = w.rho + e * s.rho - t * (w.u[n] * s.rho + w.rho * s.u[n]); r.p = w.p + e * s.p - t * (w.u[n] * s.p + w.rho * c * c * s.u[n]);
  for (int i = 0; i < R; ++i) r.u[i] = w.u[i] + e * s.u[i] - t * (w.u[n] * s.u[i] + (i == n ? s.p / w.rho : 0.0));
  for (int i = 0; i < NSP; ++i) r.Y[i] = w.Y[i] + e * s.Y[i] - t * w.u[n] * s.Y[i];
  norm(r); r.T = r.p / (r.rho * Rsp(r)); return r; }
template <int R> void chr_spec(Out o, Direction d, unsigned cells = 15u, bool eval = true) {
  using T = Chr<R>; auto eq = T::eq(); auto st = Sten<T>(eq); const int n = int(d); Pv<R> w[4] = {prim<R>(0), prim<R>(50), prim<R>(100), prim<R>(150)};
  auto a = chr_slope<R>(w[0], w[1], w[2], st[1].speed_of_sound, n), b = chr_slope<R>(w[1], w[2], w[3], st[2].speed_of_sound, n);
  if ((cells & 7u) != 7u) a = Pv<R>{};
  if ((cells & 14u) != 14u) b = Pv<R>{};
  const auto l = chr_evolve<R>(w[1], a, st[1].speed_of_sound, n, 1), r = chr_evolve<R>(w[2], b, st[2].speed_of_sound, n, -1); physical(l); physical(r);
  if (eval) base<R>(o, eq, {comp<R>(eq, l), comp<R>(eq, r)}, d); }
/// slopes of pressure, temperature, velocity and mass fractions
template <int R> Pv<R> pri_slopes(const Pv<R>& a, const Pv<R>& b, const Pv<R>& c) { Pv<R> g{}; g.p = pri_slope(a.p, b.p, c.p); g.T = pri_slope(a.T, b.T, c.T); for (int i = 0; i < R; ++i) g.u[i] = pri_slope(a.u[i], b.u[i], c.u[i]); const double s = pri_lim(a.Y[0], b.Y[0], c.Y[0]); for (int i = 0; i < NSP; ++i) g.Y[i] = s * (c.Y[i] - a.Y[i]) / 2; return g; }
template <int R> Pv<R> pri_evolve(const Pv<R>& w, const Pv<R>& s, double gamma, int n, int side) {
  Pv<R> r{}; const double t = DT().count() / DX() / 2, e = side * 0.5, cv = Rsp(w) / (gamma - 1);
  r.p = w.p + e * s.p - t * (w.u[n] * s.p + gamma * w.p * s.u[n]); r.T = w.T + e * s.T - t * (w.u[n] * s.T + w.p / (w.rho * cv) * s.u[n]);
  for (int i = 0; i < R; ++i) r.u[i] = w.u[i] + e * s.u[i] - t * (w.u[n] * s.u[i] + (i == n ? s.p / w.rho : 0.0));
  for (int i = 0; i < NSP; ++i) r.Y[i] = w.Y[i] + e * s.Y[i] - t * w.u[n] * s.Y[i];
  norm(r); r.rho = r.p / (r.T * Rsp(r)); return r; }
template <int R> void pri_spec(Out o, Direction d, unsigned cells = 15u, bool eval = true) {
  using T = Pri<R>; auto eq = T::eq(); auto st = Sten<T>(eq); const int n = int(d); Pv<R> w[4] = {prim<R>(0), prim<R>(50), prim<R>(100), prim<R>(150)};
  auto a = pri_slopes<R>(w[0], w[1], w[2]), b = pri_slopes<R>(w[1], w[2], w[3]);
  if ((cells & 7u) != 7u) a = Pv<R>{};
  if ((cells & 14u) != 14u) b = Pv<R>{};
  const auto l = pri_evolve<R>(w[1], a, st[1].gamma, n, 1), r = pri_evolve<R>(w[2], b, st[2].gamma, n, -1); physical(l); physical(r);
  if (eval) base<R>(o, eq, {comp<R>(eq, l), comp<R>(eq, r)}, d); }

template <int R> void f_all(Out o, Direction d, Chr<R>) { chr_spec<R>(o, d, 15u, false); f_s_<Chr<R>>(o, d); }
template <int R> void f_all(Out o, Direction d, Pri<R>) { pri_spec<R>(o, d, 15u, false); f_s_<Pri<R>>(o, d); }
template <class T> void f_s(Out o, Direction d) { f_all(o, d, T{}); }
#define ONE(K, k, R, D, d, l) \
  LAW(M01_igm##k##R##_##d##_lane, f_s<K<R>>(o, D), f_a<K<R>>(o, D, l)) LAW(M01_igm##k##R##_##d##_mask, f_s<K<R>>(o, D), f_m<K<R>>(o, D, l, 0x2cu)) LAW(M01_igm##k##R##_##d##_covered, f_off<K<R>>(o, D, l, 0x2cu), f_zero<K<R>>(o)) LAW(M01_igm##k##R##_##d##_allcovered, f_off<K<R>>(o, D, l, 0u), f_zero<K<R>>(o)) \
  LAW(M02_igm##k##R##_##d##_const, k_s<K<R>>(o, D), k_spec<K<R>>(o, D)) LAW(M03_igm##k##R##_##d##_text, f_s<K<R>>(o, D), k##_spec<R>(o, D)) LAW(M03_igm##k##R##_##d##_cutleft, f_m<K<R>>(o, D, l, 0x2cu, 14u), k##_spec<R>(o, D, 14u)) LAW(M03_igm##k##R##_##d##_cutright, f_m<K<R>>(o, D, l, 0x2cu, 7u), k##_spec<R>(o, D, 7u)) \
  LAW(M04_igm##k##R##_##d##_dt, t_s<K<R>>(o, D), t_spec<K<R>>(o, D)) LAW(M04_igm##k##R##_##d##_dtlane, t_s<K<R>>(o, D), t_a<K<R>>(o, D, l)) LAW(M04_igm##k##R##_##d##_dtmask, t_s<K<R>>(o, D), t_m<K<R>>(o, D, l, 0x2cu))
ONE(Chr, chr, 1, X, x, 1) ONE(Chr, chr, 2, X, x, 6) ONE(Chr, chr, 2, Y, y, 0) ONE(Chr, chr, 3, Z, z, 7)
ONE(Pri, pri, 1, X, x, 1) ONE(Pri, pri, 2, X, x, 6) ONE(Pri, pri, 2, Y, y, 0) ONE(Pri, pri, 3, Z, z, 7)
// ------------------------------ R08: what the object has computed before leaves no trace
template <int R> void phys(Out o, Direction d, Chr<R>) { chr_spec<R>(o, d, 15u, false); }
template <int R> void phys(Out o, Direction d, Pri<R>) { pri_spec<R>(o, d, 15u, false); }
#define AGI(N, T, R, D, d, l) \
  LAW(R08_##N##R##_##d, (phys(o, D, T<R>{}), Again4<WithMask<T<R>, false>>::scalar(o, D, l, true, false)), (Again4<WithMask<T<R>, false>>::scalar(o, D, l, false, false))) \
  LAW(R08_##N##R##_##d##_lane##l, (phys(o, D, T<R>{}), Again4<WithMask<T<R>, false>>::array(o, D, l, true, false)), (Again4<WithMask<T<R>, false>>::array(o, D, l, false, false)))
AGI(igmchr, Chr, 1, X, x, 2) AGI(igmpri, Pri, 1, X, x, 2) AGI(igmpri, Pri, 2, Y, y, 5)
