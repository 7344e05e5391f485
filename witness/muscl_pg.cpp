// SOURCES: src/equations/PerfectGas.cpp
// SOURCES: src/equations/perfect_gas/EinfeldtSignalVelocities_1d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_2d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_3d.cpp
// SOURCES: src/equations/perfect_gas/HllemMethod_1d.cpp src/equations/perfect_gas/HllemMethod_2d.cpp src/equations/perfect_gas/HllemMethod_3d.cpp
// SOURCES: src/equations/perfect_gas/MusclHancockCharacteristicMethod_1d.cpp src/equations/perfect_gas/MusclHancockCharacteristicMethod_2d.cpp src/equations/perfect_gas/MusclHancockCharacteristicMethod_3d.cpp
// SOURCES: src/equations/perfect_gas/MusclHancockPrimMethod_1d.cpp src/equations/perfect_gas/MusclHancockPrimMethod_2d.cpp src/equations/perfect_gas/MusclHancockPrimMethod_3d.cpp
// SOURCES: src/equations/perfect_gas/ThirdOrderRungeKuttaMethod_1d.cpp
#include "pg.hpp"
#include "flux_laws.hpp"
#include "fub/equations/perfect_gas/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockPrimMethod.hpp"
#include "fub/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp"

template <int R> struct PgE {
  using Eq = PerfectGas<R>;
  static Eq eq() { return Gas<R>(); }
  static Complete<Eq> eos(const Eq& e, int k) { return Eos<R>(e, k); }
};
template <int R> struct Chr : PgE<R> { using M = perfect_gas::MusclHancockCharacteristic<R>; };
template <int R> struct Pri : PgE<R> { using M = perfect_gas::MusclHancockPrim<R>; };
inline Duration DT() { return Duration(vg_pos(9100)); }
inline double DX() { return vg_pos(9101); }
template <class T> std::array<CompT<T>, 4> Sten(const EqOf<T>& eq) { return {T::eos(eq, 0), T::eos(eq, 50), T::eos(eq, 100), T::eos(eq, 150)}; }
template <class T> void f_s(Out o, Direction d) { auto eq = T::eq(); typename T::M m(eq); ConsT<T> f(eq); auto st = Sten<T>(eq); m.ComputeNumericFlux(f, st, DT(), DX(), d); w::put(o, f); }
template <class T> void f_a(Out o, Direction d, int l) {
  auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); auto st = Sten<T>(eq);
  std::array<CompA<T>, 4> sa{Lanes<T>(eq, st[0], l, 0), Lanes<T>(eq, st[1], l, 1000), Lanes<T>(eq, st[2], l, 2000), Lanes<T>(eq, st[3], l, 3000)};
  m.ComputeNumericFlux(f, sa, DT(), DX(), d); w::put_lane(o, f, l); }
template <class T> void f_m(Out o, Direction d, int l, unsigned bits, unsigned cells = 15u) {
  auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); auto st = Sten<T>(eq);
  std::array<CompA<T>, 4> sa{LanesMasked<T>(eq, st[0], l, bits), LanesMasked<T>(eq, st[1], l, bits), LanesMasked<T>(eq, st[2], l, bits), LanesMasked<T>(eq, st[3], l, bits)};
  Array1d ff = Fractions(l, bits); std::array<Array1d, 4> vf{ff, ff, ff, ff};
  for (int i = 0; i < 4; ++i) if (!((cells >> i) & 1u)) { vf[i][l] = 0.0; w::zero_lane(sa[i], l); }
  m.ComputeNumericFlux(f, ff, sa, vf, DT(), DX(), d); w::put_lane(o, f, l); }
template <class T> void f_off(Out o, Direction d, int l, unsigned bits) {
  auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); w::fill_lanes(f, l, 900); auto st = Sten<T>(eq); unsigned on = bits & ~(1u << l); int first = 0; while (on && !((on >> first) & 1u)) ++first;
  if (!on) first = 8;
  std::array<CompA<T>, 4> sa{LanesMasked<T>(eq, st[0], first, on), LanesMasked<T>(eq, st[1], first, on), LanesMasked<T>(eq, st[2], first, on), LanesMasked<T>(eq, st[3], first, on)};
  Array1d ff = Fractions(first, on); std::array<Array1d, 4> vf{ff, ff, ff, ff};
  m.ComputeNumericFlux(f, ff, sa, vf, DT(), DX(), d); w::put_lane(o, f, l); }
template <class T> void f_zero(Out o) { auto eq = T::eq(); ConsT<T> f(eq); w::zero(f); w::put(o, f); }
template <int R> perfect_gas::Hllem<PerfectGas<R>> Base(const PerfectGas<R>& eq) { return perfect_gas::Hllem<PerfectGas<R>>(eq); }
template <int R> void base(Out o, const PerfectGas<R>& eq, const std::array<Complete<PerfectGas<R>>, 2>& q, Direction d) { auto m = Base<R>(eq); Conservative<PerfectGas<R>> f(eq); m.ComputeNumericFlux(f, q, DT(), DX(), d); w::put(o, f); }
template <class T> void t_s(Out o, Direction d) { auto eq = T::eq(); typename T::M m(eq); auto st = Sten<T>(eq); o.put(m.ComputeStableDt(st, DX(), d)); }
template <class T> void t_spec(Out o, Direction d) { auto eq = T::eq(); auto m = Base<EqOf<T>::Rank()>(eq); std::array<CompT<T>, 2> st{T::eos(eq, 50), T::eos(eq, 100)}; o.put(m.ComputeStableDt(st, DX(), d)); }
template <class T> void t_a(Out o, Direction d, int l) { auto eq = T::eq(); typename T::M m(eq); auto st = Sten<T>(eq);
  std::array<CompA<T>, 4> sa{Lanes<T>(eq, st[0], l, 0), Lanes<T>(eq, st[1], l, 1000), Lanes<T>(eq, st[2], l, 2000), Lanes<T>(eq, st[3], l, 3000)}; o.put(m.ComputeStableDt(sa, DX(), d)[l]); }
template <class T> void t_m(Out o, Direction d, int l, unsigned bits) { auto eq = T::eq(); typename T::M m(eq); auto st = Sten<T>(eq);
  std::array<CompA<T>, 4> sa{LanesMasked<T>(eq, st[0], l, bits), LanesMasked<T>(eq, st[1], l, bits), LanesMasked<T>(eq, st[2], l, bits), LanesMasked<T>(eq, st[3], l, bits)};
  Array1d ff = Fractions(l, bits); std::array<Array1d, 4> vf{ff, ff, ff, ff}; vf[0][l] = vf[3][l] = 0.0; o.put(m.ComputeStableDt(sa, ff, vf, DX(), d)[l]); }
template <class T> void k_spec(Out o, Direction d) { auto eq = T::eq(); ConsT<T> f(eq); auto q = T::eos(eq, 0); Flux(eq, f, q, d); w::put(o, f); }
template <class T> void k_s(Out o, Direction d) { auto eq = T::eq(); typename T::M m(eq); ConsT<T> f(eq); auto q = T::eos(eq, 0); std::array<CompT<T>, 4> st{q, q, q, q}; m.ComputeNumericFlux(f, st, DT(), DX(), d); w::put(o, f); }
template <class T> void k_a(Out o, Direction d, int l) { auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); auto q = Lanes<T>(eq, T::eos(eq, 0), l, 0); std::array<CompA<T>, 4> st{q, q, q, q}; m.ComputeNumericFlux(f, st, DT(), DX(), d); w::put_lane(o, f, l); }

// ------------------------------------------------------------------ textbook
template <int R> struct W { double rho, u[3], p; };
template <int R> W<R> prim(const Complete<PerfectGas<R>>& q) { W<R> w{}; w.rho = q.density; for (int i = 0; i < R; ++i) w.u[i] = q.momentum[i] / q.density; w.p = q.pressure; return w; }
template <int R> Complete<PerfectGas<R>> comp(const PerfectGas<R>& eq, const W<R>& w) {
  Complete<PerfectGas<R>> q(eq); double k = 0; q.density = w.rho; for (int i = 0; i < R; ++i) { q.momentum[i] = w.rho * w.u[i]; k += w.u[i] * w.u[i]; }
  q.pressure = w.p; q.energy = w.p / (eq.gamma - 1) + w.rho * k / 2; q.speed_of_sound = std::sqrt(eq.gamma * w.p / w.rho); return q; }
/// w + side s/2 - lambda/2 A(w) s with undivided slopes s
template <int R> W<R> evolve(const W<R>& w, const W<R>& s, double c, int n, int side) {
  W<R> r{}; const double t = DT().count() / DX() / 2, e = side * 0.5;
  r.rho = w.rho + e * s.rho - t * (w.u[n] * s.rho + w.rho * s.u[n]);
  r.p = w.p + e * s.p - t * (w.u[n] * s.p + w.rho * c * c * s.u[n]);
  for (int i = 0; i < R; ++i) r.u[i] = w.u[i] + e * s.u[i] - t * (w.u[n] * s.u[i] + (i == n ? s.p / w.rho : 0.0));
  return r; }
inline double vanleer(double a, double b) { const double c = 2 * a * b; return c > 0 ? c / (a + b) : 0.0; }
template <int R> W<R> chr_slope(const W<R>& a, const W<R>& b, const W<R>& c, double cs, int n) {
  W<R> g{}; const double rc = b.rho * cs, o = 1 / (cs * cs);
  auto amp = [&](const W<R>& l, const W<R>& r, double* w) { const double dp = r.p - l.p, du = r.u[n] - l.u[n], dr = r.rho - l.rho; w[0] = dp - rc * du; w[1] = dp + rc * du; w[2] = dr - o * dp; };
  double L[3], Rr[3], w[3]; amp(a, b, L); amp(b, c, Rr); for (int i = 0; i < 3; ++i) w[i] = vanleer(L[i], Rr[i]);
  g.p = (w[0] + w[1]) / 2; g.u[n] = (w[1] - w[0]) / (2 * rc); g.rho = g.p * o + w[2];
  for (int i = 1; i < R; ++i) { const int t = (n + i) % R; g.u[t] = vanleer(b.u[t] - a.u[t], c.u[t] - b.u[t]); }
  return g; }
template <int R> void chr_spec(Out o, Direction d, unsigned cells = 15u) {
  using T = Chr<R>; auto eq = T::eq(); auto st = Sten<T>(eq); const int n = int(d); W<R> w[4] = {prim<R>(st[0]), prim<R>(st[1]), prim<R>(st[2]), prim<R>(st[3])};
  auto a = chr_slope<R>(w[0], w[1], w[2], st[1].speed_of_sound, n), b = chr_slope<R>(w[1], w[2], w[3], st[2].speed_of_sound, n);
  if ((cells & 7u) != 7u) a = W<R>{};
  if ((cells & 14u) != 14u) b = W<R>{};
  base<R>(o, eq, {comp<R>(eq, evolve<R>(w[1], a, st[1].speed_of_sound, n, 1)), comp<R>(eq, evolve<R>(w[2], b, st[2].speed_of_sound, n, -1))}, d); }
/// the central slope times sigma(r), r the smaller ratio of a one sided to the central slope
inline double pri_lim(double a, double b, double c) {
  const double dq = (c - a) / 2; const bool rel = std::abs(dq) > 1e-12; const double rl = rel ? (b - a) / dq : 0.0, rr = rel ? (c - b) / dq : 0.0;
  const double r = (rl > 0 && rr > 0) ? (rr < rl ? rr : rl) : 0.0; return (r < 1 ? 2 * r / (1 + r) : (1 + r) / 2) * dq; }
template <int R> W<R> pri_slope(const W<R>& a, const W<R>& b, const W<R>& c) { W<R> g{}; g.rho = pri_lim(a.rho, b.rho, c.rho); g.p = pri_lim(a.p, b.p, c.p); for (int i = 0; i < R; ++i) g.u[i] = pri_lim(a.u[i], b.u[i], c.u[i]); return g; }
/// covered outer cells are replaced by their inner neighbour
template <int R> void pri_spec(Out o, Direction d, unsigned cells = 15u) {
  using T = Pri<R>; auto eq = T::eq(); auto st = Sten<T>(eq); const int n = int(d); W<R> w[4] = {prim<R>(st[0]), prim<R>(st[1]), prim<R>(st[2]), prim<R>(st[3])};
  if (!(cells & 1u)) w[0] = w[1];
  if (!(cells & 8u)) w[3] = w[2];
  base<R>(o, eq, {comp<R>(eq, evolve<R>(w[1], pri_slope<R>(w[0], w[1], w[2]), st[1].speed_of_sound, n, 1)), comp<R>(eq, evolve<R>(w[2], pri_slope<R>(w[1], w[2], w[3]), st[2].speed_of_sound, n, -1))}, d); }

#define CHR(R, D, d, l)                                                        \
  LAW(M01_chr##R##_##d##_lane, f_s<Chr<R>>(o, D), f_a<Chr<R>>(o, D, l))        \
  LAW(M01_chr##R##_##d##_mask, f_s<Chr<R>>(o, D), f_m<Chr<R>>(o, D, l, 0x2cu)) \
  LAW(M01_chr##R##_##d##_covered, f_off<Chr<R>>(o, D, l, 0x2cu), f_zero<Chr<R>>(o)) \
  LAW(M01_chr##R##_##d##_allcovered, f_off<Chr<R>>(o, D, l, 0u), f_zero<Chr<R>>(o)) \
  LAW(M02_chr##R##_##d##_const, k_s<Chr<R>>(o, D), k_spec<Chr<R>>(o, D))       \
  LAW(M03_chr##R##_##d##_text, f_s<Chr<R>>(o, D), chr_spec<R>(o, D))           \
  LAW(M03_chr##R##_##d##_cutleft, f_m<Chr<R>>(o, D, l, 0x2cu, 14u), chr_spec<R>(o, D, 14u)) \
  LAW(M03_chr##R##_##d##_cutright, f_m<Chr<R>>(o, D, l, 0x2cu, 7u), chr_spec<R>(o, D, 7u)) \
  LAW(M04_chr##R##_##d##_dt, t_s<Chr<R>>(o, D), t_spec<Chr<R>>(o, D))          \
  LAW(M04_chr##R##_##d##_dtlane, t_s<Chr<R>>(o, D), t_a<Chr<R>>(o, D, l))      \
  LAW(M04_chr##R##_##d##_dtmask, t_s<Chr<R>>(o, D), t_m<Chr<R>>(o, D, l, 0x2cu))
#define PRI(R, D, d, l)                                                        \
  LAW(M01_pri##R##_##d##_mask, f_a<Pri<R>>(o, D, 2), f_m<Pri<R>>(o, D, l, 0x2cu)) \
  LAW(M01_pri##R##_##d##_covered, f_off<Pri<R>>(o, D, l, 0x2cu), f_zero<Pri<R>>(o)) \
  LAW(M01_pri##R##_##d##_allcovered, f_off<Pri<R>>(o, D, l, 0u), f_zero<Pri<R>>(o)) \
  LAW(M02_pri##R##_##d##_const, k_a<Pri<R>>(o, D, l), k_spec<Pri<R>>(o, D))    \
  LAW(M03_pri##R##_##d##_text, f_a<Pri<R>>(o, D, l), pri_spec<R>(o, D))        \
  LAW(M03_pri##R##_##d##_cutleft, f_m<Pri<R>>(o, D, l, 0x2cu, 14u), pri_spec<R>(o, D, 14u)) \
  LAW(M03_pri##R##_##d##_cutright, f_m<Pri<R>>(o, D, l, 0x2cu, 7u), pri_spec<R>(o, D, 7u)) \
  LAW(M04_pri##R##_##d##_dtlane, t_spec<Pri<R>>(o, D), t_a<Pri<R>>(o, D, l))   \
  LAW(M04_pri##R##_##d##_dtmask, t_spec<Pri<R>>(o, D), t_m<Pri<R>>(o, D, l, 0x2cu))
CHR(1, X, x, 1) CHR(2, X, x, 6) CHR(2, Y, y, 0) CHR(3, X, x, 7) CHR(3, Y, y, 4) CHR(3, Z, z, 1)
PRI(1, X, x, 1) PRI(2, X, x, 6) PRI(2, Y, y, 0) PRI(3, X, x, 7) PRI(3, Y, y, 4) PRI(3, Z, z, 1)

// ------------------------------------- third order Runge-Kutta, one dimension
using G1 = PerfectGas<1>;
struct Rk : PgE<1> { using M = perfect_gas::ThirdOrderRungeKutta<1>; static M method(const Eq& e) { M m(e); m.k_0 = vg_pos(9200); m.eta_0 = vg_pos(9201); return m; } };
inline std::array<Complete<G1>, 12> Sten12(const G1& eq) { std::array<Complete<G1>, 12> s; for (int i = 0; i < 12; ++i) s[i] = Rk::eos(eq, 50 * i); return s; }
inline std::array<CompleteArray<G1>, 12> Sten12a(const G1& eq, int l) { std::array<CompleteArray<G1>, 12> s; for (int i = 0; i < 12; ++i) s[i] = Lanes<Rk>(eq, Rk::eos(eq, 50 * i), l, 1000 * i); return s; }
inline void rk_s(Out o) { auto eq = Rk::eq(); auto m = Rk::method(eq); auto st = Sten12(eq); Conservative<G1> f; m.ComputeNumericFlux(f, st, DT(), DX(), X); w::put(o, f); }
inline void rk_a(Out o, int l) { auto eq = Rk::eq(); auto m = Rk::method(eq); auto st = Sten12a(eq, l); ConservativeArray<G1> f; m.ComputeNumericFlux(f, st, DT(), DX(), X); w::put_lane(o, f, l); }
inline void rk_k(Out o) { auto eq = Rk::eq(); auto m = Rk::method(eq); std::array<Complete<G1>, 12> st; st.fill(Rk::eos(eq, 0)); Conservative<G1> f; m.ComputeNumericFlux(f, st, DT(), DX(), X); w::put(o, f); }
inline void rk_dt_s(Out o) { auto eq = Rk::eq(); auto m = Rk::method(eq); auto st = Sten12(eq); o.put(m.ComputeStableDt(st, DX(), X)); }
inline void rk_dt_a(Out o, int l) { auto eq = Rk::eq(); auto m = Rk::method(eq); auto st = Sten12a(eq, l); o.put(m.ComputeStableDt(st, DX(), X)[l]); }
inline void rk_dt_spec(Out o) { auto eq = Rk::eq(); auto st = Sten12(eq); double s = 0; for (int i = 5; i < 7; ++i) { const double v = std::abs(st[i].momentum[0] / st[i].density) + st[i].speed_of_sound; s = v < s ? s : v; } o.put(DX() / s); }
LAW(M01_rk3_lane0, rk_s(o), rk_a(o, 0))
LAW(M01_rk3_lane5, rk_s(o), rk_a(o, 5))
LAW(M02_rk3_const, rk_k(o), k_spec<Rk>(o, X))
LAW(M04_rk3_dt, rk_dt_s(o), rk_dt_spec(o))
LAW(M04_rk3_dtlane, rk_dt_s(o), rk_dt_a(o, 3))
// SSP Runge-Kutta in flux form over the 12 cell stencil; face i lies between cells i-1 and i
struct U1 { double r, m, E; };
inline U1 rk_face(const G1& eq, const U1* u, int i) {
  const double a1 = 0.9114378277661477, a2 = 0.4114378277661477; auto e = [&](double U1::*q) { return a1 * (u[i - 1].*q + u[i].*q) - a2 * (u[i - 2].*q + u[i + 1].*q); };
  const double g1 = eq.gamma - 1, R = eq.Rspec; const U1 c{e(&U1::r), e(&U1::m), e(&U1::E)};
  auto vel = [](const U1& q) { return q.m / q.r; }; auto pre = [&](const U1& q) { return g1 * (q.E - q.m * q.m / q.r / 2); }; auto tem = [&](const U1& q) { return pre(q) / (q.r * R); };
  const double s = std::sqrt(tem(c)), eta = vg_pos(9201) * s, k = vg_pos(9200) * s, du = (vel(u[i]) - vel(u[i - 1])) / DX(), dT = (tem(u[i]) - tem(u[i - 1])) / DX(), tau = eta * du * 4.0 / 3.0, p = pre(c);
  return {c.m, c.m * vel(c) + p - tau, vel(c) * (c.E + p) - (tau * vel(c) + k * dT)}; }
inline void rk_spec(Out o) {
  auto eq = Rk::eq(); auto st = Sten12(eq); U1 u0[12], u1[12], u2[12], f0[13], f1[13]; const double lam = DT().count() / DX();
  auto lc = [](double a, const U1& x, double b, const U1& y, double c, const U1& z) { return U1{a * x.r + b * y.r + c * z.r, a * x.m + b * y.m + c * z.m, a * x.E + b * y.E + c * z.E}; };
  const U1 z{0, 0, 0};
  for (int i = 0; i < 12; ++i) u0[i] = {st[i].density, st[i].momentum[0], st[i].energy};
  for (int i = 2; i < 11; ++i) f0[i] = rk_face(eq, u0, i);
  for (int i = 2; i < 10; ++i) u1[i] = lc(1, u0[i], lam, f0[i], -lam, f0[i + 1]);
  for (int i = 4; i < 9; ++i) f1[i] = rk_face(eq, u1, i);
  for (int i = 4; i < 8; ++i) u2[i] = lc(1, lc(0.75, u0[i], 0.25, u1[i], 0, z), lam / 4, f1[i], -lam / 4, f1[i + 1]);
  const U1 f2 = rk_face(eq, u2, 6), f = lc(1.0 / 6, f0[6], 1.0 / 6, f1[6], 2.0 / 3, f2);
  o.put(f.r); o.put(f.m); o.put(f.E); }
LAW(M03_rk3_text, rk_s(o), rk_spec(o))
// ------------------------------ R08: what the object has computed before leaves no trace
#define AGC(R, D, d, l) AGAIN4_S(chr##R, Chr<R>, true, D, d, l) AGAIN4_A(chr##R, Chr<R>, true, true, D, d, l) AGAIN4_M(chr##R, Chr<R>, true, D, d, l)
#define AGP(R, D, d, l) AGAIN4_A(pri##R, Pri<R>, false, true, D, d, l) AGAIN4_M(pri##R, Pri<R>, false, D, d, l)
AGC(1, X, x, 2) AGC(2, Y, y, 5) AGC(3, X, x, 3) AGC(3, Z, z, 0) AGP(1, X, x, 2) AGP(2, Y, y, 5) AGP(3, X, x, 3) AGP(3, Z, z, 0)
