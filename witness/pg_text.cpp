// SOURCES: src/equations/PerfectGas.cpp
// SOURCES: src/equations/perfect_gas/EinfeldtSignalVelocities_1d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_2d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_3d.cpp
// SOURCES: src/equations/perfect_gas/HllemMethod_1d.cpp src/equations/perfect_gas/HllemMethod_2d.cpp src/equations/perfect_gas/HllemMethod_3d.cpp
// SOURCES: src/equations/perfect_gas/ExactRiemannSolver_1d.cpp src/equations/perfect_gas/ExactRiemannSolver_2d.cpp src/equations/perfect_gas/ExactRiemannSolver_3d.cpp
// The numerical fluxes of the perfect gas against the formulas of the literature.
#include "pg.hpp"
#include "flux_laws.hpp"
#include "fub/NewtonIteration.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"

template <int R> struct B {
  using Eq = PerfectGas<R>;
  static Eq eq() { return Gas<R>(); }
  static Complete<Eq> eos(const Eq& e, int k) { return Eos<R>(e, k); }
};
template <int R> struct THllem : B<R> { static auto method(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, false>(e); } };
template <int R> struct THllemL : B<R> { static auto method(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, true>(e); } };
template <int R> struct THll : B<R> { static auto method(const PerfectGas<R>& e) { return Hll<PerfectGas<R>, EinfeldtSignalVelocities<PerfectGas<R>>>(e); } };
template <int R> struct TGod : B<R> { static auto method(const PerfectGas<R>& e) { return Godunov<PerfectGas<R>>(e); } };

// primitive data of one side, taken from the same symbols as Eos<R>
struct WSide { double g, rho, p, v[3], E, a, H, q2; int n; };
template <int R> WSide wside(int k, int n, bool only_normal = false) {
  WSide s; s.n = n; s.g = 1.0 + vg_pos(9001); s.rho = vg_pos(k); s.p = vg_pos(k + 1); s.q2 = 0;
  for (int d = 0; d < 3; ++d) { s.v[d] = d < R ? vg_in(k + 2 + d) : 0.0; if (only_normal && d != n) s.v[d] = 0.0; s.q2 += s.v[d] * s.v[d]; }
  s.E = s.p / (s.g - 1.0) + 0.5 * s.rho * s.q2; s.a = std::sqrt(s.g * s.p / s.rho); s.H = (s.E + s.p) / s.rho;
  return s;
}
struct Roe { double u[3], H, a, q2; };
inline Roe roe(const WSide& l, const WSide& r, bool normal_energy_only) {
  const double wl = std::sqrt(l.rho), wr = std::sqrt(r.rho); Roe o; o.q2 = 0;
  for (int d = 0; d < 3; ++d) { o.u[d] = (wl * l.v[d] + wr * r.v[d]) / (wl + wr); o.q2 += o.u[d] * o.u[d]; }
  o.H = (wl * l.H + wr * r.H) / (wl + wr);
  const double k = normal_energy_only ? o.u[l.n] * o.u[l.n] : o.q2;
  o.a = std::sqrt((l.g - 1.0) * (o.H - 0.5 * k));
  return o;
}
struct Sig { double l, r; };
/// Einfeldt's signal velocities; shared: one speed of sound for both sides
inline Sig einfeldt(const WSide& l, const WSide& r, const Roe& m, bool shared) {
  const double al = shared ? std::max(l.a, r.a) : l.a, ar = shared ? std::max(l.a, r.a) : r.a; const int n = l.n;
  return {std::min(l.v[n] - al, m.u[n] - m.a), std::max(r.v[n] + ar, m.u[n] + m.a)};
}
inline void U(const WSide& s, double* q) { q[0] = s.rho; for (int d = 0; d < 3; ++d) q[1 + d] = s.rho * s.v[d]; q[4] = s.E; }
inline void F(const WSide& s, double* f) { const double un = s.v[s.n]; f[0] = s.rho * un; for (int d = 0; d < 3; ++d) f[1 + d] = s.rho * s.v[d] * un + (d == s.n ? s.p : 0.0); f[4] = un * (s.E + s.p); }
template <int R> void put5(Out& o, const double* f) { o.put(f[0]); for (int d = 0; d < R; ++d) o.put(f[1 + d]); o.put(f[4]); }
inline void hll(const WSide& l, const WSide& r, Sig s, double* f) {
  const double bl = std::min(s.l, 0.0), br = std::max(s.r, 0.0); double ul[5], ur[5], fl[5], fr[5]; U(l, ul); U(r, ur); F(l, fl); F(r, fr);
  for (int k = 0; k < 5; ++k) f[k] = (br * fl[k] - bl * fr[k] + bl * br * (ur[k] - ul[k])) / (br - bl);
}
template <int R> void hll_spec(Out o, Direction d) {
  WSide l = wside<R>(0, int(d)), r = wside<R>(50, int(d)); Roe m = roe(l, r, true); double f[5];
  hll(l, r, einfeldt(l, r, m, false), f); put5<R>(o, f);
}
template <int R> void hll_dt(Out o, Direction d) {
  WSide l = wside<R>(0, int(d)), r = wside<R>(50, int(d)); Sig s = einfeldt(l, r, roe(l, r, true), false);
  o.put(vg_pos(9101) / std::max(std::abs(s.l), std::abs(s.r)));
}
template <int R> void sig_code(Out o, Direction d) { auto e = Gas<R>(); EinfeldtSignalVelocities<PerfectGas<R>> s{}; auto r = s(e, Eos<R>(e, 0), Eos<R>(e, 50), d); o.put(r[0]); o.put(r[1]); }
template <int R> void sig_spec(Out o, Direction d) { WSide l = wside<R>(0, int(d)), r = wside<R>(50, int(d)); Sig s = einfeldt(l, r, roe(l, r, true), false); o.put(s.l); o.put(s.r); }
/// HLLEM (Einfeldt, Munz, Roe, Sjogreen 1991): HLLE with anti-diffusion in the linearly degenerate waves
inline void hllem(int R, const WSide& l, const WSide& r, const Roe& m, Sig s, double* f) {
  hll(l, r, s, f);
  const double bl = std::min(s.l, 0.0), br = std::max(s.r, 0.0), ub = 0.5 * (s.l + s.r), delta = m.a / (m.a + std::abs(ub));
  const double c = bl * br / (br - bl) * delta;
  double ul[5], ur[5]; U(l, ul); U(r, ur); double du[5]; for (int k = 0; k < 5; ++k) du[k] = ur[k] - ul[k];
  double udm = 0; for (int d = 0; d < 3; ++d) udm += m.u[d] * du[1 + d];
  const double a2 = (l.g - 1.0) / (m.a * m.a) * ((m.H - m.q2) * du[0] + udm - du[4]);
  f[0] -= c * a2; for (int d = 0; d < 3; ++d) f[1 + d] -= c * a2 * m.u[d]; f[4] -= c * a2 * 0.5 * m.q2;
  for (int t = 0; t < R; ++t) if (t != l.n) { const double at = du[1 + t] - m.u[t] * du[0]; f[1 + t] -= c * at; f[4] -= c * at * m.u[t]; }
}
template <int R> void hllem_spec(Out o, Direction d) {
  WSide l = wside<R>(0, int(d)), r = wside<R>(50, int(d)); Roe m = roe(l, r, false); double f[5];
  hllem(R, l, r, m, einfeldt(l, r, m, true), f); put5<R>(o, f);
}
template <int R> void hllem_dt(Out o, Direction d) {
  WSide l = wside<R>(0, int(d)), r = wside<R>(50, int(d)); Sig s = einfeldt(l, r, roe(l, r, false), true);
  o.put(vg_pos(9101) / std::max(std::abs(s.l), std::abs(s.r)));
}
/// Larrouturou: solve the one dimensional problem, carry transverse velocity with the mass flux
template <int R> void hlleml_spec(Out o, Direction d) {
  const int n = int(d); WSide l = wside<R>(0, n, true), r = wside<R>(50, n, true); Roe m = roe(l, r, false); double f[5];
  hllem(1, l, r, m, einfeldt(l, r, m, true), f);
  WSide lf = wside<R>(0, n), rf = wside<R>(50, n); const WSide& up = f[0] > 0 ? lf : rf; double k = 0;
  for (int t = 0; t < R; ++t) if (t != n) { f[1 + t] = f[0] * up.v[t]; k += up.v[t] * up.v[t]; }
  f[4] += f[0] * 0.5 * k; put5<R>(o, f);
}
/// an isolated stationary contact/shear wave is resolved exactly
template <class T, int R> void contact_code(Out o, Direction d) {
  auto eq = T::eq(); auto mk = [&](int k) { auto q = T::eos(eq, k); q.momentum[int(d)] = 0; q.pressure = vg_pos(1); double ke = 0; for (int i = 0; i < R; ++i) ke += q.momentum[i] * q.momentum[i]; q.energy = q.pressure * eq.gamma_minus_1_inv + 0.5 * ke / q.density; q.speed_of_sound = std::sqrt(eq.gamma * q.pressure / q.density); return q; };
  w::put(o, FluxLaws<T>::flux(eq, mk(0), mk(50), d));
}
template <int R> void contact_spec(Out o, Direction d) { o.put(0); for (int i = 0; i < R; ++i) o.put(i == int(d) ? vg_pos(1) : 0.0); o.put(0); }

// ---- exact Riemann solver (Toro, chapter 4)
struct Star { double p, u; };
inline auto fK(const WSide& s) { return [=](double p) { const double A = 2.0 / ((s.g + 1.0) * s.rho), Bk = (s.g - 1.0) / (s.g + 1.0) * s.p; return p > s.p ? (p - s.p) * std::sqrt(A / (p + Bk)) : 2.0 * s.a / (s.g - 1.0) * (std::pow(p / s.p, 0.5 * (s.g - 1.0) / s.g) - 1.0); }; }
inline auto dfK(const WSide& s) { return [=](double p) { const double A = 2.0 / ((s.g + 1.0) * s.rho), Bk = (s.g - 1.0) / (s.g + 1.0) * s.p; return p > s.p ? std::sqrt(A / (p + Bk)) * (1.0 - (p - s.p) / (2.0 * (p + Bk))) : std::pow(p / s.p, -0.5 * (s.g + 1.0) / s.g) / (s.rho * s.a); }; }
template <int R> void star_code(Out o, Direction d) { vg_loop_bound(1); auto e = Gas<R>(); ExactRiemannSolver<PerfectGas<R>> s(e); auto r = s.ComputeMiddleState(Eos<R>(e, 0), Eos<R>(e, 50), d); o.put(r[0]); o.put(r[1]); }
template <int R> void star_spec(Out o, Direction d) {
  vg_loop_bound(1); WSide l = wside<R>(0, int(d)), r = wside<R>(50, int(d)); const double du = r.v[int(d)] - l.v[int(d)];
  auto fl = fK(l); auto fr = fK(r); auto dl = dfK(l); auto dr = dfK(r);
  const double p = NewtonIteration([&](double x) { return fl(x) + fr(x) + du; }, [&](double x) { return dl(x) + dr(x); }, 0.5 * (l.p + r.p));
  o.put(p); o.put(0.5 * (l.v[int(d)] + r.v[int(d)]) + 0.5 * (fr(p) - fl(p)));
}
template <int R> void put_complete(Out& o, const WSide& s, double rho, double un, double p) {
  double v[3] = {s.v[0], s.v[1], s.v[2]}; v[s.n] = un; double q2 = 0; o.put(rho); for (int i = 0; i < R; ++i) { o.put(rho * v[i]); q2 += v[i] * v[i]; }
  o.put(p / (s.g - 1.0) + 0.5 * rho * q2); o.put(p); o.put(std::sqrt(s.g * p / rho));
}
/// the similarity solution for star values (pM, uM) at speed S
template <int R> void sample(Out& o, const WSide& l, const WSide& r, double pM, double uM, double S) {
  const bool left = S <= uM; WSide s = left ? l : r; const double sg = left ? 1.0 : -1.0; const int n = s.n;
  const double g = s.g, u = s.v[n], pr = pM / s.p, q = (g - 1.0) / (g + 1.0);
  double rho, un, p;
  // speeds measured towards the outside of the wave of this side
  if (pM > s.p) { const double shock = u - sg * s.a * std::sqrt((g + 1.0) / (2.0 * g) * pr + (g - 1.0) / (2.0 * g));
    const bool star = left ? shock < S : S < shock;
    rho = star ? s.rho * (pr + q) / (q * pr + 1.0) : s.rho; un = star ? uM : u; p = star ? pM : s.p; }
  else { const double head = u - sg * s.a, aM = s.a * std::pow(pr, (g - 1.0) / (2.0 * g)), tail = uM - sg * aM;
    const bool outside = left ? S < head : S >= head; const bool star = left ? tail < S : tail >= S;
    const double fan = 2.0 / (g + 1.0) + sg * q * (u - S) / s.a;
    rho = outside ? s.rho : star ? s.rho * std::pow(pr, 1.0 / g) : s.rho * std::pow(fan, 2.0 / (g - 1.0));
    un = outside ? u : star ? uM : 2.0 / (g + 1.0) * (sg * s.a + (g - 1.0) / 2.0 * u + S);
    p = outside ? s.p : star ? pM : s.p * std::pow(fan, 2.0 * g / (g - 1.0)); }
  put_complete<R>(o, s, rho, un, p);
}
template <int R> void samp_code(Out o, Direction d) { auto e = Gas<R>(); ExactRiemannSolver<PerfectGas<R>> s(e); Complete<PerfectGas<R>> q(e); s.SolveRiemannProblem(q, Eos<R>(e, 0), Eos<R>(e, 50), vg_pos(9200), vg_in(9201), Duration(vg_pos(9203)), vg_in(9202) * vg_pos(9203), d); w::put(o, q); }
template <int R> void samp_spec(Out o, Direction d) { WSide l = wside<R>(0, int(d)), r = wside<R>(50, int(d)); sample<R>(o, l, r, vg_pos(9200), vg_in(9201), vg_in(9202)); }
template <int R> void solve_code(Out o, Direction d) { vg_loop_bound(1); auto e = Gas<R>(); ExactRiemannSolver<PerfectGas<R>> s(e); Complete<PerfectGas<R>> q(e); s.SolveRiemannProblem(q, Eos<R>(e, 0), Eos<R>(e, 50), d); w::put(o, q); }
template <int R> void solve_spec(Out o, Direction d) { vg_loop_bound(1); auto e = Gas<R>(); ExactRiemannSolver<PerfectGas<R>> s(e); auto m = s.ComputeMiddleState(Eos<R>(e, 0), Eos<R>(e, 50), d); WSide l = wside<R>(0, int(d)), r = wside<R>(50, int(d)); sample<R>(o, l, r, m[0], m[1], 0.0); }
template <int R> void esig_code(Out o, Direction d) { vg_loop_bound(1); auto e = Gas<R>(); ExactRiemannSolver<PerfectGas<R>> s(e); auto r = s.ComputeSignals(Eos<R>(e, 0), Eos<R>(e, 50), d); o.put(r[0]); o.put(r[1]); }
template <int R> void esig_spec(Out o, Direction d) { vg_loop_bound(1); auto e = Gas<R>(); ExactRiemannSolver<PerfectGas<R>> s(e); auto m = s.ComputeMiddleState(Eos<R>(e, 0), Eos<R>(e, 50), d); const int n = int(d); WSide l = wside<R>(0, n), r = wside<R>(50, n); const double g = l.g;
  auto c = [&](const WSide& k) { return m[0] > k.p ? k.a * std::sqrt((g + 1.0) / (2.0 * g) * m[0] / k.p + (g - 1.0) / (2.0 * g)) : k.a; }; o.put(l.v[n] - c(l)); o.put(r.v[n] + c(r)); }
template <int R> void edt_spec(Out o, Direction d) { vg_loop_bound(1); auto e = Gas<R>(); ExactRiemannSolver<PerfectGas<R>> s(e); auto r = s.ComputeSignals(Eos<R>(e, 0), Eos<R>(e, 50), d); o.put(vg_pos(9101) / std::max(std::abs(r[0]), std::abs(r[1]))); }
template <int R> void edt_code(Out o, Direction d) { vg_loop_bound(1); FluxLaws<TGod<R>>::dt_s(o, d); }
template <int R> void gflux_code(Out o, Direction d) { vg_loop_bound(1); FluxLaws<TGod<R>>::num_s(o, d); }
template <int R> void gflux_spec(Out o, Direction d) { vg_loop_bound(1); auto e = Gas<R>(); ExactRiemannSolver<PerfectGas<R>> s(e); Complete<PerfectGas<R>> q(e); s.SolveRiemannProblem(q, Eos<R>(e, 0), Eos<R>(e, 50), d); Conservative<PerfectGas<R>> f(e); Flux(e, f, q, d); w::put(o, f); }

#define TEXT(R, D, d)                                                          \
  LAW(R04_einfeldt##R##_signals_##d, sig_code<R>(o, D), sig_spec<R>(o, D))        \
  LAW(R04_hll##R##_##d, FluxLaws<THll<R>>::num_s(o, D), hll_spec<R>(o, D))        \
  LAW(R05_hll##R##_##d, FluxLaws<THll<R>>::dt_s(o, D), hll_dt<R>(o, D))           \
  LAW(R04_hllem##R##_##d, FluxLaws<THllem<R>>::num_s(o, D), hllem_spec<R>(o, D))  \
  LAW(R04_hlleml##R##_##d, FluxLaws<THllemL<R>>::num_s(o, D), hlleml_spec<R>(o, D)) \
  LAW(R05_hllem##R##_##d, FluxLaws<THllem<R>>::dt_s(o, D), hllem_dt<R>(o, D))     \
  LAW(R05_hlleml##R##_##d, FluxLaws<THllemL<R>>::dt_s(o, D), hllem_dt<R>(o, D))   \
  LAW(R04_contact_hllem##R##_##d, (contact_code<THllem<R>, R>(o, D)), contact_spec<R>(o, D)) \
  LAW(R04_contact_hlleml##R##_##d, (contact_code<THllemL<R>, R>(o, D)), contact_spec<R>(o, D)) \
  LAW(R04_exact##R##_star_##d, star_code<R>(o, D), star_spec<R>(o, D))            \
  LAW(R04_exact##R##_sample_##d, samp_code<R>(o, D), samp_spec<R>(o, D))          \
  LAW(R04_exact##R##_solve_##d, solve_code<R>(o, D), solve_spec<R>(o, D))         \
  LAW(R04_exact##R##_signals_##d, esig_code<R>(o, D), esig_spec<R>(o, D))         \
  LAW(R04_godunov##R##_flux_##d, gflux_code<R>(o, D), gflux_spec<R>(o, D))         \
  LAW(R05_godunov##R##_##d, edt_code<R>(o, D), edt_spec<R>(o, D))
TEXT(1, X, x) TEXT(2, X, x) TEXT(2, Y, y) TEXT(3, X, x) TEXT(3, Y, y) TEXT(3, Z, z)
