// DEFS: -Iwitness/mock
// SOURCES: src/equations/PerfectGas.cpp src/equations/PerfectGasMix.cpp
// States for a required mass flow: the root finder is unknown, everything around it is checked
#include "mix.hpp"
#include "fub/equations/RequireMassflow.hpp"
using boost::math::tools::bisection;
using Solve = RequireMassflow_SolveExactRiemannProblem;
template <int R> struct Pg { using Eq = PerfectGas<R>; static Eq eq() { return Gas<R>(); } static Complete<Eq> eos(const Eq& e, int k) { return Eos<R>(e, k); } static double gamma(const Eq& e) { return e.gamma; } };
template <int R> struct Mi { using Eq = PerfectGasMix<R>; static Eq eq() { return Mix<R>(); } static Complete<Eq> eos(const Eq& e, int k) { return EosMix<R>(e, k); } static double gamma(const Eq&) { return 1.0 + vg_pos(9001); } };
struct Star { double rho, u; };
/// the states a left wave into pressure p connects (rho, u, pL, c) with, Toro 4.19 - 4.26
inline Star wave(double rho, double u, double pL, double c, double g, double p) {
  const double r = p / pL, mu = (g - 1) / (g + 1);
  if (p < pL) return {rho * std::pow(r, 1 / g), u - 2 * c / (g - 1) * (std::pow(r, (g - 1) / 2 / g) - 1)};
  return {rho * (mu + r) / (mu * r + 1), u - (p - pL) * std::sqrt(2 / ((g + 1) * rho) / (p + pL * mu))};
}
template <class T> struct Flow {
  using Eq = typename T::Eq; static constexpr int R = Eq::Rank();
  Eq eq = T::eq(); Complete<Eq> src = T::eos(eq, 0), res = T::eos(eq, 50); double g = T::gamma(eq);
  double m = vg_in(700), area = vg_pos(701);
  void run(int d) { bisection = {}; Solve()(eq, res, src, m, area, Direction(d)); }
  Star at(double p, int d) const { return wave(src.density, src.momentum[d] / src.density, src.pressure, src.speed_of_sound, g, p); }
  double flow(double p, int d) const { const Star s = at(p, d); return s.rho * s.u - m / area; }
  static double pstar() { return vg_pos(600) + 0.5 * (vg_pos(601) - vg_pos(600)); }
  /// the pressures that enclose the root, looking twelve octaves up or down
  std::pair<double, double> bracket(int d) const {
    const double p = src.pressure; double q = p; int k = 0;
    if (flow(p, d) < 0.0) { do { q *= 0.5; if (k++ == 12) throw 1; } while (flow(q, d) < 0.0); return {q, p}; }
    do { q *= 2.0; if (k++ == 12) throw 1; } while (flow(q, d) > 0.0); return {p, q};
  }
  void expect(int d) {
    const double p = pstar(); const Star s = at(p, d); res = src; double ke = 0; res.density = s.rho; res.pressure = p;
    for (int i = 0; i < R; ++i) { const double u = i == d ? s.u : src.momentum[i] / src.density; res.momentum[i] = s.rho * u; ke += u * u; }
    res.energy = p / (g - 1) + 0.5 * s.rho * ke; res.speed_of_sound = std::sqrt(g * p / s.rho);
    if constexpr (std::is_same_v<T, Mi<R>>) { for (int i = 0; i < NS; ++i) res.species[i] = s.rho * src.species[i] / src.density; for (int i = 0; i < NP; ++i) res.passive_scalars[i] = s.rho * src.passive_scalars[i] / src.density; }
  }
};
template <class T> void state(Out o, int d) { Flow<T> f; f.run(d); w::put(o, f.res); }
template <class T> void state_spec(Out o, int d) { Flow<T> f; f.bracket(d); f.expect(d); w::put(o, f.res); }
template <class T> void root(Out o, int d) { Flow<T> f; f.run(d); o.put(bisection.calls); o.put(bisection.lo); o.put(bisection.hi); o.put(bisection.at); }
template <class T> void root_spec(Out o, int d) { Flow<T> f; auto [lo, hi] = f.bracket(d); o.put(1); o.put(lo); o.put(hi); o.put(f.flow(vg_pos(602), d)); }
#define LAWS(N, T, d) LAW(E05_##N##_state_##d, state<T>(o, d), state_spec<T>(o, d)) LAW(E05_##N##_root_##d, root<T>(o, d), root_spec<T>(o, d))
LAWS(pg1, Pg<1>, 0) LAWS(pg2, Pg<2>, 0) LAWS(pg2, Pg<2>, 1) LAWS(pg3, Pg<3>, 2) LAWS(mix1, Mi<1>, 0) LAWS(mix2, Mi<2>, 1) LAWS(mix3, Mi<3>, 0)
// the left state that a wave connects with a given star state
template <class T> void left(Out o, int d, bool code) {
  using Eq = typename T::Eq; auto eq = T::eq(); Primitive<Eq> l(eq); w::fill(l, 300); const double rho = vg_pos(800), u = vg_in(801), p = vg_pos(802), pL = vg_pos(803), g = T::gamma(eq);
  if (code) { Solve()(eq, l, rho, u, p, pL, Direction(d)); const double c = std::sqrt(g * pL / l.density); const Star s = wave(l.density, l.velocity[d], l.pressure, c, g, p); o.put(s.rho); o.put(s.u); o.put(l.pressure); for (int i = 0; i < Eq::Rank(); ++i) if (i != d) o.put(l.velocity[i]); }
  else { Primitive<Eq> q(eq); w::fill(q, 300); o.put(rho); o.put(u); o.put(pL); for (int i = 0; i < Eq::Rank(); ++i) if (i != d) o.put(q.velocity[i]); }
}
LAW(E05_left_pg1_0, left<Pg<1>>(o, 0, true), left<Pg<1>>(o, 0, false)) LAW(E05_left_pg3_1, left<Pg<3>>(o, 1, true), left<Pg<3>>(o, 1, false)) LAW(E05_left_pg2_1, left<Pg<2>>(o, 1, true), left<Pg<2>>(o, 1, false))
// the same for conserved states
template <class T> void consv(Out o, int d, bool code) { Flow<T> f; Conservative<typename T::Eq> c(f.eq), r(f.eq); AsCons(c) = AsCons(f.src); if (code) Solve()(f.eq, r, c, f.m, f.area, Direction(d)); else { f.bracket(d); f.expect(d); AsCons(r) = AsCons(f.res); } w::put(o, r); }
LAW(E05_pg1_conserved, consv<Pg<1>>(o, 0, true), consv<Pg<1>>(o, 0, false)) LAW(E05_pg3_conserved, consv<Pg<3>>(o, 1, true), consv<Pg<3>>(o, 1, false))
LAW(E05_left_mix2_0, left<Mi<2>>(o, 0, true), left<Mi<2>>(o, 0, false))
