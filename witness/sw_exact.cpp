// SOURCES: src/equations/ShallowWater.cpp
#include "flux_laws.hpp"
#include "fub/NewtonIteration.hpp"
#include "fub/equations/ShallowWater.hpp"
constexpr Direction X = Direction::X, Y = Direction::Y;
struct Sw {
  using Eq = ShallowWater;
  static Eq eq() { Eq e; e.gravity_ = vg_pos(9000); return e; }
  static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.height = vg_pos(k); q.momentum[0] = q.height * vg_in(k + 1); q.momentum[1] = q.height * vg_in(k + 2); return q; }
  template <class S> static S flip(S q, Direction d) { q.momentum[int(d)] = -q.momentum[int(d)]; return q; }
  template <class S> static S mirror(const Eq&, S q, Direction d) { return flip(q, d); }
  template <class S> static S mirror_cons(const Eq&, S q, Direction d) { return flip(q, d); }
  template <class S> static S shift(const Eq&, S q) { S r(q); r.momentum[0] = q.momentum[1]; r.momentum[1] = q.momentum[0]; return r; }
  template <class S> static S shift_cons(const Eq& e, S q) { return shift(e, q); }
  static auto method(const Eq& e) { return Godunov<Eq>(e); }
};
using L = FluxLaws<Sw>;
#define B vg_loop_bound(1)
#define SW(D, d, l)                                                            \
  LAW(R01_swgodunov_consistent_##d, B; L::cons_code(o, D), L::cons_spec(o, D)) \
  LAW(R02_swgodunov_flux_##d##_lane##l, B; L::num_s(o, D), B; L::num_a(o, D, l)) \
  LAW(R02_swgodunov_dt_##d##_lane##l, B; L::dt_s(o, D), B; L::dt_a(o, D, l))       \
  LAW(R03_swexact_starmirror_##d, B; o.put(mstar(D)), B; o.put(star(D).height))   \
  LAW(R03_swgodunov_equivariant_##d, B; L::rot_code(o, D), B; L::rot_spec(o, D))  \
  LAW(R04_swexact_star_##d, B; star_code(o, D), B; star_spec(o, D))               \
  LAW(R04_swexact_solve_##d, B; solve_code(o, D), B; solve_spec(o, D))            \
  LAW(R04_swexact_signals_##d, B; sig_code(o, D), B; sig_spec(o, D))             \
  LAW(R04_swgodunov_flux_##d, B; L::num_s(o, D), B; gflux(o, D))                  \
  LAW(R05_swgodunov_dt_##d, B; L::dt_s(o, D), B; dt_spec(o, D))
struct S1 { double g, h, u, v, c; };
inline S1 side1(int k, int n) { S1 s; s.g = vg_pos(9000); s.h = vg_pos(k); s.u = vg_in(k + 1 + n); s.v = vg_in(k + 1 + (1 - n)); s.c = std::sqrt(s.g * s.h); return s; }
// Toro, Shock capturing methods for free surface shallow flows: wave functions
inline auto W(const S1& s) { return [=](double h) { return h < s.h ? 2.0 * (std::sqrt(s.g * h) - s.c) : (h - s.h) * std::sqrt(0.5 * s.g * (h + s.h) / (h * s.h)); }; }
inline auto dW(const S1& s) { return [=](double h) { if (h < s.h) return s.g / std::sqrt(s.g * h); const double q = std::sqrt(0.5 * s.g * (1.0 / h + 1.0 / s.h)); return q - s.g * (h - s.h) / (4.0 * h * h * q); }; }
inline auto star(Direction d) { Sw::Eq e = Sw::eq(); ExactRiemannSolver<ShallowWater> s(e); return s.ComputeMiddleState(Sw::eos(e, 0), Sw::eos(e, 50), d); }
inline double mstar(Direction d) { Sw::Eq e = Sw::eq(); ExactRiemannSolver<ShallowWater> s(e); return s.ComputeMiddleState(Sw::mirror(e, Sw::eos(e, 50), d), Sw::mirror(e, Sw::eos(e, 0), d), d).height; }
inline void star_code(Out o, Direction d) { auto q = star(d); o.put(q.height); o.put(q.momentum[int(d)]); }
inline void star_spec(Out o, Direction d) { S1 l = side1(0, int(d)), r = side1(50, int(d)); auto wl = W(l); auto wr = W(r); auto dl = dW(l); auto dr = dW(r);
  const double h = NewtonIteration([&](double x) { return wl(x) + wr(x) + r.u - l.u; }, [&](double x) { return dl(x) + dr(x); }, 0.5 * (l.h + r.h));
  o.put(h); o.put(h * (l.u - wl(h))); }
inline auto solve(Direction d) { Sw::Eq e = Sw::eq(); ExactRiemannSolver<ShallowWater> s(e); Complete<ShallowWater> q; s.SolveRiemannProblem(q, Sw::eos(e, 0), Sw::eos(e, 50), d); return q; }
inline void solve_code(Out o, Direction d) { w::put(o, solve(d)); }
inline void solve_spec(Out o, Direction d) {
  const int n = int(d); auto m = star(d); const double hM = m.height, uM = m.momentum[n] / hM, cM = std::sqrt(vg_pos(9000) * hM);
  const bool left = uM >= 0; S1 s = side1(left ? 0 : 50, n); const double sg = left ? 1.0 : -1.0; double h, u;
  if (hM > s.h) { const double S = (hM * uM - s.h * s.u) / (hM - s.h); const bool out = left ? S > 0 : S < 0; h = out ? s.h : hM; u = out ? s.u : uM; }
  else if (left ? s.u - s.c > 0 : s.u + s.c < 0) { h = s.h; u = s.u; }
  else if (left ? uM - cM < 0 : uM + cM > 0) { h = hM; u = uM; }
  else { const double a = s.u + sg * 2.0 * s.c; h = a * a / (9.0 * s.g); u = s.u + sg * 2.0 * (s.c - std::sqrt(s.g * h)); }
  Complete<ShallowWater> q; q.height = h; q.momentum[n] = h * u; q.momentum[1 - n] = h * s.v; w::put(o, q);
}
inline auto sig(Direction d) { Sw::Eq e = Sw::eq(); ExactRiemannSolver<ShallowWater> s(e); return s.ComputeSignals(Sw::eos(e, 0), Sw::eos(e, 50), d); }
inline void sig_code(Out o, Direction d) { auto r = sig(d); o.put(r[0]); o.put(r[1]); }
inline void sig_spec(Out o, Direction d) { auto m = star(d); const int n = int(d); const double hM = m.height, uM = m.momentum[n] / hM; for (int k = 0; k < 2; ++k) { S1 s = side1(50 * k, n); const double sg = k ? 1.0 : -1.0; o.put(hM <= s.h ? s.u + sg * s.c : (hM * uM - s.h * s.u) / (hM - s.h)); } }
inline void gflux(Out o, Direction d) { auto q = solve(d); Sw::Eq e = Sw::eq(); Conservative<ShallowWater> f; Flux(e, f, q, d); w::put(o, f); }
inline void dt_spec(Out o, Direction d) { auto r = sig(d); o.put(vg_pos(9101) / std::max(std::abs(r[0]), std::abs(r[1]))); }
SW(X, x, 3) SW(Y, y, 0)
