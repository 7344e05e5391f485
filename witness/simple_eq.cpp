// SOURCES: src/equations/ShallowWater.cpp src/equations/Advection.cpp src/equations/Burgers.cpp
#include "flux_laws.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
constexpr Direction X = Direction::X, Y = Direction::Y;

struct Sw {
  using Eq = ShallowWater;
  static Eq eq() { Eq e; e.gravity_ = vg_pos(9000); return e; }
  static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.height = vg_pos(k); q.momentum[0] = q.height * vg_in(k + 1); q.momentum[1] = q.height * vg_in(k + 2); return q; }
  template <class S> static S flip(S q, Direction d) { q.momentum[int(d)] = -q.momentum[int(d)]; return q; }
  template <class S> static S mirror(const Eq&, S q, Direction d) { return flip(q, d); }
  template <class S> static S mirror_cons(const Eq&, S q, Direction d) { return flip(q, d); }
  template <class S> static S shift(const Eq&, S q) { S r(q); r.momentum[0] = q.momentum[1]; r.momentum[1] = q.momentum[0]; return r; }
  template <class S> static S shift_cons(const Eq& e, S q) { return shift(e, q); }
};
struct SwHll : Sw { static auto method(const Eq& e) { return Hll<Eq, ShallowWaterSignalVelocities>(e); } };
struct Adv {
  using Eq = Advection2d;
  static Eq eq() { return Eq({vg_in(9000), vg_in(9001)}); }
  static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.mass = vg_in(k); return q; }
  template <class S> static S shift(const Eq&, S q) { return q; }
  template <class S> static S shift_cons(const Eq&, S q) { return q; }
  static auto method(const Eq& e) { return Godunov<Eq>(e); }
};
struct Bu {
  using Eq = Burgers1d;
  static Eq eq() { return Eq(); }
  static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.u = vg_in(k); return q; }
  template <class S> static S mirror(const Eq&, S q, Direction) { q.u = -q.u; return q; }
  template <class S> static S mirror_cons(const Eq&, S q, Direction) { q.u = -q.u; return q; }
  static auto method(const Eq& e) { return Godunov<Eq>(e); }
};
// -------------------------------------------------------- physical fluxes
template <class T> void pf_s(Out o, Direction d) { auto eq = T::eq(); Conservative<typename T::Eq> f; auto q = T::eos(eq, 0); Flux(eq, f, q, d); w::put(o, f); }
template <class T> void pf_a(Out o, Direction d, int l) { auto eq = T::eq(); ConservativeArray<typename T::Eq> f; auto q = Lanes<T>(eq, T::eos(eq, 0), l, 0); Flux(eq, f, q, d); w::put_lane(o, f, l); }
inline void sw_spec(Out o, Direction d) { const double g = vg_pos(9000), h = vg_pos(0), u[2] = {vg_in(1), vg_in(2)}; const double un = u[int(d)]; o.put(h * un); for (int k = 0; k < 2; ++k) o.put(h * un * u[k] + (k == int(d) ? 0.5 * g * h * h : 0.0)); }
inline void adv_spec(Out o, Direction d) { o.put(vg_in(9000 + int(d)) * vg_in(0)); }
inline void bu_spec(Out o) { o.put(vg_in(0) * vg_in(0) / 2); }
LAW(E03_sw_flux_x, pf_s<Sw>(o, X), sw_spec(o, X))
LAW(E03_sw_flux_y, pf_s<Sw>(o, Y), sw_spec(o, Y))
LAW(E03_adv_flux_x, pf_s<Adv>(o, X), adv_spec(o, X))
LAW(E03_adv_flux_y, pf_s<Adv>(o, Y), adv_spec(o, Y))
LAW(E03_burgers_flux, pf_s<Bu>(o, X), bu_spec(o))
LAW(E01_sw_flux_x, pf_s<Sw>(o, X), pf_a<Sw>(o, X, 1))
LAW(E01_sw_flux_y, pf_s<Sw>(o, Y), pf_a<Sw>(o, Y, 6))
LAW(E01_adv_flux_x, pf_s<Adv>(o, X), pf_a<Adv>(o, X, 3))
LAW(E01_adv_flux_y, pf_s<Adv>(o, Y), pf_a<Adv>(o, Y, 7))
LAW(E01_burgers_flux, pf_s<Bu>(o, X), pf_a<Bu>(o, X, 0))
// -------------------------------------------------------- numerical fluxes
FLUX_SAV(swhll, SwHll, X, x, 0, 0) FLUX_SAV(swhll, SwHll, Y, y, 5, 0)
FLUX_SYM(swhll, SwHll, X, x) FLUX_SYM(swhll, SwHll, Y, y)
FLUX_ROT(swhll, SwHll, X, x) FLUX_ROT(swhll, SwHll, Y, y)
FLUX_SAV(adv, Adv, X, x, 0, 0) FLUX_SAV(adv, Adv, Y, y, 5, 0)
LAW(R01_adv_consistent_x, FluxLaws<Adv>::cons_code(o, X), FluxLaws<Adv>::cons_spec(o, X))
LAW(R01_adv_consistent_y, FluxLaws<Adv>::cons_code(o, Y), FluxLaws<Adv>::cons_spec(o, Y))
inline void adv_up(Out o, Direction d) { const double a = vg_in(9000 + int(d)); o.put(a > 0 ? a * vg_in(0) : a * vg_in(50)); }
inline void adv_dt(Out o, Direction d) { const double a = vg_in(9000 + int(d)); o.put(vg_pos(9101) / std::abs(a)); }
LAW(R04_adv_upwind_x, FluxLaws<Adv>::num_s(o, X), adv_up(o, X))
LAW(R04_adv_upwind_y, FluxLaws<Adv>::num_s(o, Y), adv_up(o, Y))
LAW(R05_adv_dt_x, FluxLaws<Adv>::dt_s(o, X), adv_dt(o, X))
LAW(R05_adv_dt_y, FluxLaws<Adv>::dt_s(o, Y), adv_dt(o, Y))
FLUX_SAV(burgers, Bu, X, x, 0, 0) FLUX_SAV(burgers, Bu, X, xx, 5, 0)
inline void bu_c(Out o) { Bu::Eq e; auto q = Bu::eos(e, 0); w::put(o, FluxLaws<Bu>::flux(e, q, q, X)); }
inline void bu_cs(Out o) { o.put(0.5 * vg_in(0) * vg_in(0)); }
LAW(R01_burgers_consistent, bu_c(o), bu_cs(o))
// the flux of a convex scalar law is even
inline void bu_m(Out o) { Bu::Eq e; w::put(o, FluxLaws<Bu>::flux(e, Bu::mirror(e, Bu::eos(e, 50), X), Bu::mirror(e, Bu::eos(e, 0), X), X)); }
inline void bu_o(Out o) { Bu::Eq e; w::put(o, FluxLaws<Bu>::flux(e, Bu::eos(e, 0), Bu::eos(e, 50), X)); }
LAW(R03_burgers_mirror, bu_m(o), bu_o(o))
// Godunov's flux: min over [l,r] if l<=r, max over [r,l] otherwise, of u^2/2
inline void bu_god(Out o) { const double l = vg_in(0), r = vg_in(50), fl = 0.5 * l * l, fr = 0.5 * r * r; double f; if (l <= r) f = (l > 0) ? fl : (r < 0 ? fr : 0.0); else f = (l + r > 0) ? fl : fr; o.put(f); }
LAW(R04_burgers_godunov, bu_o(o), bu_god(o))
inline void bu_dt(Out o) { const double l = vg_in(0), r = vg_in(50); double s; if (r < l) s = std::abs(0.5 * (l + r)); else s = std::max(std::abs(l), std::abs(r)); o.put(vg_pos(9101) / s); }
LAW(R05_burgers_dt, FluxLaws<Bu>::dt_s(o, X), bu_dt(o))
// HLL for shallow water
inline void sw_hll(Out o, Direction d) {
  const double g = vg_pos(9000); const int n = int(d); double h[2], u[2], F[2][3], U[2][3]; double sl = 0, sr = 0;
  for (int s = 0; s < 2; ++s) { h[s] = vg_pos(50 * s); const double v[2] = {vg_in(50 * s + 1), vg_in(50 * s + 2)}; u[s] = v[n]; U[s][0] = h[s]; F[s][0] = h[s] * v[n];
    for (int k = 0; k < 2; ++k) { U[s][1 + k] = h[s] * v[k]; F[s][1 + k] = h[s] * v[k] * v[n] + (k == n ? 0.5 * g * h[s] * h[s] : 0.0); }
    const double c = std::sqrt(g * h[s]); sl = std::min(sl, u[s] - c); sr = std::max(sr, u[s] + c); }
  for (int k = 0; k < 3; ++k) o.put((sr * F[0][k] - sl * F[1][k] + sl * sr * (U[1][k] - U[0][k])) / (sr - sl));
}
LAW(R04_sw_hll_x, FluxLaws<SwHll>::num_s(o, X), sw_hll(o, X))
LAW(R04_sw_hll_y, FluxLaws<SwHll>::num_s(o, Y), sw_hll(o, Y))
inline void sw_dt(Out o, Direction d) { const double g = vg_pos(9000); double m = 0; for (int s = 0; s < 2; ++s) { const double u = vg_in(50 * s + 1 + int(d)), c = std::sqrt(g * vg_pos(50 * s)); m = std::max(m, std::max(std::abs(std::min(0.0, u - c)), std::abs(std::max(0.0, u + c)))); } o.put(vg_pos(9101) / m); }
LAW(R05_sw_dt_x, FluxLaws<SwHll>::dt_s(o, X), sw_dt(o, X))
LAW(R05_sw_dt_y, FluxLaws<SwHll>::dt_s(o, Y), sw_dt(o, Y))
// ------------------------------ R08: what the object has computed before leaves no trace
FLUX_AGAIN(swhll, SwHll, X, x, 0) FLUX_AGAIN(swhll, SwHll, Y, y, 5) FLUX_AGAIN(adv, Adv, X, x, 0) FLUX_AGAIN(adv, Adv, Y, y, 5) FLUX_AGAIN(burgers, Bu, X, x, 3)
