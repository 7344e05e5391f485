// SOURCES: src/equations/PerfectGas.cpp src/equations/ShallowWater.cpp src/equations/Advection.cpp src/equations/Burgers.cpp
#include "pg.hpp"
#include "flux_laws.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"

// ------------------------------------------------ an uninterpreted base flux
struct Cat { double h = 0; void put(double x) { h = vg_uf2(1, h, x); } };
template <class X> void cat_m(Cat& c, const X& x) { if constexpr (std::is_arithmetic_v<X>) c.put(x); else for (int i = 0; i < x.size(); ++i) c.put(x[i]); }
template <class X> void cat_l(Cat& c, const X& x, int l) { if constexpr (X::RowsAtCompileTime == 1) c.put(x(l)); else for (int i = 0; i < x.rows(); ++i) c.put(x(i, l)); }
template <class S, std::size_t... I> void cat(Cat& c, const S& s, std::index_sequence<I...>) { (cat_m(c, s.*std::get<I>(S::Traits::pointers_to_member)), ...); }
template <class S, std::size_t... I> void catl(Cat& c, const S& s, int l, std::index_sequence<I...>) { (cat_l(c, s.*std::get<I>(S::Traits::pointers_to_member), l), ...); }
struct Set { double h; int k = 10; double next() { return vg_uf1(k++, h); } };
template <class X> void set_m(X& x, Set& s) { if constexpr (std::is_arithmetic_v<X>) x = s.next(); else for (int i = 0; i < x.size(); ++i) x[i] = s.next(); }
template <class X> void set_l(X& x, Set& s, int l) { if constexpr (X::RowsAtCompileTime == 1) x(l) = s.next(); else for (int i = 0; i < x.rows(); ++i) x(i, l) = s.next(); }
template <class S, std::size_t... I> void set(S& q, Set s, std::index_sequence<I...>) { (set_m(q.*std::get<I>(S::Traits::pointers_to_member), s), ...); }
template <class S, std::size_t... I> void setl(S& q, Set s, int l, std::index_sequence<I...>) { (set_l(q.*std::get<I>(S::Traits::pointers_to_member), s, l), ...); }

template <class EqT> struct UfFlux {
  using Equation = EqT;
  using Complete = ::fub::Complete<EqT>;
  using Conservative = ::fub::Conservative<EqT>;
  using CompleteArray = ::fub::CompleteArray<EqT>;
  using ConservativeArray = ::fub::ConservativeArray<EqT>;
  UfFlux(const EqT&) {}
  static constexpr int GetStencilWidth() { return 1; }
  static double hash(span<const Complete, 2> q, double dt, double dx, Direction d) {
    Cat c; cat(c, q[0], w::members<Complete>()); cat(c, q[1], w::members<Complete>()); c.put(dt); c.put(dx); c.put(int(d)); return c.h; }
  static double hash(span<const CompleteArray, 2> q, double dt, double dx, Direction d, int l) {
    Cat c; catl(c, q[0], l, w::members<CompleteArray>()); catl(c, q[1], l, w::members<CompleteArray>()); c.put(dt); c.put(dx); c.put(int(d)); return c.h; }
  void ComputeNumericFlux(Conservative& f, span<const Complete, 2> q, Duration dt, double dx, Direction d) { set(f, Set{hash(q, dt.count(), dx, d)}, w::members<Conservative>()); }
  void ComputeNumericFlux(ConservativeArray& f, span<const CompleteArray, 2> q, Duration dt, double dx, Direction d) {
    for (int l = 0; l < 8; ++l) setl(f, Set{hash(q, dt.count(), dx, d, l)}, l, w::members<ConservativeArray>()); }
  void ComputeNumericFlux(ConservativeArray& f, Array1d ff, span<const CompleteArray, 2> q, span<const Array1d, 2>, Duration dt, double dx, Direction d) {
    for (int l = 0; l < 8; ++l) if (ff[l] > 0.0) setl(f, Set{hash(q, dt.count(), dx, d, l)}, l, w::members<ConservativeArray>()); else w::zero_lane(f, l); }
  double ComputeStableDt(span<const Complete, 2> q, double dx, Direction d) { return vg_uf1(5, hash(q, 0, dx, d)); }
  Array1d ComputeStableDt(span<const CompleteArray, 2> q, double dx, Direction d) { Array1d r; for (int l = 0; l < 8; ++l) r[l] = vg_uf1(5, hash(q, 0, dx, d, l)); return r; }
  Array1d ComputeStableDt(span<const CompleteArray, 2> q, Array1d ff, span<const Array1d, 2> vf, double dx, Direction d) {
    Array1d r; for (int l = 0; l < 8; ++l) { r[l] = vg_uf1(5, hash(q, 0, dx, d, l)); if (!(ff[l] > 0.0 && vf[0][l] > 0.0 && vf[1][l] > 0.0)) r[l] = 1e300; } return r; }
};

// ------------------------------------------------------------- the equations
template <int R> struct PgE {
  using Eq = PerfectGas<R>;
  static Eq eq() { return Gas<R>(); }
  static Complete<Eq> eos(const Eq& e, int k) { return Eos<R>(e, k); }
};
struct SwE {
  using Eq = ShallowWater;
  static Eq eq() { Eq e; e.gravity_ = vg_pos(9000); return e; }
  static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.height = vg_pos(k); q.momentum[0] = q.height * vg_in(k + 1); q.momentum[1] = q.height * vg_in(k + 2); return q; }
};
struct AdE { using Eq = Advection2d; static Eq eq() { return Eq({vg_in(9000), vg_in(9001)}); } static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.mass = vg_in(k); return q; } };
struct BuE { using Eq = Burgers1d; static Eq eq() { return Eq(); } static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.u = vg_in(k); return q; } };

template <class E, class L> struct Mh : E { using Eq = typename E::Eq; using M = MusclHancock<Eq, UfFlux<Eq>, L>; };
template <class E, class G> struct Mc : E { using Eq = typename E::Eq; using M = MusclHancock2<Eq, ConservativeGradient<Eq, CentralDifferenceGradient<G>>, ConservativeReconstruction<Eq>, UfFlux<Eq>>; };
template <class E, class G> struct Mp : E { using Eq = typename E::Eq; using M = MusclHancock2<Eq, PrimitiveGradient<Eq, CentralDifferenceGradient<G>>, PrimitiveReconstruction<Eq>, UfFlux<Eq>>; };
template <class E, class G> struct Mk : E { using Eq = typename E::Eq; using M = MusclHancock2<Eq, CharacteristicsGradient<Eq, CentralDifferenceGradient<G>>, CharacteristicsReconstruction<Eq>, UfFlux<Eq>>; };

template <class T> std::array<CompT<T>, 4> Sten(const EqOf<T>& eq) { return {T::eos(eq, 0), T::eos(eq, 50), T::eos(eq, 100), T::eos(eq, 150)}; }
inline Duration DT() { return Duration(vg_pos(9100)); }
inline double DX() { return vg_pos(9101); }
template <class T> void f_s(Out o, Direction d) { auto eq = T::eq(); typename T::M m(eq); ConsT<T> f(eq); auto st = Sten<T>(eq); m.ComputeNumericFlux(f, st, DT(), DX(), d); w::put(o, f); }
template <class T> void f_a(Out o, Direction d, int l) {
  auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); auto st = Sten<T>(eq);
  std::array<CompA<T>, 4> sa{Lanes<T>(eq, st[0], l, 0), Lanes<T>(eq, st[1], l, 1000), Lanes<T>(eq, st[2], l, 2000), Lanes<T>(eq, st[3], l, 3000)};
  m.ComputeNumericFlux(f, sa, DT(), DX(), d); w::put_lane(o, f, l); }
// bits: lanes in use; lane l has volume fractions > 0 in the stencil cells of `cells`
template <class T> void f_m(Out o, Direction d, int l, unsigned bits, unsigned cells) {
  auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); auto st = Sten<T>(eq);
  std::array<CompA<T>, 4> sa{LanesMasked<T>(eq, st[0], l, bits), LanesMasked<T>(eq, st[1], l, bits), LanesMasked<T>(eq, st[2], l, bits), LanesMasked<T>(eq, st[3], l, bits)};
  Array1d ff = Fractions(l, bits);
  std::array<Array1d, 4> vf{ff, ff, ff, ff};
  for (int i = 0; i < 4; ++i) if (!((cells >> i) & 1u)) { vf[i][l] = 0.0; w::zero_lane(sa[i], l); }
  m.ComputeNumericFlux(f, ff, sa, vf, DT(), DX(), d); w::put_lane(o, f, l); }
template <class T> void f_off(Out o, Direction d, int l, unsigned bits) {
  auto eq = T::eq(); typename T::M m(eq); ConsA<T> f(eq); auto st = Sten<T>(eq); unsigned on = bits & ~(1u << l); int first = 0; while (on && !((on >> first) & 1u)) ++first;
  if (!on) first = -1;
  std::array<CompA<T>, 4> sa{LanesMasked<T>(eq, st[0], first, on), LanesMasked<T>(eq, st[1], first, on), LanesMasked<T>(eq, st[2], first, on), LanesMasked<T>(eq, st[3], first, on)};
  Array1d ff = Fractions(first, on);
  std::array<Array1d, 4> vf{ff, ff, ff, ff};
  m.ComputeNumericFlux(f, ff, sa, vf, DT(), DX(), d); w::put_lane(o, f, l); }
template <class T> void f_zero(Out o) { auto eq = T::eq(); ConsT<T> f(eq); w::zero(f); w::put(o, f); }
template <class T> void t_s(Out o, Direction d) { auto eq = T::eq(); typename T::M m(eq); auto st = Sten<T>(eq); o.put(m.ComputeStableDt(st, DX(), d)); }
template <class T> void t_spec(Out o, Direction d) { auto eq = T::eq(); std::array<CompT<T>, 2> st{T::eos(eq, 50), T::eos(eq, 100)}; o.put(UfFlux<EqOf<T>>(eq).ComputeStableDt(st, DX(), d)); }
template <class T> void t_a(Out o, Direction d, int l) { auto eq = T::eq(); typename T::M m(eq); auto st = Sten<T>(eq);
  std::array<CompA<T>, 4> sa{Lanes<T>(eq, st[0], l, 0), Lanes<T>(eq, st[1], l, 1000), Lanes<T>(eq, st[2], l, 2000), Lanes<T>(eq, st[3], l, 3000)}; o.put(m.ComputeStableDt(sa, DX(), d)[l]); }
template <class T> void t_m(Out o, Direction d, int l, unsigned bits) { auto eq = T::eq(); typename T::M m(eq); auto st = Sten<T>(eq);
  std::array<CompA<T>, 4> sa{LanesMasked<T>(eq, st[0], l, bits), LanesMasked<T>(eq, st[1], l, bits), LanesMasked<T>(eq, st[2], l, bits), LanesMasked<T>(eq, st[3], l, bits)};
  Array1d ff = Fractions(l, bits); std::array<Array1d, 4> vf{ff, ff, ff, ff}; vf[0][l] = vf[3][l] = 0.0; o.put(m.ComputeStableDt(sa, ff, vf, DX(), d)[l]); }
// constant data: the base flux of the state itself
template <class T> void k_s(Out o, Direction d) { auto eq = T::eq(); typename T::M m(eq); ConsT<T> f(eq); auto q = T::eos(eq, 0); std::array<CompT<T>, 4> st{q, q, q, q}; m.ComputeNumericFlux(f, st, DT(), DX(), d); w::put(o, f); }
template <class T> void k_spec(Out o, Direction d) { auto eq = T::eq(); ConsT<T> f(eq); auto q = T::eos(eq, 0); std::array<CompT<T>, 2> st{q, q}; UfFlux<EqOf<T>>(eq).ComputeNumericFlux(f, st, DT(), DX(), d); w::put(o, f); }

// --------------------------------------- textbook: reconstruct, then base flux
enum class Lim { None, Zero, Min, Lee };
inline double slope(Lim k, double a, double b) { // the two one-sided differences
  switch (k) {
  case Lim::None: return (a + b) / 2;
  case Lim::Zero: return 0.0;
  case Lim::Min: if (b > 0) { const double t = a < b ? a : b; return t > 0 ? t : 0.0; } else { const double t = a < b ? b : a; return t < 0 ? t : 0.0; }
  case Lim::Lee: { const double c = 2 * a * b; return c > 0 ? c / (a + b) : 0.0; }
  }
  return 0;
}
template <class C> void axpy_m(double& y, double a, const C& x) { y += a * x; }
template <class S, std::size_t... I, class F> void zip(F f, std::index_sequence<I...>, S& r, const S& a, const S& b, const S& c) {
  auto one = [&](auto& r, const auto& a, const auto& b, const auto& c) { if constexpr (std::is_arithmetic_v<std::decay_t<decltype(r)>>) f(r, a, b, c); else for (int i = 0; i < r.size(); ++i) f(r[i], a[i], b[i], c[i]); };
  (one(r.*std::get<I>(S::Traits::pointers_to_member), a.*std::get<I>(S::Traits::pointers_to_member), b.*std::get<I>(S::Traits::pointers_to_member), c.*std::get<I>(S::Traits::pointers_to_member)), ...);
}
template <class Eq> Conservative<Eq> cons(const Eq& eq, const Complete<Eq>& q) { Conservative<Eq> c(eq); AsCons(c) = AsCons(q); return c; }
template <class Eq, class F> Conservative<Eq> comb(const Eq& eq, F f, const Conservative<Eq>& a, const Conservative<Eq>& b, const Conservative<Eq>& c) { Conservative<Eq> r(eq); zip(f, w::members<Conservative<Eq>>(), r, a, b, c); return r; }
template <class Eq> Complete<Eq> complete(Eq& eq, const Conservative<Eq>& c) { Complete<Eq> q(eq); AsCons(q) = AsCons(c); CompleteFromCons(eq, q, q); return q; }
/// side +1: upper face, -1: lower face; s = undivided slope
template <class Eq> Complete<Eq> evolve(Eq& eq, const Complete<Eq>& q, const Conservative<Eq>& s, int side, Direction d) {
  auto u = cons(eq, q);
  auto lo = complete(eq, comb(eq, [](double& r, double u, double s, double) { r = u - s / 2; }, u, s, s));
  auto up = complete(eq, comb(eq, [](double& r, double u, double s, double) { r = u + s / 2; }, u, s, s));
  Conservative<Eq> fl(eq), fu(eq); Flux(eq, fl, lo, d); Flux(eq, fu, up, d);
  const double h = DT().count() / (2 * DX());
  return complete(eq, comb(eq, [h](double& r, double u, double a, double b) { r = u + h * (a - b); }, cons(eq, side > 0 ? up : lo), fl, fu));
}
template <class T> void base(Out o, const std::array<CompT<T>, 2>& r, Direction d) { auto eq = T::eq(); ConsT<T> f(eq); UfFlux<EqOf<T>>(eq).ComputeNumericFlux(f, r, DT(), DX(), d); w::put(o, f); }
template <class T> void c_spec(Out o, Direction d, Lim k, unsigned cells = 15u) {
  auto eq = T::eq(); auto st = Sten<T>(eq); ConsT<T> u[4] = {cons(eq, st[0]), cons(eq, st[1]), cons(eq, st[2]), cons(eq, st[3])};
  auto sl = [k](double& r, double a, double b, double c) { r = slope(k, b - a, c - b); };
  ConsT<T> a = comb(eq, sl, u[0], u[1], u[2]), b = comb(eq, sl, u[1], u[2], u[3]);
  if ((cells & 7u) != 7u) w::zero(a);
  if ((cells & 14u) != 14u) w::zero(b);
  base<T>(o, {evolve(eq, st[1], a, +1, d), evolve(eq, st[2], b, -1, d)}, d);
}
// MusclHancock2 limits by 0.5 phi(R) (sL + sR), R = sR/sL, zero at extrema
inline double phi_slope(Lim k, double a, double b) {
  if (a * b <= 0.0) return 0.0;
  const double R = b / a; double phi = 0;
  switch (k) {
  case Lim::None: phi = 1; break;
  case Lim::Zero: phi = 0; break;
  case Lim::Min: { const double p = 2 / (1 + R), q = R * p; phi = q < p ? q : p; } break;
  case Lim::Lee: phi = 4 * R / ((1 + R) * (1 + R)); break;
  }
  return phi * (a + b) / 2;
}
template <class T> void c2_spec(Out o, Direction d, Lim k, unsigned cells = 15u) {
  auto eq = T::eq(); auto st = Sten<T>(eq); ConsT<T> u[4] = {cons(eq, st[0]), cons(eq, st[1]), cons(eq, st[2]), cons(eq, st[3])}; const double dx = DX();
  auto sl = [k, dx](double& r, double a, double b, double c) { r = dx * phi_slope(k, (b - a) / dx, (c - b) / dx); };
  ConsT<T> a = comb(eq, sl, u[0], u[1], u[2]), b = comb(eq, sl, u[1], u[2], u[3]);
  if ((cells & 7u) != 7u) w::zero(a);
  if ((cells & 14u) != 14u) w::zero(b);
  base<T>(o, {evolve(eq, st[1], a, +1, d), evolve(eq, st[2], b, -1, d)}, d);
}
// primitive and characteristic reconstruction of the perfect gas
template <int R> struct W { double rho, u[3], p; };
template <int R> W<R> prim(const Complete<PerfectGas<R>>& q) { W<R> w{}; w.rho = q.density; for (int i = 0; i < R; ++i) w.u[i] = q.momentum[i] / q.density; w.p = q.pressure; return w; }
template <int R> Complete<PerfectGas<R>> comp(const PerfectGas<R>& eq, const W<R>& w) {
  Complete<PerfectGas<R>> q(eq); double k = 0; q.density = w.rho; for (int i = 0; i < R; ++i) { q.momentum[i] = w.rho * w.u[i]; k += w.u[i] * w.u[i]; }
  q.pressure = w.p; q.energy = w.p / (eq.gamma - 1) + w.rho * k / 2; q.speed_of_sound = std::sqrt(eq.gamma * w.p / w.rho); return q; }
template <int R> W<R> p_rec(const W<R>& w, const W<R>& g, double c, double dx, double dt, int n, int side) {
  // w + side dx/2 w_x - dt/2 A(w) w_x
  W<R> r{}; const double e = side * dx / 2, t = dt / 2;
  r.rho = w.rho + e * g.rho - t * (w.u[n] * g.rho + w.rho * g.u[n]);
  r.p = w.p + e * g.p - t * (w.u[n] * g.p + w.rho * c * c * g.u[n]);
  for (int i = 0; i < R; ++i) r.u[i] = w.u[i] + e * g.u[i] - t * (w.u[n] * g.u[i] + (i == n ? g.p / w.rho : 0.0));
  return r; }
template <int R> W<R> p_grad(Lim k, const W<R>& a, const W<R>& b, const W<R>& c, double dx) {
  W<R> g{}; auto s = [&](double x, double y, double z) { return phi_slope(k, (y - x) / dx, (z - y) / dx); };
  g.rho = s(a.rho, b.rho, c.rho); g.p = s(a.p, b.p, c.p); for (int i = 0; i < R; ++i) g.u[i] = s(a.u[i], b.u[i], c.u[i]); return g; }
template <int R> W<R> k_grad(Lim k, const W<R>& a, const W<R>& b, const W<R>& c, double cs, double dx, int n) {
  // limit the characteristic amplitudes p -+ rho c u, rho - p/c^2, tangential velocities; recombine
  W<R> g{}; const double rc = b.rho * cs, o = 1 / (cs * cs);
  auto amp = [&](const W<R>& l, const W<R>& r, double* w) { const double dp = (r.p - l.p) / dx, du = (r.u[n] - l.u[n]) / dx, dr = (r.rho - l.rho) / dx; w[0] = dp - rc * du; w[1] = dp + rc * du; w[2] = dr - o * dp; };
  double L[3], Rr[3], w[3]; amp(a, b, L); amp(b, c, Rr); for (int i = 0; i < 3; ++i) w[i] = phi_slope(k, L[i], Rr[i]);
  g.p = (w[0] + w[1]) / 2; g.u[n] = (w[1] - w[0]) / (2 * rc); g.rho = g.p * o + w[2];
  for (int i = 1; i < R; ++i) { const int t = (n + i) % R; g.u[t] = phi_slope(k, (b.u[t] - a.u[t]) / dx, (c.u[t] - b.u[t]) / dx); }
  return g; }
template <int R, class T> void p_spec(Out o, Direction d, Lim k, bool chr, unsigned cells = 15u) {
  auto eq = T::eq(); auto st = Sten<T>(eq); const double dx = DX(), dt = DT().count(); const int n = int(d);
  W<R> w[4] = {prim<R>(st[0]), prim<R>(st[1]), prim<R>(st[2]), prim<R>(st[3])};
  W<R> a, b;
  if (chr) { a = k_grad<R>(k, w[0], w[1], w[2], st[1].speed_of_sound, dx, n); b = k_grad<R>(k, w[1], w[2], w[3], st[2].speed_of_sound, dx, n); }
  else { a = p_grad<R>(k, w[0], w[1], w[2], dx); b = p_grad<R>(k, w[1], w[2], w[3], dx); }
  if ((cells & 7u) != 7u) a = W<R>{};
  if ((cells & 14u) != 14u) b = W<R>{};
  base<T>(o, {comp<R>(eq, p_rec<R>(w[1], a, st[1].speed_of_sound, dx, dt, n, +1)), comp<R>(eq, p_rec<R>(w[2], b, st[2].speed_of_sound, dx, dt, n, -1))}, d);
}
// the masked equation of state only accepts positive densities: assume that the reconstructed ones are
template <class T> void positive(Direction d, Lim k, unsigned cells) {
  auto eq = T::eq(); auto st = Sten<T>(eq); ConsT<T> u[4] = {cons(eq, st[0]), cons(eq, st[1]), cons(eq, st[2]), cons(eq, st[3])};
  for (int i = 1; i < 3; ++i) {
    ConsT<T> s = comb(eq, [k](double& r, double a, double b, double c) { r = slope(k, b - a, c - b); }, u[i - 1], u[i], u[i + 1]);
    if (((cells >> (i - 1)) & 7u) != 7u) continue;
    vg_assume_pos(u[i].density + s.density / 2); vg_assume_pos(u[i].density - s.density / 2); vg_assume_pos(evolve(eq, st[i], s, i == 1 ? 1 : -1, d).density);
  }
}
template <class T> void f_mp(Out o, Direction d, int l, unsigned bits, unsigned cells, Lim k) { positive<T>(d, k, cells); f_m<T>(o, d, l, bits, cells); }
#define SA(N, T, D, d, l)                                                      \
  LAW(M01_##N##_##d##_lane##l, f_s<T>(o, D), f_a<T>(o, D, l))                  \
  LAW(M04_##N##_##d##_dt, t_s<T>(o, D), t_spec<T>(o, D))                       \
  LAW(M04_##N##_##d##_dtlane##l, t_s<T>(o, D), t_a<T>(o, D, l))                \
  LAW(M02_##N##_##d##_const, k_s<T>(o, D), k_spec<T>(o, D))
#define SAM(N, T, D, d, l)                                                     \
  SA(N, T, D, d, l)                                                            \
  LAW(M01_##N##_##d##_covered##l, f_off<T>(o, D, l, 0x2cu), f_zero<T>(o))      \
  LAW(M01_##N##_##d##_allcovered##l, f_off<T>(o, D, l, 0u), f_zero<T>(o))      \
  LAW(M04_##N##_##d##_dtmask##l, t_s<T>(o, D), t_m<T>(o, D, l, 0x2cu))
// covered cells switch the reconstruction of the cells next to them off
#define CUT(N, T, D, d, l, FM, SPEC)                                           \
  LAW(M01_##N##_##d##_mask##l, f_s<T>(o, D), FM(15u))                          \
  LAW(M03_##N##_##d##_cutleft, FM(14u), SPEC(14u))                             \
  LAW(M03_##N##_##d##_cutright, FM(7u), SPEC(7u))                              \
  LAW(M03_##N##_##d##_cutboth, FM(6u), SPEC(6u))
#define MH(N, E, L, K, D, d, l)                                                \
  using T_##N##_##d = Mh<E, L>;                                                \
  SAM(N, T_##N##_##d, D, d, l)                                                 \
  LAW(M03_##N##_##d##_text, f_s<T_##N##_##d>(o, D), c_spec<T_##N##_##d>(o, D, K))  \
  inline void sp_##N##_##d(Out o, unsigned c) { c_spec<T_##N##_##d>(o, D, K, c); } \
  CUT(N, T_##N##_##d, D, d, l, [&](unsigned c) { f_mp<T_##N##_##d>(o, D, l, 0x2cu, c, K); }, [&](unsigned c) { sp_##N##_##d(o, c); })
MH(pg1none, PgE<1>, NoLimiter, Lim::None, X, x, 0)
MH(pg1zero, PgE<1>, NoGradient, Lim::Zero, X, x, 2)
MH(pg1min, PgE<1>, MinMod, Lim::Min, X, x, 7)
MH(pg1lee, PgE<1>, VanLeer, Lim::Lee, X, x, 1)
MH(pg2min, PgE<2>, MinMod, Lim::Min, X, x, 3)
MH(pg2lee, PgE<2>, VanLeer, Lim::Lee, Y, y, 6)
MH(pg3lee, PgE<3>, VanLeer, Lim::Lee, X, x, 1)
MH(pg3min, PgE<3>, MinMod, Lim::Min, Y, y, 5)
MH(pg3none, PgE<3>, NoLimiter, Lim::None, Z, z, 4)
#define M2(N, E, TT, L, K, D, d, l, SPEC)                                      \
  using T_##N##_##d = TT<E, L>;                                                \
  SAM(N, T_##N##_##d, D, d, l)                                                 \
  LAW(M03_##N##_##d##_text, f_s<T_##N##_##d>(o, D), SPEC)
#define M2C(N, E, L, K, D, d, l)                                               \
  M2(N, E, Mc, L, K, D, d, l, c2_spec<T_##N##_##d>(o, D, K))                   \
  inline void sp_##N##_##d(Out o, unsigned c) { c2_spec<T_##N##_##d>(o, D, K, c); } \
  CUT(N, T_##N##_##d, D, d, l, [&](unsigned c) { f_m<T_##N##_##d>(o, D, l, 0x2cu, c); }, [&](unsigned c) { sp_##N##_##d(o, c); })
#define M2PM(N, R, K, D, d, l, CH)                                              \
  inline void sp_##N##_##d(Out o, unsigned c) { p_spec<R, T_##N##_##d>(o, D, K, CH, c); } \
  CUT(N, T_##N##_##d, D, d, l, [&](unsigned c) { f_m<T_##N##_##d>(o, D, l, 0x2cu, c); }, [&](unsigned c) { sp_##N##_##d(o, c); })
#define M2P(N, R, L, K, D, d, l) M2(N, PgE<R>, Mp, L, K, D, d, l, (p_spec<R, T_##N##_##d>(o, D, K, false))) M2PM(N, R, K, D, d, l, false)
#define M2K(N, R, L, K, D, d, l) M2(N, PgE<R>, Mk, L, K, D, d, l, (p_spec<R, T_##N##_##d>(o, D, K, true))) M2PM(N, R, K, D, d, l, true)
M2C(c1none, PgE<1>, NoLimiter2, Lim::None, X, x, 0)
M2C(c1up, PgE<1>, UpwindLimiter, Lim::Zero, X, x, 2)
M2C(c1min, PgE<1>, MinModLimiter, Lim::Min, X, x, 3)
M2C(c1lee, PgE<1>, VanLeerLimiter, Lim::Lee, X, x, 6)
M2C(c2min, PgE<2>, MinModLimiter, Lim::Min, Y, y, 7)
M2C(c3lee, PgE<3>, VanLeerLimiter, Lim::Lee, Y, y, 1)
M2C(c3min, PgE<3>, MinModLimiter, Lim::Min, Z, z, 4)
M2P(p1none, 1, NoLimiter2, Lim::None, X, x, 0)
M2P(p1min, 1, MinModLimiter, Lim::Min, X, x, 3)
M2P(p2lee, 2, VanLeerLimiter, Lim::Lee, Y, y, 6)
M2P(p2min, 2, MinModLimiter, Lim::Min, X, x, 1)
M2P(p3min, 3, MinModLimiter, Lim::Min, Z, z, 7)
M2P(p3lee, 3, VanLeerLimiter, Lim::Lee, Y, y, 5)
M2K(k1none, 1, NoLimiter2, Lim::None, X, x, 0)
M2K(k1min, 1, MinModLimiter, Lim::Min, X, x, 3)
M2K(k2lee, 2, VanLeerLimiter, Lim::Lee, Y, y, 6)
M2K(k2min, 2, MinModLimiter, Lim::Min, X, x, 1)
M2K(k3min, 3, MinModLimiter, Lim::Min, Z, z, 7)
M2K(k3lee, 3, VanLeerLimiter, Lim::Lee, Y, y, 5)
#define MHS(N, E, L, K, D, d, l)                                               \
  using T_##N##_##d = Mh<E, L>;                                                \
  SA(N, T_##N##_##d, D, d, l)                                                  \
  LAW(M03_##N##_##d##_text, f_s<T_##N##_##d>(o, D), c_spec<T_##N##_##d>(o, D, K))
// the same generic method for the other equations
MHS(swlee, SwE, VanLeer, Lim::Lee, X, x, 3)
MHS(swmin, SwE, MinMod, Lim::Min, Y, y, 6)
MHS(admin, AdE, MinMod, Lim::Min, X, x, 0)
MHS(adlee, AdE, VanLeer, Lim::Lee, Y, y, 7)
MHS(bumin, BuE, MinMod, Lim::Min, X, x, 1)
MHS(bulee, BuE, VanLeer, Lim::Lee, X, x, 4)

// ------------------------------ R08: what the object has computed before leaves no trace
#define AG(N, D, d, l) AGAIN4_S(N, T_##N##_##d, true, D, d, l) AGAIN4_A(N, T_##N##_##d, true, true, D, d, l) AGAIN4_M(N, T_##N##_##d, true, D, d, l)
#define AGS(N, D, d, l) AGAIN4_S(N, T_##N##_##d, false, D, d, l) AGAIN4_A(N, T_##N##_##d, true, false, D, d, l)
AG(pg1min, X, x, 2) AG(pg2lee, Y, y, 5) AG(pg3lee, X, x, 3)
AG(c1lee, X, x, 2) AG(c2min, Y, y, 5) AG(c3min, Z, z, 3)
AG(p1min, X, x, 2) AG(p2lee, Y, y, 5) AG(p3min, Z, z, 3)
AG(k1min, X, x, 2) AG(k2lee, Y, y, 5) AG(k3min, Z, z, 3)
AGS(swlee, X, x, 2) AGS(admin, X, x, 5) AGS(bumin, X, x, 3)
