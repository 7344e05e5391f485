// SOURCES: src/equations/PerfectGas.cpp
// DEFS: -Iwitness/mockcgal
// Cut cells: states of the shifted (h-)grids along a wall and their integration points
#include "src/CutCellData.cpp"
#include "patch.hpp"
#include "pg.hpp"
#include "field.hpp"
#include "fub/cutcell_method/HGridReconstruction2.hpp"
using E = PerfectGas<2>; using Q = Complete<E>; using C = Conservative<E>; using P = Primitive<E>;
using V2 = std::array<double, 2>; using V4 = std::array<double, 4>;
struct NoRec {};
inline double h(int d) { return vg_pos(9100 + d); }
inline Coordinates<2> hh(int z = 0) { return {h(z), h(1 + z)}; }
template <class S> V4 vec(const S& s) { V4 v; int k = 0; w::each(s, [&](const double& x) { v[k++] = x; }); return v; }
template <class S> S unvec(const V4& v) { S s{}; int k = 0; w::each(s, [&](double& x) { x = v[k++]; }); return s; }
inline V4 operator+(V4 a, const V4& b) { for (int k = 0; k < 4; ++k) a[k] += b[k]; return a; }
inline V4 operator*(double t, V4 a) { for (int k = 0; k < 4; ++k) a[k] *= t; return a; }
/// a state in the variables that are reconstructed, and back
template <class S> V4 var(const Q& q) { if constexpr (std::is_same_v<S, C>) return {q.density, q.momentum[0], q.momentum[1], q.energy}; else return {q.density, q.momentum[0] / q.density, q.momentum[1] / q.density, q.pressure}; }
template <class S> Q complete(const V4& v) { auto eq = Gas<2>(); Q q{}; q.density = v[0]; double ke = 0.0;
  for (int d = 0; d < 2; ++d) { const double m = std::is_same_v<S, C> ? v[1 + d] : v[0] * v[1 + d]; q.momentum[d] = m; ke += 0.5 * m * m / v[0]; }
  if constexpr (std::is_same_v<S, C>) { q.energy = v[3]; q.pressure = (eq.gamma - 1.0) * (v[3] - ke); } else { q.pressure = v[3]; q.energy = v[3] / (eq.gamma - 1.0) + ke; }
  q.speed_of_sound = std::sqrt(eq.gamma * q.pressure / q.density); return q; }
inline void mirror(V4& v, V2 n) { const double u = v[1] * n[0] + v[2] * n[1]; v[1] -= 2.0 * u * n[0]; v[2] -= 2.0 * u * n[1]; }
inline void mirror(Q& q, V2 n) { const double u = q.momentum[0] * n[0] + q.momentum[1] * n[1]; q.momentum[0] -= 2.0 * u * n[0]; q.momentum[1] -= 2.0 * u * n[1]; }
inline V2 mirror(V2 x, V2 n) { const double u = x[0] * n[0] + x[1] * n[1]; return {x[0] - 2.0 * u * n[0], x[1] - 2.0 * u * n[1]}; }

constexpr int NP = HGridIntegrationPoints<2>::kMaxSources;
template <class S, int D = 0> struct Hg {
  int z;
  static Index<2> at(int i, int j) { auto l = lo<2>(0); return {l[0] + i, l[1] + j}; }
  static constexpr int T = 1 - D;
  Index<2> cell() const { return at(1, 1); }
  Index<2> next(int k) const { auto i = cell(); i[D] += k; return i; }
  template <class X> using Pt = w::Patch<X, 3, 3>; template <int NC = 0> using F = Field<2, double, 4, 4, 1, NC>;
  Pt<Q> states{1000 + z, lo<2>(0)}, refs{5000 + z, lo<2>(0)}; Pt<S> gx{10000 + z, lo<2>(0)}, gy{14000 + z, lo<2>(0)}, gz{18000 + z, lo<2>(0)}, rx{22000 + z, lo<2>(0)}, ry{26000 + z, lo<2>(0)}, rz{30000 + z, lo<2>(0)};
  F<> vol{60000 + z, lo<2>(0)}, face[2] = {{61000 + z, lo<2>(0)}, {62000 + z, lo<2>(0)}}, sl[2] = {{63000 + z, lo<2>(0)}, {64000 + z, lo<2>(0)}}, sr[2] = {{65000 + z, lo<2>(0)}, {66000 + z, lo<2>(0)}}, ds[2] = {{67000 + z, lo<2>(0)}, {68000 + z, lo<2>(0)}};
  F<2> vc{70000 + z, lo<2>(0)}, bc{71000 + z, lo<2>(0)}, nr{72000 + z, lo<2>(0)}; F<5 * NP> pts[2] = {{100000 + z, lo<2>(0)}, {110000 + z, lo<2>(0)}}, tot{120000 + z, lo<2>(0)};
  CutCellData<2> geom() { CutCellData<2> g{}; g.volume_fractions = vol.view(); g.volume_centeroid = vc.view(); g.boundary_centeroids = bc.view(); g.boundary_normals = nr.view();
    for (int d = 0; d < 2; ++d) { g.face_fractions[d] = face[d].view(); g.shielded_left_fractions[d] = sl[d].view(); g.shielded_right_fractions[d] = sr[d].view(); g.doubly_shielded_fractions[d] = ds[d].view(); g.hgrid_integration_points[d] = pts[d].view(); }
    g.hgrid_total_inner_integration_points = tot.view(); return g; }
  template <class X> auto in(X& x) { return w::strided(AsConst(x.view())); }
  /// the sources of the integration points of `cell`: n parts of the given cells
  int src = 0; int which[NP] = {0, 3, 1, 4, 2, 5, 7, 6, 8};
  static Index<2> nth(int k) { return at(k % 3, k / 3); }
  template <int NC> void sources(Field<2, double, 4, 4, 1, NC>& f, int n) { src = n; const auto c = cell(); for (int i = 0; i < NP; ++i) { f(c, 5 * i) = i < n ? vg_pos(z + f_base(f) + i) : 0.0; const auto k = nth(which[i]); for (int d = 0; d < 2; ++d) { double b; std::memcpy(&b, &k[d], sizeof(double)); f(c, 5 * i + 3 + d) = b; } } }
  template <class X> int f_base(X& f) { return &f == (X*)&tot ? 90000 : &f == (X*)&pts[0] ? 90100 : 90200; }
  void open() { for (int i = 0; i < src; ++i) vol(nth(which[i])) = vg_pos(z + 90300 + i); }
  HGridIntegrationPoints<2> points(F<5 * NP>& f) { HGridIntegrationPoints<2> p{}; const auto c = cell(); p.iB = c; for (int d = 0; d < 2; ++d) p.xB[d] = xB()[d]; for (int i = 0; i < NP; ++i) { p.volume[i] = f(c, 5 * i); for (int d = 0; d < 2; ++d) p.xM[i][d] = f(c, 5 * i + 1 + d); p.index[i] = nth(which[i]); } return p; }
  // --- elementary geometry
  V2 xC(Index<2> i) { return {h(0) * (double(i[0]) + 0.5 + vc(i, 0)), h(1) * (double(i[1]) + 0.5 + vc(i, 1))}; }
  V2 xB() { const auto i = cell(); return {h(0) * (double(i[0]) + 0.5 + bc(i, 0)), h(1) * (double(i[1]) + 0.5 + bc(i, 1))}; }
  V2 n() { return {-nr(cell(), 0), -nr(cell(), 1)}; }
  static V2 shift(V2 x, double t) { x[D] += t; return x; }
  /// linear reconstruction of the cell at x
  V4 lin(Index<2> i, V2 x) { const V2 c = xC(i); return var<S>(states.load(i)) + (x[0] - c[0]) * vec(gx.load(i)) + (x[1] - c[1]) * vec(gy.load(i)); }
  V4 grad(Index<2> i) { return D == 0 ? vec(gx.load(i)) : vec(gy.load(i)); }
  // --- outputs
  std::array<Q, 2> q, eb; std::array<S, 2> g, ebg;
  explicit Hg(int z_ = 0) : z(z_) { for (int k = 0; k < 2; ++k) { w::fill(q[k], z + 200 + 20 * k); w::fill(eb[k], z + 240 + 20 * k); w::fill(g[k], z + 280 + 20 * k); w::fill(ebg[k], z + 320 + 20 * k); } }
  static void put(Out o, const Q& x) { w::put(o, x); }
  void put(Out o) { for (int k = 0; k < 2; ++k) { w::put(o, q[k]); w::put(o, g[k]); } }
  void set(int k, const V4& v, const V4& dv) { q[k] = complete<S>(v); g[k] = unvec<S>(dv); }
  using H1 = HGridReconstruction<E, S>; using H2 = HGridReconstruction2<E, S, NoRec>;
  // --- regular
  void regular() { H1 m(Gas<2>()); regular(m); }
  template <class M> void regular(M& m) { m.ReconstructRegularStencil(q, g, in(states), in(gx), in(gy), in(gz), geom(), cell(), Duration(vg_pos(1 + z)), hh(z), Direction(D)); }
  void regular_spec() { const auto x = GetAbsoluteUnshieldedCentroid(geom(), cell(), hh(), Direction(D)); const V2 f{x[0], x[1]}; for (int k = 0; k < 2; ++k) set(k, lin(next(k - 1), shift(f, (k - 0.5) * h(D))), grad(next(k - 1))); }
  // --- next to the wall
  template <class H> void shielded(H&& m) { m.ReconstructSinglyShieldedStencil(q, g, eb, ebg, in(states), in(gx), in(gy), in(gz), geom(), cell(), Duration(vg_pos(1 + z)), hh(z), Direction(D)); }
  void shielded1() { shielded(H1(Gas<2>())); }
  void shielded2() { shielded(H2(Gas<2>(), NoRec{})); }
  /// with s = +1 if the wall is on the lower side, all lengths are measured away from it
  /// the wall is on the lower (+1) or on the upper (-1) side of the cell, or nowhere
  template <class F> void side(F f) { const double a = face[D](cell()), b = face[D](next(1)); if (a < b) { f(1); return; } if (b < a) { f(-1); return; } }
  void shielded_spec(bool second) { side([&](int s) { shielded_spec(second, s); }); }
  void shielded_spec(bool second, int s) {
    const int near = s > 0 ? 0 : 1, far = 1 - near;
    const double al = 0.5 - s * bc(cell(), D); auto m = [&](double t) { return shift(xB(), s * t * h(D)); };
    auto wall = [&](int k, double t) { return var<S>(eb[k]) + (s * t * h(D)) * vec(ebg[k]); };
    // the part of the shifted cell in the cell itself, and the mirrored part
    set(near, (1.0 - al) * wall(near, 0.5 * al) + al * lin(cell(), m(0.5 * al)), (1.0 - al) * vec(ebg[near]) + al * grad(cell()));
    const auto i = next(s);
    if (second) set(far, (1.0 - al) * wall(far, 0.5 * al) + al * lin2(i, m(0.5 + al), s * 0.5 * (1.0 - al) * h(D)), (1.0 - al) * vec(ebg[far]) + al * grad(i));
    else set(far, lin(i, m(0.5 + al)), grad(i));
  }
  /// the completed reconstruction is taken as the state that is moved on
  V4 lin2(Index<2> i, V2 x, double t) { return lin(i, x) + t * grad(i); }
  // --- across the wall, from the reference state of the cell
  void unit_normal() { const double t = vg_in(9200), d = 1.0 + t * t; nr(cell(), 0) = (1.0 - t * t) / d; nr(cell(), 1) = 2.0 * t / d; }
  void across2() { H2 m(Gas<2>(), NoRec{}); across(m); }
  template <class M> void across(M& m) { m.ReconstructEmbeddedBoundaryStencil(q, g, in(states), in(gx), in(gy), in(gz), in(refs), in(rx), in(ry), in(rz), geom(), cell(), Duration(vg_pos(1 + z)), hh(z), Direction(D)); }
  V2 centre(F<5 * NP>& f) { V2 x{}; double v = 0.0; for (int i = 0; i < src; ++i) { v += f(cell(), 5 * i); for (int d = 0; d < 2; ++d) x[d] += f(cell(), 5 * i) * f(cell(), 5 * i + 1 + d); } return {x[0] / v, x[1] / v}; }
  V4 refat(V2 x) { const V2 c = centre(tot); return var<S>(refs.load(cell())) + (x[0] - c[0]) * vec(rx.load(cell())) + (x[1] - c[1]) * vec(ry.load(cell())); }
  void across2_spec() { side([&](int s) { across2_spec(s); }); }
  void across2_spec(int s) {
    const int wall = s > 0 ? 0 : 1;
    const V2 r = mirror(shift({0.0, 0.0}, 1.0), n()), x = xB();
    set(1 - wall, refat(shift(x, 0.5 * s * h(D))), D == 0 ? vec(rx.load(cell())) : vec(ry.load(cell())));
    const double t = -0.5 * s * h(D);
    set(wall, refat({x[0] + t * r[0], x[1] + t * r[1]}), r[0] * vec(rx.load(cell())) + r[1] * vec(ry.load(cell()))); mirror(q[wall], n());
  }
  // --- integration over the parts of a shifted cell
  V4 mean(F<5 * NP>& f, V4 (Hg::*val)(int, F<5 * NP>&)) { V4 r{}; double v = 0.0; for (int i = 0; i < src; ++i) { r = r + f(cell(), 5 * i) * (this->*val)(i, f); v += f(cell(), 5 * i); } return (1.0 / v) * r; }
  V4 part(int i, F<5 * NP>& f) { return lin(nth(which[i]), {f(cell(), 5 * i + 1), f(cell(), 5 * i + 2)}); }
  template <int K> V4 slope(int i, F<5 * NP>&) { const auto c = nth(which[i]); return K == 0 ? vec(gx.load(c)) : K == 1 ? vec(gy.load(c)) : vec(gz.load(c)); }
  bool integrate(Q& r, S& a, S& b, S& c) { HGridIntegration<E, S> m(Gas<2>()); return integrate(m, r, a, b, c); }
  template <class M> bool integrate(M& m, Q& r, S& a, S& b, S& c) { return m.IntegrateCellState(r, a, b, c, in(states), in(gx), in(gy), in(gz), geom(), points(tot), hh(z)); }
  void integral(Out o) { Q r{}; S a{}, b{}, c{}; o.put(integrate(r, a, b, c) ? 1.0 : 0.0); w::put(o, r); w::put(o, a); w::put(o, b); w::put(o, c); }
  void integral_spec(Out o) { o.put(1.0); w::put(o, complete<S>(mean(tot, &Hg::part))); for (auto v : {mean(tot, &Hg::template slope<0>), mean(tot, &Hg::template slope<1>), mean(tot, &Hg::template slope<2>)}) for (double x : v) o.put(x); }
  void refused(Out o) { Q r{}; S a{}, b{}, c{}; o.put(integrate(r, a, b, c) ? 1.0 : 0.0); }
  static void refused_spec(Out o) { o.put(0.0); }
  // --- the shifted cell on the inner side of the wall
  void inner(Out o) { HGridIntegration<E, S> m(Gas<2>()); o.put(m.IntegrateInteriorCellState(q[0], g[0], in(states), in(gx), in(gy), in(gz), geom(), cell(), hh(), Direction(D)) ? 1.0 : 0.0); w::put(o, q[0]); w::put(o, g[0]); }
  void inner_spec(Out o) {
    bool yes = false;
    side([&](int s) { const auto f = s > 0 ? next(1) : cell(); const double dbl = ds[D](f), sh = s > 0 ? sl[D](f) : sr[D](f);
      if (dbl < sh) { yes = true; const double al = 0.5 - s * bc(cell(), D); auto m = [&](double t) { return shift(xB(), s * t * h(D)); }; const auto i = next(s);
        set(0, (1.0 - al) * lin(i, m(0.5 * (1.0 + al))) + al * lin(cell(), m(0.5 * al)), (1.0 - al) * grad(i) + al * grad(cell())); } });
    o.put(yes ? 1.0 : 0.0); w::put(o, q[0]); w::put(o, g[0]); }
};
#define EACH(M) M(C, 0, cons_x) M(C, 1, cons_y) M(P, 0, prim_x) M(P, 1, prim_y)
#define HG(S, D, nm)                                                           \
  using H##nm = Hg<S, D>;                                                      \
  LAW(K07_regular_##nm, H##nm s; s.regular(); s.put(o), H##nm s; s.regular_spec(); s.put(o)) \
  LAW(K07_next_to_wall_##nm, H##nm s; s.shielded2(); s.put(o), H##nm s; s.shielded_spec(true); s.put(o)) \
  LAW(K07_next_to_wall_first_##nm, H##nm s; s.shielded1(); s.put(o), H##nm s; s.shielded_spec(false); s.put(o)) \
  LAW(K07_across_wall_##nm, H##nm s; s.sources(s.tot, 3); s.unit_normal(); s.across2(); s.put(o), H##nm s; s.sources(s.tot, 3); s.unit_normal(); s.across2_spec(); s.put(o)) \
  LAW(K07_inner_##nm, H##nm s; s.inner(o), H##nm s; s.inner_spec(o))
EACH(HG)
#define INT(nm, n) LAW(K07_integral_##n##_##nm, H##nm s; s.sources(s.tot, n); s.open(); s.integral(o), H##nm s; s.sources(s.tot, n); s.open(); s.integral_spec(o))
INT(cons_x, 1) INT(cons_x, 3) INT(cons_x, 9) INT(prim_x, 2)
LAW(K07_refused_covered, Hcons_x s; s.sources(s.tot, 3); s.open(); s.vol(s.nth(s.which[1])) = 0.0; s.refused(o), Hcons_x::refused_spec(o))
LAW(K07_refused_outside, Hcons_x s; s.sources(s.tot, 3); s.open(); s.states.lower[0] += 1; s.refused(o), Hcons_x::refused_spec(o))
LAW(K07_refused_empty, Hcons_x s; s.sources(s.tot, 0); s.refused(o), Hcons_x::refused_spec(o))
// --- the geometry of the integration points
inline void putp(Out o, const HGridIntegrationPoints<2>& p) { for (int d = 0; d < 2; ++d) { o.put(double(p.iB[d])); o.put(p.xB[d]); } for (int i = 0; i < NP; ++i) { o.put(p.volume[i]); for (int d = 0; d < 2; ++d) { o.put(p.xM[i][d]); o.put(double(p.index[i][d])); } } }
LAW(K02_points_x, Hcons_x s; s.sources(s.pts[0], 9); putp(o, GetHGridIntegrationPoints(s.geom(), s.cell(), hh(), Direction::X)), Hcons_x s; s.sources(s.pts[0], 9); putp(o, s.points(s.pts[0])))
LAW(K02_points_y, Hcons_x s; s.sources(s.pts[1], 9); putp(o, GetHGridIntegrationPoints(s.geom(), s.cell(), hh(), Direction::Y)), Hcons_x s; s.sources(s.pts[1], 9); putp(o, s.points(s.pts[1])))
LAW(K02_points_total, Hcons_x s; s.sources(s.tot, 9); putp(o, GetHGridTotalInnerIntegrationPoints(s.geom(), s.cell(), hh())), Hcons_x s; s.sources(s.tot, 9); putp(o, s.points(s.tot)))
#define CEN(n) LAW(K02_points_centre_##n, Hcons_x s; s.sources(s.tot, n); const auto x = Centroid(s.points(s.tot)); o.put(x[0]); o.put(x[1]), Hcons_x s; s.sources(s.tot, n); for (double x : s.centre(s.tot)) o.put(x))
CEN(1) CEN(4) CEN(9)
// ------------------------------ K08: what has been reconstructed before leaves no trace
template <class S, int D> struct Again {
  using T = Hg<S, D>; using U = Hg<S, 1 - D>;
  template <class M> static void before(M& m) { U a(200000); a.regular(m); U b(400000); b.shielded(m); if constexpr (std::is_same_v<M, typename T::H2>) { U c(600000); c.sources(c.tot, 2); c.unit_normal(); c.across(m); } }
  template <class M> static void each(Out& o, M m, int what, bool used) { T s; s.sources(s.tot, 3); s.unit_normal(); if (used) before(m); if (what == 0) s.regular(m); else if (what == 1) s.shielded(m); else if constexpr (std::is_same_v<M, typename T::H2>) s.across(m); s.put(o); }
  static void h1(Out& o, int what, bool used) { each(o, typename T::H1(Gas<2>()), what, used); }
  static void h2(Out& o, int what, bool used) { each(o, typename T::H2(Gas<2>(), NoRec{}), what, used); }
  static void integral(Out& o, bool used) { HGridIntegration<E, S> m(Gas<2>()); if (used) { U b(200000); b.sources(b.tot, 4); b.open(); Q r{}; S x{}, y{}, z{}; b.integrate(m, r, x, y, z); } T s; s.sources(s.tot, 3); s.open(); Q r{}; S x{}, y{}, z{}; o.put(s.integrate(m, r, x, y, z) ? 1.0 : 0.0); w::put(o, r); w::put(o, x); w::put(o, y); w::put(o, z); }
};
#define HAGAIN(S, D, nm) using A##nm = Again<S, D>; \
  LAW(K08_hgrid_regular_##nm, A##nm::h1(o, 0, true), A##nm::h1(o, 0, false)) LAW(K08_hgrid_first_##nm, A##nm::h1(o, 1, true), A##nm::h1(o, 1, false)) LAW(K08_hgrid_second_##nm, A##nm::h2(o, 1, true), A##nm::h2(o, 1, false)) LAW(K08_hgrid_across_##nm, A##nm::h2(o, 2, true), A##nm::h2(o, 2, false)) LAW(K08_hgrid_integral_##nm, A##nm::integral(o, true), A##nm::integral(o, false))
EACH(HAGAIN)
