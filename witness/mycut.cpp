// SOURCES: src/equations/PerfectGas.cpp src/CutCellData.cpp src/cutcell_method/MyStabilisation.cpp src/cutcell_method/AnyMdLimiter.cpp
// Cut cells: second order stabilisation with reconstructed h-grids, gradients
// Eigen's least squares solver is taken at its contract (normal equations),
// so that the pivoting of its QR decomposition needs no case split.
#include <Eigen/Dense>
#define LSQ(N)                                                                                       \
  template <> inline void Eigen::ColPivHouseholderQR<Eigen::Matrix<double, N, 2>>::computeInPlace() {} \
  template <> template <class B, class X> inline void Eigen::ColPivHouseholderQR<Eigen::Matrix<double, N, 2>>::_solve_impl(const B& b, X& x) const { \
    double p = 0, q = 0, r = 0, s = 0, t = 0;                                                        \
    for (int i = 0; i < N; ++i) { const double u = m_qr(i, 0), v = m_qr(i, 1); p += u * u; q += u * v; r += v * v; s += u * b(i); t += v * b(i); } \
    const double det = p * r - q * q; x(0) = (r * s - q * t) / det; x(1) = (p * t - q * s) / det;    \
  }
LSQ(3) LSQ(4)
#include "patch.hpp"
#include "pg.hpp"
#include "field.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
#include "fub/cutcell_method/MyStabilisation.hpp"
constexpr int R = 2;
using E = PerfectGas<2>; using Q = Complete<E>; using C = Conservative<E>; using QA = CompleteArray<E>; using CA = ConservativeArray<E>;
template <class S> double key(const S& q, double h = 1.0) { w::each(q, [&](double x) { h = vg_uf2(1, h, x); }); return h; }
template <class S> double keyl(const S& q, int l, double h = 1.0) { w::each_lane(q, l, [&](double x) { h = vg_uf2(1, h, x); }); return h; }
/// gradients are uninterpreted functions of the stencil
struct UnknownGradient {
  using Equation = E; using Complete = Q; using Conservative = C; using Gradient = C; using GradientArray = CA;
  E eq = Gas<2>();
  const E& GetEquation() const { return eq; }
  void ComputeGradient(C& g, span<const Q, 3> st, double dx, Direction d) { const double h = vg_uf3(10, key(st[2], key(st[1], key(st[0]))), dx, 1.0 + int(d)); int k = 0; w::each(g, [&](double& x) { x = vg_uf1(11 + k++, h); }); }
};
/// the flux is an uninterpreted function of states, gradients, fractions, dt, dx, direction
struct UFlux {
  using Equation = E; using Complete = Q; using Conservative = C; using GradientMethod = UnknownGradient; using Gradient = C; using GradientArray = CA;
  UnknownGradient gm;
  UFlux() = default;
  explicit UFlux(const E&) {}
  const E& GetEquation() const { return gm.eq; }
  const UnknownGradient& GetGradientMethod() const { return gm; }
  static constexpr int GetStencilWidth() noexcept { return 2; }
  static double par(double dt, double dx, Direction d) { return vg_uf3(2, dt, dx, 1.0 + int(d)); }
  static C flux(double h, double p) { C f; int k = 0; w::each(f, [&](double& x) { x = vg_uf2(100 + k++, h, p); }); return f; }
  static C flux(const Q& l, const Q& r, const C& gl, const C& gr, double dt, double dx, Direction d) { return flux(key(gr, key(gl, key(r, key(l)))), par(dt, dx, d)); }
  void ComputeNumericFlux(C& f, span<const Q, 2> st, span<const C, 2> g, Duration dt, double dx, Direction d) const { f = flux(st[0], st[1], g[0], g[1], dt.count(), dx, d); }
  void ComputeNumericFlux(CA& f, const Array1d& beta, span<const QA, 2> st, span<const CA, 2> g, span<const Array1d, 2> al, Duration dt, double dx, Direction d) const {
    for (int l = 0; l < 8; ++l) { const double h = masked(beta[l], al[0][l], al[1][l], keyl(g[1], l, keyl(g[0], l, keyl(st[1], l, keyl(st[0], l))))), p = par(dt.count(), dx, d); int k = 0; w::each_lane(f, l, [&](double& x) { x = beta[l] > 0.0 ? vg_uf2(120 + k, h, p) : 0.0; ++k; }); }
  }
  static double masked(double b, double a0, double a1, double h) { return vg_uf4(3, b, a0, a1, h); }
  Array1d ComputeStableDt(span<const QA, 4> st, const Array1d& beta, span<const Array1d, 4> al, double dx, Direction d) const { Array1d r; for (int l = 0; l < 8; ++l) { double h = 1.0; for (int i = 0; i < 4; ++i) h = vg_uf2(4, keyl(st[i], l, h), al[i][l]); r[l] = beta[l] > 0.0 ? vg_uf3(200, h, beta[l], par(0, dx, d)) : std::numeric_limits<double>::infinity(); } return r; }
};
struct Solver { template <class... A> explicit Solver(const A&...) {} };
/// every reconstruction is an uninterpreted function of where it happens and of the data there
inline double K(int tag, const View<const Q>& s, const View<const C>& gx, const View<const C>& gy, const View<const C>& gz, Index<2> i, double dt, const Coordinates<2>& dx, Direction d) {
  Q q; C c; Load(q, s, i); double h = key(q); Load(c, gx, i); h = key(c, h); Load(c, gy, i); h = key(c, h); Load(c, gz, i); h = key(c, h); return vg_uf4(tag, h, vg_uf2(5, double(i[0]), double(i[1])), vg_uf3(6, dt, dx[0], dx[1]), 1.0 + int(d)); }
inline void spread(span<Q, 2> q, span<C, 2> g, double h) { int k = 0; for (auto& x : q) w::each(x, [&](double& y) { y = vg_uf1(1000 + k++, h); }); for (auto& x : g) w::each(x, [&](double& y) { y = vg_uf1(1000 + k++, h); }); }
struct Rec {
  struct Integration { void IntegrateCellState(Q& q, C& gx, C& gy, C& gz, const View<const Q>& s, const View<const C>& x, const View<const C>& y, const View<const C>& z, const CutCellData<2>&, const HGridIntegrationPoints<2>& p, const Coordinates<2>& dx) {
    const double h = K(400, s, x, y, z, p.iB, p.xB[0], dx, Direction::X); int k = 0; auto f = [&](double& v) { v = vg_uf1(410 + k++, h); }; w::each(q, f); w::each(gx, f); w::each(gy, f); w::each(gz, f); } };
  Integration in; Integration& GetHGridIntegration() { return in; }
  void ReconstructRegularStencil(span<Q, 2> q, span<C, 2> g, const View<const Q>& s, const View<const C>& gx, const View<const C>& gy, const View<const C>& gz, const CutCellData<2>&, const Index<2>& f, Duration dt, const Coordinates<2>& dx, Direction d) { spread(q, g, K(500, s, gx, gy, gz, f, dt.count(), dx, d)); }
  void ReconstructEmbeddedBoundaryStencil(span<Q, 2> q, span<C, 2> g, const View<const Q>& s, const View<const C>& gx, const View<const C>& gy, const View<const C>& gz, const View<const Q>& r, const View<const C>& rx, const View<const C>& ry, const View<const C>& rz, const CutCellData<2>&, const Index<2>& i, Duration dt, Coordinates<2> dx, Direction d) { spread(q, g, vg_uf2(503, K(501, s, gx, gy, gz, i, dt.count(), dx, d), K(502, r, rx, ry, rz, i, dt.count(), dx, d))); }
  void ReconstructSinglyShieldedStencil(span<Q, 2> q, span<C, 2> g, span<const Q, 2> eb, span<const C, 2> ebg, const View<const Q>& s, const View<const C>& gx, const View<const C>& gy, const View<const C>& gz, const CutCellData<2>&, const Index<2>& i, Duration dt, const Coordinates<2>& dx, Direction d) { spread(q, g, vg_uf2(505, K(504, s, gx, gy, gz, i, dt.count(), dx, d), key(ebg[1], key(ebg[0], key(eb[1], key(eb[0])))))); }
};
using M = MyCutCellMethod<E, UFlux, Rec, Solver>;
inline Coordinates<2> h(int z = 0) { return {vg_pos(9100 + z), vg_pos(9101 + z)}; }
template <int N0, int N1, int D> struct My {
  static constexpr int G = 2; int z; explicit My(int z_ = 0) : z(z_) {}
  template <class S> using P = w::Patch<S, N0 + 2 * G, N1 + 2 * G, 1>; using FP = w::Patch<C, N0 + 2, N1 + 2, 1>;
  template <class T> using F = Field<2, T, N0 + 2 * G, N1 + 2 * G, 1>;
  P<Q> states{1000 + z, lo<2>(G)}, refs{5000 + z, lo<2>(G)}; P<C> gx{10000 + z, lo<2>(G)}, gy{14000 + z, lo<2>(G)}, gz{18000 + z, lo<2>(G)}, rx{22000 + z, lo<2>(G)}, ry{26000 + z, lo<2>(G)}, rz{30000 + z, lo<2>(G)};
  FP stable{34000 + z, lo<2>(1)}, left{38000 + z, lo<2>(1)}, right{42000 + z, lo<2>(1)}, dbl{46000 + z, lo<2>(1)}, reg{50000 + z, lo<2>(1)}, bnd{54000 + z, lo<2>(1)};
  F<double> vol{60000 + z, lo<2>(G)}, face[2] = {{61000 + z, lo<2>(G)}, {62000 + z, lo<2>(G)}}, us[2] = {{63000 + z, lo<2>(G)}, {64000 + z, lo<2>(G)}}, usr[2] = {{65000 + z, lo<2>(G)}, {66000 + z, lo<2>(G)}}, bl[2] = {{67000 + z, lo<2>(G)}, {68000 + z, lo<2>(G)}}, br[2] = {{69000 + z, lo<2>(G)}, {70000 + z, lo<2>(G)}};
  CutCellData<2> geom() { CutCellData<2> g{}; g.volume_fractions = vol.view(); for (int d = 0; d < 2; ++d) { g.face_fractions[d] = face[d].view(); g.unshielded_fractions[d] = us[d].view(); g.unshielded_fractions_rel[d] = usr[d].view(); g.shielded_left_fractions_rel[d] = bl[d].view(); g.shielded_right_fractions_rel[d] = br[d].view(); } return g; }
  IndexBox<2> cells() const { auto l = lo<2>(0); return {l, {l[0] + N0, l[1] + N1}}; }
  IndexBox<2> faces() const { auto b = cells(); b.upper[D] += 1; return b; }
  template <class X> auto at(X& x) { return w::sub(x.view(), faces()); }
  template <class X> auto in(X& x) { return w::strided(AsConst(x.view())); }
  static M method() { return M(Gas<2>(), Rec(), UFlux(), AnyLimiter<2>()); }
  void regular() { auto m = method(); regular(m); }
  void regular(M& m) { m.ComputeRegularFluxes(at(reg), in(states), in(gx), in(gy), in(gz), geom(), Duration(vg_pos(1 + z)), vg_pos(2 + z), Direction(D)); }
  void regular_spec() { w::cells(faces(), [&](Index<2> f) { auto l = f; l[D] -= 1; auto& g = D == 0 ? gx : gy; const double b = face[D](f), k = UFlux::masked(b, vol(l), vol(f), key(g.load(f), key(g.load(l), key(states.load(f), key(states.load(l)))))), p = UFlux::par(vg_pos(1), vg_pos(2), Direction(D)); C x; int c = 0; w::each(x, [&](double& y) { y = b > 0.0 ? vg_uf2(120 + c, k, p) : 0.0; ++c; }); reg.store(f, x); }); }
  double dt() { auto m = method(); return dt(m); }
  double dt(M& m) { auto b = faces(); b.lower[D] -= 2; b.upper[D] += 1; return m.ComputeStableDt(w::sub(AsConst(states.view()), b), geom(), vg_pos(2 + z), Direction(D)); }
  double dt_spec() { double r = std::numeric_limits<double>::infinity(); w::cells(faces(), [&](Index<2> f) { double k = 1.0; for (int i = 0; i < 4; ++i) { auto c = f; c[D] += i - 2; k = vg_uf2(4, key(states.load(c), k), vol(c)); } const double b = face[D](f); if (b > 0.0) r = std::min(r, vg_uf3(200, k, b, UFlux::par(0, vg_pos(2), Direction(D)))); }); return r; }
  void cut() { auto m = method(); cut(m); }
  void cut(M& m) { m.ComputeCutCellFluxes(at(stable), at(left), at(right), at(dbl), at(reg), w::sub(bnd.view(), cells()), in(refs), in(rx), in(ry), in(rz), in(gx), in(gy), in(gz), in(states), geom(), Duration(vg_pos(1 + z)), h(z), Direction(D)); }
  void cut_spec() {
    auto sv = in(states), rv = in(refs); auto x = in(gx), y = in(gy), z = in(gz), ax = in(rx), ay = in(ry), az = in(rz); const double dt = vg_pos(1), dx = h()[D];
    auto fl = [&](double k) { std::array<Q, 2> q; std::array<C, 2> g; spread(q, g, k); return UFlux::flux(q[0], q[1], g[0], g[1], dt, dx, Direction(D)); };
    w::cells(faces(), [&](Index<2> f) { C c{}; if (us[D](f) > 0.0) c = fl(K(500, sv, x, y, z, f, dt, h(), Direction(D))); else w::each(c, [](double& v) { v = 0.0; }); reg.store(f, c); });
    w::cells(cells(), [&](Index<2> i) { auto r = i; r[D] += 1; const double a = face[D](i), b = face[D](r); if (a == b) return;
      const double kb = vg_uf2(503, K(501, sv, x, y, z, i, dt, h(), Direction(D)), K(502, rv, ax, ay, az, i, dt, h(), Direction(D)));
      std::array<Q, 2> q; std::array<C, 2> g; spread(q, g, kb);
      bnd.store(i, fl(kb)); const C s = fl(vg_uf2(505, K(504, sv, x, y, z, i, dt, h(), Direction(D)), key(g[1], key(g[0], key(q[1], key(q[0]))))));
      if (a < b) left.store(r, s); else right.store(i, s); });
    w::cells(faces(), [&](Index<2> f) { std::vector<double> v; C r = reg.load(f), l = left.load(f), t = right.load(f), s{}; double *pr[4], *pl[4], *pt[4]; int k = 0; w::each(r, [&](double& e) { pr[k++] = &e; }); k = 0; w::each(l, [&](double& e) { pl[k++] = &e; }); k = 0; w::each(t, [&](double& e) { pt[k++] = &e; }); k = 0; w::each(s, [&](double& e) { e = usr[D](f) * *pr[k] + bl[D](f) * *pl[k] + br[D](f) * *pt[k]; ++k; }); stable.store(f, s); });
  }
  void put(Out o) { stable.put(o); left.put(o); right.put(o); reg.put(o); bnd.put(o); }
};
#define MY(N0, N1, D)                                                          \
  using M##N0##N1##D = My<N0, N1, D>;                                          \
  LAW(K05_regular_##N0##x##N1##_##D, M##N0##N1##D s; s.regular(); s.reg.put(o), M##N0##N1##D s; s.regular_spec(); s.reg.put(o)) \
  LAW(K05_dt_##N0##x##N1##_##D, M##N0##N1##D s; o.put(s.dt()), M##N0##N1##D s; o.put(s.dt_spec()))
MY(3, 2, 0) MY(8, 1, 1) MY(9, 1, 0) MY(2, 3, 1)
#define CUT(N0, N1, D) using N##N0##N1##D = My<N0, N1, D>; LAW(K05_cut_##N0##x##N1##_##D, N##N0##N1##D s; s.cut(); s.put(o), N##N0##N1##D s; s.cut_spec(); s.put(o))
CUT(2, 1, 0) CUT(1, 2, 1) CUT(3, 1, 0) CUT(2, 2, 1)
// --- reference states: integrated over the total inner h-grid of every cut cell
struct Refs : My<2, 2, 0> {
  explicit Refs(int z_ = 0) : My<2, 2, 0>(z_) {}
  Field<2, double, 6, 6, 1, 45> pts{100000 + z, lo<2>(2)}; Field<2, double, 6, 6, 1, 2> bc{110000 + z, lo<2>(2)};
  CutCellData<2> full() { auto g = geom(); g.hgrid_total_inner_integration_points = pts.view(); g.boundary_centeroids = bc.view(); return g; }
  void code() { auto m = method(); code(m); }
  void code(M& m) { std::array<View<C>, 3> rg{w::sub(rx.view(), cells()), w::sub(ry.view(), cells()), w::sub(rz.view(), cells())}; std::array<View<const C>, 3> g{in(gx), in(gy), in(gz)}; m.ComputeBoundaryStates(w::sub(refs.view(), cells()), span<View<C>, 3>(rg), in(states), span<View<const C>, 3>(g), full(), h(z), Duration(vg_pos(1 + z)), Direction::X); }
  bool cutcell(Index<2> i) { const double v = vol(i); if (v <= 0.0) return false; if (v < 1.0) return true; bool c = false; for (int d = 0; d < 2; ++d) { auto r = i; r[d] += 1; c = c | (face[d](i) < 1.0) | (face[d](r) < 1.0); } return c; }
  void spec() { w::cells(cells(), [&](Index<2> i) { if (!cutcell(i)) return; const double k = K(400, in(states), in(gx), in(gy), in(gz), i, vg_pos(9100) * (double(i[0]) + 0.5 + bc(i, 0)), h(), Direction::X); int c = 0; auto f = [&](double& v) { v = vg_uf1(410 + c++, k); }; Q q; C x, y, z; w::each(q, f); w::each(x, f); w::each(y, f); w::each(z, f); refs.store(i, q); rx.store(i, x); ry.store(i, y); rz.store(i, z); }); }
  void put(Out o) { refs.put(o); rx.put(o); ry.put(o); rz.put(o); }
};
LAW(K05_reference, Refs s; s.code(); s.put(o), Refs s; s.spec(); s.put(o))
// ------------------------------ K08: what the method has computed before leaves no trace
template <int N0, int N1, int D> struct Again {
  using S = My<N0, N1, D>;
  static void before(M& m) { My<N1, N0, 1 - D> t(300000); t.dt(m); t.regular(m); t.cut(m); Refs r(600000); r.code(m); }
  static void regular(Out& o) { S s; auto m = S::method(); before(m); s.regular(m); s.reg.put(o); }
  static void dt(Out& o) { S s; auto m = S::method(); before(m); o.put(s.dt(m)); }
  static void cut(Out& o) { S s; auto m = S::method(); before(m); s.cut(m); s.put(o); }
};
inline void again_ref(Out& o) { Refs s; auto m = Refs::method(); Again<2, 1, 0>::before(m); s.code(m); s.put(o); }
#define AGAIN(N0, N1, D) LAW(K08_my_regular_##N0##x##N1##_##D, (Again<N0, N1, D>::regular(o)), My<N0, N1, D> s; s.regular(); s.reg.put(o)) LAW(K08_my_dt_##N0##x##N1##_##D, (Again<N0, N1, D>::dt(o)), My<N0, N1, D> s; o.put(s.dt())) LAW(K08_my_cut_##N0##x##N1##_##D, (Again<N0, N1, D>::cut(o)), My<N0, N1, D> s; s.cut(); s.put(o))
AGAIN(2, 1, 0) AGAIN(1, 2, 1)
LAW(K08_my_reference, again_ref(o), Refs s; s.code(); s.put(o))
// --- K06: gradients in cut cells
template <class L> struct Md {
  int z; explicit Md(int z_ = 0) : z(z_) {}
  static constexpr int N = 2; // cells with gradients, one layer around
  w::Patch<Q, N + 2, N + 2> states{1000 + z, lo<2>(1)}; w::Patch<C, N + 2, N + 2> gx{10000 + z, lo<2>(1)}, gy{14000 + z, lo<2>(1)}, gz{18000 + z, lo<2>(1)};
  using F = Field<2, double, N + 3, N + 3, 1>;
  F vol{60000 + z, lo<2>(1)}, face[2] = {{61000 + z, lo<2>(1)}, {62000 + z, lo<2>(1)}}; Field<2, double, N + 3, N + 3, 1, 2> cen{63000 + z, lo<2>(1)};
  CutCellData<2> geom() { CutCellData<2> g{}; g.volume_fractions = vol.view(); g.volume_centeroid = cen.view(); for (int d = 0; d < 2; ++d) g.face_fractions[d] = face[d].view(); return g; }
  IndexBox<2> cells(int n0, int n1) const { auto l = lo<2>(0); return {l, {l[0] + n0, l[1] + n1}}; }
  using Method = MdGradients<UnknownGradient>; static Method method() { return Method{UnknownGradient{}, L{}}; }
  void run(int n0 = N, int n1 = N) { auto m = method(); run(m, n0, n1); }
  void run(Method& m, int n0 = N, int n1 = N) { auto b = cells(n0, n1); m.ComputeGradients(w::sub(gx.view(), b), w::sub(gy.view(), b), w::sub(gz.view(), b), w::strided(AsConst(states.view())), geom(), h(z)); }
  void put(Out o) { gx.put(o); gy.put(o); gz.put(o); }
  void regular() { vol.data.fill(1.0); }
  static C zero() { C c{}; w::each(c, [](double& x) { x = 0.0; }); return c; }
  void regular_spec() { w::cells(cells(N, N), [&](Index<2> i) { for (int d = 0; d < 2; ++d) { auto l = i, r = i; l[d] -= 1; r[d] += 1; const double k = vg_uf3(10, key(states.load(r), key(states.load(i), key(states.load(l)))), h()[d], 1.0 + d); C c; int n = 0; w::each(c, [&](double& x) { x = vg_uf1(11 + n++, k); }); (d == 0 ? gx : gy).store(i, c); } gz.store(i, zero()); }); }
  void zero_spec() { w::cells(cells(N, N), [&](Index<2> i) { gx.store(i, zero()); gy.store(i, zero()); gz.store(i, zero()); }); }
  // one cut cell with the given open fractions of its four faces; linear data
  void linear(double xl, double xr, double yl, double yr) {
    auto i = lo<2>(0); auto r = i, u = i; r[0] += 1; u[1] += 1; vol.data.fill(1.0); vol(i) = 0.5; face[0](i) = xl; face[0](r) = xr; face[1](i) = yl; face[1](u) = yr;
    if (xl == 0.0) { auto n = i; n[0] -= 1; vol(n) = 0.0; } if (xr == 0.0) vol(r) = 0.0; if (yl == 0.0) { auto n = i; n[1] -= 1; vol(n) = 0.0; } if (yr == 0.0) vol(u) = 0.0;
    w::cells(states.box(), [&](Index<2> j) { Q q = states.load(j); int k = 0; auto f = [&](double& x) { x = vg_in(200 + k); for (int d = 0; d < 2; ++d) x += vg_in(210 + 10 * d + k) * (double(j[d]) + 0.5 + cen(j, d)) * h()[d]; ++k; }; f(q.density); f(q.momentum[0]); f(q.momentum[1]); f(q.energy); states.store(j, q); });
  }
  void put1(Out o) { auto i = lo<2>(0); C a = gx.load(i), b = gy.load(i); auto f = [&](double x) { o.put(x); }; f(a.density); f(a.momentum[0]); f(a.momentum[1]); f(a.energy); f(b.density); f(b.momentum[0]); f(b.momentum[1]); f(b.energy); }
};
using MdNo = Md<NoMdLimiter<2>>; using MdUp = Md<UpwindMdLimiter<2>>;
LAW(K06_regular, MdNo m; m.regular(); m.run(); m.put(o), MdNo m; m.regular(); m.regular_spec(); m.put(o))
LAW(K06_default_limiter, Md<AnyLimiter<2>> m; m.regular(); m.run(); m.put(o), MdNo m; m.regular(); m.regular_spec(); m.put(o))
LAW(K06_upwind, MdUp m; m.regular(); m.run(); m.put(o), MdUp m; m.zero_spec(); m.put(o))
LAW(K06_covered, MdNo m; m.vol.data.fill(0.0); m.run(); m.put(o), MdNo m; m.zero_spec(); m.put(o))
#define LIN(n, a, b, c, d) LAW(K06_linear_##n, MdNo m; m.linear(a, b, c, d); m.run(1, 1); m.put1(o), for (int d_ = 0; d_ < 2; ++d_) for (int k = 0; k < 4; ++k) o.put(vg_in(210 + 10 * d_ + k)))
LIN(four, 1.0, 0.5, 1.0, 0.75) LIN(three_xl, 0.0, 1.0, 0.5, 0.75) LIN(three_xr, 1.0, 0.0, 0.5, 0.75) LIN(three_yl, 0.5, 0.75, 0.0, 1.0) LIN(three_yr, 0.5, 0.75, 1.0, 0.0)
LIN(corner_ll, 0.0, 1.0, 0.0, 0.75) LIN(corner_lr, 0.0, 1.0, 0.75, 0.0) LIN(corner_rl, 0.75, 0.0, 0.0, 1.0) LIN(corner_rr, 0.75, 0.0, 1.0, 0.0)
// ------------------------------ K08: what the gradients have been computed of before leaves no trace
inline void md_before(MdNo::Method& m) { MdNo t(300000); t.linear(0.0, 0.75, 0.5, 0.0); t.run(m, 1, 1); MdNo u(600000); u.regular(); u.run(m); }
inline void md_again(Out& o, double a, double b, double c, double d) { MdNo s; s.linear(a, b, c, d); auto m = MdNo::method(); md_before(m); s.run(m, 1, 1); s.put1(o); }
inline void md_fresh(Out& o, double a, double b, double c, double d) { MdNo s; s.linear(a, b, c, d); s.run(1, 1); s.put1(o); }
#define MDAGAIN(n, a, b, c, d) LAW(K08_gradient_##n, md_again(o, a, b, c, d), md_fresh(o, a, b, c, d))
MDAGAIN(four, 1.0, 0.5, 1.0, 0.75) MDAGAIN(three, 0.0, 1.0, 0.5, 0.75) MDAGAIN(corner, 0.75, 0.0, 1.0, 0.0)
LAW(K08_gradient_regular, MdNo s; s.regular(); auto m = MdNo::method(); md_before(m); s.run(m); s.put(o), MdNo s; s.regular(); s.run(); s.put(o))
