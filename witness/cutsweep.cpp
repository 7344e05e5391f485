// SOURCES: src/equations/PerfectGas.cpp src/CutCellData.cpp src/cutcell_method/KbnStabilisation.cpp
// Cut cells: masked sweeps over patches and boundary fluxes for an unknown
// flux method and an unknown Riemann solver
#include "patch.hpp"
#include "pg.hpp"
#include "field.hpp"
#include "fub/cutcell_method/KbnStabilisation.hpp"
/// Flux and time step of a face are uninterpreted functions of its stencil,
/// of the open fractions of face and cells, dt, dx and direction; covered
/// faces have no flux and no time step restriction.
template <class E, int W> struct Masked {
  using Equation = E;
  using Complete = ::fub::Complete<E>;
  using Conservative = ::fub::Conservative<E>;
  using CompleteArray = ::fub::CompleteArray<E>;
  using ConservativeArray = ::fub::ConservativeArray<E>;
  E eq = Gas<E::Rank()>();
  const E& GetEquation() const noexcept { return eq; }
  E& GetEquation() noexcept { return eq; }
  static constexpr int GetStencilWidth() noexcept { return W; }
  template <class St> static double key(const St& st) { double h = 1.0; for (const auto& q : st) w::each(q, [&](double x) { h = vg_uf2(1, h, x); }); return h; }
  template <class St> static double key(const St& st, int l) { double h = 1.0; for (const auto& q : st) w::each_lane(q, l, [&](double x) { h = vg_uf2(1, h, x); }); return h; }
  static double par(double dt, double dx, Direction d) { return vg_uf3(2, dt, dx, 1.0 + int(d)); }
  template <class Al> static double open(double beta, const Al& al, int l) { double h = vg_uf1(3, beta); for (auto& a : al) h = vg_uf2(4, h, a[l]); return h; }
  static double open(double beta, const std::array<double, 2 * W>& al) { double h = vg_uf1(3, beta); for (auto a : al) h = vg_uf2(4, h, a); return h; }
  void ComputeNumericFlux(ConservativeArray& f, const Array1d& beta, span<const CompleteArray, 2 * W> st, span<const Array1d, 2 * W> al, Duration dt, double dx, Direction d) const {
    for (int l = 0; l < 8; ++l) { const double h = vg_uf2(5, key(st, l), open(beta[l], al, l)), p = par(dt.count(), dx, d); int k = 0; w::each_lane(f, l, [&](double& x) { x = beta[l] > 0.0 ? vg_uf2(100 + k, h, p) : 0.0; ++k; }); }
  }
  Array1d ComputeStableDt(span<const CompleteArray, 2 * W> st, const Array1d& beta, span<const Array1d, 2 * W> al, double dx, Direction d) const { Array1d r; for (int l = 0; l < 8; ++l) r[l] = beta[l] > 0.0 ? vg_uf3(200, key(st, l), open(beta[l], al, l), par(0.0, dx, d)) : std::numeric_limits<double>::infinity(); return r; }
};
/// every component of the solution is an uninterpreted function of both states
template <class E> struct UnknownSolver {
  template <class... A> explicit UnknownSolver(const A&...) {}
  static double h(const Complete<E>& l, const Complete<E>& r, Direction d) { double h = 1.0 + int(d); w::each(l, [&](double x) { h = vg_uf2(300, h, x); }); w::each(r, [&](double x) { h = vg_uf2(300, h, x); }); return h; }
  void SolveRiemannProblem(Complete<E>& s, const Complete<E>& l, const Complete<E>& r, Direction d) { const double k = h(l, r, d); int c = 0; w::each(s, [&](double& x) { x = vg_uf1(310 + c, k); ++c; }); }
};
template <int R, int W, int F0, int F1, int F2, int D> struct Sweep {
  using E = PerfectGas<R>; using M = Masked<E, W>; using K = KbnCutCellMethod<M, UnknownSolver<E>>;
  static constexpr int G = W; int z; explicit Sweep(int z_ = 0) : z(z_) {}
  using CP = w::Patch<Complete<E>, F0 + 2 * G, F1 + 2 * G, F2 + (R > 2 ? 2 * G : 0)>;
  using FP = w::Patch<Conservative<E>, F0 + 2, F1 + 2, F2 + (R > 2 ? 2 : 0)>;
  template <class T> using F = Field<R, T, F0 + 2 * G, F1 + 2 * G, F2 + (R > 2 ? 2 * G : 0)>;
  F<double> vol{50000 + z, lo<R>(G)}; F<double> face[3] = {{51000 + z, lo<R>(G)}, {52000 + z, lo<R>(G)}, {53000 + z, lo<R>(G)}};
  CP states{1000 + z, lo<R>(G)}; FP fluxes{20000 + z, lo<R>(1)};
  CutCellData<R> geom() { CutCellData<R> g{}; g.volume_fractions = vol.view(); for (int d = 0; d < R; ++d) g.face_fractions[d] = face[d].view(); return g; }
  IndexBox<R> faces() const { IndexBox<R> b; b.lower = lo<R>(0); const int n[3] = {F0, F1, F2}; for (int k = 0; k < R; ++k) b.upper[k] = b.lower[k] + n[k]; return b; }
  void flux() { K k{M{}}; flux(k); }
  void flux(K& k) { k.ComputeRegularFluxes(w::sub(fluxes.view(), faces()), w::strided(AsConst(states.view())), geom(), Duration(vg_pos(1 + z)), vg_pos(2 + z), Direction(D)); }
  void stencil(Index<R> f, std::array<Complete<E>, 2 * W>& st, std::array<double, 2 * W>& al) { for (int i = 0; i < 2 * W; ++i) { auto c = f; c[D] += i - W; st[i] = states.load(c); al[i] = vol(c); } }
  void flux_spec() { w::cells(faces(), [&](Index<R> f) { std::array<Complete<E>, 2 * W> st; std::array<double, 2 * W> al; stencil(f, st, al); const double b = face[D](f); const double h = vg_uf2(5, M::key(st), M::open(b, al)), p = M::par(vg_pos(1), vg_pos(2), Direction(D)); Conservative<E> x; int k = 0; w::each(x, [&](double& y) { y = b > 0.0 ? vg_uf2(100 + k, h, p) : 0.0; ++k; }); fluxes.store(f, x); }); }
  double dt() { K k{M{}}; return dt(k); }
  double dt(K& k) { auto b = faces(); b.lower[D] -= W; b.upper[D] += W - 1; return k.ComputeStableDt(w::sub(AsConst(states.view()), b), geom(), vg_pos(2 + z), Direction(D)); }
  double dt_spec() { double r = std::numeric_limits<double>::infinity(); w::cells(faces(), [&](Index<R> f) { std::array<Complete<E>, 2 * W> st; std::array<double, 2 * W> al; stencil(f, st, al); const double b = face[D](f); if (b > 0.0) r = std::min(r, vg_uf3(200, M::key(st), M::open(b, al), M::par(0.0, vg_pos(2), Direction(D)))); }); return r; }
};
#define SWEEP(R, W, a, b, c, D)                                                \
  using S##R##W##a##x##b##x##c##x##D = Sweep<R, W, a, b, c, D>;                \
  LAW(K03_flux_##R##d_w##W##_##a##x##b##x##c##_dir##D, S##R##W##a##x##b##x##c##x##D s; s.flux(); s.fluxes.put(o), S##R##W##a##x##b##x##c##x##D s; s.flux_spec(); s.fluxes.put(o)) \
  LAW(K03_dt_##R##d_w##W##_##a##x##b##x##c##_dir##D, S##R##W##a##x##b##x##c##x##D s; o.put(s.dt()), S##R##W##a##x##b##x##c##x##D s; o.put(s.dt_spec()))
SWEEP(2, 1, 3, 2, 1, 0) SWEEP(2, 1, 8, 1, 1, 1) SWEEP(2, 1, 9, 1, 1, 0) SWEEP(2, 1, 10, 2, 1, 1) SWEEP(2, 2, 5, 1, 1, 0) SWEEP(2, 2, 9, 1, 1, 1) SWEEP(3, 1, 3, 2, 2, 2)
// ------------------------------ K08: what the method has computed before leaves no trace
template <int R, int W, int F0, int F1, int F2, int D> struct Again {
  using S = Sweep<R, W, F0, F1, F2, D>; using T = Sweep<R, W, F1, F0, F2, (D + 1) % R>;
  static void before(typename S::K& k) { T t(300000); t.dt(k); t.flux(k); }
  static void flux(Out& o) { S s; typename S::K k{typename S::M{}}; before(k); s.flux(k); s.fluxes.put(o); }
  static void dt(Out& o) { S s; typename S::K k{typename S::M{}}; before(k); o.put(s.dt(k)); }
};
#define AGAIN(R, W, a, b, c, D) LAW(K08_kbn_flux_##R##d_w##W##_##a##x##b##x##c##_dir##D, (Again<R, W, a, b, c, D>::flux(o)), Sweep<R, W, a, b, c, D> s; s.flux(); s.fluxes.put(o)) LAW(K08_kbn_dt_##R##d_w##W##_##a##x##b##x##c##_dir##D, (Again<R, W, a, b, c, D>::dt(o)), Sweep<R, W, a, b, c, D> s; o.put(s.dt()))
AGAIN(2, 1, 3, 2, 1, 0) AGAIN(2, 1, 9, 2, 1, 1) AGAIN(2, 2, 9, 1, 1, 0) AGAIN(3, 1, 3, 2, 2, 2)
// ------------------------------------------------------- K04: boundary fluxes
/// unit vectors, rationally parametrised
inline Eigen::Vector2d unit2(int k) { const double t = vg_in(k); return {(1.0 - t * t) / (1.0 + t * t), 2.0 * t / (1.0 + t * t)}; }
inline Eigen::Vector3d unit3(int k) { const double s = vg_in(k), t = vg_in(k + 1), q = 1.0 + s * s + t * t; return {2.0 * s / q, 2.0 * t / q, (1.0 - s * s - t * t) / q}; }
template <int R> Eigen::Matrix<double, R, 1> unitv(int k) { if constexpr (R == 2) return unit2(k); else return unit3(k); }
template <class V> void putv(Out o, const V& v) { for (int i = 0; i < v.size(); ++i) o.put(v(i)); }
template <int R> using Mat = Eigen::Matrix<double, R, R>;
template <int R> Mat<R> rot(int a, int b) { return MakeRotation(unitv<R>(a), unitv<R>(b)); }
template <int R> void maps(Out o) { Eigen::Matrix<double, R, 1> p = rot<R>(1, 5) * unitv<R>(1); putv(o, p); }
template <int R> void inverse(Out o) { Mat<R> p = rot<R>(5, 1) * rot<R>(1, 5); putv(o, Eigen::Map<Eigen::Matrix<double, R * R, 1>>(p.data())); }
template <int R> void orthogonal(Out o) { Mat<R> m = rot<R>(1, 5), p = m.transpose() * m; putv(o, Eigen::Map<Eigen::Matrix<double, R * R, 1>>(p.data())); }
template <int R> void identity(Out o) { for (int i = 0; i < R * R; ++i) o.put(i % (R + 1) == 0 ? 1.0 : 0.0); }
#define ROT(R)                                                                 \
  LAW(K04_rotation_maps_##R, maps<R>(o), putv(o, unitv<R>(5))) LAW(K04_rotation_inverse_##R, inverse<R>(o), identity<R>(o)) LAW(K04_rotation_orthogonal_##R, orthogonal<R>(o), identity<R>(o))
ROT(2) ROT(3)
template <int R> struct Wall {
  int z;
  using E = PerfectGas<R>; using M = Masked<E, 1>; using K = KbnCutCellMethod<M, UnknownSolver<E>>; using Q = Complete<E>;
  template <class T, int NC = 0> using F = Field<R, T, 3, 3, 3, NC>;
  using CP = w::Patch<Q, 2, 2, (R > 2 ? 2 : 1)>; using FP = w::Patch<Conservative<E>, 2, 2, (R > 2 ? 2 : 1)>;
  static Index<R> at() { return lo<R>(0); }
  F<double> vol{50000 + z, at()}; F<double> face[3] = {{51000 + z, at()}, {52000 + z, at()}, {53000 + z, at()}}; F<double, R> nrm{54000 + z, at()}; F<int> mask{55000 + z, at()};
  CP states{1000 + z, at()}, refs{10000 + z, at()}, mirrors{20000 + z, at()}; FP fluxes{30000 + z, at()};
  explicit Wall(int z_ = 0) : z(z_) { w::cells(fluxes.box(), [&](Index<R> i) { int k = z + 56000 + 10 * int((i[0] - at()[0]) + 2 * (i[1] - at()[1])) + (R > 2 ? 40 * int(i[R - 1] - at()[R - 1]) : 0); auto n = unitv<R>(k); for (int d = 0; d < R; ++d) nrm(i, d) = -n[d]; }); }
  CutCellData<R> geom() { CutCellData<R> g{}; g.volume_fractions = vol.view(); g.boundary_normals = nrm.view(); for (int d = 0; d < R; ++d) g.face_fractions[d] = face[d].view(); return g; }
  bool cut(Index<R> i) { const double v = vol(i); if (v <= 0.0) return false; if (v < 1.0) return true; bool c = false; for (int d = 0; d < R; ++d) { auto r = i; r[d] += 1; c = c | (face[d](i) < 1.0) | (face[d](r) < 1.0); } return c; }
  Eigen::Matrix<double, R, 1> normal(Index<R> i) { Eigen::Matrix<double, R, 1> n; for (int d = 0; d < R; ++d) n[d] = -nrm(i, d); return n; } // into the fluid
  /// momentum in the frame whose first axis is the normal
  static Q turn(const Q& q, const Eigen::Matrix<double, R, 1>& n) { Q r = q; Eigen::Matrix<double, R, 1> e = Eigen::Matrix<double, R, 1>::Unit(0); Eigen::Matrix<double, R, 1> m = q.momentum.matrix(); Eigen::Matrix<double, R, R> t = MakeRotation(n, e); for (int i = 0; i < R; ++i) { double s = 0; for (int j = 0; j < R; ++j) s += t(i, j) * m[j]; r.momentum[i] = s; } return r; }
  static Q back(const Q& q, const Eigen::Matrix<double, R, 1>& n) { Q r = q; Eigen::Matrix<double, R, 1> e = Eigen::Matrix<double, R, 1>::Unit(0); Eigen::Matrix<double, R, R> t = MakeRotation(n, e); for (int i = 0; i < R; ++i) { double s = 0; for (int j = 0; j < R; ++j) s += t(j, i) * q.momentum[j]; r.momentum[i] = s; } return r; }
  static Q solve(const Q& l, const Q& r) { Q s; const double k = UnknownSolver<E>::h(l, r, Direction::X); int c = 0; w::each(s, [&](double& x) { x = vg_uf1(310 + c, k); ++c; }); return s; }
  static Q wall(const Q& q) { Q r = q; r.momentum[0] = -r.momentum[0]; return solve(r, q); }
  void flux(int d) { K k{M{}}; flux(k, d); }
  void flux(K& k, int d) { k.ComputeBoundaryFluxes(w::strided(fluxes.view()), w::strided(AsConst(states.view())), w::strided(AsConst(refs.view())), w::strided(AsConst(mirrors.view())), mask.template view<layout_stride>(), geom(), Duration(vg_pos(1 + z)), vg_pos(2 + z), Direction(d)); }
  void flux_spec(int d) {
    w::cells(fluxes.box(), [&](Index<R> i) {
      if (!cut(i)) return;
      const Q r = refs.load(i), q = turn(states.load(i), normal(i));
      const Q s = mask(i) ? solve(mirrors.load(i), q) : wall(q);
      Conservative<E> f; const double u = r.momentum[d] / r.density;
      f.density = r.density * u; f.energy = u * (r.energy + r.pressure);
      for (int k = 0; k < R; ++k) f.momentum[k] = u * r.momentum[k] + (k == d ? s.pressure : 0.0);
      fluxes.store(i, f);
    });
  }
  void pre() { K k{M{}}; pre(k); }
  void pre(K& k) { k.PreAdvanceHierarchy(w::strided(refs.view()), w::strided(AsConst(states.view())), geom()); }
  void pre_spec() { w::cells(fluxes.box(), [&](Index<R> i) { if (!cut(i)) return; const Q q = states.load(i); if (q.density > 0.0) refs.store(i, back(wall(turn(q, normal(i))), normal(i))); }); }
};
#define WALL(R, D) LAW(K04_flux_##R##d_##D, Wall<R> s; s.flux(D); s.fluxes.put(o), Wall<R> s; s.flux_spec(D); s.fluxes.put(o))
WALL(2, 0) WALL(2, 1) WALL(3, 0) WALL(3, 1) WALL(3, 2)
#define PRE(R) LAW(K04_reference_##R##d, Wall<R> s; s.pre(); s.refs.put(o), Wall<R> s; s.pre_spec(); s.refs.put(o))
PRE(2) PRE(3)
// ------------------------------ K08: what the method has computed before leaves no trace
template <int R> struct WallAgain {
  using S = Wall<R>; using K = typename S::K;
  static void before(K& k, int d) { S t(300000); t.pre(k); t.flux(k, d); }
  static void flux(Out& o, int d) { S s; K k{typename S::M{}}; before(k, (d + 1) % R); s.flux(k, d); s.fluxes.put(o); }
  static void pre(Out& o) { S s; K k{typename S::M{}}; before(k, 0); s.pre(k); s.refs.put(o); }
};
#define WAGAIN(R, D) LAW(K08_kbn_wall_##R##d_##D, (WallAgain<R>::flux(o, D)), Wall<R> s; s.flux(D); s.fluxes.put(o))
WAGAIN(2, 0) WAGAIN(2, 1)
LAW(K08_kbn_reference, WallAgain<2>::pre(o), Wall<2> s; s.pre(); s.refs.put(o))
