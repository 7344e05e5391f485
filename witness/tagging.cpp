// SOURCES: src/equations/PerfectGas.cpp src/equations/ShallowWater.cpp src/tagging_method/TagBuffer.cpp src/tagging_method/TagCutCells.cpp
// Marking cells for refinement
#include "patch.hpp"
#include "pg.hpp"
#include "field.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/tagging_method/GradientDetector.hpp"
#include "fub/tagging_method/TagBuffer.hpp"
#include "fub/tagging_method/TagCutCells.hpp"
template <class V> void any(Out& o, const V& v) { for (auto x : v) o.put(x != 0 ? 1.0 : 0.0); }
template <int R, int A, int B, int C> struct Tags : Field<R, char, A, B, C> {
  using F = Field<R, char, A, B, C>;
  explicit Tags(Index<R> l, int base = 500) : F(0, l) { for (int i = 0; i < F::cells; ++i) this->data[i] = vg_bool(base + i) ? char(1) : char(0); }
  auto strided() { return F::template view<layout_stride>(); }
  void put(Out& o) const { any(o, this->data); }
};
// ------------------------------------------------------------ T01: gradients
// a quantity that works for cells and for whole rows of cells
struct Rho { template <class S> auto operator()(const S& s) const { return s.density; } };
struct Prs { template <class S> auto operator()(const S& s) const { return s.pressure; } };
struct Hgt { template <class S> auto operator()(const S& s) const { return s.height; } };
template <class Eq> struct QRho { double operator()(const Complete<Eq>& s) const { return s.density; } };
template <class Eq> struct QPrs { double operator()(const Complete<Eq>& s) const { return s.pressure; } };
inline double mag(double x) { return x < 0.0 ? -x : x; }
inline bool jump(double a, double b, double tol) { return mag(a - b) / (mag(a) + mag(b)) > tol; }
// states on n + 2 cells per direction, tags on the inner cells or on all cells
template <class Eq, int A, int B, int C, int G> struct Det {
  static constexpr int R = Eq::Rank(); using S = Complete<Eq>;
  static constexpr int b_ = (R > 1 ? B + 2 : 1), c_ = (R > 2 ? C + 2 : 1);
  int z; explicit Det(int z_ = 0) : z(z_) {}
  w::Patch<S, A + 2, b_, c_> p{1000 + z, lo<R>(1, A + B + C)};
  Tags<R, A + 2 - 2 * G, (R > 1 ? B + 2 - 2 * G : 1), (R > 2 ? C + 2 - 2 * G : 1)> t{lo<R>(1 - G, A + B + C), 500 + z};
  Field<R, double, A + 2, b_, c_> vol{90000 + z, lo<R>(1, A + B + C)};
  template <class... Ps> void run(const Ps&... ps) { Eq eq{}; int k = 0; GradientDetector d{eq, std::pair<Ps, double>(ps, vg_pos(1 + k++))...}; d.TagCellsForRefinement(t.strided(), View<const S>(w::strided(AsConst(p.view())))); }
  template <class... Ps> void cut(const Ps&... ps) { Eq eq{}; int k = 0; GradientDetector d{eq, std::pair<Ps, double>(ps, vg_pos(1 + k++))...}; d.TagCellsForRefinement(t.strided(), View<const S>(w::strided(AsConst(p.view()))), PatchDataView<const double, R, layout_stride>(vol.template view<layout_stride>())); }
  template <class P> void one(const P& q, double tol, bool masked) { w::cells(t.box(), [&](Index<R> i) { bool hit = false; for (int d = 0; d < R; ++d) { auto l = i, r = i; l[d] -= 1; r[d] += 1; if (!Contains(p.box(), l) || !Contains(p.box(), r)) continue; const double x = q(p.load(i)); bool h = jump(q(p.load(l)), x, tol) | jump(x, q(p.load(r)), tol); if (masked) h = h & (vol(l) > 0.0) & (vol(i) > 0.0) & (vol(r) > 0.0); hit = hit | h; } t(i) = hit ? char(1) : t(i); }); }
  template <class... Ps> void spec(bool masked, const Ps&... ps) { int k = 0; (one(ps, vg_pos(1 + k++), masked), ...); }
  void zero() { for (auto& x : p.data) for (auto& y : x) y = 0.0; }
  void put(Out& o) { t.put(o); }
};
#define DET(N, EQ, A, B, C, G, ...) using D_##N = Det<EQ, A, B, C, G>; LAW(T01_##N, D_##N d; d.run(__VA_ARGS__); d.put(o), D_##N d; d.spec(false, __VA_ARGS__); d.put(o))
#define CUTDET(N, EQ, A, B, C, G, ...) using DC_##N = Det<EQ, A, B, C, G>; LAW(T01_cut_##N, DC_##N d; d.cut(__VA_ARGS__); d.put(o), DC_##N d; d.spec(true, __VA_ARGS__); d.put(o))
template <class E> using Cp = Complete<E>; using P1 = PerfectGas<1>; using P2 = PerfectGas<2>; using P3 = PerfectGas<3>;
DET(scalar_1d, P1, 5, 1, 1, 1, QRho<P1>{}) DET(scalar_1d_all, P1, 5, 1, 1, 0, QRho<P1>{})
DET(scalar_2d, P2, 3, 4, 1, 1, QRho<P2>{}) DET(scalar_2d_all, P2, 3, 3, 1, 0, QPrs<P2>{}) DET(scalar_2d_two, P2, 3, 3, 1, 1, QRho<P2>{}, QPrs<P2>{})
DET(scalar_3d, P3, 2, 3, 2, 1, QRho<P3>{})
DET(array_1d, P1, 5, 1, 1, 1, Rho{}) DET(array_1d_8, P1, 8, 1, 1, 1, Rho{}) DET(array_1d_17, P1, 17, 1, 1, 1, Rho{}) DET(array_1d_two, P1, 9, 1, 1, 1, Rho{}, Prs{})
DET(array_2d, P2, 3, 3, 1, 1, Rho{}) DET(array_2d_10, P2, 10, 2, 1, 1, Rho{}) DET(array_sw, ShallowWater, 9, 2, 1, 1, Hgt{})
DET(array_3d, P3, 9, 2, 2, 1, Rho{})
DET(array_1d_all, P1, 8, 1, 1, 0, Rho{}) DET(array_2d_all, P2, 8, 2, 1, 0, Rho{})
#define ZERO(N, EQ, A, B, C, ...) using Z_##N = Det<EQ, A, B, C, 1>; LAW(T01_zero_##N, Z_##N d; d.zero(); d.run(__VA_ARGS__); d.put(o), Z_##N d; d.put(o))
ZERO(scalar, P2, 3, 3, 1, QRho<P2>{}) ZERO(array, P2, 9, 2, 1, Rho{})
CUTDET(2d, P2, 3, 3, 1, 1, QRho<P2>{}) CUTDET(2d_all, P2, 3, 3, 1, 0, QPrs<P2>{}) CUTDET(2d_two, P2, 3, 2, 1, 1, QRho<P2>{}, QPrs<P2>{}) CUTDET(3d, P3, 2, 2, 2, 1, QRho<P3>{})
// ------------------------------ R08: what the detector has marked before leaves no trace
template <class Eq, int A, int B, int C, int G, bool Cut, class P> void detect(Out& o, bool used, const P& q) {
  using T = Det<Eq, A, B, C, G>; Eq eq{}; GradientDetector d{eq, std::pair<P, double>(q, vg_pos(1))};
  auto use = [&](T& s) { const View<const typename T::S> v(w::strided(AsConst(s.p.view()))); if constexpr (Cut) d.TagCellsForRefinement(s.t.strided(), v, PatchDataView<const double, T::R, layout_stride>(s.vol.template view<layout_stride>())); else d.TagCellsForRefinement(s.t.strided(), v); };
  if (used) { T t(300000); use(t); }
  T s; use(s); s.put(o);
}
#define TWICE(N, C, EQ, a, b, c, G, ...) LAW(R08_detector_##N, (detect<EQ, a, b, c, G, C>(o, true, __VA_ARGS__)), (detect<EQ, a, b, c, G, C>(o, false, __VA_ARGS__)))
TWICE(scalar_2d, false, P2, 3, 3, 1, 1, QRho<P2>{}) TWICE(array_1d, false, P1, 9, 1, 1, 1, Rho{}) TWICE(array_2d, false, P2, 9, 2, 1, 1, Prs{}) TWICE(cut_2d, true, P2, 3, 3, 1, 1, QRho<P2>{})
// --------------------------------------------------------------- T02: buffer
template <int R, int A, int B, int C, int W, int V> struct Buf {
  Tags<R, A, B, C> t{lo<R>(0, V)};
  void run() { TagBuffer(W).TagCellsForRefinement(t.strided()); }
  void spec() { auto s = t; w::cells(t.box(), [&](Index<R> i) { bool hit = false; w::cells(t.box(), [&](Index<R> j) { bool near = true; for (int k = 0; k < R; ++k) near = near && i[k] - j[k] <= W && j[k] - i[k] <= W; if (near) hit = hit | (s(j) != 0); }); t(i) = hit ? char(1) : char(0); }); }
  void put(Out& o) { t.put(o); }
};
#define BUF(N, R, A, B, C, W) using B_##N = Buf<R, A, B, C, W, 0>; LAW(T02_##N, B_##N b; b.run(); b.put(o), B_##N b; b.spec(); b.put(o)) using D_##N = Buf<R, A, B, C, W, 1>; LAW(T02_##N##_origin, D_##N b; b.run(); b.put(o), D_##N b; b.spec(); b.put(o))
BUF(1d_w0, 1, 5, 1, 1, 0) BUF(1d_w1, 1, 7, 1, 1, 1) BUF(1d_w2, 1, 9, 1, 1, 2) BUF(1d_w4, 1, 6, 1, 1, 4) BUF(2d_w0, 2, 3, 4, 1, 0) BUF(2d_w1, 2, 4, 5, 1, 1) BUF(2d_w2, 2, 5, 4, 1, 2) BUF(3d_w1, 3, 3, 3, 2, 1) BUF(3d_w0, 3, 2, 2, 2, 0) BUF(3d_w2, 3, 4, 2, 2, 2)
// ------------------------------------------------------------- T03: cut cells
template <int R, int V = 0> struct Cut {
  Tags<R, 4, 3, 2> t{lo<R>(0, V)}; Field<R, double, 4, 4, 3> v{1000, lo<R>(1, V)};
  void run() { TagCutCells().TagCellsForRefinement(t.strided(), PatchDataView<const double, R, layout_stride>(v.template view<layout_stride>())); }
  void spec() { w::cells(t.box(), [&](Index<R> i) { if (!Contains(v.box(), i)) return; const double x = v(i); t(i) = ((0.0 < x) & (x < 1.0)) ? char(1) : t(i); }); }
  void put(Out& o) { t.put(o); }
};
#define CUTS(R) LAW(T03_cut_##R##d, Cut<R> c; c.run(); c.put(o), Cut<R> c; c.spec(); c.put(o))
CUTS(2) CUTS(3)
#define CUTO(R) using CutO##R = Cut<R, 1>; LAW(T03_cut_##R##d_origin, CutO##R c; c.run(); c.put(o), CutO##R c; c.spec(); c.put(o))
CUTO(2) CUTO(3)
