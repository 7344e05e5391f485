#include "patch.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/flux_method/FluxMethod.hpp"
using namespace fub;
constexpr Direction X = Direction::X, Y = Direction::Y, Z = Direction::Z;

/// A flux method about which nothing is known: the flux and the time step are
/// uninterpreted functions of the stencil, the time step size, the cell width
/// and the direction.
template <class E, int W> struct Unknown {
  using Equation = E;
  using Complete = ::fub::Complete<E>;
  using Conservative = ::fub::Conservative<E>;
  using CompleteArray = ::fub::CompleteArray<E>;
  using ConservativeArray = ::fub::ConservativeArray<E>;
  E eq{};
  const E& GetEquation() const noexcept { return eq; }
  E& GetEquation() noexcept { return eq; }
  static constexpr int GetStencilWidth() noexcept { return W; }
  template <class St> static double key(const St& st) { double h = 1.0; for (const auto& q : st) w::each(q, [&](double x) { h = vg_uf2(1, h, x); }); return h; }
  template <class St> static double key(const St& st, int l) { double h = 1.0; for (const auto& q : st) w::each_lane(q, l, [&](double x) { h = vg_uf2(1, h, x); }); return h; }
  static double par(double dt, double dx, Direction d) { return vg_uf3(2, dt, dx, 1.0 + int(d)); }
  void ComputeNumericFlux(Conservative& f, span<const Complete, 2 * W> st, Duration dt, double dx, Direction d) const { const double h = key(st), p = par(dt.count(), dx, d); int k = 0; w::each(f, [&](double& x) { x = vg_uf2(100 + k++, h, p); }); }
  void ComputeNumericFlux(ConservativeArray& f, span<const CompleteArray, 2 * W> st, Duration dt, double dx, Direction d) const { for (int l = 0; l < 8; ++l) { const double h = key(st, l), p = par(dt.count(), dx, d); int k = 0; w::each_lane(f, l, [&](double& x) { x = vg_uf2(100 + k++, h, p); }); } }
  double ComputeStableDt(span<const Complete, 2 * W> st, double dx, Direction d) const { return vg_uf2(200, key(st), par(0.0, dx, d)); }
  Array1d ComputeStableDt(span<const CompleteArray, 2 * W> st, double dx, Direction d) const { Array1d r; for (int l = 0; l < 8; ++l) r[l] = vg_uf2(200, key(st, l), par(0.0, dx, d)); return r; }
};
template <class E, int W, class Tag, int F0, int F1, int F2, int Dir> struct Sweep {
  static constexpr int R = E::Rank();
  using M = Unknown<E, W>;
  // one extra layer around everything the method may look at
  static constexpr int G = W + 1;
  using CP = w::Patch<Complete<E>, F0 + 2 * G, F1 + (R > 1 ? 2 * G : 0), F2 + (R > 2 ? 2 * G : 0)>;
  using FP = w::Patch<Conservative<E>, F0 + 2, F1 + (R > 1 ? 2 : 0), F2 + (R > 2 ? 2 : 0)>;
  static Index<R> lo(int g) { const int s[2][3] = {{-3, 5, -2}, {4, -6, 3}}; Index<R> i; for (int k = 0; k < R; ++k) i[k] = s[(F0 + F1 + F2 + Dir) & 1][k] - g; return i; }
  static IndexBox<R> faces() { const int n[3] = {F0, F1, F2}; IndexBox<R> b; b.lower = lo(0); for (int k = 0; k < R; ++k) b.upper[k] = b.lower[k] + n[k]; return b; }
  static void code(Out o) {
    CP states(1000, lo(G)); FP fluxes(20000, lo(1)); FluxMethod<M> m;
    // the patch handed to the method: exactly the cells it needs, or more
    m.ComputeNumericFluxes(Tag(), w::sub(fluxes.view(), faces()), w::strided(AsConst(states.view())), Duration(vg_pos(1)), vg_pos(2), Direction(Dir));
    fluxes.put(o);
  }
  static void tight(Out o) {
    CP states(1000, lo(G)); FP fluxes(20000, lo(1)); FluxMethod<M> m; auto b = faces(); b.lower[Dir] -= W; b.upper[Dir] += W - 1;
    m.ComputeNumericFluxes(Tag(), w::sub(fluxes.view(), faces()), w::sub(AsConst(states.view()), b), Duration(vg_pos(1)), vg_pos(2), Direction(Dir));
    fluxes.put(o);
  }
  static void spec(Out o) {
    CP states(1000, lo(G)); FP fluxes(20000, lo(1)); M m;
    w::cells(faces(), [&](Index<R> f) { std::array<Complete<E>, 2 * W> st; for (int k = 0; k < 2 * W; ++k) { auto c = f; c[Dir] += k - W; st[k] = states.load(c); } Conservative<E> x; m.ComputeNumericFlux(x, st, Duration(vg_pos(1)), vg_pos(2), Direction(Dir)); fluxes.store(f, x); });
    fluxes.put(o);
  }
  // the method has worked on another patch, with more faces, before
  static void again(Out o) {
    FluxMethod<M> m; { using CQ = w::Patch<Complete<E>, F0 + 2 * G + 2, F1 + (R > 1 ? 2 * G + 1 : 0), F2 + (R > 2 ? 2 * G : 0)>; using FQ = w::Patch<Conservative<E>, F0 + 4, F1 + (R > 1 ? 3 : 0), F2 + (R > 2 ? 2 : 0)>;
      CQ other(30000, lo(G)); FQ of(50000, lo(1)); auto b = faces(); b.upper[0] += 2; if constexpr (R > 1) b.upper[1] += 1;
      m.ComputeNumericFluxes(Tag(), w::sub(of.view(), b), w::strided(AsConst(other.view())), Duration(vg_pos(11)), vg_pos(12), Direction(Dir)); m.ComputeStableDt(Tag(), w::strided(AsConst(other.view())), vg_pos(12), Direction(Dir)); }
    CP states(1000, lo(G)); FP fluxes(20000, lo(1));
    m.ComputeNumericFluxes(Tag(), w::sub(fluxes.view(), faces()), w::strided(AsConst(states.view())), Duration(vg_pos(1)), vg_pos(2), Direction(Dir)); fluxes.put(o);
    auto b = faces(); b.lower[Dir] -= W; b.upper[Dir] += W - 1; o.put(m.ComputeStableDt(Tag(), w::sub(AsConst(states.view()), b), vg_pos(2), Direction(Dir)));
  }
  static void fresh(Out o) {
    CP states(1000, lo(G)); FP fluxes(20000, lo(1)); FluxMethod<M> m, n;
    m.ComputeNumericFluxes(Tag(), w::sub(fluxes.view(), faces()), w::strided(AsConst(states.view())), Duration(vg_pos(1)), vg_pos(2), Direction(Dir)); fluxes.put(o);
    auto b = faces(); b.lower[Dir] -= W; b.upper[Dir] += W - 1; o.put(n.ComputeStableDt(Tag(), w::sub(AsConst(states.view()), b), vg_pos(2), Direction(Dir)));
  }
  static void dt_code(Out o) { CP states(1000, lo(G)); FluxMethod<M> m; auto b = faces(); b.lower[Dir] -= W; b.upper[Dir] += W - 1; o.put(m.ComputeStableDt(Tag(), w::sub(AsConst(states.view()), b), vg_pos(2), Direction(Dir))); }
  static void dt_spec(Out o) { CP states(1000, lo(G)); M m; double r = std::numeric_limits<double>::infinity();
    w::cells(faces(), [&](Index<R> f) { std::array<Complete<E>, 2 * W> st; for (int k = 0; k < 2 * W; ++k) { auto c = f; c[Dir] += k - W; st[k] = states.load(c); } r = std::min(r, m.ComputeStableDt(st, vg_pos(2), Direction(Dir))); }); o.put(r); }
};
using Seq = execution::SequentialTag; using Simd = execution::SimdTag; using Omp = execution::OpenMpTag; using OmpSimd = execution::OpenMpSimdTag;
#define SWEEP(N, E, W, T, a, b, c, D)                                          \
  LAW(C02_##N##_w##W##_##T##_##a##x##b##x##c##_dir##D, (Sweep<E, W, T, a, b, c, D>::code(o)), (Sweep<E, W, T, a, b, c, D>::spec(o))) \
  LAW(C02_##N##_w##W##_##T##_##a##x##b##x##c##_dir##D##_tight, (Sweep<E, W, T, a, b, c, D>::tight(o)), (Sweep<E, W, T, a, b, c, D>::spec(o))) \
  LAW(C03_##N##_w##W##_##T##_##a##x##b##x##c##_dir##D, (Sweep<E, W, T, a, b, c, D>::dt_code(o)), (Sweep<E, W, T, a, b, c, D>::dt_spec(o)))
using Pg1 = PerfectGas<1>; using Pg3 = PerfectGas<3>; using Sw = ShallowWater;
#define TAGS(T)                                                                \
  SWEEP(pg1, Pg1, 1, T, 9, 1, 1, 0) SWEEP(pg1, Pg1, 2, T, 3, 1, 1, 0) SWEEP(sw, Sw, 1, T, 3, 2, 1, 0) SWEEP(sw, Sw, 1, T, 10, 2, 1, 1) SWEEP(sw, Sw, 2, T, 2, 3, 1, 1) SWEEP(sw, Sw, 2, T, 8, 1, 1, 0)
TAGS(Seq) TAGS(Simd)
SWEEP(sw, Sw, 1, Omp, 2, 3, 1, 1) SWEEP(sw, Sw, 1, OmpSimd, 9, 2, 1, 0)
// more than one and more than two full registers, and three space dimensions
#define WIDE(T) SWEEP(pg1, Pg1, 1, T, 16, 1, 1, 0) SWEEP(pg1, Pg1, 1, T, 26, 1, 1, 0) SWEEP(pg1, Pg1, 2, T, 17, 1, 1, 0) SWEEP(sw, Sw, 1, T, 18, 2, 1, 1) SWEEP(sw, Sw, 2, T, 1, 7, 1, 1) \
  SWEEP(pg3, Pg3, 1, T, 3, 2, 2, 0) SWEEP(pg3, Pg3, 1, T, 2, 3, 2, 1) SWEEP(pg3, Pg3, 1, T, 9, 1, 2, 2) SWEEP(pg3, Pg3, 2, T, 2, 2, 1, 1) SWEEP(pg3, Pg3, 2, T, 2, 1, 2, 2)
WIDE(Seq) WIDE(Simd)
SWEEP(pg3, Pg3, 1, Omp, 2, 2, 3, 0) SWEEP(pg3, Pg3, 1, Omp, 2, 1, 2, 2) SWEEP(pg3, Pg3, 1, OmpSimd, 9, 2, 2, 1) SWEEP(pg3, Pg3, 1, OmpSimd, 2, 1, 2, 2) SWEEP(pg1, Pg1, 1, Omp, 17, 1, 1, 0) SWEEP(pg1, Pg1, 1, OmpSimd, 17, 1, 1, 0)
#define AGAIN(N, E, W, T, a, b, c, D) LAW(R08_##N##_w##W##_##T##_dir##D, (Sweep<E, W, T, a, b, c, D>::again(o)), (Sweep<E, W, T, a, b, c, D>::fresh(o)))
AGAIN(pg1, Pg1, 2, Seq, 3, 1, 1, 0) AGAIN(pg1, Pg1, 2, Simd, 3, 1, 1, 0) AGAIN(sw, Sw, 1, Simd, 9, 2, 1, 0) AGAIN(sw, Sw, 1, Seq, 3, 2, 1, 1) AGAIN(sw, Sw, 1, Simd, 3, 2, 1, 1) AGAIN(sw, Sw, 1, OmpSimd, 9, 2, 1, 0) AGAIN(pg3, Pg3, 1, Simd, 2, 2, 1, 2)
