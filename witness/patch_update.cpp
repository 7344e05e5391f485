// SOURCES: src/HyperbolicPatchIntegrator.cpp
#include "w.hpp"
#include "fub/HyperbolicPatchIntegrator.hpp"
#include "fub/Duration.hpp"
#include "fub/Execution.hpp"
using namespace fub;
using w::Out;
constexpr Direction X = Direction::X, Y = Direction::Y, Z = Direction::Z;

/// A patch of R-1 space dimensions and one component dimension with ghost
/// cells: cells [lo - g, lo + n + g), symbols numbered from `base`
template <int R, int N0, int N1, int N2, int C> struct Field {
  static constexpr int n[4] = {N0, N1, N2, C};
  static constexpr int total() { int t = C; for (int i = 0; i < R - 1; ++i) t *= n[i]; return t; }
  std::array<double, total()> data;
  std::array<std::ptrdiff_t, R> origin{};
  explicit Field(int base) { for (int i = 0; i < total(); ++i) data[i] = base ? vg_in(base + i) : 0.0; }
  PatchDataView<double, R> view() {
    std::array<std::ptrdiff_t, R> e; for (int i = 0; i < R - 1; ++i) e[i] = n[i]; e[R - 1] = C;
    dynamic_extents<R> ext(e);
    mdspan<double, R> m(data.data(), ext);
    return PatchDataView<double, R>(m, origin);
  }
  // independent address computation
  double& at(const std::array<int, 4>& i) { int o = 0, s = 1; for (int k = 0; k < R - 1; ++k) { o += (i[k] - int(origin[k])) * s; s *= n[k]; } return data[o + i[3] * s]; }
};
// cells updated: [a, b) per axis inside a field of G ghost cells
template <class Tag, int R, int N0, int N1, int N2, int C, int G, int Dir> struct Case {
  static constexpr int D = R - 1;
  using Cells = Field<R, N0 + 2 * G, ((D > 1) ? N1 + 2 * G : 1), ((D > 2) ? N2 + 2 * G : 1), C>;
  using Faces = Field<R, N0 + 2 * G + (Dir == 0), ((D > 1) ? N1 + 2 * G + (Dir == 1) : 1), ((D > 2) ? N2 + 2 * G + (Dir == 2) : 1), C>;
  static constexpr int n[3] = {N0, N1, N2};
  static IndexBox<R> box(const std::array<std::ptrdiff_t, R>& o) { IndexBox<R> b; for (int i = 0; i < D; ++i) { b.lower[i] = o[i] + G; b.upper[i] = b.lower[i] + n[i]; } b.lower[D] = 0; b.upper[D] = C; return b; }
  static void origin(std::array<std::ptrdiff_t, R>& o) { const int s[2][3] = {{-3, 5, -2}, {4, -6, 3}}; for (int i = 0; i < D; ++i) o[i] = s[(N0 + N1 + N2 + Dir) & 1][i] - G; o[D] = 0; }
  static void code(Out out, bool inplace) {
    Cells next(1000), prev(4000); Faces flux(7000); origin(next.origin); origin(prev.origin); origin(flux.origin);
    const auto b = box(next.origin); IndexBox<R> f = Grow(b, Direction(Dir), {0, 1});
    const double dt = vg_pos(1), dx = vg_pos(2);
    auto& dst = inplace ? prev : next;
    HyperbolicPatchIntegrator<Tag>::UpdateConservatively(dst.view().Subview(b), prev.view().Subview(b), flux.view().Subview(f), Duration(dt), dx, Direction(Dir));
    for (double x : dst.data) out.put(x);
  }
  static void spec(Out out, bool inplace) {
    Cells next(1000), prev(4000); Faces flux(7000); origin(next.origin); origin(prev.origin); origin(flux.origin);
    const auto b = box(next.origin); const double dt = vg_pos(1), dx = vg_pos(2);
    auto& dst = inplace ? prev : next;
    for (int c = 0; c < C; ++c) for (int k = 0; k < (D > 2 ? N2 : 1); ++k) for (int j = 0; j < (D > 1 ? N1 : 1); ++j) for (int i = 0; i < N0; ++i) {
      std::array<int, 4> p{int(b.lower[0]) + i, D > 1 ? int(b.lower[D > 1 ? 1 : 0]) + j : 0, D > 2 ? int(b.lower[D > 2 ? 2 : 0]) + k : 0, c}, q = p; q[Dir] += 1;
      dst.at(p) = prev.at(p) + dt / dx * (flux.at(p) - flux.at(q));
    }
    for (double x : dst.data) out.put(x);
  }
  // total amount: sum over a row of cells changes by the flux through its ends
  static void total(Out out) {
    Cells next(1000), prev(4000); Faces flux(7000); origin(next.origin); origin(prev.origin); origin(flux.origin);
    const auto b = box(next.origin); IndexBox<R> f = Grow(b, Direction(Dir), {0, 1});
    HyperbolicPatchIntegrator<Tag>::UpdateConservatively(next.view().Subview(b), prev.view().Subview(b), flux.view().Subview(f), Duration(vg_pos(1)), vg_pos(2), Direction(Dir));
    for (int c = 0; c < C; ++c) { double s = 0; each(b, c, [&](auto p) { s += vg_pos(2) * (next.at(p) - prev.at(p)); }); out.put(s); }
  }
  static void total_spec(Out out) {
    Faces flux(7000); origin(flux.origin); const auto b = box(flux.origin);
    for (int c = 0; c < C; ++c) { double s = 0; each(b, c, [&](auto p) { if (p[Dir] == int(b.lower[Dir])) { auto q = p; q[Dir] += n[Dir]; s += vg_pos(1) * (flux.at(p) - flux.at(q)); } }); out.put(s); }
  }
  template <class F> static void each(const IndexBox<R>& b, int c, F f) {
    for (int k = 0; k < (D > 2 ? N2 : 1); ++k) for (int j = 0; j < (D > 1 ? N1 : 1); ++j) for (int i = 0; i < N0; ++i)
      f(std::array<int, 4>{int(b.lower[0]) + i, D > 1 ? int(b.lower[D > 1 ? 1 : 0]) + j : 0, D > 2 ? int(b.lower[D > 2 ? 2 : 0]) + k : 0, c});
  }
};
using Seq = execution::SequentialTag; using Simd = execution::SimdTag; using Omp = execution::OpenMpTag; using OmpSimd = execution::OpenMpSimdTag;
#define CASES(T, R, a, b, c, C, G, D)                                          \
  LAW(C01_##T##_##R##d_##a##x##b##x##c##_dir##D, (Case<T, R, a, b, c, C, G, D>::code(o, false)), (Case<T, R, a, b, c, C, G, D>::spec(o, false))) \
  LAW(C01_##T##_##R##d_##a##x##b##x##c##_dir##D##_inplace, (Case<T, R, a, b, c, C, G, D>::code(o, true)), (Case<T, R, a, b, c, C, G, D>::spec(o, true))) \
  LAW(C01_##T##_##R##d_##a##x##b##x##c##_dir##D##_total, (Case<T, R, a, b, c, C, G, D>::total(o)), (Case<T, R, a, b, c, C, G, D>::total_spec(o)))
#define TAGS(T) CASES(T, 2, 1, 1, 1, 2, 0, 0) CASES(T, 2, 4, 1, 1, 2, 1, 0) CASES(T, 2, 7, 1, 1, 3, 1, 0) CASES(T, 3, 3, 2, 1, 2, 1, 0) CASES(T, 3, 4, 3, 1, 2, 1, 1) CASES(T, 3, 5, 2, 1, 1, 0, 1) \
  CASES(T, 4, 3, 2, 2, 1, 0, 0) CASES(T, 4, 2, 2, 3, 2, 0, 1) CASES(T, 4, 3, 2, 2, 1, 1, 2)
TAGS(Seq) TAGS(Simd) CASES(Omp, 2, 5, 1, 1, 2, 1, 0) CASES(Omp, 3, 3, 2, 1, 2, 0, 1) CASES(OmpSimd, 2, 5, 1, 1, 2, 1, 0) CASES(OmpSimd, 3, 3, 2, 1, 2, 0, 1)
// more than one and more than two full registers, and three space dimensions for every policy
#define WIDE(T) CASES(T, 2, 16, 1, 1, 2, 1, 0) CASES(T, 2, 33, 1, 1, 2, 1, 0) CASES(T, 3, 17, 2, 1, 2, 1, 0) CASES(T, 3, 9, 2, 1, 2, 1, 1) CASES(T, 3, 2, 9, 1, 2, 0, 1) CASES(T, 4, 9, 2, 2, 2, 1, 2) CASES(T, 4, 2, 2, 5, 3, 1, 2)
WIDE(Seq) WIDE(Simd) WIDE(Omp) WIDE(OmpSimd)
#define TAGS3(T) CASES(T, 4, 3, 2, 2, 1, 0, 0) CASES(T, 4, 2, 2, 3, 2, 0, 1) CASES(T, 4, 3, 2, 2, 1, 1, 2)
TAGS3(Omp) TAGS3(OmpSimd)
