// SOURCES: src/AMReX/cutcell/FillCutCellData.cpp
// How the open part of a face divides into unshielded and shielded parts
#include "patch.hpp"
#include "fub/AMReX/FillCutCellData.hpp"
namespace cc = fub::amrex::cutcell;
/// a number that is zero or positive
inline double open(int k) { return vg_bool(50000 + k) ? vg_pos(1000 + k) : 0.0; }
template <int R> struct Fractions {
  static constexpr int N = 512; double beta[N], o[8][N]; std::array<std::ptrdiff_t, std::size_t(R)> lo, n, blo, bn; Direction dir;
  /// faces `n` from `lo`, known open parts one more on both sides in `d` (and `g` more in every direction)
  Fractions(std::array<std::ptrdiff_t, std::size_t(R)> l, std::array<std::ptrdiff_t, std::size_t(R)> m, int d, int g = 0) : lo(l), n(m), blo(l), bn(m), dir(Direction(d)) {
    for (int k = 0; k < R; ++k) { const int w = g + (k == d); blo[std::size_t(k)] -= w; bn[std::size_t(k)] += 2 * w; }
    int total = 1; for (auto x : bn) total *= int(x); for (int k = 0; k < total; ++k) beta[k] = open(k); for (int p = 0; p < 8; ++p) for (int k = 0; k < N; ++k) o[p][k] = 0.0; }
  int count() const { int t = 1; for (auto x : n) t *= int(x); return t; }
  fub::StridedDataView<double, R> view(int p) { return fub::PatchDataView<double, R>(fub::mdspan<double, R>(o[p], n), lo).Subview(fub::IndexBox<R>{lo, hi(lo, n)}); }
  static std::array<std::ptrdiff_t, std::size_t(R)> hi(std::array<std::ptrdiff_t, std::size_t(R)> l, const std::array<std::ptrdiff_t, std::size_t(R)>& m) { for (std::size_t k = 0; k < R; ++k) l[k] += m[k]; return l; }
  void run() { fub::PatchDataView<const double, R> b(fub::mdspan<const double, R>(beta, bn), blo); cc::FillCutCellData(view(0), view(1), view(2), view(3), view(4), view(5), view(6), view(7), b, dir); }
  /// the open part of face k (in the order of the results), `s` faces further in the direction
  double at(int k, int s) const { int off = 0, stride = 1; for (int q = 0; q < R; ++q) { const auto z = std::size_t(q); const int i = k % int(n[z]); k /= int(n[z]); off += (i + int(lo[z] - blo[z]) + (q == int(dir) ? s : 0)) * stride; stride *= int(bn[z]); } return beta[off]; }
  double least(int k) const { const double m = at(k, 0), l = at(k, -1), r = at(k, 1), a = l < r ? l : r; return a < m ? a : m; }
};
template <class G> void parts(Out& o, G g) { g.run(); for (int p = 0; p < 8; ++p) for (int k = 0; k < g.count(); ++k) o.put(g.o[p][k]); }
/// unshielded: open on both sides; shielded from one side: closed there, open on the other; doubly: closed on both
template <class G> void wanted(Out& o, G g) {
  for (int p = 0; p < 8; ++p) for (int k = 0; k < g.count(); ++k) { const double m = g.at(k, 0), l = g.at(k, -1), r = g.at(k, 1), ll = l < m ? l : m, rr = r < m ? r : m; 
    const double both = g.least(k), any = ll < rr ? rr : ll; const double v[4] = {both, rr - both, ll - both, m - any};
    o.put(p < 4 ? v[p] : m == 0.0 ? 0.0 : v[p - 4] / m); }
}
template <class G> void sums(Out& o, G g) { g.run(); for (int k = 0; k < g.count(); ++k) { o.put(g.o[0][k] + g.o[1][k] + g.o[2][k] + g.o[3][k]); o.put(g.o[4][k] + g.o[5][k] + g.o[6][k] + g.o[7][k]); } }
template <class G> void whole(Out& o, G g) { for (int k = 0; k < g.count(); ++k) { o.put(g.at(k, 0)); o.put(g.at(k, 0) == 0.0 ? 0.0 : 1.0); } }
using F2 = Fractions<2>; using F3 = Fractions<3>;
#define PARTS(N, ...) LAW(A02_parts_##N, parts(o, __VA_ARGS__), wanted(o, __VA_ARGS__)) LAW(A02_sum_##N, sums(o, __VA_ARGS__), whole(o, __VA_ARGS__))
PARTS(row_x, F2({-3, 4}, {11, 1}, 0)) PARTS(row_y, F2({-3, 4}, {11, 1}, 1)) PARTS(rows_x, F2({2, -7}, {3, 3}, 0, 1)) PARTS(rows_y, F2({2, -7}, {5, 2}, 1, 1))
PARTS(box_x, F3({1, 2, -3}, {3, 2, 2}, 0)) PARTS(box_y, F3({1, 2, -3}, {2, 2, 2}, 1)) PARTS(box_z, F3({1, 2, -3}, {5, 1, 2}, 2)) PARTS(box_z_wide, F3({-1, 2, 3}, {2, 2, 1}, 2, 1))
