// Patches with symbolic contents, seen through the repository's views
#ifndef VERIF_PATCH_HPP
#define VERIF_PATCH_HPP
#include "w.hpp"
#include "fub/State.hpp"
#include "fub/StateArray.hpp"
#include "fub/StateRow.hpp"
#include "fub/ForEach.hpp"
#include "fub/Duration.hpp"
#include "fub/Execution.hpp"
using namespace fub;
using w::Out;
namespace w {
template <class D> constexpr int depth() { if constexpr (std::is_same_v<D, ScalarDepth>) return 1; else return D::value; }
/// storage for all variables of a state on the cells [lower, lower + n)
template <class S, int N0, int N1 = 1, int N2 = 1> struct Patch {
  using Eq = typename S::Equation;
  static constexpr int R = Eq::Rank();
  static constexpr int cells() { return N0 * (R > 1 ? N1 : 1) * (R > 2 ? N2 : 1); }
  static constexpr int n[3] = {N0, N1, N2};
  static constexpr int kMax = 8;
  std::array<std::array<double, cells() * 3>, kMax> data;
  Index<R> lower{};
  std::array<int, kMax> depth_{};
  int vars = 0;
  IndexBox<R> box() const { IndexBox<R> b; b.lower = lower; for (int i = 0; i < R; ++i) b.upper[i] = lower[i] + n[i]; return b; }
  template <class V> void setup(V& v) {
    vars = 0;
    ForEachVariable([&](auto& pdv) {
      using P = std::decay_t<decltype(pdv)>;
      std::array<std::ptrdiff_t, P::rank()> e{}, o{};
      for (int i = 0; i < R; ++i) { e[i] = n[i]; o[i] = lower[i]; }
      if constexpr (P::rank() == R + 1) e[R] = depth_[vars];
      dynamic_extents<P::rank()> ext(e);
      mdspan<double, P::rank()> m(data[vars].data(), ext);
      pdv = P(m, o);
      ++vars;
    }, v);
  }
  BasicView<S> view() {
    set_depths();
    BasicView<S> v; setup(v); return v;
  }
  void set_depths() {
    int k = 0;
    BasicView<S> v;
    S s{};
    ForEachVariable([&](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) depth_[k] = 1; else depth_[k] = int(x.size()); ++k; }, s);
    vars = k;
  }
  explicit Patch(int base, Index<R> lo) : lower(lo) { set_depths(); for (int v = 0; v < vars; ++v) for (int i = 0; i < cells() * depth_[v]; ++i) data[v][i] = base ? vg_in(base + 1000 * v + i) : 0.0; }
  int offset(const Index<R>& i) const { int o = 0, s = 1; for (int k = 0; k < R; ++k) { o += int(i[k] - lower[k]) * s; s *= n[k]; } return o; }
  // independent load/store
  S load(const Index<R>& i) const { S s{}; int v = 0; ForEachVariable([&](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) x = data[v][offset(i)]; else for (int c = 0; c < int(x.size()); ++c) x[c] = data[v][offset(i) + c * cells()]; ++v; }, s); return s; }
  void store(const Index<R>& i, const S& s) { int v = 0; ForEachVariable([&](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) data[v][offset(i)] = x; else for (int c = 0; c < int(x.size()); ++c) data[v][offset(i) + c * cells()] = x[c]; ++v; }, s); }
  void put(Out& o) const { for (int v = 0; v < vars; ++v) for (int i = 0; i < cells() * depth_[v]; ++i) o.put(data[v][i]); }
};
template <class V> auto strided(V v) {
  View<typename V::State> s;
  ForEachVariable([](auto& d, auto& p) { d = p.Subview(p.Box()); }, s, v);
  return s;
}
template <class V, int R> auto sub(V v, const IndexBox<R>& b) {
  View<typename V::State> s;
  ForEachVariable([&](auto& d, auto& p) { if constexpr (std::decay_t<decltype(p)>::rank() == R) d = p.Subview(b); else { auto pb = p.Box(); d = p.Subview(Embed<R + 1>(b, {pb.lower[R], pb.upper[R]})); } }, s, v);
  return s;
}
template <int R, class F> void cells(const IndexBox<R>& b, F f) {
  const std::ptrdiff_t n0 = b.upper[0] - b.lower[0], n1 = R > 1 ? b.upper[R > 1 ? 1 : 0] - b.lower[R > 1 ? 1 : 0] : 1, n2 = R > 2 ? b.upper[R > 2 ? 2 : 0] - b.lower[R > 2 ? 2 : 0] : 1;
  for (int k = 0; k < n2; ++k) for (int j = 0; j < n1; ++j) for (int i = 0; i < n0; ++i) { Index<R> x = b.lower; x[0] += i; if constexpr (R > 1) x[1] += j; if constexpr (R > 2) x[2] += k; f(x); }
}
// every scalar of a state, in order; lane of array states
template <class S, class F> void each(S& s, F f) { ForEachVariable([&](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) f(x); else for (int i = 0; i < int(x.size()); ++i) f(x[i]); }, s); }
template <class S, class F> void each_lane(S& s, int l, F f) { ForEachVariable([&](auto& x) { if constexpr (std::decay_t<decltype(x)>::RowsAtCompileTime == 1) f(x(l)); else for (int i = 0; i < x.rows(); ++i) f(x(i, l)); }, s); }
} // namespace w
#endif
