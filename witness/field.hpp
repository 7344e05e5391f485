#ifndef VERIF_FIELD_HPP
#define VERIF_FIELD_HPP
#include "patch.hpp"
// storage of one quantity with nc components on the cells [lower, lower + n)
template <int R, class T, int N0, int N1, int N2, int NC = 0> struct Field {
  static constexpr int RR = R + (NC > 0);
  static constexpr int C = NC ? NC : 1;
  static constexpr int n[3] = {N0, N1, R > 2 ? N2 : 1};
  static constexpr int cells = n[0] * n[1] * n[2];
  std::array<T, cells * C> data;
  Index<R> lower;
  Field(int base, Index<R> lo) : lower(lo) { for (int i = 0; i < cells * C; ++i) { if constexpr (std::is_same_v<T, int>) data[i] = base ? vg_int(base + i) : 0; else data[i] = base ? vg_in(base + i) : 0.0; } }
  template <class L = layout_left> PatchDataView<T, RR, L> view() {
    std::array<std::ptrdiff_t, RR> e{}, o{};
    for (int k = 0; k < R; ++k) { e[k] = n[k]; o[k] = lower[k]; }
    if constexpr (NC > 0) e[R] = NC;
    mdspan<T, RR> m(data.data(), dynamic_extents<RR>(e));
    PatchDataView<T, RR> v(m, o);
    if constexpr (std::is_same_v<L, layout_left>) return v; else return v.Subview(v.Box());
  }
  T& operator()(Index<R> i, int c = 0) { int o = 0, s = 1; for (int k = 0; k < R; ++k) { o += int(i[k] - lower[k]) * s; s *= n[k]; } return data[o + c * cells]; }
  IndexBox<R> box() const { IndexBox<R> b; b.lower = lower; for (int k = 0; k < R; ++k) b.upper[k] = lower[k] + n[k]; return b; }
  void put(Out& o) const { for (auto x : data) o.put(double(x)); }
};
template <int R> Index<R> lo(int g, int v = 0) { const int s[2][3] = {{-3, 5, -2}, {4, -6, 3}}; Index<R> i; for (int k = 0; k < R; ++k) i[k] = s[v & 1][k] - g; return i; }
#endif
