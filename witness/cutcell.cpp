// SOURCES: src/equations/PerfectGas.cpp src/CutCellData.cpp src/cutcell_method/KbnStabilisation.cpp src/cutcell_method/MyStabilisation.cpp
// Cut cells: stabilised fluxes, boundary fluxes, masked sweeps, geometry
#include "patch.hpp"
#include "pg.hpp"
#include "field.hpp"
#include "fub/cutcell_method/KbnStabilisation.hpp"
#include "fub/equations/ShallowWater.hpp"
namespace fub {
void MyStab_ComputeStableFluxComponents(const PatchDataView<double, 2, layout_stride>&, const PatchDataView<double, 2, layout_stride>&, const PatchDataView<double, 2, layout_stride>&, const PatchDataView<const double, 2, layout_stride>&, const PatchDataView<const double, 2, layout_stride>&, const CutCellData<2>&, Duration, double, Direction);
void MyStab_ComputeStableFluxComponents(const PatchDataView<double, 3, layout_stride>&, const PatchDataView<double, 3, layout_stride>&, const PatchDataView<double, 3, layout_stride>&, const PatchDataView<const double, 3, layout_stride>&, const PatchDataView<const double, 3, layout_stride>&, const CutCellData<3>&, Duration, double, Direction);
}
// ------------------------------------------------ K01: stabilised cut-cell flux
template <int R, int D, int N> struct Stab {
  // faces [0, N) in x and a few in the other directions, with one layer around
  static constexpr int N1 = 2, N2 = 2;
  template <class T, int NC = 0> using F = Field<R, T, N + 2, N1 + 2, N2 + 2, NC>;
  F<double> stable{20000, lo<R>(1)}, sl{22000, lo<R>(1)}, sr{24000, lo<R>(1)}, reg{26000, lo<R>(1)}, bnd{28000, lo<R>(1)};
  F<double> us[3] = {{30000, lo<R>(1)}, {31000, lo<R>(1)}, {32000, lo<R>(1)}};
  F<double> bl[3] = {{33000, lo<R>(1)}, {34000, lo<R>(1)}, {35000, lo<R>(1)}};
  F<double> br[3] = {{36000, lo<R>(1)}, {37000, lo<R>(1)}, {38000, lo<R>(1)}};
  F<double, R> cen{40000, lo<R>(1)};
  IndexBox<R> faces() const { IndexBox<R> b; b.lower = lo<R>(0); const int n[3] = {N, N1, N2}; for (int k = 0; k < R; ++k) b.upper[k] = b.lower[k] + n[k]; return b; }
  CutCellData<R> geom() { CutCellData<R> g{}; for (int d = 0; d < R; ++d) { g.unshielded_fractions_rel[d] = us[d].view(); g.shielded_left_fractions_rel[d] = bl[d].view(); g.shielded_right_fractions_rel[d] = br[d].view(); } g.boundary_centeroids = cen.view(); return g; }
  template <class X> auto at(X& f) { return f.view().Subview(faces()); }
  void partition() { w::cells(faces(), [&](Index<R> i) { us[D](i) = 1.0 - bl[D](i) - br[D](i); }); }
  void put(Out o) { stable.put(o); sl.put(o); sr.put(o); }
  void run() { auto b = faces(); b.lower[D] -= 1; ComputeStableFluxComponents(at(stable), at(sl), at(sr), PatchDataView<const double, R, layout_stride>(at(reg)), PatchDataView<const double, R, layout_stride>(bnd.view().Subview(b)), geom(), Duration(vg_pos(1)), vg_pos(2), Direction(D)); }
  void my() { auto b = faces(); b.lower[D] -= 1; MyStab_ComputeStableFluxComponents(at(stable), at(sl), at(sr), PatchDataView<const double, R, layout_stride>(at(reg)), PatchDataView<const double, R, layout_stride>(bnd.view().Subview(b)), geom(), Duration(vg_pos(1)), vg_pos(2), Direction(D)); }
  static double unit(double x) { return x < 0.0 ? 0.0 : 1.0 < x ? 1.0 : x; }
  void spec() { w::cells(faces(), [&](Index<R> i) { auto l = i; l[D] -= 1; const double dl = unit(0.5 - cen(l, D)), dr = unit(0.5 + cen(i, D)); const double f = reg(i), fl = bnd(l) + dl * (f - bnd(l)), fr = bnd(i) + dr * (f - bnd(i)); sl(i) = fl; sr(i) = fr; stable(i) = us[D](i) * f + bl[D](i) * fl + br[D](i) * fr; }); }
  void my_spec() { w::cells(faces(), [&](Index<R> i) { stable(i) = us[D](i) * reg(i) + bl[D](i) * sl(i) + br[D](i) * sr(i); }); }
  // all fluxes agree
  void constant() { const double c = vg_in(7); reg.data.fill(c); bnd.data.fill(c); sl.data.fill(c); sr.data.fill(c); partition(); }
  void constant_spec() { w::cells(faces(), [&](Index<R> i) { stable(i) = vg_in(7); }); }
};
#define STAB(R, D, N)                                                          \
  using S##R##D##N = Stab<R, D, N>;                                            \
  LAW(K01_kbn_##R##d_##D##_n##N, S##R##D##N s; s.run(); s.put(o), S##R##D##N s; s.spec(); s.put(o)) \
  LAW(K01_linear_##R##d_##D##_n##N, S##R##D##N s; s.my(); s.put(o), S##R##D##N s; s.my_spec(); s.put(o)) \
  LAW(K01_kbn_consistent_##R##d_##D##_n##N, S##R##D##N s; s.constant(); s.run(); s.stable.put(o), S##R##D##N s; s.constant_spec(); s.stable.put(o)) \
  LAW(K01_linear_consistent_##R##d_##D##_n##N, S##R##D##N s; s.constant(); s.my(); s.stable.put(o), S##R##D##N s; s.constant_spec(); s.stable.put(o))
STAB(2, 0, 3) STAB(2, 1, 3) STAB(2, 0, 8) STAB(2, 1, 9) STAB(2, 0, 1) STAB(3, 0, 5) STAB(3, 1, 5) STAB(3, 2, 5) STAB(3, 2, 6)
// --------------------------------------------------------------- K02: geometry
template <int R> struct Geo {
  template <class T, int NC = 0> using F = Field<R, T, 4, 4, 4, NC>;
  F<double> vol{1000, lo<R>(0)}; F<double> face[3] = {{2000, lo<R>(0)}, {3000, lo<R>(0)}, {4000, lo<R>(0)}};
  F<double> sl[3] = {{5000, lo<R>(0)}, {5100, lo<R>(0)}, {5200, lo<R>(0)}}, sr[3] = {{5300, lo<R>(0)}, {5400, lo<R>(0)}, {5500, lo<R>(0)}};
  F<double, R> vc{6000, lo<R>(0)}, n{7000, lo<R>(0)}, bc{8000, lo<R>(0)};
  CutCellData<R> geom() { CutCellData<R> g{}; g.volume_fractions = vol.view(); g.volume_centeroid = vc.view(); g.boundary_normals = n.view(); g.boundary_centeroids = bc.view(); for (int d = 0; d < R; ++d) { g.face_fractions[d] = face[d].view(); g.shielded_left_fractions[d] = sl[d].view(); g.shielded_right_fractions[d] = sr[d].view(); } return g; }
  Index<R> cell() const { auto i = lo<R>(0); i[0] += 1; i[1] += 2; if (R > 2) i[R - 1] += 1; return i; }
};
template <class V> void putv(Out o, const V& v) { for (int i = 0; i < v.size(); ++i) o.put(v[i]); }
template <int R, class F> void vec(Out o, F f) { for (int d = 0; d < R; ++d) o.put(f(d)); }
template <int R> Coordinates<R> width() { Coordinates<R> x; for (int d = 0; d < R; ++d) x[d] = vg_pos(9000 + d); return x; }
template <int R> bool cut_spec(Geo<R>& g) { const auto i = g.cell(); const double v = g.vol(i); if (v <= 0.0) return false; if (v < 1.0) return true; bool c = false; for (int d = 0; d < R; ++d) { auto r = i; r[d] += 1; c = c | (g.face[d](i) < 1.0) | (g.face[d](r) < 1.0); } return c; }
#define GEO(R)                                                                 \
  LAW(K02_normal_##R, Geo<R> g; putv(o, GetBoundaryNormal(g.geom(), g.cell())), Geo<R> g; vec<R>(o, [&](int d) { return -g.n(g.cell(), d); })) \
  LAW(K02_boundary_##R, Geo<R> g; putv(o, GetBoundaryCentroid(g.geom(), g.cell())), Geo<R> g; vec<R>(o, [&](int d) { return g.bc(g.cell(), d); })) \
  LAW(K02_volume_##R, Geo<R> g; putv(o, GetVolumeCentroid(g.geom(), g.cell())), Geo<R> g; vec<R>(o, [&](int d) { return g.vc(g.cell(), d); })) \
  LAW(K02_absvolume_##R, Geo<R> g; putv(o, GetAbsoluteVolumeCentroid<R>(g.geom(), g.cell(), width<R>())), Geo<R> g; vec<R>(o, [&](int d) { return vg_pos(9000 + d) * (double(g.cell()[d]) + 0.5 + g.vc(g.cell(), d)); })) \
  LAW(K02_absboundary_##R, Geo<R> g; putv(o, GetAbsoluteBoundaryCentroid<R>(g.geom(), g.cell(), width<R>())), Geo<R> g; vec<R>(o, [&](int d) { return vg_pos(9000 + d) * (double(g.cell()[d]) + 0.5 + g.bc(g.cell(), d)); })) \
  LAW(K02_iscut_##R, Geo<R> g; o.put(IsCutCell(g.geom(), g.cell()) ? 1.0 : 0.0), Geo<R> g; o.put(cut_spec<R>(g) ? 1.0 : 0.0))
GEO(2) GEO(3)
// unshielded part of a face: [0, 1] minus the shadows of the cells on both sides
inline void unshielded_spec(Out o, int d) { Geo<2> g; const auto f = g.cell(); const int t = 1 - d; auto l = f; l[d] -= 1; double a = 0.0, b = 1.0;
  auto shade = [&](double s, double n) { if (s > 0.0) { if (n < 0.0) { a = a < s ? s : a; } else { b = 1.0 - s < b ? 1.0 - s : b; } } };
  shade(g.sl[d](f), g.n(l, t)); shade(g.sr[d](f), g.n(f, t));
  double x[2]; x[d] = double(f[d]) * vg_pos(9000 + d); x[t] = vg_pos(9000 + t) * (double(f[t]) + 0.5 * (a + b)); o.put(x[0]); o.put(x[1]); }
#define UNSH(d) LAW(K02_unshielded_##d, Geo<2> g; putv(o, GetAbsoluteUnshieldedCentroid(g.geom(), g.cell(), width<2>(), Direction(d))), unshielded_spec(o, d))
UNSH(0) UNSH(1)
// the part of the cell between a face and the boundary that shields it, and its mirror image
inline void shield_spec(Out o, int d, bool right, bool up) { Geo<2> g; const auto f = g.cell(); auto c = f; if (!right) c[d] -= 1; double x[2]; for (int k = 0; k < 2; ++k) x[k] = vg_pos(9000 + k) * (double(c[k]) + 0.5 + g.bc(c, k));
  const double fx = vg_pos(9000 + d) * double(f[d]); // the face
  if (right == up) x[d] = 0.5 * (x[d] + fx); else x[d] = fx + (right ? -0.5 : 0.5) * vg_pos(9000 + d); o.put(x[0]); o.put(x[1]); }
#define SHIELD(d)                                                              \
  LAW(K02_shield_right_upper_##d, Geo<2> g; putv(o, GetAbsoluteSinglyShieldedFromRightVolumeCentroid(g.geom(), g.cell(), Side::Upper, Direction(d), width<2>())), shield_spec(o, d, true, true)) \
  LAW(K02_shield_right_lower_##d, Geo<2> g; putv(o, GetAbsoluteSinglyShieldedFromRightVolumeCentroid(g.geom(), g.cell(), Side::Lower, Direction(d), width<2>())), shield_spec(o, d, true, false)) \
  LAW(K02_shield_left_upper_##d, Geo<2> g; putv(o, GetAbsoluteSinglyShieldedFromLeftVolumeCentroid(g.geom(), g.cell(), Side::Upper, Direction(d), width<2>())), shield_spec(o, d, false, true)) \
  LAW(K02_shield_left_lower_##d, Geo<2> g; putv(o, GetAbsoluteSinglyShieldedFromLeftVolumeCentroid(g.geom(), g.cell(), Side::Lower, Direction(d), width<2>())), shield_spec(o, d, false, false))
SHIELD(0) SHIELD(1)
