// DEFS: -Iwitness/mockamrex -DAMREX_SPACEDIM=2
// SOURCES: src/equations/PerfectGas.cpp
// The AMReX back end: fluxes, time steps and reconstruction of whole levels, ducts of varying area
#include "amr.hpp"
#include "pg.hpp"
#include "fub/Duration.hpp"
#include "fub/Execution.hpp"
#include "fub/equations/EulerEquation.hpp"
#include <AMReX_Geometry.H>
#include <vector>
#include <functional>
#define FUB_AMREX_INTEGRATOR_CONTEXT_HPP
#define FUB_AMREX_GRIDDING_ALGORITHM_HPP
#define FUB_AMREX_CUTCELL_INTEGRATOR_CONTEXT_HPP
#include "fub/AMReX/ViewFArrayBox.hpp"
#include "fub/AMReX/ForEachFab.hpp"
namespace fub::amrex {
struct PatchHierarchy { int GetNumberOfLevels() const { return 1; } };
struct GriddingAlgorithm { PatchHierarchy h; const PatchHierarchy& GetPatchHierarchy() const { return h; } };
struct IntegratorContext { ::amrex::MultiFab *data, *fluxes; ::amrex::Geometry geom; GriddingAlgorithm grid; ::amrex::MultiFab& GetScratch(int) { return *data; } ::amrex::MultiFab& GetFluxes(int, Direction) { return *fluxes; } const ::amrex::MultiFab& GetFluxes(int, Direction) const { return *fluxes; } const ::amrex::Geometry& GetGeometry(int) const { return geom; } const GriddingAlgorithm* GetGriddingAlgorithm() const { return &grid; } };
namespace cutcell { struct IntegratorContext { ::amrex::MultiFab* data; ::amrex::EBFArrayBoxFactory* eb; ::amrex::MultiFab& GetScratch(int) { return *data; } const ::amrex::EBFArrayBoxFactory& GetEmbeddedBoundary(int) const { return *eb; } }; }
}
#include "src/AMReX/ViewFArrayBox.cpp"
#include "fub/AMReX/FluxMethodAdapter.hpp"
#include "fub/AMReX/Reconstruction.hpp"
#include "fub/AMReX/AxialTimeIntegrator.hpp"
#include "fub/AMReX/cutcell/Reconstruction.hpp"
namespace fa = fub::amrex; namespace ax = ::amrex; using ABox = ax::Box; using am::IntVect; using Boxes = ax::Seq<ABox>;
using G2 = PerfectGas<2>; using G1 = PerfectGas<1>; using Seq_ = execution::SequentialTag; using Omp = execution::OpenMpTag; using Simd = execution::SimdTag; using OmpSimd = execution::OpenMpSimdTag;
inline ABox at(int a, int b, int n, int m) { return am::bx(am::iv(a, b), am::iv(n, m)); }
inline ax::Geometry geometry(ABox b) { ax::Geometry g; g.domain = b; for (int d = 0; d < 2; ++d) { g.prob.l[d] = vg_in(20 + d); g.prob.h[d] = g.prob.l[d] + vg_pos(30 + d); } return g; }
inline double width(ABox b, int d) { return vg_pos(30 + d) / b.length(d); }
struct Lvl { Boxes b; int ng, fg, d; ABox dom; };
/// arbitrary data of positive density
inline ax::MultiFab dense(const Lvl& l, int n, int base) { auto m = am::make<ax::MultiFab>(l.b, n, l.ng, base); int k = 0; for (auto& f : m.fabs) am::cells(f.b, [&](IntVect x) { f(x) = vg_pos(base + 2000 + k++); }); return m; }
inline ax::MultiFab states(const Lvl& l) { return dense(l, 6, 1000); }
inline ax::MultiFab fluxes(const Lvl& l, int n = 4) { return am::make<ax::MultiFab>(am::faces(l.b, l.d), n, l.fg, 9000); }
/// any linear flux with a stencil of 2 W cells; the time step of a cell is any positive number
template <int W> struct Linear {
  using Equation = G2; G2 eq = Gas<2>(); const G2& GetEquation() const { return eq; } static constexpr int GetStencilWidth() { return W; }
  static double weight(int j) { return vg_in(40 + j); }
  template <class Tag> void ComputeNumericFluxes(Tag, const View<Conservative<G2>>& f, const View<const Complete<G2>>& s, Duration dt, double dx, Direction dir) {
    ForEachIndex(Box<0>(f), [&](auto i, auto j) { double v[4] = {}; for (int q = -W; q < W; ++q) { const auto a = i + (dir == X ? q : 0), b = j + (dir == Y ? q : 0); v[0] += weight(q + W) * s.density(a, b); v[1] += weight(q + W) * s.momentum(a, b, 0); v[2] += weight(q + W) * s.momentum(a, b, 1); v[3] += weight(q + W) * s.pressure(a, b); }
      f.density(i, j) = v[0] + dt.count(); f.momentum(i, j, 0) = v[1]; f.momentum(i, j, 1) = v[2] * dx; f.energy(i, j) = v[3]; }); }
  template <class Tag> double ComputeStableDt(Tag, const View<const Complete<G2>>& s, double dx, Direction dir) { double r = std::numeric_limits<double>::max(); ForEachIndex(Box<0>(s), [&](auto i, auto j) { const double t = dx * (s.density(i, j) * s.density(i, j)) + (dir == Y); r = t < r ? t : r; }); return r; }
};
template <class Tag, int W> void flux(Out& o, Lvl l) { auto u = states(l); auto f = fluxes(l); fa::IntegratorContext c{&u, &f, geometry(l.dom), {}}; fa::FluxMethodAdapter<Tag, Linear<W>> m(Tag{}, Linear<W>{}); m.ComputeNumericFluxes(c, 0, Duration(vg_pos(1)), Direction(l.d)); am::put(o, f); am::put(o, u); o.put(m.GetStencilWidth()); }
template <int W> void fluxed(Out& o, Lvl l) { auto u = states(l); auto f = fluxes(l);
  for (int i = 0; i < int(l.b.size()); ++i) am::cells(f.fabs[i].b, [&](IntVect x) { auto& s = u.fabs[i]; if (!s.b.contains(am::next(x, l.d, -W)) || !s.b.contains(am::next(x, l.d, W - 1))) return; const int of[4] = {0, 1, 2, 4}; for (int k = 0; k < 4; ++k) { double v = 0; for (int q = -W; q < W; ++q) v += vg_in(40 + q + W) * s(am::next(x, l.d, q), of[k]); f.fabs[i](x, k) = k == 0 ? v + vg_pos(1) : k == 2 ? v * width(l.dom, l.d) : v; } });
  am::put(o, f); am::put(o, u); o.put(W); }
template <class Tag> void dt(Out& o, Lvl l) { auto u = states(l); auto f = fluxes(l); fa::IntegratorContext c{&u, &f, geometry(l.dom), {}}; fa::FluxMethodAdapter<Tag, Linear<1>> m(Tag{}, Linear<1>{}); o.put(m.ComputeStableDt(c, 0, Direction(l.d)).count()); am::put(o, u); }
inline void dted(Out& o, Lvl l, int split) { auto u = states(l); double all = std::numeric_limits<double>::max(); const double none = all;
  for (auto& f : u.fabs) for (int part = 0; part < 2; ++part) { if (part && split < f.b.lo[1]) continue; double r = none; am::cells(f.b, [&](IntVect x) { if ((x[1] > split) != (part == 1) && split >= f.b.lo[1]) return; const double t = width(l.dom, l.d) * (f(x) * f(x)) + l.d; r = t < r ? t : r; }); all = r < all ? r : all; }
  o.put(all); am::put(o, u); }
inline Lvl two(int d, int ng = 1, int fg = 0) { return {{at(-3, 2, 3, 2), at(0, 2, 2, 2)}, ng, fg, d, at(-3, 2, 5, 2)}; }
inline Lvl tall(int d) { return {{at(4, -6, 1, 33)}, 1, 0, d, at(4, -6, 1, 33)}; }
inline Lvl twelve() { return {{at(4, -10, 1, 16)}, 1, 0, 0, at(4, -10, 1, 16)}; }
inline Lvl low(int d) { return {{at(4, -6, 1, 9)}, 1, 0, d, at(4, -6, 1, 9)}; }
#define FLUX(N, T, W, L) LAW(A05_flux_##N, (flux<T, W>(o, L)), fluxed<W>(o, L))
FLUX(seq_x, Seq_, 1, two(0)) FLUX(seq_y, Seq_, 1, two(1)) FLUX(omp_x, Omp, 1, two(0)) FLUX(omp_y, Omp, 1, two(1)) FLUX(wide_x, OmpSimd, 2, two(0, 3, 1)) FLUX(wide_y, OmpSimd, 2, two(1, 3, 1)) FLUX(narrow_x, OmpSimd, 2, two(0, 2, 1)) FLUX(narrow_y, Simd, 2, two(1, 2, 1)) FLUX(few_x, Seq_, 2, two(0, 1, 0)) FLUX(tiles_x, Omp, 1, tall(0)) FLUX(tiles_y, OmpSimd, 1, tall(1))
#define DT(N, T, L, ...) LAW(A05_dt_##N, dt<T>(o, L), dted(o, L, __VA_ARGS__ + 0))
DT(seq_x, Seq_, two(0), -99) DT(seq_y, Seq_, two(1), -99) DT(omp_x, Omp, two(0), -99) DT(omp_y, OmpSimd, low(1), -99) DT(omp_tiles_x, OmpSimd, twelve(), -3) DT(simd_y, Simd, two(1, 0), -99)
// ---- reconstruction of complete states
template <class Tag> void whole(Out& o, Lvl l, bool context) { auto u = states(l); auto s = dense(l, 4, 5000); fa::Reconstruction<Tag, G2> r(Tag{}, Gas<2>()); if (context) { fa::IntegratorContext c{&u, &u, geometry(l.dom), {}}; r.CompleteFromCons(c, 0, Duration(vg_pos(1))); } else r.CompleteFromCons(u, s); am::put(o, u); am::put(o, s); }
inline void complete(ax::FArrayBox& u, const ax::FArrayBox& s, IntVect x) { auto eq = Gas<2>(); Conservative<G2> c(eq); c.density = s(x, 0); c.momentum[0] = s(x, 1); c.momentum[1] = s(x, 2); c.energy = s(x, 3); Complete<G2> q(eq); fub::CompleteFromCons(eq, q, c); const double v[6] = {q.density, q.momentum[0], q.momentum[1], q.energy, q.pressure, q.speed_of_sound}; for (int k = 0; k < 6; ++k) u(x, k) = v[k]; }
inline void completed(Out& o, Lvl l, bool context) { auto u = states(l); auto s = dense(l, 4, 5000); for (int i = 0; i < int(l.b.size()); ++i) am::cells(u.fabs[i].b, [&](IntVect x) { complete(u.fabs[i], context ? u.fabs[i] : s.fabs[i], x); }); am::put(o, u); am::put(o, s); }
#define REC(N, T, L) LAW(A06_whole_##N, whole<T>(o, L, false), completed(o, L, false)) LAW(A06_whole_##N##_context, whole<T>(o, L, true), completed(o, L, true))
inline Lvl row() { return {{at(-2, 3, 9, 1)}, 0, 0, 0, at(-2, 3, 9, 1)}; }
REC(seq, Seq_, two(0)) REC(omp, Omp, two(0, 0)) REC(simd, Simd, two(0, 0)) REC(omp_simd, OmpSimd, two(0)) REC(omp_simd_row, OmpSimd, row()) REC(omp_simd_tiles, OmpSimd, low(0))
template <class Tag> void cut(Out& o, Lvl l, ax::Seq<ax::FabType> t, bool context) {
  auto u = states(l); auto s = dense(l, 4, 5000); ax::EBFArrayBoxFactory eb{am::make<ax::MultiFab>(l.b, 1, l.ng, 40000), {}}; int k = 0; for (auto& f : eb.volfrac.fabs) for (auto& x : f.data) { x = vg_bool(45000 + k) ? vg_pos(40000 + k) : 0.0; ++k; } for (auto x : t) eb.flags.f.push_back({x});
  fa::cutcell::IntegratorContext c{&u, &eb}; fa::cutcell::Reconstruction<Tag, G2> r(Tag{}, Gas<2>()); if (context) r.CompleteFromCons(c, 0, Duration(vg_pos(1))); else r.CompleteFromCons(c, u, s, 0, Duration(vg_pos(1)));
  for (int i = 0; i < int(l.b.size()); ++i) am::cells(u.fabs[i].b, [&](IntVect x) { const bool open = t[i] != ax::FabType::singlevalued || eb.volfrac.fabs[i](x) > 0.0; for (int k = 0; k < 6; ++k) o.put(open ? u.fabs[i](x, k) : 0.0); }); am::put(o, s); }
inline void cutted(Out& o, Lvl l, ax::Seq<ax::FabType> t, bool context) {
  auto u = states(l); const auto s = dense(l, 4, 5000); auto vol = am::make<ax::MultiFab>(l.b, 1, l.ng, 40000); int k = 0; for (auto& f : vol.fabs) for (auto& x : f.data) { x = vg_bool(45000 + k) ? vg_pos(40000 + k) : 0.0; ++k; }
  for (int i = 0; i < int(l.b.size()); ++i) am::cells(u.fabs[i].b, [&](IntVect x) { const bool open = t[i] != ax::FabType::singlevalued || vol.fabs[i](x) > 0.0; if (t[i] != ax::FabType::covered && open) complete(u.fabs[i], context ? u.fabs[i] : s.fabs[i], x); for (int k = 0; k < 6; ++k) o.put(open ? u.fabs[i](x, k) : 0.0); }); am::put(o, s); }
constexpr auto Cut = ax::FabType::singlevalued, Reg = ax::FabType::regular, Cov = ax::FabType::covered;
#define CUT(N, T, L, ...) LAW(A06_cut_##N, cut<T>(o, L, {__VA_ARGS__}, false), cutted(o, L, {__VA_ARGS__}, false)) LAW(A06_cut_##N##_context, cut<T>(o, L, {__VA_ARGS__}, true), cutted(o, L, {__VA_ARGS__}, true))
CUT(seq, Seq_, two(0, 0), Cut, Reg) CUT(omp, Omp, two(0, 0), Cov, Cut) CUT(omp_simd, OmpSimd, two(0, 0), Reg, Cut) CUT(simd_row, Simd, row(), Cut) CUT(omp_simd_covered, OmpSimd, two(0, 0), Cov, Reg)
// ---- ducts: the area varies along the axis
template <class Tag> struct Duct {
  Lvl l; ax::MultiFab u, s, f, a; std::vector<ax::MultiFab> p; 
  explicit Duct(Lvl k) : l(k), u(am::make<ax::MultiFab>(k.b, 5, k.ng, 1000)), s(am::make<ax::MultiFab>(k.b, 5, k.ng, 3000)), f(am::make<ax::MultiFab>(am::faces(k.b, 0), 3, k.fg, 5000)), a(am::make<ax::MultiFab>(am::faces(k.b, 0), 1, k.fg, 0)), p(1) {
    p[0] = am::make<ax::MultiFab>(am::faces(k.b, 0), 1, k.fg, 9000); int n = 0; for (auto& b : a.fabs) for (auto& x : b.data) x = vg_pos(7000 + n++); }
  auto integrator() { return fa::AxialTimeIntegrator<G1, Tag>(Gas<1>(), std::vector<ax::Geometry>(1, geometry(l.dom)), std::shared_ptr<const std::vector<ax::MultiFab>>(std::shared_ptr<void>(), &p), [](double x) { return vg_uf1(7, x); }); }
  /// the area of the faces as function of their position
  void measure() { for (auto& b : a.fabs) am::cells(b.b, [&](IntVect x) { b(x) = vg_uf1(7, vg_in(20) + x[0] * width(l.dom, 0)); }); }
  void run(bool context) { auto in = integrator(); if (context) { fa::IntegratorContext c{&u, &f, geometry(l.dom), {}}; in.UpdateConservatively(c, 0, Duration(vg_pos(1)), X); } else in.UpdateConservatively(u, s, f, a, p[0], geometry(l.dom), Duration(vg_pos(1)), X); }
  void expect(bool context) { const double q = vg_pos(1) / width(l.dom, 0); if (context) measure();
    for (int i = 0; i < int(l.b.size()); ++i) { ABox c = f.fabs[i].b; c.hi[0] -= 1; c.nodal = IntVect(0); am::cells(c & u.fabs[i].b, [&](IntVect x) { const IntVect r = am::next(x, 0); const double al = a.fabs[i](x), ar = a.fabs[i](r), v = 0.5 * (al + ar); for (int k = 0; k < 3; ++k) u.fabs[i](x, k) = (context ? u : s).fabs[i](x, k) + q * ((al * f.fabs[i](x, k) - ar * f.fabs[i](r, k)) + (k == 1 ? (ar - al) * (0.5 * (p[0].fabs[i](x) + p[0].fabs[i](r))) : 0.0)) / v; }); } }
  void put(Out& o) { am::put(o, u); am::put(o, s); am::put(o, f); }
};
template <class Tag> void duct(Out& o, Lvl l, bool c) { Duct<Tag> d(l); d.run(c); d.put(o); }
template <class Tag> void ducted(Out& o, Lvl l, bool c) { Duct<Tag> d(l); d.expect(c); d.put(o); }
inline Lvl tube(int ng = 0, int fg = 0) { return {{at(-3, 2, 3, 1), at(0, 2, 2, 1)}, ng, fg, 0, at(-3, 2, 5, 1)}; }
#define DUCT(N, T, L) LAW(A07_duct_##N, duct<T>(o, L, false), ducted<T>(o, L, false)) LAW(A07_duct_##N##_context, duct<T>(o, L, true), ducted<T>(o, L, true))
DUCT(seq, Seq_, tube()) DUCT(simd, Simd, tube(1, 0)) DUCT(omp, Omp, tube(1, 1)) DUCT(omp_simd, OmpSimd, tube(2, 1))
/// gas at rest: the only flux is that of momentum, which is the pressure
template <class Tag> void rest(Out& o, Lvl l, bool run) { Duct<Tag> d(l); for (auto& b : d.f.fabs) am::cells(b.b, [&](IntVect x) { b(x, 0) = b(x, 2) = 0.0; b(x, 1) = vg_pos(3); }); for (auto& b : d.p[0].fabs) for (auto& x : b.data) x = vg_pos(3); d.s = d.u; if (run) d.run(false); am::put(o, d.u); }
#define REST(N, T, L) LAW(A07_rest_##N, rest<T>(o, L, true), rest<T>(o, L, false))
REST(seq, Seq_, tube()) REST(omp_simd, OmpSimd, tube(1, 1))
/// mass and energy of the tube change by what passes its ends
template <class Tag> void content(Out& o, Lvl l, bool run) { Duct<Tag> d(l); auto& a = d.a.fabs[0]; const int n = l.dom.length(0); if (run) d.run(false);
  for (int k = 0; k < 3; k += 2) { double m = 0; for (int i = 0; i < n; ++i) { const IntVect x = am::next(l.dom.lo, 0, i); m += width(l.dom, 0) * 0.5 * (a(x) + a(am::next(x, 0))) * (run ? d.u : d.s).fabs[0](x, k); }
    const IntVect e = am::next(l.dom.lo, 0, n); o.put(run ? m : m + vg_pos(1) * (a(l.dom.lo) * d.f.fabs[0](l.dom.lo, k) - a(e) * d.f.fabs[0](e, k))); } }
#define CONTENT(N, T, L) LAW(A07_content_##N, content<T>(o, L, true), content<T>(o, L, false))
inline Lvl whole_tube() { return {{at(-3, 2, 5, 1)}, 0, 0, 0, at(-3, 2, 5, 1)}; }
CONTENT(seq, Seq_, whole_tube()) CONTENT(omp_simd, OmpSimd, whole_tube())
