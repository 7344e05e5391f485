// DEFS: -Iwitness/mockamrex -DAMREX_SPACEDIM=2
// SOURCES: src/HyperbolicPatchIntegrator.cpp src/boundary_condition/ReflectiveBoundary.cpp src/equations/PerfectGas.cpp
// The AMReX back end: regular updates, boundary conditions and averages
#include "amr.hpp"
#include "pg.hpp"
#include "fub/Duration.hpp"
#include "fub/AnyBoundaryCondition.hpp"
#include <AMReX_Geometry.H>
// the context and the hierarchy of grids
#define FUB_AMREX_INTEGRATOR_CONTEXT_HPP
#define FUB_AMREX_GRIDDING_ALGORITHM_HPP
#define FUB_AMREX_CUT_CELL_GRIDDING_ALGORITHM_HPP
#include "fub/AMReX/ViewFArrayBox.hpp"
namespace fub::amrex {
struct IntegratorContext { ::amrex::MultiFab *data, *fluxes[2]; ::amrex::Geometry geom; ::amrex::MultiFab& GetScratch(int) { return *data; } ::amrex::MultiFab& GetFluxes(int, Direction d) { return *fluxes[int(d)]; } const ::amrex::Geometry& GetGeometry(int) const { return geom; } };
struct PatchHierarchy { ::amrex::Geometry geom; std::shared_ptr<::amrex::EBFArrayBoxFactory> eb; const ::amrex::Geometry& GetGeometry(int) const { return geom; } const std::shared_ptr<::amrex::EBFArrayBoxFactory>& GetEmbeddedBoundary(int) const { return eb; } };
struct GriddingAlgorithm { PatchHierarchy h; const PatchHierarchy& GetPatchHierarchy() const { return h; } };
namespace cutcell { using fub::amrex::GriddingAlgorithm; }
}
#include "src/AMReX/ViewFArrayBox.cpp"
#include "src/AMReX/TimeIntegrator.cpp"
#include "src/AMReX/boundary_condition/TransmissiveBoundary.cpp"
#include "fub/AMReX/boundary_condition/TransmissiveBoundary.hpp"
#include "fub/AMReX/boundary_condition/ConstantBoundary.hpp"
#include "fub/AMReX/boundary_condition/ReflectiveBoundary.hpp"
#include "fub/AMReX/cutcell/boundary_condition/ConstantBoundary.hpp"
#include "fub/AMReX/cutcell/boundary_condition/ReflectiveBoundary.hpp"
#include "src/AMReX/cutcell/boundary_condition/TransmissiveBoundary.cpp"
#include "fub/AMReX/AverageState.hpp"
#include "src/AMReX/MultiFabUtilities.cpp"
namespace fa = fub::amrex; namespace ax = ::amrex; using ABox = ax::Box; using am::IntVect; using Boxes = ax::Seq<ABox>;
using G2 = PerfectGas<2>; using Seq_ = execution::SequentialTag; using Omp = execution::OpenMpTag; using Simd = execution::SimdTag; using OmpSimd = execution::OpenMpSimdTag;
inline ABox at(int a, int b, int n, int m) { return am::bx(am::iv(a, b), am::iv(n, m)); }
inline ax::Geometry geometry(ABox b, bool px = false, bool py = false) { ax::Geometry g; g.domain = b; for (int d = 0; d < 2; ++d) { g.prob.l[d] = vg_in(20 + d); g.prob.h[d] = g.prob.l[d] + vg_pos(30 + d); } g.per[0] = px; g.per[1] = py; return g; }
// ---- regular updates
struct Regular { Boxes b; int ng, fg, d; ABox dom; };
template <class Tag> void step(Out& o, Regular r, bool context) {
  auto u = am::make<ax::MultiFab>(r.b, 3, r.ng, 1000), s = am::make<ax::MultiFab>(r.b, 3, r.ng, 5000), f = am::make<ax::MultiFab>(am::faces(r.b, r.d), 2, r.fg, 9000);
  fa::ForwardIntegrator<Tag> in; auto g = geometry(r.dom);
  if (context) { fa::IntegratorContext c{&u, {&f, &f}, g}; in.UpdateConservatively(c, 0, Duration(vg_pos(1)), Direction(r.d)); } else in.UpdateConservatively(u, s, f, g, Duration(vg_pos(1)), Direction(r.d));
  am::put(o, u); am::put(o, s); }
inline void stepped(Out& o, Regular r, bool context) {
  auto u = am::make<ax::MultiFab>(r.b, 3, r.ng, 1000), s = am::make<ax::MultiFab>(r.b, 3, r.ng, 5000), f = am::make<ax::MultiFab>(am::faces(r.b, r.d), 2, r.fg, 9000);
  const double q = vg_pos(1) * r.dom.length(r.d) / vg_pos(30 + r.d);
  for (int i = 0; i < int(r.b.size()); ++i) { ABox c = f.fabs[i].b; c.hi[r.d] -= 1; c.nodal = IntVect(0); am::cells(c & u.fabs[i].b, [&](IntVect x) { for (int k = 0; k < 2; ++k) u.fabs[i](x, k) = (context ? u : s).fabs[i](x, k) + q * (f.fabs[i](x, k) - f.fabs[i](am::next(x, r.d), k)); }); }
  am::put(o, u); am::put(o, s); }
inline Regular two(int d) { return {{at(-3, 2, 3, 2), at(0, 2, 2, 2)}, 1, 0, d, at(-3, 2, 5, 2)}; }
#define STEP(N, T, R) LAW(A01_regular_##N, step<T>(o, R, false), stepped(o, R, false)) LAW(A01_regular_##N##_context, step<T>(o, R, true), stepped(o, R, true))
STEP(seq_x, Seq_, two(0)) STEP(seq_y, Seq_, two(1)) STEP(simd_x, Simd, two(0)) STEP(simd_y, Simd, two(1)) STEP(omp_x, Omp, two(0)) STEP(omp_y, Omp, two(1)) STEP(omp_simd_x, OmpSimd, two(0)) STEP(omp_simd_y, OmpSimd, two(1))
inline Regular wide(int d) { return {{at(4, -6, 2, 1)}, 2, 1, d, at(4, -6, 2, 1)}; }
STEP(omp_simd_ghosts_x, OmpSimd, wide(0)) STEP(omp_simd_ghosts_y, OmpSimd, wide(1)) STEP(seq_ghosts_x, Seq_, wide(0))
inline Regular tall(int d) { return {{at(4, -6, 1, 33)}, 1, 1, d, at(4, -6, 1, 33)}; }
STEP(omp_simd_tiles_x, OmpSimd, tall(0)) STEP(omp_simd_tiles_y, OmpSimd, tall(1)) STEP(omp_tiles_y, Omp, tall(1))
// ---- boundary conditions
struct Walls { Boxes b; int ng; ABox dom; bool px = false, py = false; };
enum Kind { CopyK, StateK, MirrorK };
/// cells left open: the corners of a mirror
inline Walls box1(bool px = false, bool py = false) { return {{at(2, -1, 2, 2)}, 2, at(2, -1, 2, 2), px, py}; }
inline Walls box2() { return {{at(-2, 3, 2, 2), at(0, 3, 2, 2)}, 1, at(-2, 3, 4, 2)}; }
inline Walls inner() { return {{at(-1, 4, 2, 1)}, 1, at(-2, 3, 4, 3)}; }
inline Walls tiles() { return {{at(5, -9, 1, 32)}, 1, at(5, -9, 1, 32)}; }
inline bool corner(const Walls& w, IntVect c, int d) { const int k = 1 - d; return c[k] < w.dom.lo[k] || w.dom.hi[k] < c[k]; }
inline bool beyond(const Walls& w, IntVect c, int d, int side) { return side == 0 ? c[d] < w.dom.lo[d] : c[d] > w.dom.hi[d]; }
inline bool periodic(const Walls& w, int d) { return d == 0 ? w.px : w.py; }
/// inside of the domain grown in its directions that are not periodic
inline bool grown(const Walls& w, IntVect c) { for (int d = 0; d < 2; ++d) if (periodic(w, d) && (c[d] < w.dom.lo[d] || w.dom.hi[d] < c[d])) return false; return true; }
inline ax::EBFArrayBoxFactory cells_left(const Walls& w) { ax::EBFArrayBoxFactory e{am::make<ax::MultiFab>(w.b, 1, w.ng, 40000)}; int k = 0; for (auto& f : e.volfrac.fabs) for (auto& x : f.data) { x = vg_bool(45000 + k) ? vg_pos(40000 + k) : 0.0; ++k; } return e; }
inline std::shared_ptr<ax::EBFArrayBoxFactory> alias(ax::EBFArrayBoxFactory& e) { return std::shared_ptr<ax::EBFArrayBoxFactory>(std::shared_ptr<void>(), &e); }
/// how the condition is asked for: for the whole boundary, for its direction, for the other one
enum Ask { All, Own, Other };
template <class B> void fill(B& b, ax::MultiFab& m, const fa::GriddingAlgorithm& g, int d, Ask a) { if (a == All) b.FillBoundary(m, g, 0); else b.FillBoundary(m, g, 0, Direction(a == Own ? d : 1 - d)); }
inline void show(Out& o, const ax::MultiFab& m, const Walls& w, int d, bool corners) { for (auto& f : m.fabs) am::cells(f.b, [&](IntVect c) { if (corners || !corner(w, c, d)) for (int k = 0; k < 6; ++k) o.put(f(c, k)); }); }
template <Kind K, bool Cut> void boundary(Out& o, Walls w, int d, int side, Ask a) {
  auto m = am::make<ax::MultiFab>(w.b, 6, w.ng, 1000); auto eb = cells_left(w); fa::GriddingAlgorithm g{{geometry(w.dom, w.px, w.py), alias(eb)}}; const auto eq = Gas<2>();
  if constexpr (K == CopyK) { std::conditional_t<Cut, fa::cutcell::TransmissiveBoundary, fa::TransmissiveBoundary> b{Direction(d), side}; fill(b, m, g, d, a); }
  if constexpr (K == StateK) { std::conditional_t<Cut, fa::cutcell::ConstantBoundary<G2>, fa::ConstantBoundary<G2>> b{Direction(d), side, eq, Any(eq, 60)}; fill(b, m, g, d, a); }
  if constexpr (K == MirrorK) { std::conditional_t<Cut, fa::cutcell::ReflectiveBoundary<Seq_, G2>, fa::ReflectiveBoundary<Seq_, G2>> b(Seq_(), eq, Direction(d), side); fill(b, m, g, d, a); }
  show(o, m, w, d, K != MirrorK); }
template <Kind K, bool Cut> void filled(Out& o, Walls w, int d, int side, Ask a) {
  auto m = am::make<ax::MultiFab>(w.b, 6, w.ng, 1000); const auto old = m; const auto eq = Gas<2>(); auto eb = cells_left(w); const auto q = Any(eq, 60); const double s[6] = {q.density, q.momentum[0], q.momentum[1], q.energy, q.pressure, q.speed_of_sound};
  const bool acts = a != Other && !(K != MirrorK && periodic(w, d));
  for (int i = 0; acts && i < int(w.b.size()); ++i) { auto& f = m.fabs[i]; auto& v = eb.volfrac.fabs[i]; am::cells(f.b, [&](IntVect c) {
    if (!beyond(w, c, d, side) || !grown(w, c)) return;
    IntVect src = c; const int edge = side == 0 ? w.dom.lo[d] : w.dom.hi[d]; src[d] = K == CopyK ? edge : 2 * edge - c[d] + (side == 0 ? -1 : 1);
    for (int k = 0; k < 6; ++k) { double x;
      if (K == StateK) x = s[k]; else if (!f.b.contains(src)) return; else x = old.fabs[i](src, k);
      if (K == MirrorK && k == 1 + d) x = -x;
      if (Cut && K == StateK && v(c) == 0.0) x = 0.0;
      if (Cut && K == MirrorK && (v(c) == 0.0 || v(src) == 0.0)) x = 0.0;
      f(c, k) = x; } }); }
  show(o, m, w, d, K != MirrorK); }
#define ONE(N, K, C, W, d, s, a) LAW(A03_##N, (boundary<K, C>(o, W, d, s, a)), (filled<K, C>(o, W, d, s, a)))
#define SIDES(N, K, C, W, a) ONE(N##_lower_x, K, C, W, 0, 0, a) ONE(N##_upper_x, K, C, W, 0, 1, a) ONE(N##_lower_y, K, C, W, 1, 0, a) ONE(N##_upper_y, K, C, W, 1, 1, a)
#define BOUNDARY(N, K, C) SIDES(N, K, C, box1(), All) SIDES(N##_two, K, C, box2(), Own) ONE(N##_other_x, K, C, box1(), 0, 0, Other) ONE(N##_other_y, K, C, box1(), 1, 1, Other) SIDES(N##_inner, K, C, inner(), All) ONE(N##_tiles_x, K, C, tiles(), 0, 1, All) ONE(N##_tiles_y, K, C, tiles(), 1, 0, All) ONE(N##_periodic_y_x, K, C, box1(false, true), 0, 0, All) ONE(N##_periodic_x_y, K, C, box1(true, false), 1, 1, All) ONE(N##_periodic_x_x, K, C, box1(true, false), 0, 1, All)
BOUNDARY(copy, CopyK, false) BOUNDARY(state, StateK, false) BOUNDARY(mirror, MirrorK, false) BOUNDARY(cut_copy, CopyK, true) BOUNDARY(cut_state, StateK, true) BOUNDARY(cut_mirror, MirrorK, true)
// ---- averages
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op op, MPI_Comm) { for (int i = 0; i < n; ++i) static_cast<double*>(r)[i] = op == MPI_SUM ? static_cast<const double*>(s)[i] + vg_in(70 + i) : vg_in(90 + i); return 0; }
struct Means { Boxes b; int ng; ABox box; };
inline void mean(Out& o, Means w) { auto m = am::make<ax::MultiFab>(w.b, 2, w.ng, 1000); o.put(fa::GetMeanValueInBox(m, w.box, 1)); }
inline double total(const ax::MultiFab& m, ABox b, int k) { double s = 0; for (int i = 0; i < int(m.boxes.size()); ++i) am::cells(m.boxes[i] & b, [&](IntVect c) { s += m.fabs[i](c, k); }); return s / double(b.numPts()); }
inline void meant(Out& o, Means w) { auto m = am::make<ax::MultiFab>(w.b, 2, w.ng, 1000); o.put(total(m, w.box, 1) + vg_in(70)); }
template <class S> void state(Out& o, Means w) { auto m = am::make<ax::MultiFab>(w.b, std::is_same_v<S, Complete<G2>> ? 6 : 4, w.ng, 1000); S s(Gas<2>()); fa::AverageState(s, m, geometry(at(-9, -9, 99, 99)), w.box); w::put(o, s); }
template <class S> void stated(Out& o, Means w) { const int n = std::is_same_v<S, Complete<G2>> ? 6 : 4; auto m = am::make<ax::MultiFab>(w.b, n, w.ng, 1000); for (int k = 0; k < n; ++k) o.put(total(m, w.box, k) + vg_in(70 + k)); }
#define MEAN(N, ...) LAW(A04_mean_##N, (mean(o, __VA_ARGS__)), (meant(o, __VA_ARGS__))) LAW(A04_complete_##N, (state<Complete<G2>>(o, __VA_ARGS__)), (stated<Complete<G2>>(o, __VA_ARGS__))) LAW(A04_conservative_##N, (state<Conservative<G2>>(o, __VA_ARGS__)), (stated<Conservative<G2>>(o, __VA_ARGS__)))
MEAN(one, (Means{{at(-2, 3, 3, 2)}, 0, at(-1, 3, 2, 2)})) MEAN(two, (Means{{at(-2, 3, 2, 2), at(0, 3, 2, 2)}, 1, at(-1, 3, 2, 2)})) MEAN(tiles, (Means{{at(5, -9, 1, 32)}, 0, at(5, -8, 1, 20)})) MEAN(part, (Means{{at(5, -9, 1, 2)}, 1, at(4, -8, 2, 3)}))
template <int W> void inner(Out& o, ABox b, int side, int d) { const ABox r = fa::GetInnerBox(b, side, Direction(d), W); for (int k = 0; k < 2; ++k) { o.put(r.lo[k]); o.put(r.hi[k]); } }
inline void wanted(Out& o, ABox b, int side, int d, int w) { if (side == 0) b.hi[d] = b.lo[d] + w - 1; else b.lo[d] = b.hi[d] - w + 1; for (int k = 0; k < 2; ++k) { o.put(b.lo[k]); o.put(b.hi[k]); } }
#define INNER(N, s, d) LAW(A04_inner_##N, (inner<1>(o, at(-3, 2, 5, 4), s, d), inner<3>(o, at(-3, 2, 5, 4), s, d)), (wanted(o, at(-3, 2, 5, 4), s, d, 1), wanted(o, at(-3, 2, 5, 4), s, d, 3)))
INNER(lower_x, 0, 0) INNER(upper_x, 1, 0) INNER(lower_y, 0, 1) INNER(upper_y, 1, 1)
// ---- the cells a stencil needs
inline void range(Out& o, ABox valid, ABox faces, int w, int d) { const auto r = fa::GetCellsAndFacesInStencilRange(valid, faces, w, Direction(d)); for (auto& b : r) for (int k = 0; k < 2; ++k) { o.put(b.lo[k]); o.put(b.hi[k]); o.put(b.nodal[k]); } }
inline void ranged(Out& o, ABox v, ABox f, int w, int d) { ABox c = v; int flo = f.lo[d], fhi = f.hi[d]; c.lo[d] = std::max(v.lo[d], flo - w); c.hi[d] = std::min(v.hi[d], fhi - 1 + w); const int k = 1 - d; c.lo[k] = std::max(v.lo[k], f.lo[k]); c.hi[k] = std::min(v.hi[k], f.hi[k]); flo = std::max(flo, c.lo[d] + w); fhi = std::min(fhi, c.hi[d] - w + 1);
  ABox g = f; g.lo[d] = flo; g.hi[d] = fhi; g.lo[k] = c.lo[k]; g.hi[k] = c.hi[k]; for (const ABox& b : {c, g}) for (int q = 0; q < 2; ++q) { o.put(b.lo[q]); o.put(b.hi[q]); o.put(b.nodal[q]); } }
#define RANGE(N, V, d, F, w) LAW(A05_range_##N, (range(o, V, ax::surroundingNodes(F, d), w, d)), (ranged(o, V, ax::surroundingNodes(F, d), w, d)))
RANGE(inside_x, at(-5, -5, 12, 12), 0, at(-2, -1, 3, 4), 1) RANGE(inside_y, at(-5, -5, 12, 12), 1, at(-2, -1, 3, 4), 2) RANGE(edge_x, at(-3, -5, 6, 12), 0, at(-2, -1, 5, 4), 2) RANGE(edge_y, at(-3, -2, 6, 6), 1, at(-3, -2, 5, 6), 2)
