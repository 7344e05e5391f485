// Hierarchies of refined levels over an integrator context of the AMReX back end (namespace fc)
// one process
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op, MPI_Comm) { for (int i = 0; i < n; ++i) static_cast<double*>(r)[i] = static_cast<const double*>(s)[i]; return 0; }
extern "C" int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }
namespace ax = ::amrex; using ABox = ax::Box; using am::IntVect; using Boxes = ax::Seq<ABox>;
using Seq_ = execution::SequentialTag; using Omp = execution::OpenMpTag; using Simd = execution::SimdTag; using OmpSimd = execution::OpenMpSimdTag;
inline ABox at(int a, int b, int n, int m) { return am::bx(am::iv(a, b), am::iv(n, m)); }
#define LAW_3(P, S, N, L, ...) LAW(P##S##N, L, __VA_ARGS__)
#define LAW_2(P, S, N, L, ...) LAW_3(P, S, N, L, __VA_ARGS__)
#define LAW_(P, N, L, ...) LAW_2(P, SET, N, L, __VA_ARGS__)
constexpr Duration kStep{0.375};
constexpr int kState = 3, kCons = 2;
/// the patches of each level; the refinement ratio; ghost cells; the domain of the coarsest level
struct Shape { ax::Seq<Boxes> levels; int ratio, ng, fg; ABox dom; };
inline Shape two() { return {{{at(-2, 1, 3, 4), at(1, 1, 3, 4)}, {at(0, 4, 2, 4), at(2, 4, 2, 4)}}, 2, 2, 1, at(-2, 1, 6, 4)}; }
inline Shape corner() { return {{{at(0, 0, 4, 3)}, {at(0, 0, 4, 2), at(4, 2, 4, 4)}}, 2, 1, 0, at(0, 0, 4, 3)}; }
inline Shape four() { return {{{at(0, 0, 4, 3)}, {at(4, 4, 8, 4)}}, 4, 1, 0, at(0, 0, 4, 3)}; }
inline Shape one() { return {{{at(0, 0, 3, 3)}}, 2, 2, 1, at(0, 0, 3, 3)}; }
inline Shape three() { return {{{at(0, 0, 4, 4)}, {at(2, 2, 4, 4)}, {at(6, 6, 4, 2)}}, 2, 1, 0, at(0, 0, 4, 4)}; }
inline ABox domain(const Shape& s, int l) { ABox b = s.dom; for (int i = 0; i < l; ++i) b.refine(s.ratio); return b; }
inline double prob(int d) { return vg_pos(30 + d); }
inline double width(const Shape& s, int l, int d) { return prob(d) / domain(s, l).length(d); }
inline double init(int l, const IntVect& i, int c) { return vg_in(100000 + ((l * 64 + i[0] + 16) * 64 + i[1] + 16) * 4 + c); }
/// the flux through a face in the n-th computation of fluxes of its level: any number, nothing at the boundary
inline double flux(const Shape& s, int l, int d, int n, const IntVect& x, int c) { const ABox b = domain(s, l); if (x[d] <= b.lo[d] || x[d] > b.hi[d]) return 0.0; return vg_in(1000000 + ((((l * 2 + d) * 40 + n) * 64 + x[0] + 16) * 64 + x[1] + 16) * 2 + c); }
struct Calls { int n[3][2]{}; Duration stable{std::numeric_limits<double>::max()}; };
struct AnyFlux {
  Shape s; Calls* calls;
  Duration ComputeStableDt(fc::IntegratorContext&, int, Direction) { return calls->stable; }
  void ComputeNumericFluxes(fc::IntegratorContext& c, int l, Duration, Direction dir) { const int d = int(dir), n = calls->n[l][d]++; auto& m = c.GetFluxes(l, dir); for (auto& f : m.fabs) am::cells(f.b, [&](IntVect x) { for (int k = 0; k < kCons; ++k) f(x, k) = flux(s, l, d, n, x, k); }); }
  static constexpr int GetStencilWidth() { return 1; }
};
struct NoReconstruction { void CompleteFromCons(fc::IntegratorContext&, int, Duration) {} };
inline double outside(int l, int dir, const IntVect& i, int c) { return vg_in(50000 + ((l * 3 + dir) * 64 + i[0] + 16) * 64 * 4 + (i[1] + 16) * 4 + c); }
/// fills every cell outside of the domain of its level
struct Walls {
  Shape s;
  void paint(ax::MultiFab& m, int l, int dir) { for (auto& f : m.fabs) am::cells(f.b, [&](IntVect i) { if (!domain(s, l).contains(i)) for (int c = 0; c < kState; ++c) f(i, c) = outside(l, dir, i, c); }); }
  void FillBoundary(ax::MultiFab& m, const fc::GriddingAlgorithm&, int l) { paint(m, l, 2); }
  void FillBoundary(ax::MultiFab& m, const fc::GriddingAlgorithm&, int l, Direction d) { paint(m, l, int(d)); }
};
inline double time0(int l) { return l > 0 ? 2.5 : 1.75; }
inline std::shared_ptr<fc::GriddingAlgorithm> grid(const Shape& s, bool paint) {
  auto g = std::make_shared<fc::GriddingAlgorithm>(); auto& h = g->h; h.ratio = IntVect(s.ratio); h.opts.refine_ratio = IntVect(s.ratio); h.desc = {kState, 0, kCons, 2}; h.reg = std::make_shared<CounterRegistry>();
  for (int l = 0; l < s.levels.size(); ++l) {
    ax::Geometry q; q.domain = domain(s, l); for (int d = 0; d < 2; ++d) { q.prob.l[d] = 0.0; q.prob.h[d] = prob(d); } h.g.push_back(q);
    fc::PatchLevel p; p.box_array = ax::BoxArray(s.levels[l]); p.data.define(s.levels[l], kState, IntVect(0)); for (auto& f : p.data.fabs) am::cells(f.b, [&](IntVect i) { for (int c = 0; c < kState; ++c) f(i, c) = init(l, i, c); }); p.time_point = Duration(time0(0)); p.cycles = 4 + l; h.l.push_back(p);
  }
  if (paint) g->bc = Walls{s};
  return g;
}
inline fc::IntegratorContext context(std::shared_ptr<fc::GriddingAlgorithm> g, const Shape& s, Calls* c) { return fc::IntegratorContext(std::move(g), fc::HyperbolicMethod{AnyFlux{s, c}, Forward(), NoReconstruction{}}, s.ng, s.fg); }
inline bool covered(const Shape& s, int l, const IntVect& i) { if (l + 1 >= s.levels.size()) return false; for (const ABox& b : s.levels[l + 1]) if (ax::coarsen(b, IntVect(s.ratio)).contains(i)) return true; return false; }
/// what a hierarchy contains: the sum over the cells that are not refined
template <class V> double content(const Shape& s, int c, V value) { double r = 0, w = 1; for (int l = 0; l < s.levels.size(); ++l) { for (const ABox& b : s.levels[l]) am::cells(b, [&](IntVect i) { if (!covered(s, l, i)) r += w * value(l, i, c); }); w /= s.ratio * s.ratio; } return r; }
template <template <class> class Solver, class Split> struct Run {
  Shape s; Calls calls; std::shared_ptr<fc::GriddingAlgorithm> g; Solver<DimensionalSplitLevelIntegrator<2, fc::IntegratorContext, Split>> solver;
  Run(const Shape& x, bool paint) : s(x), g(grid(x, paint)), solver(DimensionalSplitLevelIntegrator<2, fc::IntegratorContext, Split>(context(g, x, &calls))) {}
  Run(const Run&) = delete;
  bool step() { solver.PreAdvanceHierarchy(); auto r = solver.AdvanceHierarchy(kStep); solver.PostAdvanceHierarchy(kStep); return bool(r); }
  double data(int l, const IntVect& i, int c) { auto& m = g->h.l[l].data; for (auto& f : m.fabs) if (f.b.contains(i)) return f(i, c); return 0.0; }
};
template <template <class> class Solver, class Split> void conserve(Out& o, Shape s) { Run<Solver, Split> r(s, false); o.put(double(r.step())); for (int c = 0; c < kCons; ++c) { double all = 0; am::cells(s.dom, [&](IntVect i) { all += r.data(0, i, c); }); o.put(all); o.put(content(s, c, [&](int l, const IntVect& i, int k) { return r.data(l, i, k); })); } }
inline void conserved(Out& o, Shape s) { o.put(1.0); for (int c = 0; c < kCons; ++c) { const double v = content(s, c, init); o.put(v); o.put(v); } }
#define CON(N, S, P, L) LAW_(A08_, conserve_##N, (conserve<S, P>(o, L)), conserved(o, L))
CON(two, SubcycleFineFirstSolver, GodunovSplitting, two()) CON(two_strang, SubcycleFineFirstSolver, StrangSplitting, two()) CON(two_same, NoSubcycleSolver, GodunovSplitting, two())
CON(corner, SubcycleFineFirstSolver, StrangSplittingLumped, corner()) CON(corner_same, NoSubcycleSolver, StrangSplitting, corner()) FOUR(CON(four, SubcycleFineFirstSolver, GodunovSplitting, four())) CON(one, SubcycleFineFirstSolver, GodunovSplitting, one())
CON(three, SubcycleFineFirstSolver, GodunovSplitting, three()) CON(three_same, NoSubcycleSolver, GodunovSplitting, three())
// ---- every cell after a step of all levels: fluxes at the boundary of refined cells are those of the refined level
inline int calls(const Shape& s, int l, bool sub) { int n = 1; for (int i = 0; i < l && sub; ++i) n *= s.ratio; return n; }
/// dt times area times flux through a face of level l during the whole step; the same for both neighbours
inline double passed(const Shape& s, bool sub, int l, int d, const IntVect& x, int c, int first, int n) {
  double r = 0;
  if (l + 1 < s.levels.size() && (covered(s, l, x) != covered(s, l, am::next(x, d, -1)))) { const int k = sub ? s.ratio : 1; for (int j = 0; j < s.ratio; ++j) { IntVect y = x; for (int q = 0; q < 2; ++q) y[q] = x[q] * s.ratio + (q == d ? 0 : j); r += passed(s, sub, l + 1, d, y, c, first * k, n * k); } return r; }
  for (int q = first; q < first + n; ++q) r += flux(s, l, d, q, x, c);
  return r * kStep.count() / calls(s, l, sub) * width(s, l, 1 - d);
}
inline double after(const Shape& s, bool sub, int l, const IntVect& i, int c) {
  if (covered(s, l, i)) { double r = 0; for (int a = 0; a < s.ratio; ++a) for (int b = 0; b < s.ratio; ++b) r += after(s, sub, l + 1, am::iv(i[0] * s.ratio + a, i[1] * s.ratio + b), c); return r / (s.ratio * s.ratio); }
  double v = init(l, i, c); const int n = calls(s, l, sub);
  for (int d = 0; d < 2; ++d) v -= (passed(s, sub, l, d, am::next(i, d), c, 0, n) - passed(s, sub, l, d, i, c, 0, n)) / (width(s, l, 0) * width(s, l, 1));
  return v;
}
template <template <class> class Solver> void step(Out& o, Shape s) { Run<Solver, GodunovSplitting> r(s, false); o.put(double(r.step())); for (int l = 0; l < s.levels.size(); ++l) { for (const ABox& b : s.levels[l]) am::cells(b, [&](IntVect i) { for (int c = 0; c < kState; ++c) o.put(r.data(l, i, c)); }); o.put(r.g->h.l[l].time_point.count()); o.put(double(r.g->h.l[l].cycles)); o.put(r.solver.GetContext().GetTimePoint(l).count()); o.put(double(r.solver.GetContext().GetCycles(l))); } o.put(r.g->h.stable.count()); }
inline void stepped(Out& o, Shape s, bool sub) { o.put(1.0); for (int l = 0; l < s.levels.size(); ++l) { for (const ABox& b : s.levels[l]) am::cells(b, [&](IntVect i) { for (int c = 0; c < kCons; ++c) o.put(after(s, sub, l, i, c)); o.put(init(l, i, 2)); }); const double t = time0(0) + kStep.count(), n = 4 + l + calls(s, l, sub); o.put(t); o.put(n); o.put(t); o.put(n); } o.put(kStep.count() / calls(s, s.levels.size() - 1, sub)); }
#define STEP(N, S, SUB, L) LAW_(A08_, step_##N, (step<S>(o, L)), stepped(o, L, SUB))
STEP(two, SubcycleFineFirstSolver, true, two()) STEP(two_same, NoSubcycleSolver, false, two()) STEP(corner, SubcycleFineFirstSolver, true, corner()) FOUR(STEP(four_same, NoSubcycleSolver, false, four())) STEP(one, SubcycleFineFirstSolver, true, one()) STEP(three, SubcycleFineFirstSolver, true, three()) STEP(three_same, NoSubcycleSolver, false, three())
// ---- ghost cells: neighbouring patches of the level, else the coarser level, else the boundary condition
inline double ghost(const Shape& s, int l, int dir, const IntVect& i, int c, bool lower) { if (!domain(s, l).contains(i)) return outside(l, dir, i, c); if (ax::valid(s.levels[l], i)) return init(l, i, c); return lower && l > 0 ? init(l - 1, ax::coarsen(i, IntVect(s.ratio)), c) : 7.0; }
struct Ctx { Calls calls; std::shared_ptr<fc::GriddingAlgorithm> g; fc::IntegratorContext c; Ctx(const Shape& s) : g(grid(s, true)), c(context(g, s, &calls)) { c.ResetHierarchyConfiguration(); for (int l = 0; l < s.levels.size(); ++l) { c.SetTimePoint(Duration(time0(l)), l); auto& m = c.GetScratch(l); for (int q = 0; q < m.fabs.size(); ++q) am::cells(m.fabs[q].b, [&](IntVect i) { if (!m.boxes[q].contains(i)) for (int k = 0; k < kState; ++k) m.fabs[q](i, k) = 7.0; }); } } Ctx(const Ctx&) = delete; };
/// what: 0 from one level, 1 from two levels, 2 boundary condition of a direction
inline void ghosts(Out& o, Shape s, int l, int what, int d, bool own) { Ctx x(s); fc::AnyBoundaryCondition bc = Walls{s}; if (own) x.g->bc = fc::AnyBoundaryCondition();
  if (what == 0) own ? x.c.FillGhostLayerSingleLevel(l, bc) : x.c.FillGhostLayerSingleLevel(l); else if (what == 1) own ? x.c.FillGhostLayerTwoLevels(l, bc, l - 1, bc) : x.c.FillGhostLayerTwoLevels(l, l - 1); else own ? x.c.ApplyBoundaryCondition(l, Direction(d), bc) : x.c.ApplyBoundaryCondition(l, Direction(d));
  am::put(o, x.c.GetScratch(l)); for (int q = 0; q < s.levels.size(); ++q) { o.put(x.c.GetTimePoint(q).count()); if (q != l) for (const ABox& b : s.levels[q]) am::cells(b, [&](IntVect i) { auto& m = x.c.GetScratch(q); for (int k = 0; k < m.fabs.size(); ++k) if (m.boxes[k].contains(i)) { o.put(m.fabs[k](i, 0)); return; } }); } }
inline void ghosted(Out& o, Shape s, int l, int what, int d) { for (ABox b : s.levels[l]) { const ABox own = b; b.grow(s.ng); for (int c = 0; c < kState; ++c) am::cells(b, [&](IntVect i) { const bool in = domain(s, l).contains(i); o.put(what == 2 && in && !own.contains(i) ? 7.0 : ghost(s, l, what == 2 ? d : 2, i, c, what == 1)); }); }
  for (int q = 0; q < s.levels.size(); ++q) { o.put(time0(q)); if (q != l) for (const ABox& b : s.levels[q]) am::cells(b, [&](IntVect i) { o.put(init(q, i, 0)); }); } }
#define GHOST(N, S, L, WHAT, DD) LAW_(A09_, ghost_##N, (ghosts(o, S, L, WHAT, DD, false)), (ghosted(o, S, L, WHAT, DD))) LAW_(A09_, ghost_own_##N, (ghosts(o, S, L, WHAT, DD, true)), (ghosted(o, S, L, WHAT, DD)))
GHOST(coarse, two(), 0, 0, 2) GHOST(fine, two(), 1, 1, 2) GHOST(fine_only, two(), 1, 0, 2) GHOST(corner, corner(), 1, 1, 2) FOUR(GHOST(four, four(), 1, 1, 2)) GHOST(finest, three(), 2, 1, 2) GHOST(x, two(), 0, 2, 0) GHOST(y, two(), 0, 2, 1) GHOST(fine_x, corner(), 1, 2, 0) GHOST(fine_y, corner(), 1, 2, 1)
// ---- auxiliary data follows the patches of the hierarchy
inline void layout(Out& o, fc::IntegratorContext& c, int l) { const auto& m = c.GetScratch(l); o.put(double(m.nComp())); for (auto& f : m.fabs) for (int d = 0; d < 2; ++d) { o.put(f.b.lo[d]); o.put(f.b.hi[d]); } for (int k = 0; k < 2; ++k) { auto& q = c.GetFluxes(l, Direction(k)); o.put(double(q.nComp())); for (auto& f : q.fabs) { for (int d = 0; d < 2; ++d) { o.put(f.b.lo[d]); o.put(f.b.hi[d]); } for (double v : f.data) o.put(v); } } o.put(c.GetTimePoint(l).count()); o.put(double(c.GetCycles(l))); }
inline void laid(Out& o, const Shape& s, int l) { o.put(double(kState)); for (ABox b : s.levels[l]) { b.grow(s.ng); for (int d = 0; d < 2; ++d) { o.put(b.lo[d]); o.put(b.hi[d]); } } for (int k = 0; k < 2; ++k) { o.put(double(kCons)); for (ABox b : s.levels[l]) { b = ax::surroundingNodes(b, k); for (int d = 0; d < 2; ++d) b.grow(d, d == k ? s.fg : transverse(s.ng, s.fg)); for (int d = 0; d < 2; ++d) { o.put(b.lo[d]); o.put(b.hi[d]); } for (int n = 0; n < b.numPts() * kCons; ++n) o.put(0.0); } } o.put(time0(0)); o.put(4.0 + l); }
inline void cells(Out& o, fc::IntegratorContext& c, const Shape& s, int l) { for (const ABox& b : s.levels[l]) am::cells(b, [&](IntVect i) { auto& m = c.GetScratch(l); for (int q = 0; q < m.fabs.size(); ++q) if (m.boxes[q].contains(i)) { for (int k = 0; k < kState; ++k) o.put(m.fabs[q](i, k)); return; } }); }
inline void reset(Out& o, Shape s) { Calls n; auto g = grid(s, false); auto c = context(g, s, &n); c.ResetHierarchyConfiguration(); for (int l = 0; l < s.levels.size(); ++l) { layout(o, c, l); cells(o, c, s, l); } o.put(double(c.LevelExists(-1))); o.put(double(c.LevelExists(0))); o.put(double(c.LevelExists(s.levels.size()))); o.put(double(rank(c))); }
inline void was_reset(Out& o, Shape s) { for (int l = 0; l < s.levels.size(); ++l) { laid(o, s, l); for (const ABox& b : s.levels[l]) am::cells(b, [&](IntVect i) { for (int k = 0; k < kState; ++k) o.put(init(l, i, k)); }); } o.put(0.0); o.put(1.0); o.put(0.0); o.put(2.0); }
LAW_(A09_, reset_two, reset(o, two()), was_reset(o, two())) LAW_(A09_, reset_three, reset(o, three()), was_reset(o, three())) LAW_(A09_, reset_one, reset(o, one()), was_reset(o, one()))
/// regridding from level `from`: finer levels get the data of the hierarchy, coarser ones keep their scratch; levels may appear and vanish
inline void regrid(Out& o, Shape s, Shape t, int from, int level, int first, bool late) {
  Calls n; auto g = grid(s, false); auto c = context(g, s, &n); c.ResetHierarchyConfiguration();
  for (int l = 0; l < s.levels.size(); ++l) { c.GetScratch(l).setVal(3.0); if (late) c.SetTimePoint(Duration(time0(0) + 1.0), l); }
  auto h = grid(t, false); g->h.l = h->h.l; g->h.g = h->h.g; g->regrids = from;
  o.put(c.PreAdvanceLevel(level, Duration(vg_pos(2)), {first, 2})); o.put(g->h.stable.count());
  for (int l = 0; l < t.levels.size(); ++l) { layout(o, c, l); cells(o, c, t, l); }
  g->regrids = 0; o.put(c.PreAdvanceLevel(level, Duration(vg_pos(3)), {0, 2})); // the same time point: not again
}
inline void regridded(Out& o, Shape t, int from) { o.put(from); o.put(vg_pos(2)); for (int l = 0; l < t.levels.size(); ++l) { laid(o, t, l); for (const ABox& b : t.levels[l]) am::cells(b, [&](IntVect i) { for (int k = 0; k < kState; ++k) o.put(l < from ? 3.0 : init(l, i, k)); }); } o.put(9.0); }
inline Shape moved() { Shape s = two(); s.levels[1] = {at(2, 4, 4, 2)}; return s; }
inline Shape vanished() { Shape s = two(); ax::Seq<Boxes> l; l.push_back(s.levels[0]); s.levels = l; return s; }
LAW_(A09_, regrid_moved, (regrid(o, two(), moved(), 1, 0, 0, true)), regridded(o, moved(), 1)) LAW_(A09_, regrid_all, (regrid(o, two(), two(), 0, 0, 0, true)), regridded(o, two(), 0)) LAW_(A09_, regrid_vanished, (regrid(o, two(), vanished(), 1, 0, 0, true)), regridded(o, vanished(), 1)) LAW_(A09_, regrid_appeared, (regrid(o, vanished(), two(), 1, 0, 0, true)), regridded(o, two(), 1)) LAW_(A09_, regrid_finest, (regrid(o, three(), three(), 2, 1, 0, true)), regridded(o, three(), 2))
/// no regridding in later subcycles and at an unchanged time
inline void kept(Out& o, Shape s, int first, bool late) { Calls n; auto g = grid(s, false); auto c = context(g, s, &n); c.ResetHierarchyConfiguration(); g->regrids = 0; for (int l = 0; l < s.levels.size(); ++l) { c.GetScratch(l).setVal(3.0); if (late) c.SetTimePoint(Duration(time0(0) + 1.0), l); } o.put(c.PreAdvanceLevel(0, kStep, {first, 2})); for (int l = 0; l < s.levels.size(); ++l) cells(o, c, s, l); }
inline void same(Out& o, Shape s) { o.put(9.0); for (int l = 0; l < s.levels.size(); ++l) for (const ABox& b : s.levels[l]) for (int n = 0; n < b.numPts() * kState; ++n) o.put(3.0); }
LAW_(A09_, kept_later, (kept(o, two(), 1, true)), same(o, two())) LAW_(A09_, kept_same_time, (kept(o, two(), 0, false)), same(o, two()))
/// asked once per time point, whatever the answer was
inline void once(Out& o, Shape s, int a, int b) { Calls n; auto g = grid(s, false); auto c = context(g, s, &n); c.ResetHierarchyConfiguration(); for (int l = 0; l < s.levels.size(); ++l) { c.GetScratch(l).setVal(3.0); c.SetTimePoint(Duration(time0(0) + 1.0), l); } o.put(c.PreAdvanceLevel(a, kStep, {0, 2})); g->regrids = 0; o.put(c.PreAdvanceLevel(b, kStep, {0, 2})); for (int l = 0; l < s.levels.size(); ++l) cells(o, c, s, l); }
inline void asked(Out& o, Shape s) { o.put(9.0); same(o, s); }
LAW_(A09_, once_coarse, (once(o, two(), 0, 0)), asked(o, two())) LAW_(A09_, once_finer, (once(o, two(), 0, 1)), asked(o, two())) LAW_(A09_, once_fine, (once(o, three(), 1, 2)), asked(o, three()))
