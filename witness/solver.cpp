// SOURCES: src/split_method/GodunovSplitting.cpp src/split_method/StrangSplitting.cpp src/split_method/StrangSplittingLumped.cpp src/ext/Mpi.cpp
#include "history.hpp"
#include "fub/Meta.hpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include <limits>
using Sub = std::pair<int, int>;
struct Grid {};
/// 4: every level is refined by four; 42: the first one by four, all others by two
constexpr int ratio_at(int q, int l) { return l == 0 ? 1 : q < 10 ? q : l == 1 ? q / 10 : q % 10; }
/// An integrator context about which nothing is known but its number of
/// levels, its refinement ratio, its cycle number, and the level from which
/// it regrids.
template <int Levels, int Ratio, int Cycles, int Regrid = 99, int Frequency = 7> struct Context {
  static constexpr int Rank = 2;
  struct Opts { int regrid_frequency = Frequency; };
  struct Ratios { int r; int max() const { return r; } };
  Opts GetOptions() const { return {}; }
  int GetCounterRegistry() const { return 0; }
  Grid* GetGriddingAlgorithm() const { return nullptr; }
  MPI_Comm GetMpiCommunicator() const { return MPI_COMM_WORLD; }
  std::ptrdiff_t GetCycles(int = 0) const { return Cycles; }
  bool LevelExists(int l) const { return l < Levels; }
  Ratios GetRatioToCoarserLevel(int l) const { return {ratio_at(Ratio, l)}; }
  Duration GetTimePoint(int l = 0) const { return Duration(H->value(kTime, l)); }
  void PreAdvanceHierarchy() { H->op(kPreHierarchy); }
  void PostAdvanceHierarchy(Duration dt) { H->op(kPostHierarchy, dt.count()); }
  int PreAdvanceLevel(int l, Duration dt, Sub s) { H->op(kPreLevel, l, dt.count(), s.first, s.second); return l == 0 ? Regrid : 99; }
  R PostAdvanceLevel(int l, Duration dt, Sub s) { H->op(kPostLevel, l, dt.count(), s.first, s.second); return result(kPostLevel, l); }
  void FillGhostLayerSingleLevel(int l) { H->op(kGhost1, l); }
  void FillGhostLayerTwoLevels(int f, int c) { H->op(kGhost2, f, c); }
  void ApplyBoundaryCondition(int l, Direction d) { H->op(kBoundary, l, int(d)); }
  void PreSplitStep(int l, Duration dt, Direction d, Sub s) { H->op(kPreSplit, l, dt.count(), int(d), s.first); H->op(kPreSplit, s.second); }
  Duration ComputeStableDt(int l, Direction d) { return Duration(H->value(kStableDt, l, int(d))); }
  void ComputeNumericFluxes(int l, Duration dt, Direction d) { H->op(kFlux, l, dt.count(), int(d)); }
  void UpdateConservatively(int l, Duration dt, Direction d) { H->op(kUpdate, l, dt.count(), int(d)); }
  void CompleteFromCons(int l, Duration dt) { H->op(kComplete, l, dt.count()); }
  void AccumulateCoarseFineFluxes(int l, double s, Direction d) { H->op(kAccumulate, l, s, int(d)); }
  void ResetCoarseFineFluxes(int f, int c) { H->op(kReset, f, c); }
  void ApplyFluxCorrection(int f, int c, Duration dt) { H->op(kCorrect, f, c, dt.count()); }
  void CoarsenConservatively(int f, int c) { H->op(kCoarsen, f, c); }
  void CopyScratchToData(int l) { H->op(kToData, l); }
  void CopyDataToScratch(int l) { H->op(kToScratch, l); }
  void ResetHierarchyConfiguration() {}
};
inline double level_dt(int l) { return vg_uf2(kStableDt, 7.0, l); }
inline double source_dt(int l) { return vg_uf2(kSourceDt, 7.0, l); }
/// The same one layer above: a level integrator
template <int Levels, int Ratio, int Cycles = 1, int Frequency = 7> struct Integrator : Context<Levels, Ratio, Cycles, 99, Frequency> {
  using Base = Context<Levels, Ratio, Cycles, 99, Frequency>;
  Base& GetContext() { return *this; }
  const Base& GetContext() const { return *this; }
  void PreAdvanceLevel(int l, Duration dt, Sub s) { H->op(kPreLevel, l, dt.count(), s.first, s.second); }
  Duration ComputeStableDt(int l) { return Duration(level_dt(l)); }
  R AdvanceLevelNonRecursively(int l, Duration dt, Sub s) { H->op(kSplit, l, dt.count(), s.first, s.second); return result(kSplit, l); }
};
struct Source {
  static constexpr int Rank = 1;
  void PreAdvanceHierarchy() { H->op(kSource, 1); }
  void PostAdvanceHierarchy(Duration dt) { H->op(kSource, 2, dt.count()); }
  void PreAdvanceLevel(int l, Duration dt, Sub s) { H->op(kSource + 100, l, dt.count(), s.first, s.second); }
  Duration ComputeStableDt(int l) { return Duration(source_dt(l)); }
  template <class C> R AdvanceLevel(C&, int l, Duration dt) { H->op(kSource, 4, l, dt.count()); return result(kSource, l); }
};
// ------------------------------------------------ dimensional splitting -----
struct Split { int dir; double f; };
/// one split step of a level in one direction
inline void split_step(Spec& s, int l, double dt, int dir, int count, bool again) {
  if (again) s.op(kBoundary, l, dir);
  s.op(kPreSplit, l, dt, dir, count); s.op(kPreSplit, 0);
  const double local = H->value(kStableDt, l, dir);
  s.op(kMin, 1.0, local); const double level_dt = H->value(kMin);
  if (level_dt < dt) s.fail(level_dt, l);
  s.op(kFlux, l, dt, dir); s.op(kUpdate, l, dt, dir); s.op(kComplete, l, dt); s.op(kAccumulate, l, dt, dir);
}
template <std::size_t N> void split_steps(Out& o, int l, double dt, const std::array<Split, N>& a) { Spec s; std::array<bool, 3> seen{}; int n = 0; for (Split x : a) { split_step(s, l, x.f * dt, x.dir, n++, seen[x.dir]); seen[x.dir] = true; } s.put(o); }
template <int Rk, class M, int Cycles> R dim_split(int level, Sub sub) { DimensionalSplitLevelIntegrator<Rk, Context<3, 2, Cycles>, M> x{Context<3, 2, Cycles>{}}; return x.AdvanceLevelNonRecursively(level, Duration(vg_pos(1)), sub); }
using A = GodunovSplitting; using B = StrangSplitting; using C = StrangSplittingLumped;
template <std::size_t N> using Seq = std::array<Split, N>;
#define DT vg_pos(1)
LAW2(S02_1d_godunov, put(o, (dim_split<1, A, 0>(0, {0, 1}))), split_steps(o, 0, DT, Seq<1>{{{0, 1}}}))
LAW2(S02_1d_strang, put(o, (dim_split<1, B, 1>(2, {1, 2}))), split_steps(o, 2, DT, Seq<1>{{{0, 1}}}))
LAW2(S02_2d_godunov_even, put(o, (dim_split<2, A, 0>(0, {0, 1}))), split_steps(o, 0, DT, Seq<2>{{{0, 1}, {1, 1}}}))
LAW2(S02_2d_godunov_odd, put(o, (dim_split<2, A, 3>(0, {0, 1}))), split_steps(o, 0, DT, Seq<2>{{{1, 1}, {0, 1}}}))
LAW2(S02_2d_godunov_even_second, put(o, (dim_split<2, A, 4>(1, {1, 2}))), split_steps(o, 1, DT, Seq<2>{{{1, 1}, {0, 1}}}))
LAW2(S02_2d_godunov_odd_second, put(o, (dim_split<2, A, 5>(1, {1, 2}))), split_steps(o, 1, DT, Seq<2>{{{0, 1}, {1, 1}}}))
LAW2(S02_2d_strang_even, put(o, (dim_split<2, B, 2>(1, {0, 2}))), split_steps(o, 1, DT, Seq<4>{{{0, .5}, {1, .5}, {1, .5}, {0, .5}}}))
LAW2(S02_2d_strang_odd, put(o, (dim_split<2, B, 1>(1, {0, 2}))), split_steps(o, 1, DT, Seq<4>{{{1, .5}, {0, .5}, {0, .5}, {1, .5}}}))
LAW2(S02_2d_lumped, put(o, (dim_split<2, C, 0>(0, {0, 1}))), split_steps(o, 0, DT, Seq<3>{{{0, .5}, {1, 1.}, {0, .5}}}))
LAW2(S02_3d_godunov_even, put(o, (dim_split<3, A, 0>(0, {0, 1}))), split_steps(o, 0, DT, Seq<3>{{{0, 1}, {1, 1}, {2, 1}}}))
LAW2(S02_3d_godunov_odd, put(o, (dim_split<3, A, 1>(0, {0, 1}))), split_steps(o, 0, DT, Seq<3>{{{2, 1}, {1, 1}, {0, 1}}}))
LAW2(S02_3d_strang, put(o, (dim_split<3, B, 0>(1, {0, 1}))), split_steps(o, 1, DT, Seq<6>{{{0, .5}, {1, .5}, {2, .5}, {2, .5}, {1, .5}, {0, .5}}}))
// much later, and from any part of a subcycle
LAW2(S02_2d_godunov_late_even, put(o, (dim_split<2, A, 1000>(0, {0, 1}))), split_steps(o, 0, DT, Seq<2>{{{0, 1}, {1, 1}}}))
LAW2(S02_2d_godunov_late_odd, put(o, (dim_split<2, A, 1001>(0, {0, 1}))), split_steps(o, 0, DT, Seq<2>{{{1, 1}, {0, 1}}}))
LAW2(S02_3d_strang_odd, put(o, (dim_split<3, B, 7>(0, {0, 1}))), split_steps(o, 0, DT, Seq<6>{{{2, .5}, {1, .5}, {0, .5}, {0, .5}, {1, .5}, {2, .5}}}))
LAW2(S02_3d_lumped, put(o, (dim_split<3, C, 2>(0, {0, 1}))), split_steps(o, 0, DT, Seq<5>{{{0, .5}, {1, .5}, {2, 1.}, {1, .5}, {0, .5}}}))
LAW2(S02_3d_lumped_odd, put(o, (dim_split<3, C, 13>(0, {0, 1}))), split_steps(o, 0, DT, Seq<5>{{{2, .5}, {1, .5}, {0, 1.}, {1, .5}, {2, .5}}}))
LAW2(S02_2d_godunov_fourth, put(o, (dim_split<2, A, 4>(2, {3, 4}))), split_steps(o, 2, DT, Seq<2>{{{1, 1}, {0, 1}}}))
LAW2(S02_2d_godunov_third, put(o, (dim_split<2, A, 5>(2, {2, 4}))), split_steps(o, 2, DT, Seq<2>{{{1, 1}, {0, 1}}}))
// ghost cells after a regrid
template <int Regrid> void pre_level(Out& o, int l) { using X = Context<3, 2, 0, Regrid>; DimensionalSplitLevelIntegrator<2, X, A> x{X{}}; x.PreAdvanceLevel(l, Duration(DT), {0, 2}); o.put(H->h); }
inline void pre_level_spec(Out& o, int l, int regrid) {
  Spec s; s.op(kPreLevel, l, DT, 0, 2);
  if (l > 0) regrid = 99;
  if (regrid == 0) s.op(kGhost1, 0);
  for (int k = regrid > 1 ? regrid : 1; k < 3; ++k) s.op(kGhost2, k, k - 1);
  if (l < regrid) { const double t0 = H->value(kTime, 0), t = H->value(kTime, l); if (t != t0) { if (l > 0) s.op(kGhost2, l, l - 1); else s.op(kGhost1, 0); } }
  o.put(H->h);
}
LAW2(S02_pre_level_regrid0, pre_level<0>(o, 0), pre_level_spec(o, 0, 0))
LAW2(S02_pre_level_regrid1, pre_level<1>(o, 0), pre_level_spec(o, 0, 1))
LAW2(S02_pre_level_regrid2, pre_level<2>(o, 0), pre_level_spec(o, 0, 2))
LAW2(S02_pre_level_no_regrid, pre_level<99>(o, 0), pre_level_spec(o, 0, 99))
LAW2(S02_pre_level_fine, pre_level<1>(o, 1), pre_level_spec(o, 1, 99))
LAW2(S02_pre_level_finest, pre_level<1>(o, 2), pre_level_spec(o, 2, 99))
template <class F> void dim_call(Out& o, F f) { using X = Context<3, 2, 0>; DimensionalSplitLevelIntegrator<2, X, A> x{X{}}; f(x); o.put(H->h); }
LAW2(S02_post_level, (dim_call(o, [&](auto& x) { put(o, x.PostAdvanceLevel(1, Duration(DT), {1, 2})); })), Spec s; s.op(kPostLevel, 1, DT, 1, 2); s.check(kPostLevel, 1); s.put(o); o.put(H->h))
LAW2(S02_hierarchy_hooks, (dim_call(o, [&](auto& x) { x.PreAdvanceHierarchy(); x.PostAdvanceHierarchy(Duration(DT)); })), H->op(kPreHierarchy); H->op(kPostHierarchy, DT); o.put(H->h))
// ------------------------------------------------------ stable time steps ---
inline double dt_at(int l, double d = 0) { return H->value(kStableDt, l, d); }
template <int Rk> void dim_dt(Out& o, int l) { using X = Context<3, 2, 0>; DimensionalSplitLevelIntegrator<Rk, X, A> x{X{}}; o.put(x.ComputeStableDt(l).count()); o.put(H->h); }
template <int Rk> void dim_dt_spec(Out& o, int l) { double m = std::numeric_limits<double>::max(); for (int d = 0; d < Rk; ++d) { m = std::min(m, dt_at(l, d)); } o.put(m); o.put(H->h); }
LAW2(S05_directions_1d, dim_dt<1>(o, 0), dim_dt_spec<1>(o, 0))
LAW2(S05_directions_2d, dim_dt<2>(o, 2), dim_dt_spec<2>(o, 2))
LAW2(S05_directions_3d, dim_dt<3>(o, 1), dim_dt_spec<3>(o, 1))
template <class S> void solver_dt(Out& o, S s) { o.put(s.ComputeStableDt().count()); o.put(H->h); }
inline void solver_dt_spec(Out& o, int levels, int ratio) { double m = std::numeric_limits<double>::max(); int r = 1; for (int l = 0; l < levels; ++l) { r *= ratio == 1 ? 1 : ratio_at(ratio, l); m = std::min(m, r * level_dt(l)); } H->op(kMin, 1.0, m); o.put(H->value(kMin)); o.put(H->h); }
template <int L, int Q> NoSubcycleSolver<Integrator<L, Q>> flat() { return NoSubcycleSolver<Integrator<L, Q>>(Integrator<L, Q>{}); }
template <int L, int Q, int Cy = 1, int Fr = 7> SubcycleFineFirstSolver<Integrator<L, Q, Cy, Fr>> deep() { return SubcycleFineFirstSolver<Integrator<L, Q, Cy, Fr>>(Integrator<L, Q, Cy, Fr>{}); }
LAW2(S05_flat_1level, solver_dt(o, flat<1, 2>()), solver_dt_spec(o, 1, 1))
LAW2(S05_flat_3levels, solver_dt(o, flat<3, 2>()), solver_dt_spec(o, 3, 1))
LAW2(S05_subcycle_1level, solver_dt(o, deep<1, 2>()), solver_dt_spec(o, 1, 2))
LAW2(S05_subcycle_2levels_ratio4, solver_dt(o, deep<2, 4>()), solver_dt_spec(o, 2, 4))
LAW2(S05_subcycle_3levels, solver_dt(o, deep<3, 2>()), solver_dt_spec(o, 3, 2))
LAW2(S05_subcycle_4levels, solver_dt(o, deep<4, 2>()), solver_dt_spec(o, 4, 2))
LAW2(S05_flat_6levels, solver_dt(o, flat<6, 2>()), solver_dt_spec(o, 6, 1))
LAW2(S05_subcycle_6levels, solver_dt(o, deep<6, 2>()), solver_dt_spec(o, 6, 2))
LAW2(S05_subcycle_3levels_ratio3, solver_dt(o, deep<3, 3>()), solver_dt_spec(o, 3, 3))
LAW2(S05_subcycle_4levels_mixed, solver_dt(o, deep<4, 24>()), solver_dt_spec(o, 4, 24))
LAW2(S05_subcycle_3levels_mixed, solver_dt(o, deep<3, 42>()), solver_dt_spec(o, 3, 42))
template <class M> using SysSrc = SplitSystemSourceLevelIntegrator<Integrator<3, 2>, Source, M>;
template <class M> SysSrc<M> syssrc() { return SysSrc<M>(Integrator<3, 2>{}, Source{}); }
template <class M> void syssrc_dt(Out& o) { auto x = syssrc<M>(); o.put(x.ComputeStableDt(1).count()); }
LAW2(S05_system_and_source, syssrc_dt<A>(o), o.put(std::min(level_dt(1), source_dt(1))))
// ------------------------------------------------------- source terms -------
template <class M> void syssrc_adv(Out& o) { auto x = syssrc<M>(); put(o, x.AdvanceLevelNonRecursively(1, Duration(DT), {1, 2})); }
struct Part { int what; double f; };
template <std::size_t N> void syssrc_spec(Out& o, const std::array<Part, N>& a) { Spec s; for (Part p : a) if (p.what) { s.op(kSource, 4, 1, p.f * DT); s.check(kSource, 1); } else { s.op(kSplit, 1, p.f * DT, 1, 2); s.check(kSplit, 1); } s.put(o); }
template <std::size_t N> using Parts = std::array<Part, N>;
LAW2(S03_source_godunov, syssrc_adv<A>(o), syssrc_spec(o, Parts<2>{{{1, 1}, {0, 1}}}))
LAW2(S03_source_strang, syssrc_adv<B>(o), syssrc_spec(o, Parts<4>{{{1, .5}, {0, .5}, {0, .5}, {1, .5}}}))
LAW2(S03_source_lumped, syssrc_adv<C>(o), syssrc_spec(o, Parts<3>{{{1, .5}, {0, 1}, {1, .5}}}))
LAW2(S03_source_hooks, { auto x = syssrc<A>(); x.PreAdvanceHierarchy(); x.PreAdvanceLevel(1, Duration(DT), {1, 2}); x.PostAdvanceHierarchy(Duration(DT)); o.put(H->h); }, { H->op(kPreHierarchy); H->op(kSource, 1); H->op(kPreLevel, 1, DT, 1, 2); H->op(kSource + 100, 1, DT, 1, 2); H->op(kSource, 2, DT); H->op(kPostHierarchy, DT); o.put(H->h); })
LAW2(S03_source_post_level, { auto x = syssrc<A>(); put(o, x.PostAdvanceLevel(1, Duration(DT), {1, 2})); }, { Spec s; s.op(kPostLevel, 1, DT, 1, 2); s.check(kPostLevel, 1); s.put(o); })
// -------------------------------------------------- level recursions --------
/// fine levels first, each in `ratio` substeps; flat: all levels with one step
inline void recurse(Spec& s, int l, int levels, double dt, int ratio, Sub sub, bool flat) {
  s.op(kPreLevel, l, dt, sub.first, sub.second);
  const bool finer = l + 1 < levels;
  if (finer) { s.op(kReset, l + 1, l); const int n = flat ? 1 : ratio_at(ratio, l + 1); for (int r = 0; r < n; ++r) recurse(s, l + 1, levels, flat ? dt : dt / n, ratio, {r, n}, flat); }
  s.op(kSplit, l, dt, sub.first, sub.second); s.check(kSplit, l);
  if (finer) { s.op(kCorrect, l + 1, l, dt); s.op(kCoarsen, l + 1, l); s.op(kComplete, l, dt); }
  s.op(kToData, l);
  if (flat) { if (l == 0) s.op(kGhost1, 0); else s.op(kGhost2, l, l - 1); }
  s.op(kPostLevel, l, dt, sub.first, sub.second); s.check(kPostLevel, l);
}
/// errors come back as a time step of the coarsest level
inline void coarse_error(Spec& s, int ratio, int levels) { double dt = s.dt; int q = 1; for (int l = 1; l < levels; ++l) { q *= ratio_at(ratio, l); dt = s.level == l ? s.dt * q : dt; } if (s.failed) { s.dt = dt; s.level = 0; } }
template <int L> void flat_spec(Out& o) { Spec s; recurse(s, 0, L, DT, 2, {0, 1}, true); s.put(o); }
template <int L, int Q> void deep_spec(Out& o, bool ghosts) { vg_loop_bound(6); Spec s; recurse(s, 0, L, DT, Q, {0, 1}, false); coarse_error(s, Q, L); if (ghosts) { s.op(kGhost1, 0); for (int l = 1; l < L; ++l) s.op(kGhost2, l, l - 1); } s.put(o); }
template <class S> void hierarchy(Out& o, S s) { vg_loop_bound(6); put(o, s.AdvanceHierarchy(Duration(DT))); }
LAW2(S04_flat_1level, hierarchy(o, flat<1, 2>()), flat_spec<1>(o))
LAW2(S04_flat_2levels, hierarchy(o, flat<2, 2>()), flat_spec<2>(o))
LAW2(S04_flat_3levels, hierarchy(o, flat<3, 2>()), flat_spec<3>(o))
LAW2(S04_subcycle_1level, hierarchy(o, deep<1, 2>()), (deep_spec<1, 2>(o, false)))
LAW2(S04_subcycle_2levels, hierarchy(o, deep<2, 2>()), (deep_spec<2, 2>(o, false)))
LAW2(S04_subcycle_2levels_ratio4, hierarchy(o, deep<2, 4>()), (deep_spec<2, 4>(o, false)))
LAW2(S04_subcycle_3levels, hierarchy(o, deep<3, 2>()), (deep_spec<3, 2>(o, false)))
LAW2(S04_subcycle_3levels_ghosts, hierarchy(o, (deep<3, 2, 4, 2>())), (deep_spec<3, 2>(o, true)))
LAW2(S04_subcycle_2levels_ghosts, hierarchy(o, (deep<2, 2, 0, 3>())), (deep_spec<2, 2>(o, true)))
LAW2(S04_flat_5levels, hierarchy(o, flat<5, 2>()), flat_spec<5>(o))
LAW2(S04_subcycle_4levels, hierarchy(o, deep<4, 2>()), (deep_spec<4, 2>(o, false)))
LAW2(S04_subcycle_2levels_ratio3, hierarchy(o, deep<2, 3>()), (deep_spec<2, 3>(o, false)))
LAW2(S04_subcycle_3levels_mixed, hierarchy(o, deep<3, 24>()), (deep_spec<3, 24>(o, false)))
LAW2(S04_subcycle_3levels_mixed2, hierarchy(o, deep<3, 42>()), (deep_spec<3, 42>(o, false)))
LAW2(S04_subcycle_2levels_late, hierarchy(o, (deep<2, 2, 1001, 3>())), (deep_spec<2, 2>(o, false)))
LAW2(S04_subcycle_2levels_late_ghosts, hierarchy(o, (deep<2, 2, 1002, 3>())), (deep_spec<2, 2>(o, true)))
LAW2(S04_subcycle_4levels_ghosts, hierarchy(o, (deep<4, 2, 50, 1>())), (deep_spec<4, 2>(o, true)))
