// DEFS: -Iwitness/mockamrex -DAMREX_SPACEDIM=2
// SOURCES: src/HyperbolicPatchIntegrator.cpp src/split_method/GodunovSplitting.cpp src/split_method/StrangSplitting.cpp src/split_method/StrangSplittingLumped.cpp src/ext/Mpi.cpp
// The AMReX back end with embedded boundaries: refined levels, their ghost cells and the fluxes they exchange
#include <range/v3/view/zip.hpp>
#include "amr.hpp"
#include "fub/Duration.hpp"
#include "fub/Direction.hpp"
#include "fub/Meta.hpp"
#include "fub/AnyBoundaryCondition.hpp"
#include <AMReX_Geometry.H>
#include <AMReX_FluxRegister.H>
#include <vector>
#include <functional>
#define FMT_FORMAT_H_
#define FUB_COUNTER_COUNTER_REGISTRY_HPP
#define FUB_AMREX_GRIDDING_ALGORITHM_HPP
#define FUB_AMREX_CUT_CELL_GRIDDING_ALGORITHM_HPP
#define FUB_AMREX_CUTCELL_INDEX_SPACE_HPP
#include <AMReX_MultiCutFab.H>
#include <optional>
#define FUB_ASSIGN_OPTION_FROM_MAP(m, v)
#define FUB_PRINT_OPTION_LOG(l, v)
namespace fmt { template <class... T> const char* format(const char* s, const T&...) { return s; } }
#include "fub/AMReX/ViewFArrayBox.hpp"
#include "fub/Meta.hpp"
namespace fub {
struct Timer { Timer() {} ~Timer() {} };
struct CounterRegistry { Timer get_timer(const char*) { return {}; } };
struct SeverityLogger;
}
namespace fub::amrex {
struct PatchLevel { ::amrex::MultiFab data; ::amrex::BoxArray box_array; ::amrex::DistributionMapping distribution_mapping; Duration time_point{}; std::ptrdiff_t cycles{}; };
struct DataDescription { int n_state_components, first_cons_component, n_cons_components, dimension; };
struct HierarchyOptions { ::amrex::IntVect refine_ratio; };
struct PatchHierarchy {
  ::amrex::Seq<PatchLevel> l; ::amrex::Seq<::amrex::Geometry> g; ::amrex::IntVect ratio{2}; DataDescription desc{}; ::amrex::MFInfo info; std::shared_ptr<CounterRegistry> reg; Duration stable{};
  HierarchyOptions opts{};
  int GetNumberOfLevels() const { return l.size(); } int GetMaxNumberOfLevels() const { return 9; }
  PatchLevel& GetPatchLevel(int i) { return l[i]; } const PatchLevel& GetPatchLevel(int i) const { return l[i]; }
  const ::amrex::Geometry& GetGeometry(int i) const { return g[i]; } const DataDescription& GetDataDescription() const { return desc; } const ::amrex::MFInfo& GetMFInfo() const { return info; }
  const HierarchyOptions& GetOptions() const { return opts; }
  int GetRatioToCoarserLevel(int i, Direction d) const { return i == 0 ? 1 : ratio[int(d)]; } ::amrex::IntVect GetRatioToCoarserLevel(int i) const { return i == 0 ? ::amrex::IntVect(1) : ratio; }
  const std::shared_ptr<CounterRegistry>& GetCounterRegistry() const { return reg; } void SetStabledt(Duration d) { stable = d; }
};
struct GriddingAlgorithm;
}
namespace fub {
template <> struct GridTraits<fub::amrex::GriddingAlgorithm> { using PatchLevel = fub::amrex::PatchLevel; using DataReference = ::amrex::MultiFab&; };
}
namespace fub::amrex {
using AnyBoundaryCondition = ::fub::AnyBoundaryCondition<GriddingAlgorithm>;
struct GriddingAlgorithm {
  PatchHierarchy h; AnyBoundaryCondition bc; int regrids = 9;
  PatchHierarchy& GetPatchHierarchy() { return h; } const PatchHierarchy& GetPatchHierarchy() const { return h; }
  AnyBoundaryCondition& GetBoundaryCondition() { return bc; }
  int RegridAllFinerlevels(int) { return regrids; }
  void FillMultiFabFromLevel(::amrex::MultiFab& m, int level) { m.ParallelCopy(h.l[level].data); }
};
}
namespace fub::amrex::cutcell {
using ::fub::amrex::PatchLevel;
struct HierarchyOptions { ::amrex::IntVect refine_ratio; ::amrex::EB2::IndexSpace space; std::vector<::amrex::EB2::IndexSpace*> index_spaces; };
struct PatchHierarchy : ::fub::amrex::PatchHierarchy {
  std::shared_ptr<::amrex::EBFArrayBoxFactory> eb = std::make_shared<::amrex::EBFArrayBoxFactory>(); HierarchyOptions opts{}; const HierarchyOptions& GetOptions() const { return opts; }
  PatchHierarchy() { for (int i = 0; i < 3; ++i) opts.index_spaces.push_back(&opts.space); }
  const std::shared_ptr<::amrex::EBFArrayBoxFactory>& GetEmbeddedBoundary(int) const { return eb; }
};
struct GriddingAlgorithm;
}
namespace fub { template <> struct GridTraits<fub::amrex::cutcell::GriddingAlgorithm> { using PatchLevel = fub::amrex::PatchLevel; using DataReference = ::amrex::MultiFab&; }; }
namespace fub::amrex::cutcell {
using AnyBoundaryCondition = ::fub::AnyBoundaryCondition<GriddingAlgorithm>;
struct GriddingAlgorithm {
  PatchHierarchy h; AnyBoundaryCondition bc; int regrids = 9;
  PatchHierarchy& GetPatchHierarchy() { return h; } const PatchHierarchy& GetPatchHierarchy() const { return h; }
  AnyBoundaryCondition& GetBoundaryCondition() { return bc; } const AnyBoundaryCondition& GetBoundaryCondition() const { return bc; }
  int RegridAllFinerlevels(int) { return regrids; }
  void FillMultiFabFromLevel(::amrex::MultiFab& m, int level) { m.ParallelCopy(h.l[level].data); }
};
}
#include "src/AMReX/ViewFArrayBox.cpp"
#include "src/AMReX/cutcell/IntegratorContext.cpp"
#include "src/AMReX/TimeIntegrator.cpp"
#include "src/AMReX/MultiFabUtilities.cpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
namespace fc = fub::amrex::cutcell;
inline int rank(fc::IntegratorContext&) { return 2; }
#define SET eb_
#define FOUR(...)
inline int transverse(int, int fg) { return fg + 1; }
namespace fa = fub::amrex;
/// cells without embedded boundary
struct Forward { fa::ForwardIntegrator<execution::SequentialTag> f; void UpdateConservatively(fc::IntegratorContext& c, int l, Duration dt, Direction d) { auto& m = c.GetScratch(l); f.UpdateConservatively(m, m, c.GetFluxes(l, d), c.GetGeometry(l), dt, d); } };
#include "amrlevel.hpp"
