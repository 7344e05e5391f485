// DEFS: -Iwitness/mockamrex -DAMREX_SPACEDIM=2
// SOURCES: src/HyperbolicPatchIntegrator.cpp src/split_method/GodunovSplitting.cpp src/split_method/StrangSplitting.cpp src/split_method/StrangSplittingLumped.cpp src/ext/Mpi.cpp
// The AMReX back end: refined levels, their ghost cells and the fluxes they exchange
#include <range/v3/view/zip.hpp>
#include "amr.hpp"
#include "fub/Duration.hpp"
#include "fub/Direction.hpp"
#include "fub/Meta.hpp"
#include "fub/AnyBoundaryCondition.hpp"
#include <AMReX_Geometry.H>
#include <AMReX_FluxRegister.H>
#include <vector>
#include <functional>
#define FMT_FORMAT_H_
#define FUB_COUNTER_COUNTER_REGISTRY_HPP
#define FUB_AMREX_GRIDDING_ALGORITHM_HPP
#define FUB_ASSIGN_OPTION_FROM_MAP(m, v)
#define FUB_PRINT_OPTION_LOG(l, v)
namespace fmt { template <class... T> const char* format(const char* s, const T&...) { return s; } }
#include "fub/AMReX/ViewFArrayBox.hpp"
#include "fub/Meta.hpp"
namespace fub {
struct Timer { Timer() {} ~Timer() {} };
struct CounterRegistry { Timer get_timer(const char*) { return {}; } };
struct SeverityLogger;
}
namespace fub::amrex {
struct PatchLevel { ::amrex::MultiFab data; ::amrex::BoxArray box_array; ::amrex::DistributionMapping distribution_mapping; Duration time_point{}; std::ptrdiff_t cycles{}; };
struct DataDescription { int n_state_components, first_cons_component, n_cons_components, dimension; };
struct HierarchyOptions { ::amrex::IntVect refine_ratio; };
struct PatchHierarchy {
  ::amrex::Seq<PatchLevel> l; ::amrex::Seq<::amrex::Geometry> g; ::amrex::IntVect ratio{2}; DataDescription desc{}; ::amrex::MFInfo info; std::shared_ptr<CounterRegistry> reg; Duration stable{};
  HierarchyOptions opts{};
  int GetNumberOfLevels() const { return l.size(); } int GetMaxNumberOfLevels() const { return 9; }
  PatchLevel& GetPatchLevel(int i) { return l[i]; } const PatchLevel& GetPatchLevel(int i) const { return l[i]; }
  const ::amrex::Geometry& GetGeometry(int i) const { return g[i]; } const DataDescription& GetDataDescription() const { return desc; } const ::amrex::MFInfo& GetMFInfo() const { return info; }
  const HierarchyOptions& GetOptions() const { return opts; }
  int GetRatioToCoarserLevel(int i, Direction d) const { return i == 0 ? 1 : ratio[int(d)]; } ::amrex::IntVect GetRatioToCoarserLevel(int i) const { return i == 0 ? ::amrex::IntVect(1) : ratio; }
  const std::shared_ptr<CounterRegistry>& GetCounterRegistry() const { return reg; } void SetStabledt(Duration d) { stable = d; }
};
struct GriddingAlgorithm;
}
namespace fub {
template <> struct GridTraits<fub::amrex::GriddingAlgorithm> { using PatchLevel = fub::amrex::PatchLevel; using DataReference = ::amrex::MultiFab&; };
}
namespace fub::amrex {
using AnyBoundaryCondition = ::fub::AnyBoundaryCondition<GriddingAlgorithm>;
struct GriddingAlgorithm {
  PatchHierarchy h; AnyBoundaryCondition bc; int regrids = 9;
  PatchHierarchy& GetPatchHierarchy() { return h; } const PatchHierarchy& GetPatchHierarchy() const { return h; }
  AnyBoundaryCondition& GetBoundaryCondition() { return bc; }
  int RegridAllFinerlevels(int) { return regrids; }
  void FillMultiFabFromLevel(::amrex::MultiFab& m, int level) { m.ParallelCopy(h.l[level].data); }
};
}
#include "src/AMReX/ViewFArrayBox.cpp"
#include "src/AMReX/IntegratorContext.cpp"
#include "src/AMReX/TimeIntegrator.cpp"
#include "src/AMReX/MultiFabUtilities.cpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
namespace fc = fub::amrex;
inline int rank(fc::IntegratorContext& c) { return c.Rank(); }
#define SET
#define FOUR(...) __VA_ARGS__
inline int transverse(int ng, int) { return ng; }
namespace fa = fub::amrex;
using Forward = fc::ForwardIntegrator<execution::SequentialTag>;
#include "amrlevel.hpp"
