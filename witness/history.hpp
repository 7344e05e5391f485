// Histories of uninterpreted operations.
//
// Every mock operation replaces the history h by an uninterpreted function of
// the operation, the old history and its arguments.  Two histories are equal
// iff the same operations were invoked with equal arguments in the same order.
#ifndef VERIF_HISTORY_HPP
#define VERIF_HISTORY_HPP
#include "w.hpp"
#include "fub/Duration.hpp"
#include "fub/TimeStepError.hpp"
#include "fub/ext/outcome.hpp"
#include <mpi.h>
#include <optional>
using namespace fub;
using w::Out;
using R = Result<void, TimeStepTooLarge>;
enum Op { kPreHierarchy = 1, kPostHierarchy, kPreLevel, kPostLevel, kBoundary, kPreSplit, kStableDt, kMin, kFlux, kUpdate, kComplete, kAccumulate, kReset, kCorrect, kCoarsen, kToData, kToScratch, kGhost1, kGhost2, kTime, kSource, kSourceDt, kSplit, kFails, kErrorDt, kCycles, kOutput };
struct History {
  double h = vg_in(1);
  void op(int id, double a = 0, double b = 0, double c = 0) { h = vg_uf5(id, h, a, b, c, 0.0); }
  void op(int id, double a, double b, double c, double d) { h = vg_uf5(id, h, a, b, c, d); }
  // values and failures of an operation depend on the whole history
  double value(int id, double a = 0, double b = 0) const { return vg_uf3(id, h, a, b); }
  bool fails(int id) const { return vg_ufb2(kFails, h, id); }
};
inline History* H; // the history of the law under consideration
// MPI is an uninterpreted reduction
extern "C" inline int verif_allreduce(const void* s, void* r, int n, MPI_Op op) { if (n == 1) { H->op(kMin, op == MPI_MIN ? 1.0 : op == MPI_MAX ? 2.0 : 3.0, *(const double*)s); *(double*)r = H->value(kMin); } return 0; }
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op op, MPI_Comm) { return verif_allreduce(s, r, n, op); }
inline R result(int id, int level) { if (H->fails(id)) return TimeStepTooLarge{Duration(H->value(kErrorDt, id)), level}; return boost::outcome_v2::success(); }
inline void put(Out& o, const R& r) { const bool e = !r; o.put(e ? 1.0 : 0.0); o.put(e ? r.error().dt.count() : 0.0); o.put(e ? r.error().level : 0.0); o.put(H->h); }
/// The same for specifications: operations after a failure do not happen
struct Spec {
  bool failed = false; double dt = 0; int level = 0;
  void op(int id, double a = 0, double b = 0, double c = 0) { if (!failed) H->op(id, a, b, c); }
  void op(int id, double a, double b, double c, double d) { if (!failed) H->op(id, a, b, c, d); }
  void check(int id, int l) { if (!failed && H->fails(id)) { failed = true; dt = H->value(kErrorDt, id); level = l; } }
  void fail(double d, int l) { if (!failed) { failed = true; dt = d; level = l; } }
  void put(Out& o) { o.put(failed ? 1.0 : 0.0); o.put(failed ? dt : 0.0); o.put(failed ? level : 0.0); o.put(H->h); }
};
#define LAW2(n, L, ...) LAW(n, History hh; H = &hh; L, History hh; H = &hh; __VA_ARGS__)
#endif
