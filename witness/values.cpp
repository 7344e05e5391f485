// SOURCES: src/cutcell_method/AnyMdLimiter.cpp
// Type erased components behave like the values they store
#include "history.hpp"
#include "fub/AnyBoundaryCondition.hpp"
#include "fub/AnyInitialData.hpp"
#include "fub/AnyTaggingMethod.hpp"
#include "fub/HyperbolicMethod.hpp"
#include "fub/cutcell_method/AnyMdLimiter.hpp"
struct Grid { double id; };
struct Data { double id; };
namespace fub { template <> struct GridTraits<Grid> { using PatchLevel = Data; using TagDataHandle = Data; using DataReference = Data; }; }
// a component with a state: every call is visible in the history and changes the state
struct Comp {
  double s;
  void call(int id, double a = 0, double b = 0, double c = 0) { H->op(id, s, a, b, c); s = vg_uf1(77, s); }
  void PreAdvanceHierarchy(const Grid& g) { call(1, g.id); }
  void FillBoundary(Data d, const Grid& g, int level) { call(2, d.id, g.id, level); }
  void FillBoundary(Data d, const Grid& g, int level, Direction dir) { call(3 + int(dir), d.id, g.id, level); }
  void InitializeData(Data& d, const Grid& g, int level, Duration t) { call(10, d.id, g.id, level); call(11, t.count()); d.id = vg_uf1(78, d.id); }
  void TagCellsForRefinement(Data d, Grid& g, int level, Duration t) { call(12, d.id, g.id, level); call(13, t.count()); }
  void CompleteFromCons(Grid& g, int level, Duration dt) { call(14, g.id, level, dt.count()); }
  void UpdateConservatively(Grid& g, int level, Duration dt, Direction dir) { call(15 + int(dir), g.id, level, dt.count()); }
  void PreAdvanceHierarchy(Grid& g) { call(20, g.id); }
  void PreSplitStep(Grid& g, int level, Duration dt, Direction dir, std::pair<int, int> sub) { call(21 + int(dir), g.id, level, dt.count()); call(24, sub.first, sub.second); }
  Duration ComputeStableDt(Grid& g, int level, Direction dir) { call(25 + int(dir), g.id, level); return Duration(vg_uf1(79, s)); }
  void ComputeNumericFluxes(Grid& g, int level, Duration dt, Direction dir) { call(30 + int(dir), g.id, level, dt.count()); }
  int GetStencilWidth() const { return s > 0.0 ? 3 : 5; }
};
// the same without the optional operations
struct Bare { double s; void call(int id, double a = 0, double b = 0, double c = 0) { H->op(id, s, a, b, c); s = vg_uf1(77, s); }
  void FillBoundary(Data d, const Grid& g, int level) { call(2, d.id, g.id, level); }
  void FillBoundary(Data d, const Grid& g, int level, Direction dir) { call(3 + int(dir), d.id, g.id, level); }
  Duration ComputeStableDt(Grid& g, int level, Direction dir) { call(25 + int(dir), g.id, level); return Duration(vg_uf1(79, s)); }
  void ComputeNumericFluxes(Grid& g, int level, Duration dt, Direction dir) { call(30 + int(dir), g.id, level, dt.count()); }
  int GetStencilWidth() const { return s > 0.0 ? 3 : 5; } };
inline Grid grid() { return {vg_in(10)}; }
inline Data data() { return {vg_in(11)}; }
inline Duration t() { return Duration(vg_in(12)); }
// everything one can do with a component
struct Use { Out& o; Grid g = grid(); Data d = data();
  void operator()(AnyBoundaryCondition<Grid>& b) { b.PreAdvanceHierarchy(g); b.FillBoundary(d, g, 4); b.FillBoundary(d, g, 5, Direction::Y); b.FillBoundary(d, g, 5, Direction::Z); }
  template <class T> void boundary(T& b) { if constexpr (!std::is_same_v<T, Bare>) b.PreAdvanceHierarchy(static_cast<const Grid&>(g)); b.FillBoundary(d, g, 4); b.FillBoundary(d, g, 5, Direction::Y); b.FillBoundary(d, g, 5, Direction::Z); }
  template <class T> void initial(T& i) { i.InitializeData(d, g, 2, t()); o.put(d.id); }
  template <class T> void tagging(T& i) { i.TagCellsForRefinement(d, g, 2, t()); }
  template <class T> void reconstruction(T& i) { i.CompleteFromCons(g, 2, t()); }
  template <class T> void integrator(T& i) { i.UpdateConservatively(g, 2, t(), Direction::X); i.UpdateConservatively(g, 3, t(), Direction::Z); }
  template <class T> void flux(T& i) { if constexpr (!std::is_same_v<T, Bare>) { i.PreAdvanceHierarchy(g); i.PreSplitStep(g, 2, t(), Direction::Y, {3, 4}); } o.put(i.ComputeStableDt(g, 2, Direction::Z).count()); i.ComputeNumericFluxes(g, 2, t(), Direction::Y); o.put(i.GetStencilWidth()); }
};
#define USES(KIND, ANY)                                                        \
  struct U_##KIND { using Any = ANY<Grid>; Out& o; template <class T> void operator()(T& x) { Use u{o}; u.KIND(x); } };
USES(boundary, AnyBoundaryCondition) USES(initial, AnyInitialData) USES(tagging, AnyTaggingMethod) USES(reconstruction, AnyReconstruction) USES(integrator, AnyTimeIntegrator) USES(flux, AnyFluxMethod)
// the stored value, its copies and moves; L uses Any, R uses the component
template <class U, class T, class C> void plain(Out& o) { T x(C{vg_in(1)}); U u{o}; u(x); u(x); o.put(H->h); }
template <class U, class T, class C> void copied(Out& o) { T x(C{vg_in(1)}); U u{o}; u(x); T y(x); u(y); u(y); u(x); o.put(H->h); }
template <class U, class T, class C> void assigned(Out& o) { T x(C{vg_in(1)}), y(C{vg_in(2)}); U u{o}; u(x); y = x; u(y); u(y); u(x); x = T(C{vg_in(3)}); u(x); u(y); o.put(H->h); }
template <class U, class T, class C> void moved(Out& o) { T x(C{vg_in(1)}), y(C{vg_in(2)}); U u{o}; u(x); T z(std::move(x)); u(z); y = std::move(z); u(y); o.put(H->h); }
template <class U, class T, class C> void selfed(Out& o) { T x(C{vg_in(1)}); U u{o}; u(x); const T& r = x; x = r; u(x); o.put(H->h); }
template <class U, class T, class C> void lvalue(Out& o) { C c{vg_in(1)}; T x(c); U u{o}; u(x); o.put(c.s); const C d{vg_in(2)}; T y(d); u(y); u(x); o.put(H->h); }
#define VALUE(KIND, C)                                                         \
  LAW2(V01_##KIND##_plain_##C, (plain<U_##KIND, U_##KIND::Any, C>(o)), (plain<U_##KIND, C, C>(o))) \
  LAW2(V01_##KIND##_copy_##C, (copied<U_##KIND, U_##KIND::Any, C>(o)), (copied<U_##KIND, C, C>(o))) \
  LAW2(V01_##KIND##_assign_##C, (assigned<U_##KIND, U_##KIND::Any, C>(o)), (assigned<U_##KIND, C, C>(o))) \
  LAW2(V01_##KIND##_move_##C, (moved<U_##KIND, U_##KIND::Any, C>(o)), (moved<U_##KIND, C, C>(o))) \
  LAW2(V01_##KIND##_self_##C, (selfed<U_##KIND, U_##KIND::Any, C>(o)), (selfed<U_##KIND, C, C>(o))) \
  LAW2(V01_##KIND##_lvalue_##C, (lvalue<U_##KIND, U_##KIND::Any, C>(o)), (lvalue<U_##KIND, C, C>(o)))
VALUE(boundary, Comp) VALUE(boundary, Bare) VALUE(initial, Comp) VALUE(tagging, Comp) VALUE(reconstruction, Comp) VALUE(integrator, Comp) VALUE(flux, Comp) VALUE(flux, Bare)
// empty components do nothing, and so do their copies
template <class U> void empty(Out& o) { typename U::Any x; U u{o}; u(x); typename U::Any y(x), z(Comp{vg_in(1)}); u(y); z = x; u(z); typename U::Any w(Comp{vg_in(1)}); typename U::Any v(std::move(w)); v = std::move(x); u(v); o.put(H->h); }
LAW2(V01_boundary_empty, empty<U_boundary>(o), o.put(H->h))
LAW2(V01_tagging_empty, empty<U_tagging>(o), o.put(H->h))
LAW2(V01_initial_empty, empty<U_initial>(o), (o.put(vg_in(11)), o.put(vg_in(11)), o.put(vg_in(11)), o.put(vg_in(11)), o.put(H->h)))
// what a boundary condition was made from can be asked for
inline void cast_code(Out& o) { AnyBoundaryCondition<Grid> b(Comp{vg_in(1)}), e; Comp* c = b.Cast<Comp>(); o.put(c ? c->s : -1.0); o.put(b.Cast<Bare>() ? 1.0 : 0.0); o.put(e.Cast<Comp>() ? 1.0 : 0.0); if (c) c->s = vg_in(5); U_boundary u{o}; u(b); o.put(H->h); }
inline void cast_spec(Out& o) { Comp b{vg_in(5)}; o.put(vg_in(1)); o.put(0.0); o.put(0.0); U_boundary u{o}; u(b); o.put(H->h); }
LAW2(V01_boundary_cast, cast_code(o), cast_spec(o))
// limiters
struct Lim { double s; void LimitGradientsAtIndex(const std::array<StridedDataView<double, 2>, 2>&, StridedDataView<const double, 2>, const CutCellData<2>&, const Index<2>& i, const Coordinates<2>& dx) const { H->op(40, s, double(i[0]), double(i[1]), dx[0]); H->op(41, dx[1]); } };
struct U_limiter { Out& o; template <class T> void operator()(T& x) { std::array<StridedDataView<double, 2>, 2> g{}; StridedDataView<const double, 2> v{}; CutCellData<2> geom{}; Coordinates<2> dx; dx[0] = vg_pos(1); dx[1] = vg_pos(2); const auto& c = x; c.LimitGradientsAtIndex(g, v, geom, Index<2>{3, 4}, dx); } };
LAW2(V01_limiter_copy, (copied<U_limiter, AnyLimiter<2>, Lim>(o)), (copied<U_limiter, Lim, Lim>(o)))
LAW2(V01_limiter_assign, (assigned<U_limiter, AnyLimiter<2>, Lim>(o)), (assigned<U_limiter, Lim, Lim>(o)))
LAW2(V01_limiter_move, (moved<U_limiter, AnyLimiter<2>, Lim>(o)), (moved<U_limiter, Lim, Lim>(o)))
LAW2(V01_limiter_lvalue, (lvalue<U_limiter, AnyLimiter<2>, Lim>(o)), (lvalue<U_limiter, Lim, Lim>(o)))
