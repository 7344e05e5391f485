// SOURCES: src/split_method/GodunovSplitting.cpp src/split_method/StrangSplitting.cpp src/split_method/StrangSplittingLumped.cpp
#include "history.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
auto Op(int i) { return [i](Duration dt) -> R { H->op(kSplit, i, dt.count()); return result(kSplit, i); }; }
template <class M> R run1(M m) { auto a = Op(1); return m.Advance(Duration(vg_pos(1)), a); }
template <class M> R run2(M m) { auto a = Op(1), b = Op(2); return m.Advance(Duration(vg_pos(1)), a, b); }
template <class M> R run3(M m) { auto a = Op(1), b = Op(2), c = Op(3); return m.Advance(Duration(vg_pos(1)), a, b, c); }
template <class M> R base3(M m) { const SplittingMethod& s = m; auto a = Op(1), b = Op(2), c = Op(3); return s.Advance(Duration(vg_pos(1)), a, b, c); }
// the documented sequences: (operator, fraction of the time step)
struct Step { int op; double f; };
template <class A> void sequence(Out& o, const A& steps) { Spec s; for (Step x : steps) { s.op(kSplit, x.op, x.f * vg_pos(1)); s.check(kSplit, x.op); } s.put(o); }
using A = GodunovSplitting; using B = StrangSplitting; using C = StrangSplittingLumped;
constexpr std::array<Step, 1> one{{{1, 1.0}}};
constexpr std::array<Step, 2> g2{{{1, 1.0}, {2, 1.0}}};
constexpr std::array<Step, 3> g3{{{1, 1.0}, {2, 1.0}, {3, 1.0}}};
constexpr std::array<Step, 4> s2{{{1, 0.5}, {2, 0.5}, {2, 0.5}, {1, 0.5}}};
constexpr std::array<Step, 6> s3{{{1, 0.5}, {2, 0.5}, {3, 0.5}, {3, 0.5}, {2, 0.5}, {1, 0.5}}};
constexpr std::array<Step, 3> l2{{{1, 0.5}, {2, 1.0}, {1, 0.5}}};
constexpr std::array<Step, 5> l3{{{1, 0.5}, {2, 0.5}, {3, 1.0}, {2, 0.5}, {1, 0.5}}};
LAW2(S01_godunov_1, put(o, run1(A())), sequence(o, one))
LAW2(S01_godunov_2, put(o, run2(A())), sequence(o, g2))
LAW2(S01_godunov_3, put(o, run3(A())), sequence(o, g3))
LAW2(S01_strang_1, put(o, run1(B())), sequence(o, one))
LAW2(S01_strang_2, put(o, run2(B())), sequence(o, s2))
LAW2(S01_strang_3, put(o, run3(B())), sequence(o, s3))
LAW2(S01_lumped_1, put(o, run1(C())), sequence(o, one))
LAW2(S01_lumped_2, put(o, run2(C())), sequence(o, l2))
LAW2(S01_lumped_3, put(o, run3(C())), sequence(o, l3))
LAW2(S01_any_godunov_2, put(o, run2(AnySplitMethod(A()))), sequence(o, g2))
LAW2(S01_any_strang_2, put(o, run2(AnySplitMethod(B()))), sequence(o, s2))
LAW2(S01_any_lumped_2, put(o, run2(AnySplitMethod(C()))), sequence(o, l2))
LAW2(S01_any_godunov_3, put(o, base3(AnySplitMethod(A()))), sequence(o, g3))
LAW2(S01_any_lumped_3, put(o, base3(AnySplitMethod(C()))), sequence(o, l3))
LAW2(S01_base_strang_3, put(o, base3(B())), sequence(o, s3))
// more operators: every one is applied for the whole time step in total
inline double Total[6];
auto Sum(int i) { return [i](Duration dt) -> R { Total[i] += dt.count(); return boost::outcome_v2::success(); }; }
template <class M> void totals4(Out& o, M m) { const SplittingMethod& s = m; for (double& t : Total) t = 0.0; auto a = Sum(1), b = Sum(2), c = Sum(3), d = Sum(4); R r = s.AdvanceRecursively(Duration(vg_pos(1)), a, b, c, SplittingMethod::AdvanceFunction(d)); o.put(!r ? 1.0 : 0.0); for (int i = 1; i < 5; ++i) o.put(Total[i]); }
template <class M> void totals5(Out& o, M m) { const SplittingMethod& s = m; for (double& t : Total) t = 0.0; auto a = Sum(1), b = Sum(2), c = Sum(3), d = Sum(4), e = Sum(5); R r = s.AdvanceRecursively(Duration(vg_pos(1)), a, b, c, SplittingMethod::AdvanceFunction(d), SplittingMethod::AdvanceFunction(e)); o.put(!r ? 1.0 : 0.0); for (int i = 1; i < 6; ++i) o.put(Total[i]); }
inline void totals(Out& o, int n) { o.put(0.0); for (int i = 0; i < n; ++i) o.put(vg_pos(1)); }
LAW2(S01_totals_godunov_4, totals4(o, A()), totals(o, 4)) LAW2(S01_totals_strang_4, totals4(o, B()), totals(o, 4)) LAW2(S01_totals_lumped_4, totals4(o, C()), totals(o, 4))
LAW2(S01_totals_godunov_5, totals5(o, A()), totals(o, 5)) LAW2(S01_totals_strang_5, totals5(o, B()), totals(o, 5)) LAW2(S01_totals_lumped_5, totals5(o, C()), totals(o, 5))
