// SOURCES: src/equations/PerfectGas.cpp src/equations/ShallowWater.cpp src/equations/Advection.cpp src/equations/Burgers.cpp
// SOURCES: src/equations/perfect_gas/EinfeldtSignalVelocities_1d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_2d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_3d.cpp
// SOURCES: src/equations/perfect_gas/HllemMethod_1d.cpp src/equations/perfect_gas/HllemMethod_2d.cpp src/equations/perfect_gas/HllemMethod_3d.cpp
// SOURCES: src/equations/perfect_gas/ExactRiemannSolver_1d.cpp src/equations/perfect_gas/ExactRiemannSolver_2d.cpp src/equations/perfect_gas/ExactRiemannSolver_3d.cpp
// States returned by the Riemann solvers.
#include "pg.hpp"
#include "flux_laws.hpp"
#include "fub/NewtonIteration.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
template <int R> struct B {
  using Eq = PerfectGas<R>;
  static Eq eq() { vg_loop_bound(1); return Gas<R>(); }
  static Complete<Eq> eos(const Eq& e, int k) { return Eos<R>(e, k); }
};
template <int R> struct PHllem : B<R> { static auto solver(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, false>(e); } };
template <int R> struct PHllemL : B<R> { static auto solver(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, true>(e); } };
template <int R> struct PHll : B<R> { static auto solver(const PerfectGas<R>& e) { return Hll<PerfectGas<R>, EinfeldtSignalVelocities<PerfectGas<R>>>(e); } };
template <int R> struct PEx : B<R> { static auto solver(const PerfectGas<R>& e) { return ExactRiemannSolver<PerfectGas<R>>(e); } };
struct SwEx { using Eq = ShallowWater; static Eq eq() { vg_loop_bound(1); Eq e; e.gravity_ = vg_pos(9000); return e; }
  static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.height = vg_pos(k); q.momentum[0] = q.height * vg_in(k + 1); q.momentum[1] = q.height * vg_in(k + 2); return q; }
  static auto solver(const Eq& e) { return ExactRiemannSolver<Eq>(e); } };
struct SwHll : SwEx { static auto solver(const Eq& e) { return Hll<Eq, ShallowWaterSignalVelocities>(e); } };
struct AdvEx { using Eq = Advection2d; static Eq eq() { return Eq({vg_in(9000), vg_in(9001)}); } static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.mass = vg_in(k); return q; } static auto solver(const Eq& e) { return ExactRiemannSolver<Eq>(e); } };
struct BuEx { using Eq = Burgers1d; static Eq eq() { return Eq(); } static Complete<Eq> eos(const Eq&, int k) { Complete<Eq> q; q.u = vg_in(k); return q; } static auto solver(const Eq& e) { return ExactRiemannSolver<Eq>(e); } };

template <class T> void same(Out o, Direction d) { auto e = T::eq(); auto s = T::solver(e); Complete<typename T::Eq> q(e); auto a = T::eos(e, 0); s.SolveRiemannProblem(q, a, a, d); w::put(o, q); }
template <class T> void same_spec(Out o) { auto e = T::eq(); w::put(o, T::eos(e, 0)); }
template <class T> void sol_s(Out o, Direction d) { auto e = T::eq(); auto s = T::solver(e); Complete<typename T::Eq> q(e); s.SolveRiemannProblem(q, T::eos(e, 0), T::eos(e, 50), d); w::put(o, q); }
template <class T> void sol_a(Out o, Direction d, int l) { auto e = T::eq(); auto s = T::solver(e); CompleteArray<typename T::Eq> q(e); s.SolveRiemannProblem(q, Lanes<T>(e, T::eos(e, 0), l, 0), Lanes<T>(e, T::eos(e, 50), l, 9000), d); w::put_lane(o, q, l); }
#define SAME(N, T, D, d) LAW(R06_##N##_same_##d, (same<T>(o, D)), (same_spec<T>(o)))
#define ARR(N, T, D, d, l) LAW(R06_##N##_lane##l##_##d, (sol_s<T>(o, D)), (sol_a<T>(o, D, l)))
#define BOTH(N, T, D, d, l) SAME(N, T, D, d) ARR(N, T, D, d, l)
#define DIMS(N, T, M) M(N##1, T<1>, X, x, 1) M(N##2, T<2>, X, x, 0) M(N##2, T<2>, Y, y, 3) M(N##3, T<3>, X, x, 2) M(N##3, T<3>, Y, y, 5) M(N##3, T<3>, Z, z, 7)
#define SAME5(N, T, D, d, l) SAME(N, T, D, d)
DIMS(hllem, PHllem, SAME5) DIMS(hlleml, PHllemL, SAME5) DIMS(hll, PHll, SAME5) DIMS(exact, PEx, BOTH)
BOTH(swexact, SwEx, X, x, 4) BOTH(swexact, SwEx, Y, y, 1) SAME(swhll, SwHll, X, x) SAME(swhll, SwHll, Y, y)
BOTH(adv, AdvEx, X, x, 2) BOTH(adv, AdvEx, Y, y, 6) BOTH(burgers, BuEx, X, x, 3)
// ------------------------------ R08: what has been solved before leaves no trace
template <class T> void again(Out& o, Direction d, bool used) { auto e = T::eq(); auto s = T::solver(e); Complete<typename T::Eq> q(e); if (used) { s.SolveRiemannProblem(q, T::eos(e, 100), T::eos(e, 150), Direction::X); s.SolveRiemannProblem(q, T::eos(e, 200), T::eos(e, 250), d); } s.SolveRiemannProblem(q, T::eos(e, 0), T::eos(e, 50), d); w::put(o, q); }
template <class T> void again_a(Out& o, Direction d, int l, bool used) { auto e = T::eq(); auto s = T::solver(e); CompleteArray<typename T::Eq> q(e); if (used) { Complete<typename T::Eq> p(e); s.SolveRiemannProblem(p, T::eos(e, 100), T::eos(e, 150), d); s.SolveRiemannProblem(q, Lanes<T>(e, T::eos(e, 200), l, 9200), Lanes<T>(e, T::eos(e, 250), l, 9100), Direction::X); } s.SolveRiemannProblem(q, Lanes<T>(e, T::eos(e, 0), l, 9000), Lanes<T>(e, T::eos(e, 50), l, 9050), d); w::put_lane(o, q, l); }
#define AGAIN(N, T, D, d) LAW(R08_solve_##N##_##d, (again<T>(o, D, true)), (again<T>(o, D, false)))
#define AGAIN2(N, T, D, d, l) AGAIN(N, T, D, d) LAW(R08_solve_##N##_##d##_lane##l, (again_a<T>(o, D, l, true)), (again_a<T>(o, D, l, false)))
AGAIN(hllem2, PHllem<2>, X, x) AGAIN(hllem2, PHllem<2>, Y, y) AGAIN(hllem3, PHllem<3>, Z, z) AGAIN(hlleml2, PHllemL<2>, Y, y) AGAIN(hll2, PHll<2>, Y, y) AGAIN(swhll, SwHll, Y, y) AGAIN2(exact2, PEx<2>, Y, y, 4) AGAIN2(swexact, SwEx, Y, y, 3)
