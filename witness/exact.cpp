// TIES-OFF: pggodunov._mirror
// SOURCES: src/equations/PerfectGas.cpp src/equations/ShallowWater.cpp
// SOURCES: src/equations/perfect_gas/ExactRiemannSolver_1d.cpp src/equations/perfect_gas/ExactRiemannSolver_2d.cpp src/equations/perfect_gas/ExactRiemannSolver_3d.cpp
#include "pg.hpp"
#include "flux_laws.hpp"
#include "fub/NewtonIteration.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"

template <int R> struct PgG {
  using Eq = PerfectGas<R>;
  static Eq eq() { vg_loop_bound(1); return Gas<R>(); }
  static Complete<Eq> eos(const Eq& e, int k) { return Eos<R>(e, k); }
  template <class S> static S flip(S q, Direction d) { q.momentum[int(d)] = -q.momentum[int(d)]; return q; }
  template <class S> static S cyc(S q) { S r(q); for (int i = 0; i < R; ++i) r.momentum[(i + 1) % R] = q.momentum[i]; return r; }
  template <class S> static S mirror(const Eq&, S q, Direction d) { return flip(q, d); }
  template <class S> static S mirror_cons(const Eq&, S q, Direction d) { return flip(q, d); }
  template <class S> static S shift(const Eq&, S q) { return cyc(q); }
  template <class S> static S shift_cons(const Eq&, S q) { return cyc(q); }
  static auto method(const Eq& e) { return Godunov<Eq>(e); }
};
#define PG(R, D, d, l)                                                         \
  LAW(R02_pggodunov##R##_flux_##d##_lane##l, FluxLaws<PgG<R>>::num_s(o, D), FluxLaws<PgG<R>>::num_a(o, D, l)) \
  LAW(R02_pggodunov##R##_flux_##d##_mask##l, FluxLaws<PgG<R>>::num_s(o, D), FluxLaws<PgG<R>>::num_m(o, D, l, 0x10)) \
  LAW(R02_pggodunov##R##_covered_##d##_mask##l, FluxLaws<PgG<R>>::num_off(o, D, l, 0x11), FluxLaws<PgG<R>>::num_off0(o)) \
  LAW(R02_pggodunov##R##_dt_##d##_mask##l, FluxLaws<PgG<R>>::dt_s(o, D), FluxLaws<PgG<R>>::dt_m(o, D, l, 0x10)) \
  LAW(R01_pggodunov##R##_consistent_##d, FluxLaws<PgG<R>>::cons_code(o, D), FluxLaws<PgG<R>>::cons_spec(o, D)) \
  LAW(R03_pggodunov##R##_mirror_##d, FluxLaws<PgG<R>>::mir_code(o, D), FluxLaws<PgG<R>>::mir_spec(o, D)) \
  LAW(R03_pggodunov##R##_dtmirror_##d, FluxLaws<PgG<R>>::dtm_s(o, D), FluxLaws<PgG<R>>::dt_s(o, D))
PG(1, X, x, 0) PG(2, X, x, 5) PG(2, Y, y, 2) PG(3, X, x, 1) PG(3, Y, y, 7) PG(3, Z, z, 3)
FLUX_ROT(pggodunov2, PgG<2>, X, x) FLUX_ROT(pggodunov2, PgG<2>, Y, y) FLUX_ROT(pggodunov3, PgG<3>, X, x) FLUX_ROT(pggodunov3, PgG<3>, Y, y) FLUX_ROT(pggodunov3, PgG<3>, Z, z)
