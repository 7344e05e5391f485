// SOURCES: src/equations/PerfectGas.cpp
// SOURCES: src/equations/perfect_gas/EinfeldtSignalVelocities_1d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_2d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_3d.cpp
// SOURCES: src/equations/perfect_gas/HllemMethod_1d.cpp src/equations/perfect_gas/HllemMethod_2d.cpp src/equations/perfect_gas/HllemMethod_3d.cpp
#include "pg.hpp"
#include "flux_laws.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"

template <int R> struct PgBase {
  using Eq = PerfectGas<R>;
  static Eq eq() { return Gas<R>(); }
  static Complete<Eq> eos(const Eq& e, int k) { return Eos<R>(e, k); }
  template <class S> static S flip(S q, Direction d) { q.momentum[int(d)] = -q.momentum[int(d)]; return q; }
  template <class S> static S cyc(S q) { S r(q); for (int i = 0; i < R; ++i) r.momentum[(i + 1) % R] = q.momentum[i]; return r; }
  static Complete<Eq> mirror(const Eq&, Complete<Eq> q, Direction d) { return flip(q, d); }
  static Conservative<Eq> mirror_cons(const Eq&, Conservative<Eq> q, Direction d) { return flip(q, d); }
  static Complete<Eq> shift(const Eq&, Complete<Eq> q) { return cyc(q); }
  static Conservative<Eq> shift_cons(const Eq&, Conservative<Eq> q) { return cyc(q); }
};
template <int R> struct PgHllem : PgBase<R> { static auto method(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, false>(e); } };
template <int R> struct PgHllemL : PgBase<R> { static auto method(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, true>(e); } };
template <int R> struct PgHll : PgBase<R> { static auto method(const PerfectGas<R>& e) { return Hll<PerfectGas<R>, EinfeldtSignalVelocities<PerfectGas<R>>>(e); } };

#define ALL(N, T, l)                                                           \
  FLUX_SAV(N##1, T<1>, X, x, l, 0) FLUX_SAV(N##2, T<2>, X, x, l, 0) FLUX_SAV(N##2, T<2>, Y, y, 3, 0) \
  FLUX_SAV(N##3, T<3>, X, x, l, 0) FLUX_SAV(N##3, T<3>, Y, y, 5, 0) FLUX_SAV(N##3, T<3>, Z, z, 7, 0) \
  FLUX_SYM(N##1, T<1>, X, x) FLUX_SYM(N##2, T<2>, X, x) FLUX_SYM(N##2, T<2>, Y, y) FLUX_SYM(N##3, T<3>, X, x) FLUX_SYM(N##3, T<3>, Y, y) FLUX_SYM(N##3, T<3>, Z, z) \
  FLUX_ROT(N##2, T<2>, X, x) FLUX_ROT(N##2, T<2>, Y, y) FLUX_ROT(N##3, T<3>, X, x) FLUX_ROT(N##3, T<3>, Y, y) FLUX_ROT(N##3, T<3>, Z, z)
#define MASKS(N, T)                                                           \
  FLUX_MASK(N##1, T<1>, X, x, 1, 0x2cu) FLUX_MASK(N##2, T<2>, X, x, 6, 0x2cu) FLUX_MASK(N##2, T<2>, Y, y, 0, 0x2cu) \
  FLUX_MASK(N##3, T<3>, X, x, 1, 0x2cu) FLUX_MASK(N##3, T<3>, Y, y, 4, 0x2cu) FLUX_MASK(N##3, T<3>, Z, z, 7, 0x2cu)
ALL(hllem, PgHllem, 0)
ALL(hlleml, PgHllemL, 2)
ALL(hll, PgHll, 1)
MASKS(hllem, PgHllem)
MASKS(hlleml, PgHllemL)
MASKS(hll, PgHll)
#define AGAIN(N, T) FLUX_AGAIN(N##1, T<1>, X, x, 1) FLUX_AGAIN(N##2, T<2>, X, x, 1) FLUX_AGAIN(N##2, T<2>, Y, y, 4) FLUX_AGAIN(N##3, T<3>, X, x, 0) FLUX_AGAIN(N##3, T<3>, Z, z, 6)
AGAIN(hllem, PgHllem)
AGAIN(hlleml, PgHllemL)
AGAIN(hll, PgHll)
