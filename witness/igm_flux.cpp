// SOURCES: src/equations/ideal_gas_mix/FlameMasterReactor.cpp src/equations/IdealGasMix.cpp
// SOURCES: src/equations/ideal_gas_mix/EinfeldtSignalVelocities_1d.cpp src/equations/ideal_gas_mix/EinfeldtSignalVelocities_2d.cpp src/equations/ideal_gas_mix/EinfeldtSignalVelocities_3d.cpp
// SOURCES: src/equations/ideal_gas_mix/HlleMethod_1d.cpp src/equations/ideal_gas_mix/HlleMethod_2d.cpp src/equations/ideal_gas_mix/HlleMethod_3d.cpp
#include "igm.hpp"
#include "flux_laws.hpp"
#include "fub/equations/ideal_gas_mix/HlleMethod.hpp"
template <int R> struct Igm {
  using Eq = IdealGasMix<R>;
  static Eq eq() { return Mix<R>(); }
  static Complete<Eq> eos(const Eq& e, int k) { return AnyMix<R>(e, k); }
  template <class S> static S flip(S q, Direction d) { q.momentum[int(d)] = -q.momentum[int(d)]; return q; }
  template <class S> static S cyc(S q) { S r(q); for (int i = 0; i < R; ++i) r.momentum[(i + 1) % R] = q.momentum[i]; return r; }
  static Complete<Eq> mirror(const Eq&, Complete<Eq> q, Direction d) { return flip(q, d); }
  static Conservative<Eq> mirror_cons(const Eq&, Conservative<Eq> q, Direction d) { return flip(q, d); }
  static Complete<Eq> shift(const Eq&, Complete<Eq> q) { return cyc(q); }
  static Conservative<Eq> shift_cons(const Eq&, Conservative<Eq> q) { return cyc(q); }
  static auto method(const Eq& e) { return FluxMethod<Hll<Eq, EinfeldtSignalVelocities<Eq>>>(e, EinfeldtSignalVelocities<Eq>()); }
};
#define ONE(R, D, d, l) FLUX_SAV(igm##R, Igm<R>, D, d, l, 0) FLUX_SYM(igm##R, Igm<R>, D, d) FLUX_MASK(igm##R, Igm<R>, D, d, l, 0x2cu)
ONE(1, X, x, 0) ONE(2, X, x, 1) ONE(2, Y, y, 6) ONE(3, X, x, 4) ONE(3, Y, y, 0) ONE(3, Z, z, 7)
FLUX_AGAIN(igm1, Igm<1>, X, x, 0) FLUX_AGAIN(igm2, Igm<2>, X, x, 1) FLUX_AGAIN(igm2, Igm<2>, Y, y, 6) FLUX_AGAIN(igm3, Igm<3>, X, x, 4) FLUX_AGAIN(igm3, Igm<3>, Z, z, 7)
FLUX_ROT(igm2, Igm<2>, X, x) FLUX_ROT(igm2, Igm<2>, Y, y) FLUX_ROT(igm3, Igm<3>, X, x) FLUX_ROT(igm3, Igm<3>, Y, y) FLUX_ROT(igm3, Igm<3>, Z, z)
template <class T> struct Carry {
  using Eq = typename T::Eq; static constexpr int R = Eq::Rank(); using FL = FluxLaws<T>;
  static void same(Out o, Direction d, bool spec) { auto eq = T::eq(); auto l = AnyMix<R>(eq, 0), r = AnyMix<R>(eq, 50); for (int s = 0; s < NSP; ++s) r.species[s] = r.density * Fy(10, s); auto f = FL::flux(eq, l, r, d); for (int s = 0; s < NSP; ++s) o.put(spec ? f.density * Fy(10, s) : f.species[s]); }
  static void lin(Out o, Direction d, bool spec) { auto eq = T::eq(); auto l = AnyMix<R>(eq, 0), r = AnyMix<R>(eq, 50); const double a = vg_in(80), b = vg_in(81); for (auto* q : {&l, &r}) q->species[0] = a * q->species[1] + b * q->density; auto f = FL::flux(eq, l, r, d); o.put(spec ? a * f.species[1] + b * f.density : f.species[0]); }
};
#define CARRY(R, D, d) LAW(R07_igm##R##_uniform_##d, Carry<Igm<R>>::same(o, D, false), Carry<Igm<R>>::same(o, D, true)) LAW(R07_igm##R##_linear_##d, Carry<Igm<R>>::lin(o, D, false), Carry<Igm<R>>::lin(o, D, true))
CARRY(1, X, x) CARRY(2, X, x) CARRY(2, Y, y) CARRY(3, X, x) CARRY(3, Y, y) CARRY(3, Z, z)
