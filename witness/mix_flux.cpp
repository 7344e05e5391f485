// SOURCES: src/equations/PerfectGasMix.cpp src/equations/PerfectGas.cpp
// SOURCES: src/equations/perfect_gas_mix/EinfeldtSignalVelocities_1d.cpp src/equations/perfect_gas_mix/EinfeldtSignalVelocities_2d.cpp src/equations/perfect_gas_mix/EinfeldtSignalVelocities_3d.cpp
// SOURCES: src/equations/perfect_gas/EinfeldtSignalVelocities_1d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_2d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_3d.cpp
// SOURCES: src/equations/perfect_gas_mix/HllemMethod_1d.cpp src/equations/perfect_gas_mix/HllemMethod_2d.cpp
// SOURCES: src/equations/perfect_gas/HllemMethod_1d.cpp src/equations/perfect_gas/HllemMethod_2d.cpp src/equations/perfect_gas/HllemMethod_3d.cpp
#include "mix.hpp"
#include "flux_laws.hpp"
#include "src/equations/perfect_gas/HllemMethod.hpp" // the mixture in three dimensions is instantiated here
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
namespace fub { extern template struct EinfeldtSignalVelocities<PerfectGasMix<1>>; extern template struct EinfeldtSignalVelocities<PerfectGasMix<2>>; extern template struct EinfeldtSignalVelocities<PerfectGasMix<3>>; }
template struct fub::perfect_gas::Hllem<PerfectGasMix<3>>;
template struct fub::perfect_gas::Hllem<PerfectGasMix<3>, false>;

template <int R> struct MixBase {
  using Eq = PerfectGasMix<R>;
  static Eq eq() { return Mix<R>(); }
  static Complete<Eq> eos(const Eq& e, int k) { return EosMix<R>(e, k); }
  template <class S> static S flip(S q, Direction d) { q.momentum[int(d)] = -q.momentum[int(d)]; return q; }
  template <class S> static S cyc(S q) { S r(q); for (int i = 0; i < R; ++i) r.momentum[(i + 1) % R] = q.momentum[i]; return r; }
  static Complete<Eq> mirror(const Eq&, Complete<Eq> q, Direction d) { return flip(q, d); }
  static Conservative<Eq> mirror_cons(const Eq&, Conservative<Eq> q, Direction d) { return flip(q, d); }
  static Complete<Eq> shift(const Eq&, Complete<Eq> q) { return cyc(q); }
  static Conservative<Eq> shift_cons(const Eq&, Conservative<Eq> q) { return cyc(q); }
};
template <int R, class E = PerfectGasMix<R>> struct MHllem : MixBase<R> { static auto method(const E& e) { return perfect_gas::Hllem<E, false>(e); } static auto pg(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, false>(e); } };
template <int R, class E = PerfectGasMix<R>> struct MHllemL : MixBase<R> { static auto method(const E& e) { return perfect_gas::Hllem<E, true>(e); } static auto pg(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, true>(e); } };
template <int R, class E = PerfectGasMix<R>> struct MHll : MixBase<R> { static auto method(const E& e) { return Hll<E, EinfeldtSignalVelocities<E>>(e); } static auto pg(const PerfectGas<R>& e) { return Hll<PerfectGas<R>, EinfeldtSignalVelocities<PerfectGas<R>>>(e); } };
#define ALL(N, T, l)                                                           \
  FLUX_SAV(mix##N##1, T<1>, X, x, l, 0) FLUX_SAV(mix##N##2, T<2>, X, x, l, 0) FLUX_SAV(mix##N##2, T<2>, Y, y, 3, 0) \
  FLUX_SAV(mix##N##3, T<3>, X, x, l, 0) FLUX_SAV(mix##N##3, T<3>, Y, y, 5, 0) FLUX_SAV(mix##N##3, T<3>, Z, z, 7, 0) \
  FLUX_SYM(mix##N##1, T<1>, X, x) FLUX_SYM(mix##N##2, T<2>, X, x) FLUX_SYM(mix##N##2, T<2>, Y, y) FLUX_SYM(mix##N##3, T<3>, X, x) FLUX_SYM(mix##N##3, T<3>, Y, y) FLUX_SYM(mix##N##3, T<3>, Z, z) \
  FLUX_ROT(mix##N##2, T<2>, X, x) FLUX_ROT(mix##N##2, T<2>, Y, y) FLUX_ROT(mix##N##3, T<3>, X, x) FLUX_ROT(mix##N##3, T<3>, Y, y) FLUX_ROT(mix##N##3, T<3>, Z, z)
#define MASKS(N, T)                                                           \
  FLUX_MASK(mix##N##1, T<1>, X, x, 1, 0x2cu) FLUX_MASK(mix##N##2, T<2>, X, x, 6, 0x2cu) FLUX_MASK(mix##N##2, T<2>, Y, y, 0, 0x2cu) \
  FLUX_MASK(mix##N##3, T<3>, X, x, 1, 0x2cu) FLUX_MASK(mix##N##3, T<3>, Y, y, 4, 0x2cu) FLUX_MASK(mix##N##3, T<3>, Z, z, 7, 0x2cu)
ALL(hllem, MHllem, 0)
ALL(hlleml, MHllemL, 2)
ALL(hll, MHll, 1)
#define AGAIN(N, T, l) FLUX_AGAIN(mix##N##1, T<1>, X, x, l) FLUX_AGAIN(mix##N##2, T<2>, Y, y, 3) FLUX_AGAIN(mix##N##3, T<3>, X, x, 5) FLUX_AGAIN(mix##N##3, T<3>, Z, z, 7)
AGAIN(hllem, MHllem, 0)
AGAIN(hlleml, MHllemL, 2)
AGAIN(hll, MHll, 1)
MASKS(hllem, MHllem)
MASKS(hlleml, MHllemL)
MASKS(hll, MHll)

// ------------------------------ R07: species and passive scalars are carried by the mass
template <class T> struct Carry {
  using Eq = typename T::Eq; static constexpr int R = Eq::Rank();
  using FL = FluxLaws<T>;
  // what the gas does, does not depend on what it consists of
  static void gas_code(Out o, Direction d) { auto eq = T::eq(); auto f = FL::flux(eq, EosMix<R>(eq, 0), EosMix<R>(eq, 50), d); o.put(f.density); for (int i = 0; i < R; ++i) o.put(f.momentum[i]); o.put(f.energy); }
  static Complete<PerfectGas<R>> plain(const PerfectGas<R>& g, const Complete<Eq>& q) { Complete<PerfectGas<R>> p(g); p.density = q.density; p.momentum = q.momentum; p.energy = q.energy; p.pressure = q.pressure; p.speed_of_sound = q.speed_of_sound; return p; }
  static void gas_spec(Out o, Direction d) { auto eq = T::eq(); auto g = Gas<R>(); auto m = T::pg(g); Conservative<PerfectGas<R>> f(g); std::array<Complete<PerfectGas<R>>, 2> st{plain(g, EosMix<R>(eq, 0)), plain(g, EosMix<R>(eq, 50))}; m.ComputeNumericFlux(f, st, Duration(vg_pos(9100)), vg_pos(9101), d); o.put(f.density); for (int i = 0; i < R; ++i) o.put(f.momentum[i]); o.put(f.energy); }
  // equal composition on both sides: the flux has the same composition
  static void same(Out o, Direction d, bool spec) { auto eq = T::eq(); auto l = EosMix<R>(eq, 0), r = EosMix<R>(eq, 50); for (int s = 0; s < NS; ++s) r.species[s] = r.density * Frac(10, s); for (int s = 0; s < NP; ++s) r.passive_scalars[s] = r.density * vg_in(20 + s);
    auto f = FL::flux(eq, l, r, d); for (int s = 0; s < NS; ++s) o.put(spec ? f.density * Frac(10, s) : f.species[s]); for (int s = 0; s < NP; ++s) o.put(spec ? f.density * vg_in(20 + s) : f.passive_scalars[s]); }
  // the flux is linear in the composition: species 0 = a * species 1 + b * mass, passive scalar = c * species 1 + e * mass on both sides
  static void lin(Out o, Direction d, bool spec) { auto eq = T::eq(); auto l = EosMix<R>(eq, 0), r = EosMix<R>(eq, 50); const double a = vg_in(80), b = vg_in(81), c = vg_in(82), e = vg_in(83);
    for (auto* q : {&l, &r}) { q->species[0] = a * q->species[1] + b * q->density; q->passive_scalars[0] = c * q->species[1] + e * q->density; }
    auto f = FL::flux(eq, l, r, d); o.put(spec ? a * f.species[1] + b * f.density : f.species[0]); o.put(spec ? c * f.species[1] + e * f.density : f.passive_scalars[0]); }
  // Larrouturou: the composition of the flux is the composition of the cell the mass comes from
  static void upw(Out o, Direction d, bool spec) { auto eq = T::eq(); auto l = EosMix<R>(eq, 0), r = EosMix<R>(eq, 50); auto f = FL::flux(eq, l, r, d); const bool up = f.density > 0.0;
    for (int s = 0; s < NS; ++s) o.put(spec ? f.density * (up ? Frac(10, s) : Frac(60, s)) : f.species[s]); for (int s = 0; s < NP; ++s) o.put(spec ? f.density * (up ? vg_in(20 + s) : vg_in(70 + s)) : f.passive_scalars[s]); }
};
#define CARRY(N, T, D, d) LAW(R07_##N##_gas_##d, Carry<T>::gas_code(o, D), Carry<T>::gas_spec(o, D)) LAW(R07_##N##_uniform_##d, Carry<T>::same(o, D, false), Carry<T>::same(o, D, true)) LAW(R07_##N##_linear_##d, Carry<T>::lin(o, D, false), Carry<T>::lin(o, D, true))
#define UPW(N, T, D, d) LAW(R07_##N##_upwind_##d, Carry<T>::upw(o, D, false), Carry<T>::upw(o, D, true))
#define DIRS(M, N, T) M(N##1, T<1>, X, x) M(N##2, T<2>, X, x) M(N##2, T<2>, Y, y) M(N##3, T<3>, X, x) M(N##3, T<3>, Y, y) M(N##3, T<3>, Z, z)
DIRS(CARRY, hllem, MHllem) DIRS(CARRY, hlleml, MHllemL) DIRS(CARRY, hll, MHll) DIRS(UPW, hlleml, MHllemL)
