#ifndef VERIF_MIX_HPP
#define VERIF_MIX_HPP
#include "pg.hpp"
#include "fub/equations/PerfectGasMix.hpp"
// perfect gas mixtures: two species besides the last one, one passive scalar
constexpr int NS = 2, NP = 1;
template <int R> PerfectGasMix<R> Mix() { return PerfectGasMix<R>(ComputeConstants(vg_pos(9000), 1.0 + vg_pos(9001)), NS, NP); }
template <int R> Complete<PerfectGasMix<R>> AnyMix(const PerfectGasMix<R>& eq, int k) { Complete<PerfectGasMix<R>> q(eq); w::fill(q, k); return q; }
/// mass fractions: positive and with a sum below one
inline double Frac(int k, int s) { double sum = 0; for (int i = 0; i <= NS; ++i) sum += vg_pos(k + i); return vg_pos(k + s) / sum; }
/// a state that satisfies the equation of state
template <int R> Complete<PerfectGasMix<R>> EosMix(const PerfectGasMix<R>& eq, int k) {
  Complete<PerfectGasMix<R>> q(eq);
  q.density = vg_pos(k); q.pressure = vg_pos(k + 1); double ke = 0;
  for (int d = 0; d < R; ++d) { const double u = vg_in(k + 2 + d); q.momentum[d] = q.density * u; ke += u * u; }
  q.energy = q.pressure / vg_pos(9001) + 0.5 * q.density * ke; q.speed_of_sound = std::sqrt((1.0 + vg_pos(9001)) * q.pressure / q.density);
  double last = 1.0; for (int s = 0; s < NS; ++s) last -= Frac(k + 10, s);
  vg_assume_pos(last); // Frac(k + 10, NS)
  for (int s = 0; s < NS; ++s) q.species[s] = q.density * Frac(k + 10, s);
  for (int s = 0; s < NP; ++s) q.passive_scalars[s] = q.density * vg_in(k + 20 + s);
  return q;
}
#endif
