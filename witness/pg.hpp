#ifndef VERIF_PG_HPP
#define VERIF_PG_HPP
#include "w.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/CompleteFromCons.hpp"

using namespace fub;
using w::Out;

constexpr Direction X = Direction::X, Y = Direction::Y, Z = Direction::Z;

template <int R> PerfectGas<R> Gas() {
  PerfectGas<R> e;
  e.Rspec = vg_pos(9000);
  // gamma = 1 + something positive
  e.gamma = 1.0 + vg_pos(9001);
  e.gamma_minus_1_inv = 1.0 / (e.gamma - 1.0);
  e.gamma_array_ = Array1d::Constant(e.gamma);
  e.gamma_minus_1_inv_array_ = Array1d::Constant(e.gamma_minus_1_inv);
  return e;
}
/// an arbitrary (not necessarily consistent) complete state
template <int R> Complete<PerfectGas<R>> Any(const PerfectGas<R>& eq, int k) {
  Complete<PerfectGas<R>> q(eq);
  w::fill(q, k);
  return q;
}
/// a complete state which satisfies the equation of state by construction:
/// rho, u, p free; energy, c from the textbook formulas
template <int R> Complete<PerfectGas<R>> Eos(const PerfectGas<R>& eq, int k) {
  Complete<PerfectGas<R>> q(eq);
  q.density = vg_pos(k);
  q.pressure = vg_pos(k + 1);
  double ke = 0;
  for (int d = 0; d < R; ++d) {
    const double u = vg_in(k + 2 + d);
    q.momentum[d] = q.density * u;
    ke += u * u;
  }
  q.energy = q.pressure / (eq.gamma - 1.0) + 0.5 * q.density * ke;
  q.speed_of_sound = std::sqrt(eq.gamma * q.pressure / q.density);
  return q;
}
template <int R>
CompleteArray<PerfectGas<R>> AnyArr(const PerfectGas<R>& eq, int lane, int k) {
  CompleteArray<PerfectGas<R>> q(eq);
  w::fill_lanes(q, lane, k);
  return q;
}
/// only the lanes in the mask carry meaningful data; other lanes hold zeros
inline MaskArray MaskWith(int lane, unsigned bits) {
  MaskArray m;
  for (int i = 0; i < 8; ++i)
    m(i) = (i == lane) || ((bits >> i) & 1u);
  return m;
}
#endif
