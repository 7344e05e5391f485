#ifndef VERIF_IGM_HPP
#define VERIF_IGM_HPP
#include "reactor.hpp"
#include "fub/equations/IdealGasMix.hpp"
constexpr Direction X = Direction::X, Y = Direction::Y, Z = Direction::Z;
// constant heat capacities: one Newton step finds the temperature
struct Lin : Mech {
  static double u(int i, double T) { return vg_in(9320 + i) + T * vg_pos(9330 + i); }
  static double cv(int i) { return vg_pos(9330 + i); }
  void ComputeThermoData(span<double> h, span<double> cp, double T, span<double> s) const override { for (int i = 0; i < NSP; ++i) { h[i] = u(i, T) + T * Rgas() / MM(i); cp[i] = cv(i) + Rgas() / MM(i); s[i] = 0; } }
  void ComputeThermoData(ArrayXd& h, ArrayXd& cp, Array1d T) const override { for (int i = 0; i < NSP; ++i) for (int l = 0; l < 8; ++l) { h(i, l) = u(i, T(l)) + T(l) * Rgas() / MM(i); cp(i, l) = cv(i) + Rgas() / MM(i); } } };
inline const Lin lin_{};
inline const Mech mech_{};
template <int R> IdealGasMix<R> Mix() { return IdealGasMix<R>(FlameMasterReactor(lin_)); }
/// density 0, pressure 1, velocity 2-4, temperature 5, composition 10
template <int R> Complete<IdealGasMix<R>> AnyMix(const IdealGasMix<R>& eq, int k) { Complete<IdealGasMix<R>> q(eq); q.density = vg_pos(k); for (int d = 0; d < R; ++d) q.momentum[d] = q.density * vg_in(k + 2 + d); q.pressure = vg_pos(k + 1); q.energy = vg_pos(k + 6); for (int s = 0; s < NSP; ++s) q.species[s] = q.density * Fy(k + 10, s); q.speed_of_sound = vg_pos(k + 7); q.temperature = vg_pos(k + 5); q.c_p = vg_pos(k + 8); q.gamma = vg_pos(k + 9); return q; }
/// the temperature is not further than 100 K from the initial guess 300 K
inline void Near(double T) { vg_assume_pos(100.0 - (T - 300.0)); vg_assume_pos(100.0 + (T - 300.0)); }
/// a state that satisfies the equation of state
template <int R> Complete<IdealGasMix<R>> EosMix(const IdealGasMix<R>& eq, int k) {
  Complete<IdealGasMix<R>> q(eq); const double T = vg_pos(k + 5), rho = vg_pos(k); double e = 0, cv = 0, ke = 0; const double Rm = Rgas() / Mbar(k + 10);
  for (int i = 0; i < NSP; ++i) { e += Fy(k + 10, i) * Lin::u(i, T); cv += Fy(k + 10, i) * Lin::cv(i); q.species[i] = rho * Fy(k + 10, i); }
  for (int d = 0; d < R; ++d) { const double u = vg_in(k + 2 + d); q.momentum[d] = rho * u; ke += u * u; }
  q.density = rho; q.energy = rho * e + 0.5 * rho * ke; q.pressure = rho * Rm * T; q.c_p = cv + Rm; q.gamma = (cv + Rm) / cv; q.temperature = T; q.speed_of_sound = std::sqrt(q.gamma * q.pressure / rho); return q; }
#endif
