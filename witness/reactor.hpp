#ifndef VERIF_REACTOR_HPP
#define VERIF_REACTOR_HPP
#include "w.hpp"
#include "fub/equations/ideal_gas_mix/FlameMasterReactor.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
using namespace fub;
using w::Out;
// the default solver is never used by the laws
namespace fub { void RadauSolver::integrate(system_type, span<double>, double, double, feedback_type*, jacobian_type*) const {} }
constexpr int NSP = 3; // species of the mechanism
inline double MM(int i) { return vg_pos(9300 + i); }         // molar masses
inline double H(int i, double T) { return vg_uf2(40, i, T); } // species enthalpies
inline double CP(int i, double T) { return vg_uf2(41, i, T); }
inline double SE(int i, double T) { return vg_uf2(42, i, T); }
inline double Rgas() { return vg_pos(9310); }
inline double W(int i, double c0, double c1, double c2, double T, double p) { return vg_uf4(43 + i, vg_uf3(47, c0, c1, c2), T, p, 0.0); }
/// a mechanism about which nothing is known
struct Mech : FlameMasterMechanism {
  std::unique_ptr<FlameMasterMechanism> Clone() const override { return nullptr; }
  void ComputeProductionRates(span<double> cdot, span<double> w, span<double> k, span<double> c, span<double> M, double T, double p) const override {
    for (int i = 0; i < NSP; ++i) cdot[i] = W(i, c[0], c[1], c[2], T, p);
    for (int i = 0; i < w.size(); ++i) w[i] = vg_uf2(48, i, cdot[0]); for (int i = 0; i < k.size(); ++i) k[i] = T; for (int i = 0; i < M.size(); ++i) M[i] = c[0];
  }
  void ComputeThermoData(span<double> h, span<double> cp, double T, span<double> s) const override { for (int i = 0; i < NSP; ++i) { h[i] = H(i, T); cp[i] = CP(i, T); s[i] = SE(i, T); } }
  void ComputeThermoData(ArrayXd& h, ArrayXd& cp, Array1d T) const override { for (int i = 0; i < NSP; ++i) for (int l = 0; l < 8; ++l) { h(i, l) = H(i, T(l)); cp(i, l) = CP(i, T(l)); } }
  int getNSpecies() const override { return NSP; }
  int getNReactions() const override { return 2; }
  int getNThirdBodyReactions() const override { return 1; }
  std::vector<std::string> getSpeciesNames() const override { return std::vector<std::string>(NSP); }
  void getMolarMass(span<double> w) const override { for (int i = 0; i < NSP; ++i) w[i] = MM(i); }
  double getUniversalGasConstant() const override { return Rgas(); }
};
/// one explicit Euler step with feedback: shows the right hand side
struct Euler : OdeSolver {
  void integrate(system_type f, span<double> y, double t, double dt, feedback_type* fb, jacobian_type*) const override {
    double d[4] = {0, 0, 0, 0}, z[4] = {0, 0, 0, 0}; const int n = y.size(); for (int i = 0; i < n; ++i) z[i] = y[i];
    f(span<double>(d, n), span<const double>(z, n), t); for (int i = 0; i < n; ++i) y[i] += dt * d[i]; if (fb) (*fb)(y, t + dt); }
  std::unique_ptr<OdeSolver> clone() const override { return std::make_unique<Euler>(*this); }
};
/// an arbitrary result that depends on everything the solver is given; the right hand side is evaluated at other places as well
struct Any : OdeSolver {
  void integrate(system_type f, span<double> y, double t, double dt, feedback_type* fb, jacobian_type*) const override {
    double d[4] = {0, 0, 0, 0}, z[4] = {0, 0, 0, 0}; const int n = y.size(); double h = vg_uf2(50, t, dt); for (int i = 0; i < n; ++i) { h = vg_uf2(51, h, y[i]); z[i] = std::exp(vg_in(600 + i)); }
    f(span<double>(d, n), span<const double>(z, n), t); for (int i = 0; i < n; ++i) y[i] = std::exp(vg_uf2(52, i, h)); if (fb) (*fb)(y, t + dt); }
  std::unique_ptr<OdeSolver> clone() const override { return std::make_unique<Any>(*this); }
};
inline double Fy(int k, int i) { double s = 0; for (int j = 0; j < NSP; ++j) s += vg_pos(k + j); return vg_pos(k + i) / s; }
/// density 0, temperature 1, mass fractions 10
inline void Set(FlameMasterReactor& r, int k = 0) { double Y[NSP]; for (int i = 0; i < NSP; ++i) Y[i] = vg_pos(k + 10 + i); r.SetDensity(vg_pos(k)); r.SetMassFractions(Y); r.SetTemperature(vg_pos(k + 1)); }
inline void SetLane(FlameMasterReactor& r, int l) { Array1d rho, T; ArrayXd Y(NSP, 8); for (int i = 0; i < 8; ++i) { const int k = i == l ? 0 : 5000 + 100 * i; rho(i) = vg_pos(k); T(i) = vg_pos(k + 1); for (int s = 0; s < NSP; ++s) Y(s, i) = vg_pos(k + 10 + s); } r.SetDensityArray(rho); r.SetMassFractionsArray(Y); r.SetTemperatureArray(T); }
inline double Mbar(int k = 10) { double s = 0; for (int i = 0; i < NSP; ++i) s += Fy(k, i) / MM(i); return 1.0 / s; }
#endif
