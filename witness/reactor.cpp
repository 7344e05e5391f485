// TIES-OFF: F03_internalenergy_
// SOURCES: src/equations/ideal_gas_mix/FlameMasterReactor.cpp
#include "reactor.hpp"
// ------------------------------------------------------------ F01: observers
static void show(Out& o, const FlameMasterReactor& r) { o.put(r.GetDensity()); o.put(r.GetTemperature()); o.put(r.GetPressure()); o.put(r.GetMeanMolarMass()); o.put(r.GetCp()); o.put(r.GetCv()); o.put(r.GetEnthalpy()); o.put(r.GetInternalEnergy()); for (int i = 0; i < NSP; ++i) o.put(r.GetMassFractions()[i]); }
static void showl(Out& o, const FlameMasterReactor& r, int l) { o.put(r.GetDensityArray()(l)); o.put(r.GetTemperatureArray()(l)); o.put(r.GetPressureArray()(l)); o.put(r.GetMeanMolarMassArray()(l)); o.put(r.GetCpArray()(l)); o.put(r.GetCvArray()(l)); o.put(r.GetEnthalpyArray()(l)); o.put(r.GetInternalEnergyArray()(l)); for (int i = 0; i < NSP; ++i) o.put(r.GetMassFractionsArray()(i, l)); }
static void spec(Out& o, double rho, double T, const double* Y) { const double R = Rgas(); double cp = 0, h = 0, M = 0; for (int i = 0; i < NSP; ++i) { M += Y[i] / MM(i); cp += Y[i] * CP(i, T); h += Y[i] * H(i, T); } M = 1.0 / M; o.put(rho); o.put(T); o.put(rho * R / M * T); o.put(M); o.put(cp); o.put(cp - R / M); o.put(h); o.put(h - R / M * T); for (int i = 0; i < NSP; ++i) o.put(Y[i]); }
static void obs(Out o) { Mech m; FlameMasterReactor r(m); Set(r); show(o, r); }
static void obs_a(Out o, int l) { Mech m; FlameMasterReactor r(m); SetLane(r, l); showl(o, r, l); }
static void obs_spec(Out o) { double Y[NSP]; for (int i = 0; i < NSP; ++i) Y[i] = Fy(10, i); spec(o, vg_pos(0), vg_pos(1), Y); }
LAW(F01_observers, obs(o), obs_spec(o)) LAW(F01_observers_lane0, obs_a(o, 0), obs_spec(o)) LAW(F01_observers_lane6, obs_a(o, 6), obs_spec(o))
static void init(Out o) { Mech m; FlameMasterReactor r(m); o.put(r.GetTemperature()); o.put(r.GetPressure()); for (int i = 0; i < NSP; ++i) o.put(r.GetMassFractions()[i]); o.put(r.GetTemperatureArray()(3)); o.put(r.GetPressureArray()(5)); for (int i = 0; i < NSP; ++i) o.put(r.GetMassFractionsArray()(i, 2)); o.put(r.GetCp()); o.put(r.GetCpArray()(7)); }
static void init_spec(Out o) { for (int k = 0; k < 2; ++k) { o.put(300.0); o.put(101325.0); for (int i = 0; i < NSP; ++i) o.put(i == 0); } o.put(CP(0, 300.0)); o.put(CP(0, 300.0)); }
LAW(F01_initial, init(o), init_spec(o))
static void setp(Out o) { Mech m; FlameMasterReactor r(m); Set(r); r.SetPressure(vg_pos(2)); show(o, r); }
static void setp_a(Out o, int l) { Mech m; FlameMasterReactor r(m); SetLane(r, l); Array1d p = Array1d::Constant(vg_pos(3)); p(l) = vg_pos(2); r.SetPressureArray(p); showl(o, r, l); }
static void setp_spec(Out o) { double Y[NSP]; for (int i = 0; i < NSP; ++i) Y[i] = Fy(10, i); spec(o, vg_pos(2) * Mbar() / (Rgas() * vg_pos(1)), vg_pos(1), Y); }
LAW(F01_setpressure, setp(o), setp_spec(o)) LAW(F01_setpressure_lane2, setp_a(o, 2), setp_spec(o)) LAW(F01_setpressure_lane7, setp_a(o, 7), setp_spec(o))
// mole fractions
static void mole(Out o) { Mech m; FlameMasterReactor r(m); Set(r); double X[NSP]; for (int i = 0; i < NSP; ++i) X[i] = vg_pos(30 + i); r.SetMoleFractions(X); show(o, r); double s = 0; auto x = r.GetMoleFractions(); for (int i = 0; i < NSP; ++i) s += x[i]; for (int i = 0; i < NSP; ++i) o.put(x[i] / s); double q[NSP]; for (int i = 0; i < NSP; ++i) q[i] = vg_in(40 + i); o.put(r.MeanX(q)); o.put(r.MeanY(q)); }
static void mole_spec(Out o) { double Y[NSP], w = 0, sx = 0, my = 0; for (int i = 0; i < NSP; ++i) { w += vg_pos(30 + i) * MM(i); } for (int i = 0; i < NSP; ++i) Y[i] = vg_pos(30 + i) * MM(i) / w; spec(o, vg_pos(0), vg_pos(1), Y); for (int i = 0; i < NSP; ++i) o.put(Fy(30, i)); for (int i = 0; i < NSP; ++i) { sx += Fy(30, i) * vg_in(40 + i); my += Y[i] * vg_in(40 + i); } o.put(sx); o.put(my); }
LAW(F01_molefractions, mole(o), mole_spec(o))
// negative mass fractions are dropped
static void neg(Out o) { Mech m; FlameMasterReactor r(m); double Y[NSP]; for (int i = 0; i < NSP; ++i) Y[i] = vg_in(60 + i); r.SetMassFractions(Y); for (int i = 0; i < NSP; ++i) o.put(r.GetMassFractions()[i]); }
static void neg_a(Out o, int l, int mask) { Mech m; FlameMasterReactor r(m); ArrayXd Y(NSP, 8); Y.setConstant(vg_pos(59)); for (int i = 0; i < NSP; ++i) Y(i, l) = vg_in(60 + i); if (mask) { MaskArray k; for (int i = 0; i < 8; ++i) k(i) = i == l || i % 2; r.SetMassFractionsArray(Y, k); } else r.SetMassFractionsArray(Y); for (int i = 0; i < NSP; ++i) o.put(r.GetMassFractionsArray()(i, l)); }
static void neg_spec(Out o) { double s = 0; for (int i = 0; i < NSP; ++i) s += vg_in(60 + i) > 0.0 ? vg_in(60 + i) : 0.0; vg_assume_pos(s); for (int i = 0; i < NSP; ++i) o.put((vg_in(60 + i) > 0.0 ? vg_in(60 + i) : 0.0) / s); }
LAW(F01_negative, neg(o), neg_spec(o)) LAW(F01_negative_lane1, neg_a(o, 1, 0), neg_spec(o)) LAW(F01_negative_mask4, neg_a(o, 4, 1), neg_spec(o))
static void enth(Out o) { Mech m; FlameMasterReactor r(m); Set(r); auto h = r.GetEnthalpies(); auto c = r.GetCps(); for (int i = 0; i < NSP; ++i) { o.put(h[i]); o.put(c[i]); } }
LAW(F01_enthalpies, enth(o), for (int i = 0; i < NSP; ++i) { o.put(H(i, vg_pos(1))); o.put(CP(i, vg_pos(1))); })
static void means(Out o, bool lanes, int l) { Mech m; FlameMasterReactor r(m); double q[NSP]; ArrayXd Q(NSP, 8); Q.setConstant(vg_in(59)); for (int i = 0; i < NSP; ++i) Q(i, l) = q[i] = vg_in(40 + i);
  if (lanes) { SetLane(r, l); o.put(r.MeanX(Q)(l)); o.put(r.MeanY(Q)(l)); for (int i = 0; i < NSP; ++i) o.put(r.GetCpsArray()(i, l)); } else { Set(r); o.put(r.MeanX(q)); o.put(r.MeanY(q)); for (int i = 0; i < NSP; ++i) o.put(r.GetCps()[i]); } }
LAW(F01_means_lane3, means(o, false, 3), means(o, true, 3)) LAW(F01_means_lane7, means(o, false, 7), means(o, true, 7))
static double C(int i, double rho) { return rho * Fy(10, i) / MM(i); }
static void prod(Out o, bool late) { Mech m; FlameMasterReactor r(m); Set(r); if (late) r.SetDensity(vg_pos(5)); auto w = r.GetProductionRates(); for (int i = 0; i < NSP; ++i) o.put(w[i]); }
static void prod_spec(Out o, double rho) { for (int i = 0; i < NSP; ++i) o.put(W(i, C(0, rho), C(1, rho), C(2, rho), vg_pos(1), rho * Rgas() / Mbar() * vg_pos(1))); }
LAW(F01_productionrates, prod(o, false), prod_spec(o, vg_pos(0))) LAW(F01_productionrates_newdensity, prod(o, true), prod_spec(o, vg_pos(5)))
static void entr(Out o) { Mech m; FlameMasterReactor r(m); Set(r); o.put(r.GetEntropy()); }
static void entr_spec(Out o) { double s = 0, x = 0; for (int i = 0; i < NSP; ++i) { s += Fy(10, i) * SE(i, vg_pos(1)); } const double rho = vg_pos(0), M = Mbar(); double n = 0; for (int i = 0; i < NSP; ++i) n += C(i, rho); for (int i = 0; i < NSP; ++i) { const double c = C(i, rho); x += c > 2.220446049250313e-16 ? c * std::log(c) : 0.0; } x = x / n - std::log(n); o.put(s - Rgas() / M * std::log(rho * Rgas() / M * vg_pos(1) / 101325.0) - Rgas() / M * x); }
LAW(F01_entropy, entr(o), entr_spec(o))
// ------------------------------------------------------------ F01: copies are independent
template <int K> void copy(Out o, bool orig) { Mech m; FlameMasterReactor r(m); Set(r); SetLane(r, 3);
  auto play = [&](FlameMasterReactor& s) { if (orig) { Set(s, 200); Array1d T = Array1d::Constant(vg_pos(300)); s.SetTemperatureArray(T); s.SetDensityArray(T); show(o, r); showl(o, r, 3); } else { Set(r, 200); show(o, s); showl(o, s, 3); s.SetTemperature(vg_pos(301)); o.put(s.GetCp()); o.put(s.GetMoleFractions()[1]); } };
  if constexpr (K == 0) { FlameMasterReactor s(r); play(s); } else if constexpr (K == 1) { FlameMasterReactor s(m); s = r; play(s); } else if constexpr (K == 2) { FlameMasterReactor t(r); FlameMasterReactor s(std::move(t)); play(s); } else { FlameMasterReactor t(r); FlameMasterReactor s(m); s = std::move(t); play(s); } }
static void copy_spec(Out o, bool orig) { Mech m; FlameMasterReactor s(m); Set(s); SetLane(s, 3); show(o, s); showl(o, s, 3); if (!orig) { s.SetTemperature(vg_pos(301)); o.put(s.GetCp()); o.put(s.GetMoleFractions()[1]); } }
LAW(F01_copy, copy<0>(o, false), copy_spec(o, false)) LAW(F01_copyassign, copy<1>(o, false), copy_spec(o, false)) LAW(F01_move, copy<2>(o, false), copy_spec(o, false)) LAW(F01_moveassign, copy<3>(o, false), copy_spec(o, false))
LAW(F01_copy_original, copy<0>(o, true), copy_spec(o, true)) LAW(F01_copyassign_original, copy<1>(o, true), copy_spec(o, true))
// ------------------------------------------------------------ F02: advancing in time
template <class S> void adv(Out o, int fb) { Mech m; FlameMasterReactor r(m); r.SetOdeSolver(std::make_unique<S>()); Set(r); const double dt = vg_pos(70); if (fb) { double t0 = 0, n = 0, T = 0; auto f = [&](span<const double> y, double t, FlameMasterReactor* p) { n += 1; t0 = t; T = y[0] + (p == &r ? 0.0 : 1.0); }; r.Advance(dt, f); o.put(n); o.put(t0); o.put(T); } else { r.Advance(dt); o.put(1); o.put(dt); o.put(r.GetTemperature()); } show(o, r); }
static void adv_spec(Out o) { const double rho = vg_pos(0), T = vg_pos(1), dt = vg_pos(70), p = rho * Rgas() / Mbar() * T; double Y[NSP], du = 0, cv = -Rgas() / Mbar(); for (int i = 0; i < NSP; ++i) { const double w = W(i, C(0, rho), C(1, rho), C(2, rho), T, p); Y[i] = Fy(10, i) + dt * w * MM(i) / rho; du += w * MM(i) * (H(i, T) - Rgas() / MM(i) * T); cv += Fy(10, i) * CP(i, T); } const double T1 = T - dt * du / (rho * cv);
  o.put(1); o.put(dt); o.put(T1); spec(o, rho, T1, Y); }
LAW(F02_adiabatic, adv<Euler>(o, 0), adv_spec(o)) LAW(F02_adiabatic_feedback, adv<Euler>(o, 1), adv_spec(o))
static void any_spec(Out o, bool late = false) { const double rho = late ? vg_pos(5) : vg_pos(0), dt = vg_pos(70); double h = vg_uf2(50, 0.0, dt); h = vg_uf2(51, h, vg_pos(1)); for (int i = 0; i < NSP; ++i) h = vg_uf2(51, h, C(i, rho)); const double T = std::exp(vg_uf2(52, 0, h)); double Y[NSP]; for (int i = 0; i < NSP; ++i) Y[i] = std::exp(vg_uf2(52, i + 1, h)) * MM(i) / rho; o.put(1); o.put(dt); o.put(T); spec(o, rho, T, Y); }
LAW(F02_consistent, adv<Any>(o, 0), any_spec(o)) LAW(F02_consistent_feedback, adv<Any>(o, 1), any_spec(o))
static void adv_late(Out o) { Mech m; FlameMasterReactor r(m); r.SetOdeSolver(std::make_unique<Any>()); Set(r); r.SetDensity(vg_pos(5)); r.Advance(vg_pos(70)); o.put(1); o.put(vg_pos(70)); o.put(r.GetTemperature()); show(o, r); }
LAW(F02_consistent_newdensity, adv_late(o), any_spec(o, true))
static void adv0(Out o, bool run) { Mech m; FlameMasterReactor r(m); r.SetOdeSolver(std::make_unique<Any>()); Set(r); if (run) { r.Advance(0.0); auto f = [&](span<const double>, double, FlameMasterReactor*) { o.put(1); }; r.Advance(0.0, f); } show(o, r); }
LAW(F02_zero, adv0(o, true), adv0(o, false))
// time of the steepest temperature rise
struct Two : OdeSolver { // two internal time steps
  void integrate(system_type, span<double> y, double t, double dt, feedback_type* fb, jacobian_type*) const override { double h = 0; for (int i = 0; i < y.size(); ++i) h = vg_uf2(51, h, y[i]); for (int k = 0; k < 2; ++k) { for (int i = 0; i < y.size(); ++i) y[i] = std::exp(vg_uf3(53, i, k, h)); (*fb)(y, t + (k ? dt : dt * vg_pos(71) / (vg_pos(71) + vg_pos(72)))); } }
  std::unique_ptr<OdeSolver> clone() const override { return std::make_unique<Two>(*this); } };
static void maxdt(Out o) { Mech m; FlameMasterReactor r(m); r.SetOdeSolver(std::make_unique<Two>()); Set(r); r.SetDensity(vg_pos(5)); o.put(r.AdvanceAndFindMaxdT(vg_pos(70))); show(o, r); }
static void maxdt_spec(Out o) { const double rho = vg_pos(5), dt = vg_pos(70), t1 = dt * vg_pos(71) / (vg_pos(71) + vg_pos(72)); double h = vg_uf2(51, 0.0, vg_pos(1)); for (int i = 0; i < NSP; ++i) h = vg_uf2(51, h, C(i, rho)); const double T0 = vg_pos(1), T1 = std::exp(vg_uf3(53, 0, 0, h)), T2 = std::exp(vg_uf3(53, 0, 1, h)); double Y[NSP]; for (int i = 0; i < NSP; ++i) Y[i] = std::exp(vg_uf3(53, i + 1, 1, h)) * MM(i) / rho;
  const double a = (T1 - T0) / t1, b = (T2 - T1) / (dt - t1); vg_assume_pos(a + 9000.0); o.put(a < b ? dt : t1); spec(o, rho, T2, Y); }
LAW(F02_maxdT, maxdt(o), maxdt_spec(o))
// ------------------------------------------------------------ F02: isentropic compression
static void isen(Out o) { Mech m; FlameMasterReactor r(m); r.SetOdeSolver(std::make_unique<Euler>()); Set(r); o.put(r.SetPressureIsentropic(vg_pos(2))); show(o, r); }
static void isen_spec(Out o) { const double rho = vg_pos(0), T = vg_pos(1), p = rho * Rgas() / Mbar() * T, p1 = vg_pos(2); vg_assume_pos(std::abs(p1 - p) - 1e-5); double cp = 0, Y[NSP]; for (int i = 0; i < NSP; ++i) { Y[i] = Fy(10, i); cp += Y[i] * CP(i, T); } const double T1 = T + (p1 - p) / (rho * cp); o.put(-(p1 - p) * std::sqrt((cp - Rgas() / Mbar()) / (cp * rho * p))); spec(o, p1 * Mbar() / (Rgas() * T1), T1, Y); }
LAW(F02_isentropic, isen(o), isen_spec(o))
// ------------------------------------------------------------ F03: temperature from energy
struct Lin : Mech { // constant heat capacities
  void ComputeThermoData(span<double> h, span<double> cp, double T, span<double> s) const override { for (int i = 0; i < NSP; ++i) { h[i] = vg_in(81 + i) + T * (vg_pos(85 + i) + Rgas() / MM(i)); cp[i] = vg_pos(85 + i) + Rgas() / MM(i); s[i] = 0; } }
  void ComputeThermoData(ArrayXd& h, ArrayXd& cp, Array1d T) const override { for (int i = 0; i < NSP; ++i) for (int l = 0; l < 8; ++l) { h(i, l) = vg_in(81 + i) + T(l) * (vg_pos(85 + i) + Rgas() / MM(i)); cp(i, l) = vg_pos(85 + i) + Rgas() / MM(i); } } };
static double Cv() { double c = 0; for (int i = 0; i < NSP; ++i) c += Fy(10, i) * vg_pos(85 + i); return c; }
static double Cpl() { return Cv() + Rgas() / Mbar(); }
static double U0(double T) { double u = 0; for (int i = 0; i < NSP; ++i) u += Fy(10, i) * vg_in(81 + i); return u + Cv() * T; }
static double H0(double T) { return U0(T) + Rgas() / Mbar() * T; }
static void newton(Out o, bool h) { vg_loop_bound(2); Lin m; FlameMasterReactor r(m); Set(r); const double T = vg_pos(2), e = h ? H0(T) : U0(T); vg_assume_pos(100.0 - (T - vg_pos(1))); vg_assume_pos(100.0 + (T - vg_pos(1))); if (h) r.SetEnthalpy(e, vg_pos(73)); else r.SetInternalEnergy(e, vg_pos(73)); o.put(r.GetTemperature()); o.put(r.GetDensity()); o.put(r.GetInternalEnergy()); o.put(r.GetEnthalpy()); o.put(r.GetCp()); for (int i = 0; i < NSP; ++i) o.put(r.GetMassFractions()[i]); }
static void newton_spec(Out o) { const double T = vg_pos(2); vg_assume_pos(100.0 - (T - vg_pos(1))); vg_assume_pos(100.0 + (T - vg_pos(1))); o.put(T); o.put(vg_pos(0)); o.put(U0(T)); o.put(H0(T)); o.put(Cpl()); for (int i = 0; i < NSP; ++i) o.put(Fy(10, i)); }
LAW(F03_internalenergy, newton(o, false), newton_spec(o)) LAW(F03_enthalpy, newton(o, true), newton_spec(o))
static void newton_a(Out o, int l, int mask) { vg_loop_bound(2); Lin m; FlameMasterReactor r(m); Array1d rho, T, e; ArrayXd Y(NSP, 8); MaskArray k; for (int i = 0; i < 8; ++i) { const int b = i == l ? 0 : 5000; k(i) = i == l || i % 3 == 0; rho(i) = vg_pos(b); T(i) = vg_pos(b + 1); for (int s = 0; s < NSP; ++s) Y(s, i) = vg_pos(b + 10 + s); } r.SetDensityArray(rho); r.SetMassFractionsArray(Y, k); r.SetTemperatureArray(T);
  for (int i = 0; i < 8; ++i) { double u = 0, c = 0, s = 0; for (int j = 0; j < NSP; ++j) s += Y(j, i); for (int j = 0; j < NSP; ++j) { u += Y(j, i) / s * vg_in(81 + j); c += Y(j, i) / s * vg_pos(85 + j); } e(i) = u + c * vg_pos(i == l ? 2 : 5002); }
  for (int b : {0, 5000}) { vg_assume_pos(100.0 - (vg_pos(b + 2) - vg_pos(b + 1))); vg_assume_pos(100.0 + (vg_pos(b + 2) - vg_pos(b + 1))); }
  if (mask) r.SetInternalEnergyArray(e, k, vg_pos(73)); else { r.SetMassFractionsArray(Y); r.SetInternalEnergyArray(e, vg_pos(73)); } o.put(r.GetTemperatureArray()(l)); o.put(r.GetDensityArray()(l)); o.put(r.GetInternalEnergyArray()(l)); o.put(r.GetEnthalpyArray()(l)); o.put(r.GetCpArray()(l)); for (int i = 0; i < NSP; ++i) o.put(r.GetMassFractionsArray()(i, l)); }
LAW(F03_internalenergy_lane0, newton_a(o, 0, 0), newton_spec(o)) LAW(F03_internalenergy_lane5, newton_a(o, 5, 0), newton_spec(o)) LAW(F03_internalenergy_mask1, newton_a(o, 1, 1), newton_spec(o)) LAW(F03_internalenergy_mask7, newton_a(o, 7, 1), newton_spec(o))
// whatever the mechanism, the iteration stops only if the energy or the temperature has converged
// (the heat capacity is positive and a step is less than 100 K: the limiter is not triggered)
struct Con : Mech { bool scalar; mutable double T0 = 0, T1 = 0;
  static double c(double T) { return std::exp(vg_uf1(60, T)); }
  static double u(double T, int k) { double s = 0; for (int i = 0; i < NSP; ++i) s += Fy(k, i) * H(i, T); return s - Rgas() / Mbar(k) * T; }
  static void Step(double E, double T, int k) { const double q = (E - u(T, k)) / c(T); vg_assume_pos(100.0 - q); vg_assume_pos(100.0 + q); }
  void ComputeThermoData(span<double> h, span<double> cp, double T, span<double> s) const override { T0 = T1; T1 = T; for (int i = 0; i < NSP; ++i) { h[i] = H(i, T); cp[i] = c(T) + Rgas() / MM(i); s[i] = 0; } if (scalar) Step(vg_in(90), T, 10); }
  void ComputeThermoData(ArrayXd& h, ArrayXd& cp, Array1d T) const override { for (int l = 0; l < 8; ++l) for (int i = 0; i < NSP; ++i) { h(i, l) = H(i, T(l)); cp(i, l) = c(T(l)) + Rgas() / MM(i); } } };
static bool Conv(double E, double Told, double T, int k) { const double tol = vg_pos(73), u = Con::u(T, k), a = Con::c(Told) > 1e-5 ? Con::c(Told) : 1e-5, d = std::abs(E) > a * tol ? std::abs(E) : a * tol; return u == E || std::abs(E - u) < d * (1e-5 * tol) || std::abs((E - u) / d) < 1e-5 * tol || std::abs(T - Told) < tol; }
static void stop(Out o) { vg_loop_bound(1); Con m; m.scalar = true; FlameMasterReactor r(m); Set(r); r.SetInternalEnergy(vg_in(90), vg_pos(73)); o.put(Conv(vg_in(90), m.T0, r.GetTemperature(), 10)); o.put(m.T1 - r.GetTemperature()); o.put(r.GetDensity()); }
LAW(F03_converged, stop(o), o.put(1); o.put(0); o.put(vg_pos(0)))
static void stop_a(Out o, int l, int mask) { vg_loop_bound(0); Con m; m.scalar = false; FlameMasterReactor r(m); Array1d rho, T, e; ArrayXd Y(NSP, 8); MaskArray k; const int j = l == 3 ? 4 : 3; for (int i = 0; i < 8; ++i) { const int b = i == l ? 0 : 5000; k(i) = i == l || i == j; rho(i) = vg_pos(b); T(i) = vg_pos(b + 1); e(i) = vg_in(b + 90); for (int s = 0; s < NSP; ++s) Y(s, i) = vg_pos(b + 10 + s); } r.SetDensityArray(rho); r.SetTemperatureArray(T); Con::Step(e(l), T(l), 10); Con::Step(e(j), T(j), 5010);
  if (mask) { r.SetMassFractionsArray(Y, k); r.SetInternalEnergyArray(e, k, vg_pos(73)); } else { r.SetMassFractionsArray(Y); r.SetInternalEnergyArray(e, vg_pos(73)); } o.put(Conv(e(l), T(l), r.GetTemperatureArray()(l), 10)); o.put(Conv(e(j), T(j), r.GetTemperatureArray()(j), 5010)); o.put(r.GetDensityArray()(l)); }
static void stop_a_spec(Out o) { o.put(1); o.put(1); o.put(vg_pos(0)); }
LAW(F03_converged_lane2, stop_a(o, 2, 0), stop_a_spec(o)) LAW(F03_converged_mask5, stop_a(o, 5, 1), stop_a_spec(o))
