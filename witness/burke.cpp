// SOURCES: src/equations/ideal_gas_mix/mechanism/Burke2012.cpp
#include "w.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
using namespace fub;
using w::Out;
using B = Burke2012;
constexpr int NSP = B::sEnd, NR = B::rEnd, NM = B::mEnd;
struct Rates { double cdot[NSP], w[NR], k[NR], c[NSP], M[NM];
  explicit Rates(int seed = 0, int tseed = 0) { for (int i = 0; i < NSP; ++i) c[i] = vg_pos(seed + 10 + i); for (double& x : cdot) x = vg_in(50); for (double& x : w) x = vg_in(51); for (double& x : k) x = vg_in(52); for (double& x : M) x = vg_in(53); B b; const FlameMasterMechanism& m = b; m.ComputeProductionRates(cdot, w, k, c, M, vg_pos(tseed + 1), vg_pos(tseed + 2)); } };
// elements of the species: N, AR, H, O, HE
static const int atoms[NSP][5] = {{2, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 2, 0}, {0, 0, 0, 1, 0}, {0, 0, 1, 1, 0}, {0, 0, 2, 0, 0}, {0, 0, 2, 1, 0}, {0, 0, 0, 0, 1}, {0, 0, 1, 2, 0}, {0, 0, 2, 2, 0}};
static void elements(Out o) { Rates r; for (int e = 0; e < 5; ++e) { double s = 0; for (int i = 0; i < NSP; ++i) s += atoms[i][e] * r.cdot[i]; o.put(s); } }
LAW(F05_elements, elements(o), for (int e = 0; e < 5; ++e) o.put(0))
static void mass(Out o) { Rates r; B b; double W[NSP], s = 0; b.getMolarMass(W); for (int i = 0; i < NSP; ++i) s += W[i] * r.cdot[i]; o.put(s); }
LAW(F05_mass, mass(o), o.put(0))
static void molar(Out o) { B b; double W[NSP]; b.getMolarMass(W); for (double x : W) o.put(x); }
static void molar_spec(Out o) { const double A[5] = {14.01, 39.948, 1.008, 16.0, 4.0}; for (int i = 0; i < NSP; ++i) { double s = 0; for (int e = 0; e < 5; ++e) s += atoms[i][e] * A[e]; o.put(s); } }
LAW(F05_molarmass, molar(o), molar_spec(o))
// the reactions: educts, products, third body (-1: none)
struct R { int in[2], out[3], third; };
enum { N2 = B::sN2, AR = B::sAR, H = B::sH, O2 = B::sO2, O = B::sO, OH = B::sOH, H2 = B::sH2, H2O = B::sH2O, HE = B::sHE, HO2 = B::sHO2, H2O2 = B::sH2O2, X = -1 };
static const R reactions[27] = {{{H, O2}, {OH, O, X}, X}, {{O, H2}, {OH, H, X}, X}, {{O, H2}, {OH, H, X}, X}, {{H2, OH}, {H, H2O, X}, X}, {{OH, OH}, {H2O, O, X}, X}, {{H2, X}, {H, H, X}, 0}, {{H2, AR}, {H, H, AR}, X}, {{H2, HE}, {H, H, HE}, X},
  {{O, O}, {O2, X, X}, 1}, {{O, O}, {O2, X, X}, -2 - AR}, {{O, O}, {O2, X, X}, -2 - HE}, {{O, H}, {OH, X, X}, 2}, {{H2O, X}, {OH, H, X}, 3}, {{H2O, H2O}, {H2O, OH, H}, X}, {{H, O2}, {HO2, X, X}, X}, {{HO2, H}, {O2, H2, X}, X}, {{HO2, H}, {OH, OH, X}, X}, {{HO2, O}, {OH, O2, X}, X}, {{HO2, OH}, {O2, H2O, X}, X},
  {{HO2, HO2}, {O2, H2O2, X}, X}, {{HO2, HO2}, {O2, H2O2, X}, X}, {{H2O2, X}, {OH, OH, X}, X}, {{H2O2, H}, {OH, H2O, X}, X}, {{H2O2, H}, {H2, HO2, X}, X}, {{H2O2, O}, {HO2, OH, X}, X}, {{H2O2, OH}, {H2O, HO2, X}, X}, {{H2O2, OH}, {H2O, HO2, X}, X}};
static void rates(Out o) { Rates r; for (double x : r.w) o.put(x); for (double x : r.cdot) o.put(x); for (double x : r.c) o.put(x); }
static void rates_spec(Out o) { Rates r; double c[NSP], cdot[NSP] = {}, w[NR]; for (int i = 0; i < NSP; ++i) c[i] = vg_pos(10 + i);
  for (int j = 0; j < 27; ++j) { const R& q = reactions[j]; double f = r.k[2 * j], b = r.k[2 * j + 1]; for (int s : q.in) if (s >= 0) f *= c[s]; for (int s : q.out) if (s >= 0) b *= c[s]; const double m = q.third >= 0 ? r.M[q.third] : q.third < -1 ? c[-2 - q.third] : 1.0; f *= m; b *= m; w[2 * j] = f; w[2 * j + 1] = b; for (int s : q.in) if (s >= 0) cdot[s] -= f - b; for (int s : q.out) if (s >= 0) cdot[s] += f - b; }
  for (double x : w) o.put(x); for (double x : cdot) o.put(x); for (double x : c) o.put(x); }
LAW(F05_massaction, rates(o), rates_spec(o))
static void coeff(Out o, int s, int t) { Rates r(s, t); for (int j = 0; j < NR; ++j) if (j / 2 != 14 && j / 2 != 21) o.put(r.k[j]); }
static void coeff_spec(Out o) { Rates r; for (int j = 0; j < NR; ++j) if (j / 2 != 14 && j / 2 != 21) o.put(r.k[j]); }
LAW(F05_coefficients, coeff(o, 200, 0), coeff_spec(o))
static void third(Out o) { Rates r; for (double x : r.M) o.put(x); }
static void third_spec(Out o) { static const double eff[NM][NSP] = {{1, 0, 1, 1, 1, 1, 2.5, 12, 0, 1, 1}, {1, 0, 1, 1, 1, 1, 2.5, 12, 0, 1, 1}, {1, 0.75, 1, 1, 1, 1, 2.5, 12, 0.75, 1, 1}, {2, 1, 1, 1.5, 1, 1, 3, 0, 1.1, 1, 1}, {1, 0.67, 1, 0.78, 1, 1, 2, 14, 0.8, 1, 1}, {1.5, 1, 1, 1.2, 1, 1, 3.7, 7.5, 0.65, 1, 7.7}}; for (auto& e : eff) { double s = 0; for (int i = 0; i < NSP; ++i) s += e[i] * vg_pos(10 + i); o.put(s); } }
LAW(F05_thirdbodies, third(o), third_spec(o))
// thermodynamic data
static void thermo(Out o, double T) { B b; double h[NSP], cp[NSP]; b.ComputeThermoData(h, cp, T); for (int i = 0; i < NSP; ++i) { o.put(h[i]); o.put(cp[i]); } }
static void thermo_v(Out o) { B b; const FlameMasterMechanism& m = b; double h[NSP], cp[NSP], s[NSP]; m.ComputeThermoData(h, cp, vg_pos(1), s); for (int i = 0; i < NSP; ++i) { o.put(h[i]); o.put(cp[i]); } }
static void thermo_a(Out o, int l) { B b; const FlameMasterMechanism& m = b; ArrayXd h(NSP, 8), cp(NSP, 8); Array1d T; for (int i = 0; i < 8; ++i) T(i) = vg_pos(i == l ? 1 : 900 + i); m.ComputeThermoData(h, cp, T); for (int i = 0; i < NSP; ++i) { o.put(h(i, l)); o.put(cp(i, l)); } }
// 0: hot, 1: warm, 2: cold
static void range(int r) { const double T = vg_pos(1); if (r == 0) vg_assume_pos(T - 1000.0); else vg_assume_pos(1000.0 - T); if (r < 2) { vg_assume_pos(T - 300.0); vg_assume_pos(T - 299.999999); } else { vg_assume_pos(300.0 - T); vg_assume_pos(299.999999 - T); } }
static void cold_spec(Out o) { B b; double h[NSP], cp[NSP]; b.ComputeThermoData(h, cp, 300.0); for (int i = 0; i < NSP; ++i) { o.put(h[i] + (vg_pos(1) - 300.0) * cp[i]); o.put(cp[i]); } }
#define RANGE(R) LAW(F05_thermo_##R##_lane0, range(R); thermo_a(o, 0), range(R); thermo(o, vg_pos(1))) LAW(F05_thermo_##R##_lane7, range(R); thermo_a(o, 7), range(R); thermo(o, vg_pos(1)))
RANGE(0) RANGE(1)
static void cold_b(Out o) { range(2); B b; ArrayXd h(NSP, 8), cp(NSP, 8); Array1d T = Array1d::Constant(500.0); T(2) = vg_pos(1); b.ComputeThermoData(h, cp, T); vg_assume_pos(1000.0 - vg_num(300.0)); vg_assume_pos(vg_num(300.0) - 299.999999); double h0[NSP], c0[NSP]; b.ComputeThermoData(h0, c0, vg_num(300.0)); for (int i = 0; i < NSP; ++i) { o.put(h(i, 2) - h0[i] - (vg_pos(1) - 300.0) * c0[i]); o.put(cp(i, 2) - c0[i]); } }
LAW(F05_thermo_cold_continuous, cold_b(o), for (int i = 0; i < 2 * NSP; ++i) o.put(0))
static void cold_a(Out o) { for (int k : {1, 2}) { const double T = vg_pos(k); vg_assume_pos(1000.0 - T); vg_assume_pos(300.0 - T); vg_assume_pos(299.999999 - T); } B b; ArrayXd h(NSP, 8), cp(NSP, 8); Array1d T = Array1d::Constant(500.0); T(2) = vg_pos(1); T(5) = vg_pos(2); b.ComputeThermoData(h, cp, T); for (int i = 0; i < NSP; ++i) { o.put(h(i, 2) - h(i, 5) - (vg_pos(1) - vg_pos(2)) * cp(i, 2)); o.put(cp(i, 2) - cp(i, 5)); } }
LAW(F05_thermo_cold_array, cold_a(o), for (int i = 0; i < 2 * NSP; ++i) o.put(0))
LAW(F05_thermo_virtual, thermo_v(o), thermo(o, vg_pos(1)))
LAW(F05_thermo_cold, range(2); thermo(o, vg_pos(1)), range(2); cold_spec(o))
