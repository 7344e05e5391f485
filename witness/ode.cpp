// SOURCES: src/ode_solver/RadauSolver.cpp
#include "w.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
using namespace fub;
using w::Out;
// The Fortran kernel: nothing is known but that it calls what it is given and that its result depends on everything it is given.
static int idid_[3], calls;
typedef void (*rhs_t)(int*, double*, double*, double*, float*, int*); typedef void (*jac_t)(int*, double*, double*, double*, int*, float*, int*); typedef void (*mas_t)(int*, double*, int*, float*, int*);
typedef void (*sol_t)(int*, double*, double*, double*, int*, int*, int*, float*, int*, int*);
static double kernel(double h, double x, double xend, double hini, double rtol, double atol, const double* work, const int* iwork) { h = vg_uf4(70, h, x, xend, hini); h = vg_uf3(71, h, rtol, atol); for (int i = 0; i < 20; ++i) h = vg_uf2(72, h, work[i]); for (int i = 0; i < 20; ++i) h = vg_uf2(73, h, iwork[i]); return h; }
extern "C" void radau_(int* N, rhs_t f, double* X, double* Y, double* XEND, double* H, double* RTOL, double* ATOL, int* ITOL, jac_t jac, int* IJAC, int* MLJAC, int* MUJAC, mas_t, int* IMAS, int* MLMAS, int* MUMAS, sol_t sol, int* IOUT, double* WORK, int* LWORK, int* IWORK, int* LIWORK, float* RPAR, int* IPAR, int* IDID) {
  const int n = *N; double h = kernel(*ITOL == 0 && *IMAS == 0 && *MLJAC == n && *LWORK >= n * (8 * n + 24) + 20 && *LIWORK >= 5 * n + 20 ? 0.0 : 1.0, *X, *XEND, *H, *RTOL, *ATOL, WORK, IWORK);
  double d[4] = {}, J[16] = {}; f(N, X, Y, d, RPAR, IPAR); int ld = n; if (*IJAC) { jac(N, X, Y, J, &ld, RPAR, IPAR); for (int i = 0; i < n * n; ++i) h = vg_uf2(74, h, J[i]); }
  for (int i = 0; i < n; ++i) h = vg_uf3(75, h, d[i], Y[i]);
  for (int i = 0; i < n; ++i) Y[i] = vg_uf2(76, i, h);
  if (*IOUT) { int nr = 1, irtrn = 1, lrc = 1; double xm = vg_uf2(77, *X, *XEND); sol(&nr, X, &xm, Y, nullptr, &lrc, N, RPAR, IPAR, &irtrn); h = vg_uf1(78, h); for (int i = 0; i < n; ++i) Y[i] = vg_uf2(76, i, h); nr = 2; sol(&nr, &xm, XEND, Y, nullptr, &lrc, N, RPAR, IPAR, &irtrn); }
  *IDID = idid_[calls++];
}
// the same, as it should be called
template <class F, class J, class S> void spec(int n, F f, J jac, S sol, int kind, double x, double xend, double* y, double hini, double rtol, double atol, double thr) {
  double work[20] = {}; int iwork[20] = {}; work[2] = thr; iwork[0] = 1; iwork[12] = 7; double h = kernel(0.0, x, xend, hini, rtol, atol, work, iwork);
  double d[4] = {}, Jm[16] = {}; f(d, y, x); if (kind & 2) { jac(Jm, y, x); for (int i = 0; i < n * n; ++i) h = vg_uf2(74, h, Jm[i]); } for (int i = 0; i < n; ++i) h = vg_uf3(75, h, d[i], y[i]); for (int i = 0; i < n; ++i) y[i] = vg_uf2(76, i, h);
  if (kind & 1) { sol(y, vg_uf2(77, x, xend)); h = vg_uf1(78, h); for (int i = 0; i < n; ++i) y[i] = vg_uf2(76, i, h); sol(y, xend); } }
constexpr int NV = 2;
template <class T> struct Sys { double* rec; int* n; };
// kind: 1 feedback, 2 jacobian. retry: the first call fails with a step size that is too small
static void run(Out o, int kind, bool retry, bool late, int n, bool clone) {
  double rec[40] = {}; int nr = 0; calls = 0; const bool b = vg_bool(1), c = vg_bool(2); for (int& i : idid_) i = b ? 1 : 2; if (retry) idid_[0] = -3; if (late) { idid_[1] = c ? 1 : 2; }
  RadauSolver r; if (clone) { r.relative_tolerance = vg_pos(1); r.absolute_tolerance = vg_pos(2); r.initial_time_step_size = vg_pos(3); r.jacobian_threshhold = vg_pos(4); }
  double y[4]; for (int i = 0; i < n; ++i) y[i] = vg_in(10 + i); const double t0 = vg_in(20), dt = vg_pos(21); const OdeSolver* s = &r; std::unique_ptr<OdeSolver> p; if (clone) { p = s->Clone(); r.relative_tolerance = 1.0; s = p.get(); }
  auto f = [&](span<double> d, span<const double> z, double t) { for (int i = 0; i < n; ++i) d[i] = vg_uf3(60, i, z[0], t + z[n - 1] + d.size() + z.size()); };
  auto fb = [&](span<const double> z, double t) { rec[nr++] = t; for (int i = 0; i < n; ++i) rec[nr++] = z[i]; };
  auto jac = [&](span<double> J, span<const double> z, double t) { for (int i = 0; i < n * n; ++i) J[i] = vg_uf3(61, i, z[0], t + z[n - 1] + J.size() + z.size()); };
  if (kind == 0) s->Integrate(f, span<double>(y, n), t0, dt); else if (kind == 1) s->Integrate(f, span<double>(y, n), t0, dt, OdeSolver::feedback_type(fb)); else if (kind == 2) s->Integrate(f, span<double>(y, n), t0, dt, OdeSolver::jacobian_type(jac)); else s->Integrate(f, span<double>(y, n), t0, dt, OdeSolver::feedback_type(fb), OdeSolver::jacobian_type(jac));
  for (int i = 0; i < n; ++i) o.put(y[i]); o.put(nr); for (int i = 0; i < 40; ++i) o.put(rec[i]); o.put(calls); }
static void run_spec(Out o, int kind, bool retry, int n, bool clone) {
  double rec[40] = {}; int nr = 0; double y[4], z[4]; for (int i = 0; i < n; ++i) z[i] = y[i] = vg_in(10 + i); const double t0 = vg_in(20), dt = vg_pos(21);
  auto f = [&](double* d, const double* z, double t) { for (int i = 0; i < n; ++i) d[i] = vg_uf3(60, i, z[0], t + z[n - 1] + n + n); };
  auto fb = [&](const double* z, double t) { rec[nr++] = t; for (int i = 0; i < n; ++i) rec[nr++] = z[i]; };
  auto jac = [&](double* J, const double* z, double t) { for (int i = 0; i < n * n; ++i) J[i] = vg_uf3(61, i, z[0], t + z[n - 1] + n * n + n); };
  const double rt = clone ? vg_pos(1) : 1e-12, at = clone ? vg_pos(2) : 1e-13, hi = clone ? vg_pos(3) : 1e-6, th = clone ? vg_pos(4) : 0.01;
  spec(n, f, jac, fb, kind, t0, t0 + dt, y, hi, rt, at, th); int c = 1;
  if (retry) { const double tm = t0 + 0.5 * dt; spec(n, f, jac, fb, kind, t0, tm, z, hi, rt, at, th); spec(n, f, jac, fb, kind, tm, t0 + dt, z, hi, rt, at, th); for (int i = 0; i < n; ++i) y[i] = z[i]; c = 3; }
  for (int i = 0; i < n; ++i) o.put(y[i]); o.put(nr); for (int i = 0; i < 40; ++i) o.put(rec[i]); o.put(c); }
LAW(F04_integrate, run(o, 0, false, false, 2, false), run_spec(o, 0, false, 2, false)) LAW(F04_feedback, run(o, 1, false, false, 2, false), run_spec(o, 1, false, 2, false)) LAW(F04_jacobian, run(o, 2, false, false, 3, false), run_spec(o, 2, false, 3, false)) LAW(F04_both, run(o, 3, false, false, 2, false), run_spec(o, 3, false, 2, false)) LAW(F04_scalar, run(o, 3, false, false, 1, false), run_spec(o, 3, false, 1, false))
LAW(F04_clone, run(o, 0, false, false, 2, true), run_spec(o, 0, false, 2, true))
LAW(F04_retry, run(o, 0, true, false, 2, false), run_spec(o, 0, true, 2, false)) LAW(F04_retry_feedback, run(o, 1, true, true, 2, false), run_spec(o, 1, true, 2, false)) LAW(F04_retry_jacobian, run(o, 3, true, true, 2, true), run_spec(o, 3, true, 2, true))
// returns only in case of success
static int code(int k) { return vg_bool(k) ? (vg_bool(k + 1) ? 1 : 2) : vg_bool(k + 2) ? (vg_bool(k + 3) ? -1 : -2) : vg_bool(k + 4) ? -4 : vg_bool(k + 5) ? -42 : vg_bool(k + 6) ? 0 : 3; }
static void codes(bool retry) { if (retry) { idid_[0] = -3; idid_[1] = vg_bool(1) ? -3 : code(10); idid_[2] = vg_bool(2) ? -3 : code(20); } else idid_[0] = code(10); }
static void fail(Out o, bool retry) { calls = 0; codes(retry); RadauSolver r; const OdeSolver& s = r; double y[1] = {vg_in(10)}; auto f = [&](span<double> d, span<const double> z, double t) { d[0] = z[0] * t; }; s.Integrate(f, span<double>(y, 1), vg_in(20), vg_pos(21)); o.put(calls); }
static void fail_spec(Out o, bool retry) { codes(retry); if (retry ? idid_[1] <= 0 || idid_[2] <= 0 : idid_[0] != 1 && idid_[0] != 2) throw std::runtime_error("no result"); o.put(retry ? 3 : 1); }
LAW(F04_failure, fail(o, false), fail_spec(o, false)) LAW(F04_failure_retry, fail(o, true), fail_spec(o, true))
