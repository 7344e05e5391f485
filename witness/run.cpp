// DEFS: -Iwitness/mock
#include "history.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/output/OutputAtFrequencyOrInterval.hpp"
#include <limits>
namespace fub { std::string FormatTimeStepLine(std::ptrdiff_t, std::chrono::duration<double>, std::chrono::duration<double>, std::chrono::duration<double>, std::chrono::steady_clock::duration, std::chrono::steady_clock::duration) { return {}; } }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return {}; }
/// A solver whose whole state is one value.  Advancing it yields a new value
/// or fails and leaves garbage behind.
struct Grid { double s = vg_in(1); double t = vg_in(2); int c = 0; Duration GetTimePoint() const { return Duration(t); } std::ptrdiff_t GetCycles() const { return c; } };
struct Solver {
  Grid g;
  Grid* GetGriddingAlgorithm() { return &g; }
  const Grid* GetGriddingAlgorithm() const { return &g; }
  Duration GetTimePoint() const { return g.GetTimePoint(); }
  std::ptrdiff_t GetCycles() const { return g.GetCycles(); }
  CounterRegistry* GetCounterRegistry() const { static CounterRegistry c; return &c; }
  void PreAdvanceHierarchy() { g.s = vg_uf1(kPreHierarchy, g.s); }
  void PostAdvanceHierarchy(Duration dt) { g.s = vg_uf2(kPostHierarchy, g.s, dt.count()); }
  Duration ComputeStableDt() { return Duration(vg_uf1(kStableDt, g.s)); }
  R AdvanceHierarchy(Duration dt) {
    const double s = g.s;
    g.s = vg_uf2(kSplit, s, dt.count());
    if (vg_ufb2(kFails, s, dt.count())) return TimeStepTooLarge{Duration(vg_uf2(kErrorDt, s, dt.count())), 0};
    g.t += dt.count(); g.c += 1;
    return boost::outcome_v2::success();
  }
};
struct Outputs : BasicOutput<Grid> {
  Duration NextOutputTime(Duration t) override { return Duration(vg_uf1(kOutput, t.count())); }
  bool ShallOutputNow(const Grid& g) override { return vg_ufb2(kOutput, g.t, double(g.c)); }
  void operator()(const Grid& g) override { H->op(kOutput, g.s, g.t, double(g.c)); }
};
inline RunOptions options(int cycles, int backup) { RunOptions o; o.final_time = Duration(vg_in(10)); o.smallest_time_step_size = Duration(vg_pos(11)); o.cfl = vg_pos(12); o.max_cycles = cycles; o.do_backup = backup; return o; }
template <class S> void run(Out& o, int cycles, int backup) { vg_loop_bound(6); Solver s; Outputs out; RunSimulation(s, options(cycles, backup), {}, out); o.put(s.g.s); o.put(s.g.t); o.put(s.g.c); o.put(H->h); }
/// The documented time loop.
inline void spec(Out& o, int cycles, int backup, int attempts) {
  Solver s; Outputs out; const RunOptions op = options(cycles, backup);
  const double end = op.final_time.count(), eps = op.smallest_time_step_size.count();
  Solver saved = s; bool retry = false; double estimate = 0; bool stop = false;
  auto more = [&] { return s.g.t + eps < end && (cycles < 0 || s.g.c < cycles); };
  for (int n = 0; n < attempts && !stop && more(); ++n) {
    const double next = out.NextOutputTime(s.GetTimePoint()).count();
    const double t = s.g.t;
    s.PreAdvanceHierarchy();
    const double dt0 = op.cfl * (retry ? estimate : s.ComputeStableDt().count());
    const double dt = std::min({end - t, next - t, dt0});
    auto r = s.AdvanceHierarchy(Duration(dt));
    if (!r) { if (!backup) { stop = true; break; } retry = true; estimate = r.error().dt.count(); s = saved; }
    else { s.PostAdvanceHierarchy(Duration(dt)); retry = false; saved = s;
      // an output of every accepted state that is an output time or the last one
      if (!more() || out.ShallOutputNow(s.g)) out(s.g); }
  }
  o.put(s.g.s); o.put(s.g.t); o.put(s.g.c); o.put(H->h);
}
LAW2(S06_one_cycle_backup, run<Solver>(o, 1, 1), spec(o, 1, 1, 16))
LAW2(S06_two_cycles_no_backup, run<Solver>(o, 2, 0), spec(o, 2, 0, 16))
LAW2(S06_unlimited_backup, run<Solver>(o, -1, 1), spec(o, -1, 1, 16))
LAW2(S06_unlimited_no_backup, run<Solver>(o, -1, 0), spec(o, -1, 0, 16))
