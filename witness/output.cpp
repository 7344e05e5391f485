// DEFS: -Iwitness/mock
#include "history.hpp"
#include <fmt/format.h>
#include "fub/core/type_traits.hpp"
#include "fub/output/OutputAtFrequencyOrInterval.hpp"
#include "fub/output/AsOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include <limits>
struct Grid { double t; std::ptrdiff_t c; Duration GetTimePoint() const { return Duration(t); } std::ptrdiff_t GetCycles() const { return c; } };
using Freqs = std::vector<std::ptrdiff_t>; using Ivals = std::vector<Duration>;
using Out1 = OutputAtFrequencyOrInterval<Grid>;
struct Sched : Out1 { using Out1::Out1; int id = 0; void operator()(const Grid& g) override { H->op(kOutput, id, g.t, double(g.c)); } };
inline double iv(int i) { return vg_in(20 + i); }
template <int N> Ivals ivals() { Ivals v; for (int i = 0; i < N; ++i) v.push_back(Duration(iv(i))); return v; }
constexpr double eps() { return 1e-12; }
// the next multiple of an interval, and a little more
inline double next_spec(int n, double t, double e) { double r = std::numeric_limits<double>::max(); for (int i = 0; i < n; ++i) if (iv(i) > 0.0) r = std::min(r, t + (iv(i) - std::fmod(t, iv(i)) + e)); return r; }
inline bool due(int n, double t, double e) { bool r = t == 0.0; for (int i = 0; i < n; ++i) r = r || std::abs(std::fmod(t, iv(i))) < 2 * e; return r; }
template <int N> void next(Out& o, bool defaulted) { Sched s = defaulted ? Sched(Freqs{}, ivals<N>()) : Sched(Freqs{}, ivals<N>(), Duration(vg_pos(9))); o.put(s.NextOutputTime(Duration(vg_in(1))).count()); }
template <int N> void now(Out& o) { Sched s(Freqs{}, ivals<N>(), Duration(vg_pos(9))); Grid g{vg_in(1), 5}; o.put(s.ShallOutputNow(g)); }
LAW2(S07_next_0, next<0>(o, true), o.put(next_spec(0, vg_in(1), eps())))
LAW2(S07_next_1, next<1>(o, true), o.put(next_spec(1, vg_in(1), eps())))
LAW2(S07_next_2, next<2>(o, false), o.put(next_spec(2, vg_in(1), vg_pos(9))))
LAW2(S07_next_3, next<3>(o, false), o.put(next_spec(3, vg_in(1), vg_pos(9))))
LAW2(S07_now_0, now<0>(o), o.put(due(0, vg_in(1), vg_pos(9))))
LAW2(S07_now_1, now<1>(o), o.put(due(1, vg_in(1), vg_pos(9))))
LAW2(S07_now_2, now<2>(o), o.put(due(2, vg_in(1), vg_pos(9))))
LAW2(S07_now_3, now<3>(o), o.put(due(3, vg_in(1), vg_pos(9))))
// frequencies: due exactly at the multiples
template <std::size_t N> void freq(Out& o, const std::array<int, N>& f) { Freqs v; for (int x : f) v.push_back(x); Sched s(v, Ivals{}); for (int c = 0; c < 26; ++c) { Grid g{vg_pos(1), c}; o.put(s.ShallOutputNow(g)); } }
template <std::size_t N> void freq_spec(Out& o, const std::array<int, N>& f) { for (int c = 0; c < 26; ++c) { bool r = false; for (int x : f) for (int m = 0; x > 0 && m * x <= c; ++m) r = r || m * x == c; o.put(r); } }
template <std::size_t N> using Is = std::array<int, N>;
LAW2(S07_freq_none, freq(o, Is<0>{}), freq_spec(o, Is<0>{}))
LAW2(S07_freq_1, freq(o, Is<1>{{1}}), freq_spec(o, Is<1>{{1}}))
LAW2(S07_freq_7, freq(o, Is<1>{{7}}), freq_spec(o, Is<1>{{7}}))
LAW2(S07_freq_zero, freq(o, Is<2>{{0, 5}}), freq_spec(o, Is<2>{{0, 5}}))
LAW2(S07_freq_4_6, freq(o, Is<2>{{4, 6}}), freq_spec(o, Is<2>{{4, 6}}))
template <std::size_t N> void mixed(Out& o, int f, int c) { Sched s(Freqs{f}, ivals<N>(), Duration(vg_pos(9))); Grid g{vg_in(1), c}; o.put(s.ShallOutputNow(g)); }
LAW2(S07_mixed_hit, mixed<2>(o, 4, 8), o.put(1.0))
LAW2(S07_mixed_miss, mixed<2>(o, 4, 9), o.put(due(2, vg_in(1), vg_pos(9))))
// several outputs: the earliest time, any of them, and only those that are due
struct Unknown : BasicOutput<Grid> { int id; explicit Unknown(int i) : id(i) {} Duration NextOutputTime(Duration t) override { return Duration(vg_uf2(kOutput, t.count(), id)); } bool ShallOutputNow(const Grid& g) override { return vg_ufb2(kOutput + 100 * id, g.t, double(g.c)); } void operator()(const Grid& g) override { H->op(kOutput, id, g.t, double(g.c)); } };
template <int N> struct Many { MultipleOutputs<Grid> m; Many() { for (int i = 1; i <= N; ++i) m.AddOutput(std::make_unique<Unknown>(i)); } };
template <int N> void many(Out& o) { Many<N> x; Grid g{vg_in(1), 3}; o.put(x.m.NextOutputTime(Duration(vg_in(1))).count()); o.put(x.m.ShallOutputNow(g)); x.m(g); o.put(H->h); }
inline void many_spec(Out& o, int n) { double r = std::numeric_limits<double>::max(); bool any = false; for (int i = 1; i <= n; ++i) { r = std::min(r, vg_uf2(kOutput, vg_in(1), i)); any = any || vg_ufb2(kOutput + 100 * i, vg_in(1), 3.0); } o.put(r); o.put(any); for (int i = 1; i <= n; ++i) if (vg_ufb2(kOutput + 100 * i, vg_in(1), 3.0)) H->op(kOutput, i, vg_in(1), 3.0); o.put(H->h); }
LAW2(S07_many_0, many<0>(o), many_spec(o, 0))
LAW2(S07_many_1, many<1>(o), many_spec(o, 1))
LAW2(S07_many_2, many<2>(o), many_spec(o, 2))
LAW2(S07_many_3, many<3>(o), many_spec(o, 3))
struct Call { void operator()(const Grid& g) const { H->op(kOutput, 77, g.t, double(g.c)); } };
inline void as_output(Out& o) { AsOutput<Grid, Call> a(Freqs{3}, Ivals{}, Call{}); Grid g{vg_in(1), 3}; a(g); o.put(H->h); o.put(a.ShallOutputNow(g)); }
inline void any_output(Out& o) { AnyOutput<Grid> a(Freqs{3}, Ivals{}, Call{}); Grid g{vg_in(1), 6}; a(g); o.put(H->h); o.put(a.ShallOutputNow(g)); }
inline void one_call(Out& o, double c) { H->op(kOutput, 77, vg_in(1), c); o.put(H->h); o.put(1.0); }
LAW2(S07_as_output, as_output(o), one_call(o, 3))
LAW2(S07_any_output, any_output(o), one_call(o, 6))
