// SOURCES: src/counter/Counter.cpp src/counter/CounterRegistry.cpp src/counter/Timer.cpp
// Counters, timers and their statistics over all processes
#include "history.hpp"
#include "fub/counter/Counter.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include "fub/counter/Timer.hpp"
inline double num(long long x) { return double(x); }
// ------------------------------------------------- V02: one process, counters
inline long val(int i) { return vg_long(100 + i); }
inline long lower(long a, long b) { return b < a ? b : a; }
inline long upper(long a, long b) { return a < b ? b : a; }
template <int N> Counter counter() { Counter c("c"); for (int i = 0; i < N; ++i) c.add(val(i)); return c; }
struct Stat { double n, sum, min, max, mean, var; };
template <int N> Stat stat() { Stat s{double(N), 0, 0, 0, 0, 0}; if (N == 0) return s; long lo = val(0), hi = val(0), sum = 0; for (int i = 0; i < N; ++i) { sum += val(i); lo = lower(lo, val(i)); hi = upper(hi, val(i)); } s.sum = num(sum); s.min = num(lo); s.max = num(hi); s.mean = num(sum) / N; for (int i = 0; i < N; ++i) s.var += (num(val(i)) - s.mean) * (num(val(i)) - s.mean); s.var /= N; return s; }
inline void put(Out& o, const Counter& c) { o.put(double(c.get_count())); o.put(num(c.get_value())); o.put(num(c.get_min())); o.put(num(c.get_max())); o.put(c.get_mean()); o.put(c.get_variance()); o.put(c.get_stddev()); }
inline void put(Out& o, const Stat& s) { o.put(s.n); o.put(s.sum); o.put(s.min); o.put(s.max); o.put(s.mean); o.put(s.var); o.put(std::sqrt(s.var)); }
#define COUNT(N) LAW(V02_counter_##N, put(o, counter<N>()), put(o, stat<N>()))
COUNT(0) COUNT(1) COUNT(2) COUNT(3) COUNT(5)
LAW(V02_counter_reset, auto c = counter<3>(); c.reset(); put(o, c); c.add(val(0)); c.add(val(1)); put(o, c), put(o, stat<0>()); put(o, stat<2>()))
// ------------------------------------------------------------- V03: timers
inline long Now;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(Now)); } } } }
// hashing and growing of the container behind the registry
namespace std { size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; ++i) h = 31 * h + static_cast<const unsigned char*>(p)[i]; return h; }
namespace __detail { std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; } } }
inline long at(int i) { return vg_long(200 + i); }
inline void values(Out& o, const Counter& c) { o.put(double(c.get_count())); o.put(num(c.get_value())); }
LAW(V03_scope, Counter c("a"); { Now = at(0); Timer t(c); Now = at(1); } Now = at(2); values(o, c), o.put(1.0); o.put(num(at(1) - at(0))))
LAW(V03_twice, Counter c("a"); { Now = at(0); Timer t(c); Now = at(1); } { Now = at(2); Timer t(c); Now = at(3); } values(o, c), o.put(2.0); o.put(num(at(1) - at(0) + (at(3) - at(2)))))
LAW(V03_nested, Counter a("a"); Counter b("b"); { Now = at(0); Timer t(a); Now = at(1); { Timer s(b); Now = at(2); } Now = at(3); } values(o, a); values(o, b), o.put(1.0); o.put(num(at(3) - at(0))); o.put(1.0); o.put(num(at(2) - at(1))))
LAW(V03_running, Counter c("a"); Now = at(0); Timer t(c); Now = at(1); values(o, c); o.put(&t.get_name() == &c.get_name() ? 1.0 : 0.0), o.put(0.0); o.put(0.0); o.put(1.0))
LAW(V03_move, Counter c("a"); { Now = at(0); Timer t(c); Now = at(1); { Timer s(std::move(t)); Now = at(2); } Now = at(3); } values(o, c), o.put(1.0); o.put(num(at(2) - at(0))))
LAW(V03_empty, Counter c("a"); { Timer t; Timer s(std::move(t)); t = std::move(s); } values(o, c), o.put(0.0); o.put(0.0))
LAW(V03_assign, Counter c("a"); { Timer s; Now = at(0); { Timer t(c); Now = at(1); s = std::move(t); Now = at(2); } Now = at(3); } values(o, c), o.put(1.0); o.put(num(at(3) - at(0))))
LAW(V03_replace, Counter a("a"); Counter b("b"); { Now = at(0); Timer s(a); Now = at(1); s = Timer(b); Now = at(2); values(o, a); } values(o, a); values(o, b), o.put(1.0); o.put(num(at(1) - at(0))); o.put(1.0); o.put(num(at(1) - at(0))); o.put(1.0); o.put(num(at(2) - at(1))))
LAW(V03_stop, Counter a("a"); { Now = at(0); Timer s(a); Now = at(1); s = Timer(); Now = at(2); } values(o, a), o.put(1.0); o.put(num(at(1) - at(0))))
LAW(V03_self, Counter a("a"); { Now = at(0); Timer s(a); Now = at(1); Timer& r = s; s = std::move(r); Now = at(2); } values(o, a), o.put(1.0); o.put(num(at(2) - at(0))))
inline void registry(Out& o) { CounterRegistry r; { Now = at(0); Timer t = r.get_timer("one"); Now = at(1); Timer s = r.get_timer("two"); Now = at(2); } { Now = at(3); Timer t = r.get_timer("one"); Now = at(4); } values(o, *r.get("one")); values(o, *r.get("two")); values(o, *r.get("three")); o.put(r.get("one") == r.get("one") ? 1.0 : 0.0); o.put(r.get("one") == r.get("two") ? 1.0 : 0.0); }
inline void registry_spec(Out& o) { o.put(2.0); o.put(num(at(2) - at(0) + (at(4) - at(3)))); o.put(1.0); o.put(num(at(2) - at(1))); o.put(0.0); o.put(0.0); o.put(1.0); o.put(0.0); }
LAW(V03_registry, registry(o), registry_spec(o))
// -------------------------------------------------- V04: over all processes
inline int Ranks, Rank_;
extern "C" int MPI_Comm_size(MPI_Comm c, int* n) { *n = c == MPI_COMM_WORLD ? Ranks : 0; return 0; }
extern "C" int MPI_Comm_rank(MPI_Comm c, int* n) { *n = c == MPI_COMM_WORLD ? Rank_ : 0; return 0; }
inline long other(int call, int r) { return vg_long(300 + 10 * call + r); }
inline double otherf(int call, int r) { return vg_in(300 + 10 * call + r); }
inline int Call;
extern "C" int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, int root, MPI_Comm c) {
  const bool integer = t == MPI_LONG_LONG; const int k = Call++; H->op(100, n == 1 && m == 1 && c == MPI_COMM_WORLD && u == t, integer ? 1.0 : t == MPI_DOUBLE ? 2.0 : 3.0, root, integer ? num(*static_cast<const long long*>(s)) : *static_cast<const double*>(s));
  if (Rank_ == root) for (int i = 0; i < Ranks; ++i) { if (integer) static_cast<long long*>(r)[i] = i == Rank_ ? *static_cast<const long long*>(s) : other(k, i); else static_cast<double*>(r)[i] = i == Rank_ ? *static_cast<const double*>(s) : otherf(k, i); }
  return 0; }
template <int N> void gather(Out& o, int ranks, int rank, int root) { Ranks = ranks; Rank_ = rank; Call = 0; auto r = counter<N>().gather_statistics(MPI_COMM_WORLD, root); o.put(r ? 1.0 : 0.0); o.put(r ? double(r->count) : 0.0); o.put(r ? num(r->min) : 0.0); o.put(r ? num(r->max) : 0.0); o.put(r ? r->mean : 0.0); o.put(r ? r->variance : 0.0); o.put(r ? r->stddev : 0.0); o.put(H->h); }
template <int N> void gather_spec(Out& o, int ranks, int rank, int root) {
  const Stat s = stat<N>(); H->op(100, 1, 1, root, s.min); H->op(100, 1, 1, root, s.max); H->op(100, 1, 2, root, s.mean);
  if (rank != root) { for (int i = 0; i < 7; ++i) o.put(0.0); o.put(H->h); return; }
  const Stat me = stat<N>(); auto lo = [&](int i) { long x = 0; if (N) { x = val(0); for (int j = 0; j < N; ++j) x = lower(x, val(j)); } return i == rank ? x : other(0, i); };
  auto hi = [&](int i) { long x = 0; if (N) { x = val(0); for (int j = 0; j < N; ++j) x = upper(x, val(j)); } return i == rank ? x : other(1, i); };
  auto mean = [&](int i) { return i == rank ? me.mean : otherf(2, i); };
  long a = lo(0), b = hi(0); double m = 0, v = 0; for (int i = 0; i < ranks; ++i) { a = lower(a, lo(i)); b = upper(b, hi(i)); m += mean(i); } m /= ranks; for (int i = 0; i < ranks; ++i) v += (mean(i) - m) * (mean(i) - m); v /= ranks;
  o.put(1.0); o.put(N); o.put(num(a)); o.put(num(b)); o.put(m); o.put(v); o.put(std::sqrt(v)); o.put(H->h); }
#define GATHER(N, S, K, ROOT) LAW2(V04_gather_##N##_##S##_##K##_##ROOT, gather<N>(o, S, K, ROOT), gather_spec<N>(o, S, K, ROOT))
GATHER(2, 1, 0, 0) GATHER(2, 3, 0, 0) GATHER(2, 3, 1, 0) GATHER(2, 3, 2, 2) GATHER(3, 2, 1, 1) GATHER(0, 3, 0, 0) GATHER(0, 3, 2, 0) GATHER(1, 4, 3, 1)
