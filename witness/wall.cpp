// SOURCES: src/equations/PerfectGas.cpp src/boundary_condition/ReflectiveBoundary.cpp
// SOURCES: src/equations/perfect_gas/EinfeldtSignalVelocities_1d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_2d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_3d.cpp
// SOURCES: src/equations/perfect_gas/HllemMethod_1d.cpp src/equations/perfect_gas/HllemMethod_2d.cpp src/equations/perfect_gas/HllemMethod_3d.cpp
// Solid walls: ghost cells and fluxes
#include "patch.hpp"
#include "pg.hpp"
#include "fub/flux_method/FluxMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
// --- index arithmetic, all integers
template <int R> Index<R> ix(int b) { Index<R> i; for (int k = 0; k < R; ++k) i[k] = vg_long(b + k); return i; }
template <int R> IndexBox<R> bx(int b) { return {ix<R>(b), ix<R>(b + 10)}; }
template <int R> void puti(Out o, const Index<R>& b) { for (int k = 0; k < R; ++k) o.put(double(b[k])); }
template <int R> Index<R> mirror(Index<R> i, const IndexBox<R>& b, int d, int side) { i[d] = (side == 0 ? 2 * b.upper[d] : 2 * b.lower[d]) - 1 - i[d]; return i; }
#define MIRROR(R, d, s)                                                        \
  LAW(H01_index_##R##_##d##_##s, puti<R>(o, ReflectIndex(ix<R>(100), bx<R>(200), Direction(d), s)), puti<R>(o, mirror<R>(ix<R>(100), bx<R>(200), d, s))) \
  LAW(H01_index_twice_##R##_##d##_##s, puti<R>(o, ReflectIndex(ReflectIndex(ix<R>(100), bx<R>(200), Direction(d), s), bx<R>(200), Direction(d), s)), puti<R>(o, ix<R>(100)))
#define MIRROR2(R, d) MIRROR(R, d, 0) MIRROR(R, d, 1)
MIRROR2(1, 0) MIRROR2(2, 0) MIRROR2(2, 1) MIRROR2(3, 0) MIRROR2(3, 1) MIRROR2(3, 2)
// --- ghost cells
template <int R, int D, int S, int G> struct Fill {
  using E = PerfectGas<R>;
  static constexpr int N = 2 * G + 1; // ghost cells, mirror cells, and one more
  using P = w::Patch<Complete<E>, (D == 0 ? N : 2), (D == 1 ? N : 3), (D == 2 ? N : 2)>;
  static Index<R> lo() { Index<R> i; const int s[2][3] = {{-4, 3, 7}, {2, -5, -1}}; for (int k = 0; k < R; ++k) i[k] = s[S & 1][k]; return i; }
  static IndexBox<R> ghosts(const P& p) { auto b = p.box(); if (S == 0) b.upper[D] = b.lower[D] + G; else b.lower[D] = b.upper[D] - G; return b; }
  static void code(Out o) { P p(1000, lo()); ReflectiveBoundary<E> b(Gas<R>()); b.FillBoundary(w::strided(p.view()), ghosts(p), Direction(D), S); p.put(o); }
  // what the boundary condition has filled before leaves no trace
  static void again(Out o) { ReflectiveBoundary<E> b(Gas<R>()); { P p(300000, lo()); b.FillBoundary(w::strided(p.view()), ghosts(p), Direction(D), S); } P p(1000, lo()); b.FillBoundary(w::strided(p.view()), ghosts(p), Direction(D), S); p.put(o); }
  static void spec(Out o) { P p(1000, lo()); const auto g = ghosts(p); w::cells(g, [&](Index<R> i) { auto j = i; j[D] = S == 0 ? 2 * g.upper[D] - 1 - i[D] : 2 * g.lower[D] - 1 - i[D]; auto q = p.load(j); q.momentum[D] = -q.momentum[D]; p.store(i, q); }); p.put(o); }
};
#define FILL(R, D, S, G) LAW(H01_fill_##R##d_##D##_##S##_g##G, (Fill<R, D, S, G>::code(o)), (Fill<R, D, S, G>::spec(o)))
#define FILL4(R, D) FILL(R, D, 0, 1) FILL(R, D, 1, 1) FILL(R, D, 0, 3) FILL(R, D, 1, 3) FILL(R, D, 0, 2) FILL(R, D, 1, 2)
#define RAGAIN(R, D, S) LAW(R08_mirror_##R##d_##D##_##S, (Fill<R, D, S, 2>::again(o)), (Fill<R, D, S, 2>::code(o)))
RAGAIN(1, 0, 0) RAGAIN(2, 1, 1) RAGAIN(3, 2, 0)
FILL4(1, 0) FILL4(2, 0) FILL4(2, 1) FILL4(3, 0) FILL4(3, 1) FILL4(3, 2)
// --- nothing passes the wall
template <int R> struct Hllem0 { static auto method(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, false>(e); } };
template <int R> struct HllemL { static auto method(const PerfectGas<R>& e) { return perfect_gas::Hllem<PerfectGas<R>, true>(e); } };
template <int R> struct Hll_ { static auto method(const PerfectGas<R>& e) { return fub::Hll<PerfectGas<R>, EinfeldtSignalVelocities<PerfectGas<R>>>(e); } };
template <template <int> class M, int R> void flux(Out o, int d, int side) {
  auto e = Gas<R>(); auto m = M<R>::method(e);
  std::array<Complete<PerfectGas<R>>, 2> st{Eos<R>(e, 0), Eos<R>(e, 0)};
  auto unit = UnitVector<R>(Direction(d)); Complete<PerfectGas<R>> q(st[side]);
  Reflect(st[side], q, Eigen::Matrix<double, R, 1>(unit), e);
  Conservative<PerfectGas<R>> f(e); m.ComputeNumericFlux(f, st, Duration(vg_pos(80)), vg_pos(81), Direction(d));
  o.put(f.density); o.put(f.energy); for (int k = 0; k < R; ++k) if (k != d) o.put(f.momentum[k]);
}
template <int R> void nothing(Out o) { for (int k = 0; k < R + 1; ++k) o.put(0.0); }
#define WALL(M, R, d) \
  LAW(H01_##M##_##R##d_##d##_lower, (flux<M, R>(o, d, 0)), nothing<R>(o)) LAW(H01_##M##_##R##d_##d##_upper, (flux<M, R>(o, d, 1)), nothing<R>(o))
#define WALLS(M) WALL(M, 1, 0) WALL(M, 2, 0) WALL(M, 2, 1) WALL(M, 3, 0) WALL(M, 3, 1) WALL(M, 3, 2)
WALLS(Hllem0) WALLS(HllemL) WALLS(Hll_)
