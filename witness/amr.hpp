// The AMReX back end over a stand-in of AMReX (witness/mockamrex): grids of
// several boxes with ghost cells and symbolic contents
#ifndef VERIF_AMR_HPP
#define VERIF_AMR_HPP
#include "patch.hpp"
#include <AMReX_MultiFab.H>
namespace am {
using ::amrex::Box; using ::amrex::IntVect; using ::amrex::MultiFab; using ::amrex::FArrayBox; using ::amrex::Geometry;
constexpr int D = AMREX_SPACEDIM;
inline IntVect iv(int a, int b = 0, int c = 0) { const int x[3] = {a, b, c}; IntVect r; for (int d = 0; d < D; ++d) r[d] = x[d]; return r; }
inline Box bx(IntVect lo, IntVect n) { return Box(lo, lo + n - IntVect(1)); }
template <class F> void cells(const Box& b, F f) { if (!b.ok()) return; IntVect i = b.lo; for (;;) { f(i); int d = 0; while (d < D && ++i[d] > b.hi[d]) { i[d] = b.lo[d]; ++d; } if (d == D) return; } }
template <class M> void fill(M& m, int base) { int k = 0; for (auto& f : m.fabs) { for (auto& x : f.data) x = base ? vg_in(base + k) : 0.0, ++k; } }
template <class M> M make(const ::amrex::Seq<Box>& b, int nc, int ng, int base) { M m(b, nc, IntVect(ng)); fill(m, base); return m; }
template <class M> void put(Out& o, const M& m) { for (auto& f : m.fabs) for (double x : f.data) o.put(x); }
inline ::amrex::Seq<Box> faces(const ::amrex::Seq<Box>& b, int d) { ::amrex::Seq<Box> r; for (auto& x : b) r.push_back(::amrex::surroundingNodes(x, d)); return r; }
inline IntVect next(IntVect i, int d, int n = 1) { i[d] += n; return i; }
} // namespace am
#endif
