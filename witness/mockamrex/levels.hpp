// The parts of AMReX that connect refinement levels, from its documented contract:
// flux registers, averaging down, filling ghost cells from one or two levels.
#ifndef VERIF_MOCK_AMREX_LEVELS
#define VERIF_MOCK_AMREX_LEVELS
#include "standin.hpp"
namespace amrex {
template <class F> void each(const Box& b, F f) { if (!b.ok()) return; IntVect i = b.lo; for (;;) { f(i); int d = 0; while (d < D && ++i[d] > b.hi[d]) { i[d] = b.lo[d]; ++d; } if (d == D) return; } }
inline int down(int i, int r) { return i < 0 ? -((-i + r - 1) / r) : i / r; }
inline IntVect coarsen(IntVect i, const IntVect& r) { for (int d = 0; d < D; ++d) i[d] = down(i[d], r[d]); return i; }
inline Box coarsen(const Box& b, const IntVect& r) { return Box(coarsen(b.lo, r), coarsen(b.hi, r)); }
inline IntVect plus(IntVect i, int d, int n) { i[d] += n; return i; }
/// fluxes through the boundary of a refined level, kept at the faces of the coarser level
struct FluxRegister {
  enum FrOp { COPY = 0, ADD = 1 };
  Seq<Box> boxes; IntVect ratio{0}; int level = -1, nc = 0;
  struct Side { int dir, hi; Box cells; BaseFab<double> f; };  ///< cells: the coarse cells outside
  Seq<Side> sides;
  void clear() { boxes.clear(); sides.clear(); level = -1; nc = 0; }
  void define(const BoxArray& ba, const DistributionMapping&, const IntVect& r, int l, int n) {
    boxes = ba.boxes; ratio = r; level = l; nc = n; sides.clear();
    for (const Box& x : ba.boxes) { const Box c = coarsen(x, r); for (int d = 0; d < D; ++d) for (int h = 0; h < 2; ++h) { Box o = c; o.lo[d] = o.hi[d] = h ? c.hi[d] + 1 : c.lo[d] - 1; Side s{d, h, o, {}}; s.f.resize(o, n); for (double& v : s.f.data) v = 0.0; sides.push_back(s); } }
  }
  int fineLevel() const { return level; } int nComp() const { return nc; } const IntVect& refRatio() const { return ratio; }
  void setVal(double v) { for (Side& s : sides) for (double& x : s.f.data) x = v; }
  void ClearInternalBorders(const Geometry&) { for (Side& s : sides) each(s.cells, [&](IntVect i) { if (covered(i)) for (int c = 0; c < nc; ++c) s.f(i, c) = 0.0; }); }
  bool covered(const IntVect& i) const { for (const Box& b : boxes) if (coarsen(b, ratio).contains(i)) return true; return false; }
  /// the face of the outer cell i at the refined level
  static IntVect face(const Side& s, const IntVect& i) { return s.hi ? i : plus(i, s.dir, 1); }
  void CrseInit(const FabArray<FArrayBox>& m, int dir, int sc, int dc, int n, double mult, FrOp op = COPY) {
    for (Side& s : sides) if (s.dir == dir) each(s.cells, [&](IntVect i) { const IntVect x = face(s, i); for (int k = 0; k < m.boxes.size(); ++k) if (m.boxes[k].contains(x)) { for (int c = 0; c < n; ++c) { const double v = mult * m.fabs[k](x, sc + c); if (op == ADD) s.f(i, dc + c) += v; else s.f(i, dc + c) = v; } return; } });
  }
  void FineAdd(const FabArray<FArrayBox>& m, int dir, int sc, int dc, int n, double mult) {
    for (int q = 0; q < sides.size(); ++q) { Side& s = sides[q]; if (s.dir != dir) continue; const FArrayBox& f = m.fabs[q / (2 * D)];
      each(s.cells, [&](IntVect i) { Box fine; const IntVect x = face(s, i); for (int d = 0; d < D; ++d) { fine.lo[d] = x[d] * ratio[d]; fine.hi[d] = d == dir ? fine.lo[d] : fine.lo[d] + ratio[d] - 1; } each(fine, [&](IntVect y) { for (int c = 0; c < n; ++c) s.f(i, dc + c) += mult * f(y, sc + c); }); }); }
  }
  void Reflux(FabArray<FArrayBox>& m, int dir, double scale, int sc, int dc, int n, const Geometry& g) {
    double vol = 1.0; for (int d = 0; d < D; ++d) vol *= g.CellSize(d);
    for (Side& s : sides) if (s.dir == dir) each(s.cells, [&](IntVect i) { for (int k = 0; k < m.boxes.size(); ++k) if (m.boxes[k].contains(i)) for (int c = 0; c < n; ++c) m.fabs[k](i, dc + c) += (s.hi ? scale : -scale) * s.f(i, sc + c) / vol; });
  }
};
/// replaces coarse cells by the mean of the refined cells that cover them
inline void average_down(const MultiFab& fine, MultiFab& crse, const Geometry&, const Geometry&, int first, int n, const IntVect& r) {
  for (int k = 0; k < crse.boxes.size(); ++k) each(crse.boxes[k], [&](IntVect i) { for (int q = 0; q < fine.boxes.size(); ++q) if (coarsen(fine.boxes[q], r).contains(i)) { Box b; int cells = 1; for (int d = 0; d < D; ++d) { b.lo[d] = i[d] * r[d]; b.hi[d] = b.lo[d] + r[d] - 1; cells *= r[d]; } for (int c = first; c < first + n; ++c) { double s = 0.0; each(b, [&](IntVect y) { s += fine.fabs[q](y, c); }); crse.fabs[k](i, c) = s / cells; } } });
}
struct BCRec {}; template <class T> struct Vector : Seq<T> { using Seq<T>::Seq; explicit Vector(std::size_t n) { this->make(int(n)); } };
struct Interpolater {}; struct PCInterp : Interpolater {}; inline PCInterp pc_interp;
inline bool valid(const Seq<Box>& s, const IntVect& i) { for (const Box& b : s) if (b.contains(i)) return true; return false; }
/// every cell of the domain that belongs to a patch of the source, then the physical boundary
template <class BC> void FillPatchSingleLevel(MultiFab& m, double time, const Vector<MultiFab*>& s, const Vector<double>& t, int sc, int dc, int n, const Geometry&, BC& bc, int b) {
  if (t[0] != time) return;
  const MultiFab& src = *s[0];
  for (int k = 0; k < m.fabs.size(); ++k) each(m.fabs[k].b, [&](IntVect i) { for (int q = 0; q < src.boxes.size(); ++q) if (src.boxes[q].contains(i)) for (int c = 0; c < n; ++c) m.fabs[k](i, dc + c) = src.fabs[q](i, sc + c); });
  bc(m, dc, n, m.ng, time, b);
}
/// the same; cells of the domain outside of all fine patches get the value of the coarse cell
template <class CB, class FB> void FillPatchTwoLevels(MultiFab& m, double time, const Vector<MultiFab*>& cs, const Vector<double>&, const Vector<MultiFab*>& fs, const Vector<double>& ft, int sc, int dc, int n, const Geometry&, const Geometry& fg, CB& cb, int, FB& fb, int b, const IntVect& r, Interpolater*, const Vector<BCRec>&, int) {
  if (ft[0] != time) return;
  MultiFab& crse = *cs[0]; cb(crse, sc, n, crse.ng, time, b);
  for (int k = 0; k < m.fabs.size(); ++k) each(m.fabs[k].b, [&](IntVect i) { if (!fg.Domain().contains(i)) return; if (valid(m.boxes, i)) return; const IntVect x = coarsen(i, r); for (int q = 0; q < crse.boxes.size(); ++q) if (crse.boxes[q].contains(x)) for (int c = 0; c < n; ++c) m.fabs[k](i, dc + c) = crse.fabs[q](x, sc + c); });
  FillPatchSingleLevel(m, time, fs, ft, sc, dc, n, fg, fb, b);
}
namespace EB2 { struct IndexSpace {}; } template <class F> struct NullInterpHook {};
template <class CB, class FB> void FillPatchTwoLevels(MultiFab& m, double time, const EB2::IndexSpace&, const Vector<MultiFab*>& cs, const Vector<double>& ct, const Vector<MultiFab*>& fs, const Vector<double>& ft, int sc, int dc, int n, const Geometry& cg, const Geometry& fg, CB& cb, int x, FB& fb, int b, const IntVect& r, Interpolater* i, const Vector<BCRec>& bc, int z, const NullInterpHook<FArrayBox>&, const NullInterpHook<FArrayBox>&) { FillPatchTwoLevels(m, time, cs, ct, fs, ft, sc, dc, n, cg, fg, cb, x, fb, b, r, i, bc, z); }
/// without cut cells: the mean
inline void EB_average_down(const MultiFab& fine, MultiFab& crse, int first, int n, int r) { average_down(fine, crse, {}, {}, first, n, IntVect(r)); }
inline void EB_average_down(const MultiFab& fine, MultiFab& crse, int first, int n, const IntVect& r) { average_down(fine, crse, {}, {}, first, n, r); }
inline BoxArray convert(const BoxArray& b, const IntVect& t) { BoxArray r = b; for (Box& x : r.boxes) for (int d = 0; d < D; ++d) if (t[d]) x = surroundingNodes(x, d); return r; }
} // namespace amrex
#endif
