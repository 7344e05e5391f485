// A stand-in for the parts of AMReX that FiniteVolumeSolver uses, written from
// AMReX's documented contract: integer vectors, boxes (cell and node centred),
// box complements, arrays over boxes in Fortran order and collections of them
// with ghost cells, tiled iteration, physical geometry.  Everything lives in one
// process.
#ifndef VERIF_MOCK_AMREX
#define VERIF_MOCK_AMREX
#ifndef AMREX_SPACEDIM
#define AMREX_SPACEDIM 2
#endif
#if AMREX_SPACEDIM == 1
#define AMREX_D_TERM(a, b, c) a
#elif AMREX_SPACEDIM == 2
#define AMREX_D_TERM(a, b, c) a b
#else
#define AMREX_D_TERM(a, b, c) a b c
#endif
#if AMREX_SPACEDIM == 1
#define AMREX_D_DECL(a, b, c) a
#elif AMREX_SPACEDIM == 2
#define AMREX_D_DECL(a, b, c) a, b
#else
#define AMREX_D_DECL(a, b, c) a, b, c
#endif
#include <algorithm>
#include <array>
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <string>
#include <mpi.h>
namespace amrex {
using Real = double;
using RealArray = std::array<double, AMREX_SPACEDIM>;
constexpr int D = AMREX_SPACEDIM;
/// a growing array
template <class T> struct Seq {
  T* p = nullptr; int n = 0;
  Seq() = default;
  Seq(std::initializer_list<T> l) { for (const T& x : l) push_back(x); }
  Seq(const Seq& o) { make(o.n); for (int i = 0; i < n; ++i) p[i] = o.p[i]; }
  Seq(Seq&& o) : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
  Seq& operator=(Seq o) { std::swap(p, o.p); std::swap(n, o.n); return *this; }
  void make(int k) { p = new T[k ? k : 1](); n = k; }
  void push_back(const T& x) { Seq s; s.make(n + 1); for (int i = 0; i < n; ++i) s.p[i] = p[i]; s.p[n] = x; *this = std::move(s); }
  int size() const { return n; } bool empty() const { return n == 0; } void clear() { n = 0; }
  T* data() { return p; } const T* data() const { return p; } T* begin() { return p; } T* end() { return p + n; } const T* begin() const { return p; } const T* end() const { return p + n; }
  T& operator[](int i) { return p[i]; } const T& operator[](int i) const { return p[i]; }
};
struct IntVect {
  int v[D]{};
  IntVect() = default;
  explicit IntVect(int s) { for (int& x : v) x = s; }
#if AMREX_SPACEDIM == 2
  IntVect(int a, int b) : v{a, b} {}
#elif AMREX_SPACEDIM == 3
  IntVect(int a, int b, int c) : v{a, b, c} {}
#endif
  int& operator[](int d) { return v[d]; }
  const int& operator[](int d) const { return v[d]; }
  int* begin() { return v; } int* end() { return v + D; } const int* begin() const { return v; } const int* end() const { return v + D; }
  const int* getVect() const { return v; }
  bool operator==(const IntVect& o) const { for (int d = 0; d < D; ++d) if (v[d] != o.v[d]) return false; return true; }
  bool operator!=(const IntVect& o) const { return !(*this == o); }
  IntVect operator+(const IntVect& o) const { IntVect r; for (int d = 0; d < D; ++d) r.v[d] = v[d] + o.v[d]; return r; }
  IntVect operator-(const IntVect& o) const { IntVect r; for (int d = 0; d < D; ++d) r.v[d] = v[d] - o.v[d]; return r; }
  int max() const { int r = v[0]; for (int d = 1; d < D; ++d) r = std::max(r, v[d]); return r; }
  static IntVect TheZeroVector() { return IntVect(0); }
  static IntVect TheUnitVector() { return IntVect(1); }
  static IntVect TheDimensionVector(int d) { IntVect r(0); r[d] = 1; return r; }
};
inline IntVect operator*(int n, const IntVect& x) { IntVect r; for (int d = 0; d < D; ++d) r[d] = n * x[d]; return r; }
struct Box {
  IntVect lo{1}, hi{0}; IntVect nodal{0};
  Box() = default;
  Box(const IntVect& l, const IntVect& h) : lo(l), hi(h) {}
  Box(const IntVect& l, const IntVect& h, const IntVect& t) : lo(l), hi(h), nodal(t) {}
  const IntVect& smallEnd() const { return lo; } const IntVect& bigEnd() const { return hi; }
  int smallEnd(int d) const { return lo[d]; } int bigEnd(int d) const { return hi[d]; }
  Box& setSmall(int d, int i) { lo[d] = i; return *this; } Box& setBig(int d, int i) { hi[d] = i; return *this; }
  IntVect length() const { return hi - lo + IntVect(1); } int length(int d) const { return hi[d] - lo[d] + 1; }
  bool ok() const { for (int d = 0; d < D; ++d) if (hi[d] < lo[d]) return false; return true; }
  bool isEmpty() const { return !ok(); }
  bool contains(const IntVect& i) const { for (int d = 0; d < D; ++d) if (i[d] < lo[d] || hi[d] < i[d]) return false; return true; }
  long numPts() const { if (!ok()) return 0; long n = 1; for (int d = 0; d < D; ++d) n *= length(d); return n; }
  long volume() const { return numPts(); }
  Box operator&(const Box& b) const { Box r = *this; for (int d = 0; d < D; ++d) { r.lo[d] = std::max(lo[d], b.lo[d]); r.hi[d] = std::min(hi[d], b.hi[d]); } return r; }
  bool intersects(const Box& b) const { return (*this & b).ok(); }
  bool operator==(const Box& b) const { return lo == b.lo && hi == b.hi && nodal == b.nodal; }
  bool operator!=(const Box& b) const { return !(*this == b); }
  Box& grow(int n) { for (int d = 0; d < D; ++d) grow(d, n); return *this; }
  Box& grow(int d, int n) { lo[d] -= n; hi[d] += n; return *this; }
  Box& growLo(int d, int n) { lo[d] -= n; return *this; } Box& growHi(int d, int n) { hi[d] += n; return *this; }
  Box& shift(int d, int n) { lo[d] += n; hi[d] += n; return *this; }
  Box& refine(int r) { for (int d = 0; d < D; ++d) { hi[d] = nodal[d] ? hi[d] * r : (hi[d] + 1) * r - 1; lo[d] *= r; } return *this; }
};
inline Box grow(Box b, int n) { return b.grow(n); }
inline Box grow(Box b, int d, int n) { return b.grow(d, n); }
inline Box shift(Box b, int d, int n) { return b.shift(d, n); }
inline Box surroundingNodes(Box b, int d) { if (!b.nodal[d]) { b.hi[d] += 1; b.nodal[d] = 1; } return b; }
inline Box surroundingNodes(Box b) { for (int d = 0; d < D; ++d) b = surroundingNodes(b, d); return b; }
inline Box enclosedCells(Box b, int d) { if (b.nodal[d]) { b.hi[d] -= 1; b.nodal[d] = 0; } return b; }
inline Box enclosedCells(Box b) { for (int d = 0; d < D; ++d) b = enclosedCells(b, d); return b; }
struct BoxList {
  Seq<Box> l;
  BoxList() = default;
  explicit BoxList(const Box& b) { l.push_back(b); }
  bool isEmpty() const { return l.empty(); } std::size_t size() const { return l.size(); }
  auto begin() const { return l.begin(); } auto end() const { return l.end(); }
};
/// the disjoint parts of a that are not in b, split direction by direction
inline void cut(Seq<Box>& out, Box a, const Box& b) {
  if (!a.intersects(b)) { if (a.ok()) out.push_back(a); return; }
  for (int d = 0; d < D; ++d) {
    if (a.lo[d] < b.lo[d]) { Box c = a; c.hi[d] = b.lo[d] - 1; out.push_back(c); a.lo[d] = b.lo[d]; }
    if (b.hi[d] < a.hi[d]) { Box c = a; c.lo[d] = b.hi[d] + 1; out.push_back(c); a.hi[d] = b.hi[d]; }
  }
}
inline BoxList complementIn(const Box& b, const BoxList& bl) { BoxList r(b); for (const Box& x : bl.l) { Seq<Box> n; for (const Box& y : r.l) cut(n, y, x); r.l = n; } return r; }
struct RealBox {
  double l[D]{}, h[D]{};
  RealBox() = default;
  RealBox(const double* a, const double* b) { for (int d = 0; d < D; ++d) { l[d] = a[d]; h[d] = b[d]; } }
  RealBox(const std::array<double, D>& a, const std::array<double, D>& b) : RealBox(a.data(), b.data()) {}
  const double* lo() const { return l; } const double* hi() const { return h; } double lo(int d) const { return l[d]; } double hi(int d) const { return h[d]; }
};
struct Periodicity {};
struct Geometry {
  mutable double dx_[D]{}; const double* CellSize() const { for (int d = 0; d < D; ++d) dx_[d] = CellSize(d); return dx_; }
  Periodicity periodicity() const { return {}; }
  Box domain; RealBox prob; int per[D]{};
  Geometry() = default;
  Geometry(const Box& b, const RealBox* r, int = -1, const int* p = nullptr) : domain(b) { if (r) prob = *r; if (p) for (int d = 0; d < D; ++d) per[d] = p[d]; }
  const Box& Domain() const { return domain; }
  bool isPeriodic(int d) const { return per[d] != 0; }
  Box growNonPeriodicDomain(int n) const { Box b = domain; for (int d = 0; d < D; ++d) if (!per[d]) b.grow(d, n); return b; }
  double ProbLo(int d) const { return prob.l[d]; } double ProbHi(int d) const { return prob.h[d]; }
  const double* ProbLo() const { return prob.l; } const double* ProbHi() const { return prob.h; }
  double CellSize(int d) const { return (prob.h[d] - prob.l[d]) / domain.length(d); }
  double CellCenter(int i, int d) const { return prob.l[d] + (i + 0.5) * CellSize(d); }
  void LoFace(const IntVect& i, int dir, double* x) const { for (int d = 0; d < D; ++d) x[d] = prob.l[d] + (i[d] + (d == dir ? 0.0 : 0.5)) * CellSize(d); }
  void CellCenter(const IntVect& i, double* x) const { for (int d = 0; d < D; ++d) x[d] = CellCenter(i[d], d); }
};
enum class FabType { covered, regular, singlevalued };
template <class T> struct BaseFab {
  Box b; int nc = 0; Seq<T> data;
  BaseFab() = default;
  BaseFab(const Box& x, int n) { resize(x, n); }
  void resize(const Box& x, int n = 1) { b = x; nc = n; data.make(int(b.numPts() * n)); }
  const Box& box() const { return b; } int nComp() const { return nc; }
  T* dataPtr(int c = 0) { return data.data() + b.numPts() * c; } const T* dataPtr(int c = 0) const { return data.data() + b.numPts() * c; }
  long off(const IntVect& i) const { long o = 0, s = 1; for (int d = 0; d < D; ++d) { o += (i[d] - b.lo[d]) * s; s *= b.length(d); } return o; }
  T& operator()(const IntVect& i, int c = 0) { return dataPtr(c)[off(i)]; } const T& operator()(const IntVect& i, int c = 0) const { return dataPtr(c)[off(i)]; }
};
struct FArrayBox : BaseFab<double> { using BaseFab<double>::BaseFab;
  /// the sum of one component over the cells of a box
  double sum(const Box& x, int c, int n = 1) const { double r = 0; if (!x.ok()) return r; for (int k = c; k < c + n; ++k) { IntVect i = x.lo; for (bool more = true; more;) { r += (*this)(i, k); int d = 0; while (d < D && ++i[d] > x.hi[d]) { i[d] = x.lo[d]; ++d; } more = d < D; } } return r; }
};
struct Arena {};
struct MFInfo { MFInfo& SetArena(Arena*) { return *this; } };
template <class F> struct FabFactory {}; struct FArrayBoxFactory : FabFactory<FArrayBox> {};
struct ParallelContext { static MPI_Comm CommunicatorAll() { return MPI_COMM_WORLD; } static MPI_Comm CommunicatorSub() { return MPI_COMM_WORLD; } };
struct ParallelDescriptor { static MPI_Comm Communicator() { return MPI_COMM_WORLD; } };

struct BoxArray { Seq<Box> boxes; BoxArray() = default; explicit BoxArray(const Box& b) : boxes{b} {} explicit BoxArray(Seq<Box> b) : boxes(std::move(b)) {} long size() const { return long(boxes.size()); } const Box& operator[](int i) const { return boxes[i]; } bool operator==(const BoxArray& o) const { if (size() != o.size()) return false; for (int i = 0; i < size(); ++i) if (boxes[i] != o[i]) return false; return true; } bool operator!=(const BoxArray& o) const { return !(*this == o); } };
struct DistributionMapping { DistributionMapping() = default; explicit DistributionMapping(const BoxArray&) {} bool operator==(const DistributionMapping&) const { return true; } bool operator!=(const DistributionMapping&) const { return false; } };
struct FabArrayBase { Seq<Box> boxes; IntVect ng{0}; BoxArray boxArray() const { return BoxArray(boxes); } DistributionMapping DistributionMap() const { return {}; } const IntVect& nGrowVect() const { return ng; } int nGrow(int d = 0) const { return ng[d]; } };
/// iterates through the tiles of all boxes
struct MFIter {
  FabArrayBase a; IntVect size; int i = 0; int t[D]{};
  explicit MFIter(const FabArrayBase& m) : MFIter(m, IntVect(1 << 20)) {}
  MFIter(const FabArrayBase& m, const IntVect& s) : a{m.boxes, m.ng}, size(s) {}
  MFIter(const BoxArray& b, const DistributionMapping&, bool tiled = false) : a{b.boxes, IntVect(0)}, size(1 << 20) { if (tiled) for (int d = 1; d < D; ++d) size[d] = 8; }
  MFIter(const FabArrayBase& m, bool tiled) : MFIter(m) { if (tiled) for (int d = 1; d < D; ++d) size[d] = 8; }
  bool isValid() const { return i < int(a.boxes.size()); }
  int n(int d) const { return std::max(1, a.boxes[i].length(d) / size[d]); }
  void operator++() { for (int d = 0; d < D; ++d) { if (++t[d] < n(d)) return; t[d] = 0; } ++i; }
  int index() const { return i; }
  Box validbox() const { return a.boxes[i]; }
  Box tilebox() const { Box b = a.boxes[i]; for (int d = 0; d < D; ++d) { const int len = b.length(d), k = n(d), w = len / k, r = len - w * k; const int lo = b.lo[d]; b.lo[d] = lo + (t[d] < r ? t[d] * (w + 1) : t[d] * w + r); b.hi[d] = b.lo[d] + (t[d] < r ? w : w - 1); } return b; }
  Box growntilebox() const { return growntilebox(a.ng); }
  Box growntilebox(const IntVect& g) const { Box b = tilebox(); const Box v = validbox(); for (int d = 0; d < D; ++d) { if (b.lo[d] == v.lo[d]) b.lo[d] -= g[d]; if (b.hi[d] == v.hi[d]) b.hi[d] += g[d]; } return b; }
};
template <class F> struct FabArray : FabArrayBase {
  Seq<F> fabs; int nc = 0;
  FabArray() = default;
  /// one fab per box, `ng` ghost cells
  FabArray(const Seq<Box>& ba, int n, const IntVect& g) { define(ba, n, g); }
  void define(const Seq<Box>& ba, int n, const IntVect& g) { boxes = ba; nc = n; ng = g; fabs.clear(); for (Box b : ba) { for (int d = 0; d < D; ++d) b.grow(d, g[d]); fabs.push_back(F(b, n)); } }
  using Factory_ = FabFactory<FArrayBox>; Factory_ factory;
  FabArray(const BoxArray& ba, const DistributionMapping&, int n, const IntVect& g, const MFInfo& = MFInfo(), const Factory_& = Factory_()) { define(ba.boxes, n, g); }
  FabArray(const BoxArray& ba, const DistributionMapping&, int n, int g, const MFInfo& = MFInfo(), const Factory_& = Factory_()) { define(ba.boxes, n, IntVect(g)); }
  void define(const BoxArray& ba, const DistributionMapping&, int n, const IntVect& g, const MFInfo& = MFInfo(), const Factory_& = Factory_()) { define(ba.boxes, n, g); }
  void define(const BoxArray& ba, const DistributionMapping&, int n, int g, const MFInfo& = MFInfo(), const Factory_& = Factory_()) { define(ba.boxes, n, IntVect(g)); }
  bool ok() const { return fabs.size() > 0; } bool contains_nan() const { return false; } void setVal(double v) { for (auto& f : fabs) for (auto& x : f.data) x = v; } Arena* arena() const { return nullptr; } const Factory_& Factory() const { return factory; }
  struct BDKey { Seq<Box> b; bool operator!=(const BDKey& o) const { return BoxArray(b) != BoxArray(o.b); } }; BDKey getBDKey() const { return {boxes}; }
  /// valid cells of the source into valid cells of the destination
  void ParallelCopy(const FabArray& s, const Periodicity& = {}) { for (int k = 0; k < int(boxes.size()); ++k) for (int q = 0; q < int(s.boxes.size()); ++q) { const Box b = boxes[k] & s.boxes[q]; if (!b.ok()) continue; for (int c = 0; c < nc; ++c) { IntVect x = b.lo; for (bool more = true; more;) { fabs[k](x, c) = s.fabs[q](x, c); int d = 0; while (d < D && ++x[d] > b.hi[d]) { x[d] = b.lo[d]; ++d; } more = d < D; } } } }
  /// ghost cells of both included
  void ParallelCopy(const FabArray& s, int sc, int dc, int n, int, int) { for (int k = 0; k < int(boxes.size()); ++k) for (int q = 0; q < int(s.boxes.size()); ++q) { const Box b = fabs[k].b & s.fabs[q].b; if (!b.ok()) continue; for (int c = 0; c < n; ++c) { IntVect x = b.lo; for (bool more = true; more;) { fabs[k](x, dc + c) = s.fabs[q](x, sc + c); int d = 0; while (d < D && ++x[d] > b.hi[d]) { x[d] = b.lo[d]; ++d; } more = d < D; } } } }
  int nComp() const { return nc; }
  F& operator[](const MFIter& m) { return fabs[m.i]; } const F& operator[](const MFIter& m) const { return fabs[m.i]; }
  F& operator[](int i) { return fabs[i]; } const F& operator[](int i) const { return fabs[i]; }
};
struct MultiFab : FabArray<FArrayBox> { using FabArray::FabArray;
  static void Copy(MultiFab& d, const MultiFab& s, int sc, int dc, int n, const IntVect& g) { for (int i = 0; i < int(s.boxes.size()); ++i) { Box b = s.boxes[i]; for (int k = 0; k < D; ++k) b.grow(k, g[k]); for (int c = 0; c < n; ++c) { IntVect x = b.lo; for (bool more = b.ok(); more;) { d.fabs[i](x, dc + c) = s.fabs[i](x, sc + c); int k = 0; while (k < D && ++x[k] > b.hi[k]) { x[k] = b.lo[k]; ++k; } more = k < D; } } } }
};
/// what an embedded boundary leaves of the cells
struct EBCellFlagFab { FabType t = FabType::regular; FabType getType() const { return t; } FabType getType(const Box&) const { return t; } };
struct EBCellFlags { Seq<EBCellFlagFab> f; const EBCellFlagFab& operator[](const MFIter& m) const { return f[m.i]; } };
struct EBFArrayBoxFactory { MultiFab volfrac; EBCellFlags flags; operator const FabFactory<FArrayBox>&() const { return volfrac.factory; } const MultiFab& getVolFrac() const { return volfrac; } const EBCellFlags& getMultiEBCellFlagFab() const { return flags; } };
struct MultiCutFab : FabArray<FArrayBox> { using FabArray::FabArray; MultiCutFab(const BoxArray& ba, const DistributionMapping&, int n, int g, const EBCellFlags&) { FabArray::define(ba.boxes, n, IntVect(g)); } };
struct iMultiFab : FabArray<BaseFab<int>> { using FabArray::FabArray; };
} // namespace amrex
#endif
