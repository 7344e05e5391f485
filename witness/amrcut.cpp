// DEFS: -Iwitness/mockamrex -DAMREX_SPACEDIM=2
// SOURCES: src/HyperbolicPatchIntegrator.cpp
// The AMReX back end: updates of regular and of cut cells
#include "amr.hpp"
#include "fub/CutCellData.hpp"
#include "fub/Duration.hpp"
#include "fub/Direction.hpp"
// the context of a level: its scratch data, fluxes and geometry
#define FUB_AMREX_CUTCELL_INTEGRATOR_CONTEXT_HPP
#define FUB_AMREX_INTEGRATOR_CONTEXT_HPP
#define FUB_AMREX_DEBUG_OUTPUT_HPP
#include "fub/AMReX/ViewFArrayBox.hpp"
#include "fub/AMReX/ForEachFab.hpp"
#include <AMReX_MultiCutFab.H>
#include <AMReX_Geometry.H>
namespace fub::amrex::cutcell {
using Fabs = ::amrex::Seq<::amrex::FArrayBox>;
/// geometry and data of a level with four kinds of boxes
struct Level {
  ::amrex::Seq<::amrex::Box> boxes; ::amrex::Seq<::amrex::FabType> types; int n_cons;
  ::amrex::MultiFab scratch; ::amrex::MultiFab us[2], stab[2], sl[2], sr[2]; ::amrex::MultiCutFab bnd;
  ::amrex::MultiFab vol, cen, beta[2], bus[2], bsl[2], bsr[2];
  double dx[2];
};
struct PatchHierarchy {
  Level* l;
  struct Desc { int n_cons_components; };
  Desc GetDataDescription() const { return {l->n_cons}; }
  CutCellData<2> GetCutCellData(int, const ::amrex::MFIter& m) const { CutCellData<2> g{}; const auto& k = *l; g.volume_fractions = MakePatchDataView(k.vol[m], 0); g.boundary_centeroids = MakePatchDataView(k.cen[m]);
    for (int d = 0; d < 2; ++d) { g.face_fractions[d] = MakePatchDataView(k.beta[d][m], 0); g.unshielded_fractions[d] = MakePatchDataView(k.bus[d][m], 0); g.shielded_left_fractions[d] = MakePatchDataView(k.bsl[d][m], 0); g.shielded_right_fractions[d] = MakePatchDataView(k.bsr[d][m], 0); } return g; }
};
struct IntegratorContext {
  Level* l;
  ::amrex::MultiFab& GetScratch(int) { return l->scratch; }
  ::amrex::MultiFab& GetFluxes(int, Direction d) { return l->us[int(d)]; } ::amrex::MultiFab& GetStabilizedFluxes(int, Direction d) { return l->stab[int(d)]; }
  ::amrex::MultiFab& GetShieldedFromLeftFluxes(int, Direction d) { return l->sl[int(d)]; } ::amrex::MultiFab& GetShieldedFromRightFluxes(int, Direction d) { return l->sr[int(d)]; }
  ::amrex::MultiCutFab& GetBoundaryFluxes(int) { return l->bnd; }
  PatchHierarchy GetPatchHierarchy() const { return {l}; }
  double GetDx(int, Direction d) const { return l->dx[int(d)]; }
  ::amrex::FabType GetFabType(int, const ::amrex::MFIter& m) const { return l->types[m.i]; }
};
} // namespace fub::amrex::cutcell
#include "src/AMReX/ViewFArrayBox.cpp"
#include "src/AMReX/cutcell/TimeIntegrator.cpp"
namespace cc = fub::amrex::cutcell; namespace ax = ::amrex;
using am::IntVect;
using T1 = cc::TimeIntegrator; using T2 = cc::TimeIntegrator2;
constexpr auto Cut = ax::FabType::singlevalued, Reg = ax::FabType::regular, Cov = ax::FabType::covered;
inline cc::Level level(::amrex::Seq<ax::Box> b, ::amrex::Seq<ax::FabType> t, int ncons, int ncomp, int ng, int fg) {
  cc::Level l; l.boxes = b; l.types = t; l.n_cons = ncons; l.scratch = am::make<ax::MultiFab>(b, ncomp, ng, 1000);
  for (int d = 0; d < 2; ++d) { const auto f = am::faces(b, d); const int z = 20000 * (d + 1); l.us[d] = am::make<ax::MultiFab>(f, ncons, fg, z + 2000); l.stab[d] = am::make<ax::MultiFab>(f, ncons, fg, z + 4000); l.sl[d] = am::make<ax::MultiFab>(f, ncons, fg, z + 6000); l.sr[d] = am::make<ax::MultiFab>(f, ncons, fg, z + 8000);
    l.beta[d] = am::make<ax::MultiFab>(f, 1, ng, z + 10000); l.bus[d] = am::make<ax::MultiFab>(f, 1, ng, z + 11000); l.bsl[d] = am::make<ax::MultiFab>(f, 1, ng, z + 12000); l.bsr[d] = am::make<ax::MultiFab>(f, 1, ng, z + 13000); l.dx[d] = vg_pos(10 + d); }
  l.bnd = am::make<ax::MultiCutFab>(b, ncons, ng, 80000); l.cen = am::make<ax::MultiFab>(b, 2, ng, 84000);
  // volume fractions are zero or positive
  l.vol = am::make<ax::MultiFab>(b, 1, ng, 88000); int k = 0; for (auto& f : l.vol.fabs) for (auto& x : f.data) { x = vg_bool(90000 + k) ? vg_pos(88000 + k) : 0.0; ++k; }
  return l;
}
/// cells that have both of their faces among the fluxes
inline ax::Box updated(const cc::Level& l, int i, int d) { ax::Box c = l.boxes[i]; for (int k = 0; k < 2; ++k) c.grow(k, l.scratch.ng[k]); ax::Box f = l.us[d].fabs[i].box(); f.hi[d] -= 1; f.nodal = IntVect(0); return c & f; }
inline double limit(double x) { return x < 0.0 ? 0.0 : x > 1.0 ? 1.0 : x; }
template <class T> void code(Out& o, cc::Level l, int d, bool = true) { cc::IntegratorContext c{&l}; T::UpdateConservatively(c, 0, Duration(vg_pos(1)), Direction(d)); am::put(o, l.scratch); }
inline void regular(cc::Level& l, int i, int d) { const double q = vg_pos(1) / l.dx[d]; auto& u = l.scratch.fabs[i]; auto& f = l.us[d].fabs[i]; am::cells(updated(l, i, d), [&](IntVect c) { for (int k = 0; k < l.n_cons; ++k) u(c, k) += q * (f(c, k) - f(am::next(c, d), k)); }); }
inline void cut1(cc::Level& l, int i, int d) {
  const double q = vg_pos(1) / l.dx[d]; auto& u = l.scratch.fabs[i];
  am::cells(updated(l, i, d), [&](IntVect c) { const IntVect r = am::next(c, d); const double al = l.vol.fabs[i](c);
    if (al == 0.0) { for (int k = 0; k < l.n_cons; ++k) u(c, k) = 0.0; return; }
    const double bl = l.beta[d].fabs[i](c), br = l.beta[d].fabs[i](r), x = l.cen.fabs[i](c, d);
    for (int k = 0; k < l.n_cons; ++k) {
      const double fl = l.stab[d].fabs[i](c, k), fr = l.stab[d].fabs[i](r, k), fb = l.bnd.fabs[i](c, k); double s;
      if (bl == br) s = fl - fr;
      else { const bool left = bl > br; const IntVect f = left ? c : r; const double sg = left ? 1.0 : -1.0, far = left ? fr : fl, us = l.us[d].fabs[i](f, k), near = left ? l.sl[d].fabs[i](f, k) : l.sr[d].fabs[i](f, k);
        const double a = l.bus[d].fabs[i](f) / al, b = (left ? l.bsl : l.bsr)[d].fabs[i](f) / al, w = limit((left ? l.bsr : l.bsl)[d].fabs[i](f) * (0.5 + sg * x) / al);
        s = sg * (a * (us - far) + b * (near - far) + w * (us - fb)); }
      u(c, k) += q * s; } });
}
inline void cut2(cc::Level& l, int i, int d) {
  const double q = vg_pos(1) / l.dx[d]; auto& u = l.scratch.fabs[i];
  am::cells(updated(l, i, d), [&](IntVect c) { const IntVect r = am::next(c, d); const double al = l.vol.fabs[i](c); if (al == 0.0) return;
    const double bl = l.beta[d].fabs[i](c), br = l.beta[d].fabs[i](r);
    for (int k = 0; k < l.n_cons; ++k) { const double fl = l.stab[d].fabs[i](c, k), fr = l.stab[d].fabs[i](r, k), fb = l.bnd.fabs[i](c, k); u(c, k) += bl == br ? q * (fl - fr) : q / al * (bl * fl - br * fr - (bl - br) * fb); } });
}
template <class T> void spec(Out& o, cc::Level l, int d) { for (int i = 0; i < int(l.boxes.size()); ++i) { if (l.types[i] == Reg) regular(l, i, d); else if (l.types[i] == Cut) { if (std::is_same_v<T, T1>) cut1(l, i, d); else cut2(l, i, d); } } am::put(o, l.scratch); }
inline ::amrex::Seq<ax::Box> one(int a, int b, int n0, int n1) { return {am::bx(am::iv(a, b), am::iv(n0, n1))}; }
inline cc::Level mixed() { return level({am::bx(am::iv(-3, 2), am::iv(2, 2)), am::bx(am::iv(-1, 2), am::iv(3, 2)), am::bx(am::iv(2, 2), am::iv(1, 2))}, {Cut, Reg, Cov}, 2, 3, 1, 0); }
#define UPD(N, T, L, d) LAW(A01_##N, (code<T>(o, L, d)), (spec<T>(o, L, d)))
#define UPD2(N, L, d) UPD(stable_##N, T1, L, d) UPD(direct_##N, T2, L, d)
UPD2(mixed_x, mixed(), 0) UPD2(mixed_y, mixed(), 1)
UPD2(ghosts_x, level(one(4, -6, 2, 1), {Cut}, 1, 1, 2, 1), 0) UPD2(ghosts_y, level(one(-4, 6, 1, 2), {Cut}, 1, 1, 2, 1), 1)
UPD2(row_x, level(one(-4, 3, 9, 1), {Cut}, 1, 1, 1, 0), 0) UPD2(row_y, level(one(5, -3, 9, 1), {Cut}, 1, 1, 1, 0), 1) UPD2(tiles_y, level(one(5, -3, 1, 33), {Cut}, 1, 1, 0, 0), 1) UPD2(regular_tiles_x, level(one(5, -3, 1, 33), {Reg}, 1, 1, 0, 0), 0)
