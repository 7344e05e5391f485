// Index boxes, loops over them, and views of patch data
#include "patch.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/StateUtil.hpp"
#define LAW2(n, L, ...) LAW(n, L, __VA_ARGS__)
constexpr Direction X = Direction::X, Y = Direction::Y, Z = Direction::Z;
inline double num(bool b) { return b ? 1.0 : 0.0; }
inline std::ptrdiff_t I(int k) { return vg_long(k); }
template <int R> Index<R> idx(int base) { Index<R> i; for (int k = 0; k < R; ++k) i[k] = I(base + k); return i; }
template <int R> IndexBox<R> box(int base) { return {idx<R>(base), idx<R>(base + 10)}; }
// ----------------------------------------------------------------- G01: boxes
template <int R> bool in(const Index<R>& i, const IndexBox<R>& b) { bool r = true; for (int k = 0; k < R; ++k) r = r & (b.lower[k] <= i[k]) & (i[k] < b.upper[k]); return r; }
template <int R> void putb(Out o, const IndexBox<R>& b) { for (int k = 0; k < R; ++k) { o.put(double(b.lower[k])); o.put(double(b.upper[k])); } }
template <int R> void puti(Out o, const Index<R>& b) { for (int k = 0; k < R; ++k) o.put(double(b[k])); }
template <int R> Index<R> sh(Index<R> i, int d, std::ptrdiff_t s) { i[d] += s; return i; }
template <int R> void sub_spec(Out o) { auto a = box<R>(100), b = box<R>(200); bool r = true; for (int k = 0; k < R; ++k) r = r & (a.lower[k] <= b.lower[k]) & (b.upper[k] <= a.upper[k]); o.put(num(r)); }
template <int R> void eq_spec(Out o) { auto a = box<R>(100), b = box<R>(200); bool r = true; for (int k = 0; k < R; ++k) r = r & (a.lower[k] == b.lower[k]) & (b.upper[k] == a.upper[k]); o.put(num(r)); o.put(num(!r)); }
template <int R> void eq_code(Out o) { auto a = box<R>(100), b = box<R>(200); o.put(num(a == b)); o.put(num(a != b)); }
template <int R> void same(Out o) { auto a = box<R>(100), b = a; o.put(num(a == b)); o.put(num(a != b)); }
template <int R> void isect_spec(Out o) { auto a = box<R>(100), b = box<R>(200); for (int k = 0; k < R; ++k) { const std::ptrdiff_t l = a.lower[k] < b.lower[k] ? b.lower[k] : a.lower[k]; std::ptrdiff_t u = a.upper[k] < b.upper[k] ? a.upper[k] : b.upper[k]; if (u < l) u = l; o.put(double(l)); o.put(double(u)); } }
#define BOX(R)                                                                 \
  LAW(G01_contains_index_##R, o.put(num(Contains(box<R>(100), idx<R>(200)))), o.put(num(in<R>(idx<R>(200), box<R>(100))))) \
  LAW(G01_contains_box_##R, o.put(num(Contains(box<R>(100), box<R>(200)))), sub_spec<R>(o)) \
  LAW(G01_equal_##R, eq_code<R>(o), eq_spec<R>(o))                             \
  LAW(G01_same_##R, same<R>(o), (o.put(1.0), o.put(0.0)))                      \
  LAW(G01_intersect_##R, putb<R>(o, Intersect(box<R>(100), box<R>(200))), isect_spec<R>(o)) \
  LAW(G01_intersect_in_##R, o.put(num(Contains(Intersect(box<R>(100), box<R>(200)), idx<R>(300)))), o.put(num(in<R>(idx<R>(300), box<R>(100)) & in<R>(idx<R>(300), box<R>(200))))) \
  LAW(G01_neighborhood_##R, o.put(num(Contains(Neighborhood<R>(idx<R>(100), 2), idx<R>(300)))), nb_spec<R>(o))
template <int R> void nb_spec(Out o) { auto a = idx<R>(100), b = idx<R>(300); bool r = true; for (int k = 0; k < R; ++k) r = r & (a[k] - 2 <= b[k]) & (b[k] <= a[k] + 2); o.put(num(r)); }
BOX(1) BOX(2) BOX(3) BOX(4)
template <int R> void grow_spec(Out o, int d, int s) { auto a = box<R>(100); a.lower[d] -= s * I(301); a.upper[d] += s * I(302); putb<R>(o, a); }
#define SHIFT(R, d)                                                            \
  LAW(G01_grow_##R##_##d, putb<R>(o, Grow(box<R>(100), Direction(d), {I(301), I(302)})), grow_spec<R>(o, d, 1)) \
  LAW(G01_shrink_##R##_##d, putb<R>(o, Shrink(box<R>(100), Direction(d), {I(301), I(302)})), grow_spec<R>(o, d, -1)) \
  LAW(G01_shrink_grow_##R##_##d, putb<R>(o, Shrink(Grow(box<R>(100), Direction(d), {I(301), I(302)}), Direction(d), {I(301), I(302)})), putb<R>(o, box<R>(100))) \
  LAW(G01_shift_##R##_##d, puti<R>(o, Shift(idx<R>(100), Direction(d), I(301))), puti<R>(o, sh<R>(idx<R>(100), d, I(301)))) \
  LAW(G01_left_##R##_##d, puti<R>(o, LeftTo(idx<R>(100), Direction(d), I(301))), puti<R>(o, sh<R>(idx<R>(100), d, -I(301)))) \
  LAW(G01_right_##R##_##d, puti<R>(o, RightTo(idx<R>(100), Direction(d), I(301))), puti<R>(o, sh<R>(idx<R>(100), d, I(301) - 1))) \
  LAW(G01_face_##R##_##d, (puti<R>(o, LeftTo(idx<R>(100), Direction(d))), puti<R>(o, RightTo(idx<R>(100), Direction(d)))), (puti<R>(o, sh<R>(idx<R>(100), d, -1)), puti<R>(o, idx<R>(100))))
SHIFT(1, 0) SHIFT(2, 0) SHIFT(2, 1) SHIFT(3, 0) SHIFT(3, 1) SHIFT(3, 2)
inline void embed_spec(Out o) { auto a = box<2>(100); IndexBox<3> b; b.lower = {a.lower[0], a.lower[1], I(301)}; b.upper = {a.upper[0], a.upper[1], I(302)}; putb<3>(o, b); }
LAW(G01_embed, putb<3>(o, Embed<3>(box<2>(100), {I(301), I(302)})), embed_spec(o))
LAW(G01_project_embed, putb<2>(o, Project<2>(Embed<3>(box<2>(100), {I(301), I(302)}))), putb<2>(o, box<2>(100)))
LAW(G01_embedindex, puti<3>(o, EmbedIndex<2>(idx<2>(100), Y)), puti<3>(o, Index<3>{I(100), I(101), 1}))
// -------------------------------------------------------------- G02: for each
// a commutative fingerprint of the multiset of visited indices
struct Visit { double s = 0; template <class... Is> void operator()(Is... is) { double h = 7.0; ((h = vg_uf2(5, h, double(is))), ...); s += h; } };
template <class B> double visits(const B& b) { Visit v; ForEachIndex(b, [&](auto... is) { v(is...); }); return v.s; }
template <int R> double each_spec(Index<R> lo, Index<R> n) { Visit v; const int m[4] = {int(n[0]), R > 1 ? int(n[R > 1 ? 1 : 0]) : 1, R > 2 ? int(n[R > 2 ? 2 : 0]) : 1, R > 3 ? int(n[R > 3 ? 3 : 0]) : 1};
  for (int a = 0; a < m[0]; ++a) for (int b = 0; b < m[1]; ++b) for (int c = 0; c < m[2]; ++c) for (int d = 0; d < m[3]; ++d) { const int j[4] = {a, b, c, d}; double h = 7.0; for (int k = 0; k < R; ++k) h = vg_uf2(5, h, double(lo[k] + j[k])); v.s += h; } return v.s; }
template <int R> IndexBox<R> mk(Index<R> lo, Index<R> n) { IndexBox<R> b{lo, lo}; for (int k = 0; k < R; ++k) b.upper[k] += n[k]; return b; }
template <int R> double strided_visits(Index<R> n) { dynamic_extents<R> e(n); std::array<std::ptrdiff_t, R> st; std::ptrdiff_t s = 1; for (int k = 0; k < R; ++k) { st[k] = s; s *= n[k] + 2; } layout_stride::mapping<dynamic_extents<R>> m(e, st); return visits(m); }
template <int R> double left_visits(Index<R> n) { layout_left::mapping<dynamic_extents<R>> m{dynamic_extents<R>(n)}; return visits(m); }
#define EACH(N, R, LO, EX)                                                     \
  constexpr Index<R> lo_##N LO, ex_##N EX;                                     \
  LAW(G02_box_##N, o.put(visits(mk<R>(lo_##N, ex_##N))), o.put(each_spec<R>(lo_##N, ex_##N))) \
  LAW(G02_left_##N, o.put(left_visits<R>(ex_##N)), o.put(each_spec<R>(Index<R>{}, ex_##N))) \
  LAW(G02_stride_##N, o.put(strided_visits<R>(ex_##N)), o.put(each_spec<R>(Index<R>{}, ex_##N)))
EACH(1a, 1, {-3}, {5}) EACH(1b, 1, {4}, {1}) EACH(2a, 2, ({-3, 2}), ({3, 5})) EACH(2b, 2, ({0, -2}), ({4, 1})) EACH(3a, 3, ({-3, 2, 1}), ({2, 3, 4})) EACH(3b, 3, ({7, -2, -1}), ({3, 1, 2})) EACH(4a, 4, ({-3, 2, 1, 0}), ({2, 3, 1, 4}))
LAW(G02_empty, (o.put(visits(IndexBox<1>{{3}, {3}})), o.put(visits(IndexBox<2>{{3, 0}, {5, 0}})), o.put(visits(IndexBox<3>{{3, 0, 1}, {5, 2, 0}}))), (o.put(0.0), o.put(0.0), o.put(0.0)))
// rows: every row once, with all of its cells
using Sw = ShallowWater;
template <class S, int A, int B, int C> void rows_code(Out o) { constexpr int R = S::Equation::Rank(); Index<R> lo{}; lo[0] = -3; w::Patch<S, A + 1, B + 2, C + 1> p(1000, lo), q(5000, lo); IndexBox<R> b; b.lower = lo; const int n[3] = {A, B, C}; for (int k = 0; k < R; ++k) b.upper[k] = lo[k] + n[k];
  auto v = w::sub(p.view(), b); auto u = w::sub(AsConst(q.view()), b); double s = 0;
  auto pd = get<0>(v); auto ud = get<0>(u);
  ForEachRow(std::tuple{pd, ud}, [&](span<double> x, span<const double> y) { double h = double(x.size()) + 10 * double(y.size()); for (int i = 0; i < x.size(); ++i) h = vg_uf3(6, h, x[i], y[i]); s += h; for (int i = 0; i < x.size(); ++i) x[i] = vg_uf2(8, x[i], y[i]); });
  o.put(s); p.put(o); }
template <class S, int A, int B, int C> void rows_spec(Out o) { constexpr int R = S::Equation::Rank(); Index<R> lo{}; lo[0] = -3; w::Patch<S, A + 1, B + 2, C + 1> p(1000, lo), q(5000, lo); double s = 0; const int nb = R > 1 ? B : 1, nc = R > 2 ? C : 1;
  for (int c = 0; c < nc; ++c) for (int b = 0; b < nb; ++b) { double h = 11.0 * A; for (int a = 0; a < A; ++a) { Index<R> i{}; const int j[3] = {a, b, c}; for (int k = 0; k < R; ++k) i[k] = lo[k] + j[k]; double &x = p.data[0][p.offset(i)], y = q.data[0][q.offset(i)]; h = vg_uf3(6, h, x, y); x = vg_uf2(8, x, y); } s += h; }
  o.put(s); p.put(o); }
LAW(G02_rows_1, (rows_code<Complete<PerfectGas<1>>, 3, 1, 1>(o)), (rows_spec<Complete<PerfectGas<1>>, 3, 1, 1>(o)))
LAW(G02_rows_2, (rows_code<Complete<Sw>, 3, 4, 1>(o)), (rows_spec<Complete<Sw>, 3, 4, 1>(o)))
LAW(G02_rows_2b, (rows_code<Complete<Sw>, 5, 1, 1>(o)), (rows_spec<Complete<Sw>, 5, 1, 1>(o)))
LAW(G02_rows_3, (rows_code<Complete<PerfectGas<3>>, 2, 3, 2>(o)), (rows_spec<Complete<PerfectGas<3>>, 2, 3, 2>(o)))
// ------------------------------------------------------------------ G03: views
template <class S, int A, int B, int C> struct V {
  static constexpr int R = S::Equation::Rank(); using P = w::Patch<S, A, B, C>;
  static Index<R> lo() { const int s[3] = {-3, 5, -2}; Index<R> i; for (int k = 0; k < R; ++k) i[k] = s[k]; return i; }
  static Index<R> at(int a, int b, int c) { const int s[3] = {a, b, c}; Index<R> i = lo(); for (int k = 0; k < R; ++k) i[k] += s[k]; return i; }
  static IndexBox<R> inner() { P p(1000, lo()); auto b = p.box(); for (int k = 0; k < R; ++k) { b.lower[k] += 1; b.upper[k] -= 1; } return b; }
  static void load_c(Out o, Index<R> i) { P p(1000, lo()); S s{}; Load(s, AsConst(p.view()), i); w::put(o, s); }
  static void load_m(Out o, Index<R> i) { P p(1000, lo()); S s{}; Load(s, p.view(), i); w::put(o, s); }
  static void load_sub(Out o, Index<R> i) { P p(1000, lo()); S s{}; Load(s, w::sub(AsConst(p.view()), inner()), i); w::put(o, s); }
  static void load_spec(Out o, Index<R> i) { P p(1000, lo()); w::put(o, p.load(i)); }
  static S sym() { S s{}; w::fill(s, 90000); return s; }
  static void store_c(Out o, Index<R> i) { P p(1000, lo()); Store(p.view(), sym(), i); p.put(o); }
  static void store_sub(Out o, Index<R> i) { P p(1000, lo()); Store(w::sub(p.view(), inner()), sym(), i); p.put(o); }
  static void store_spec(Out o, Index<R> i) { P p(1000, lo()); p.store(i, sym()); p.put(o); }
  static void box_c(Out o) { P p(1000, lo()); auto v = p.view(); putb<R>(o, Box<0>(v)); o.p += 2 * R; putb<R>(o, Box<0>(w::sub(v, inner()))); o.p += 2 * R; putb<R>(o, Box<0>(AsConst(v))); }
  static void box_s(Out o) { P p(1000, lo()); putb<R>(o, p.box()); o.p += 2 * R; putb<R>(o, inner()); o.p += 2 * R; putb<R>(o, p.box()); }
  // Shrink of a view keeps the addresses
  static void shrink_c(Out o, Index<R> i, int d) { P p(1000, lo()); S s{}; auto v = Shrink(AsConst(p.view()), Direction(d), {1, 0}); Load(s, v, i); w::put(o, s); o.p += 40; putb<R>(o, Box<0>(v)); }
  static void shrink_s(Out o, Index<R> i, int d) { P p(1000, lo()); w::put(o, p.load(i)); o.p += 40; auto b = p.box(); b.lower[d] += 1; putb<R>(o, b); }
};
#define VIEW(N, S, A, B, C, ...)                                               \
  using V_##N = V<S, A, B, C>;                                                 \
  LAW(G03_load_##N, V_##N::load_c(o, V_##N::at(__VA_ARGS__)), V_##N::load_spec(o, V_##N::at(__VA_ARGS__))) \
  LAW(G03_load_mut_##N, V_##N::load_m(o, V_##N::at(__VA_ARGS__)), V_##N::load_spec(o, V_##N::at(__VA_ARGS__))) \
  LAW(G03_load_sub_##N, V_##N::load_sub(o, V_##N::at(__VA_ARGS__)), V_##N::load_spec(o, V_##N::at(__VA_ARGS__))) \
  LAW(G03_store_##N, V_##N::store_c(o, V_##N::at(__VA_ARGS__)), V_##N::store_spec(o, V_##N::at(__VA_ARGS__))) \
  LAW(G03_store_sub_##N, V_##N::store_sub(o, V_##N::at(__VA_ARGS__)), V_##N::store_spec(o, V_##N::at(__VA_ARGS__))) \
  LAW(G03_box_##N, V_##N::box_c(o), V_##N::box_s(o))                           \
  LAW(G03_shrink_##N, V_##N::shrink_c(o, V_##N::at(__VA_ARGS__), V_##N::R - 1), V_##N::shrink_s(o, V_##N::at(__VA_ARGS__), V_##N::R - 1))
VIEW(pg1, Complete<PerfectGas<1>>, 5, 1, 1, 2, 0, 0)
VIEW(pg2, Complete<PerfectGas<2>>, 4, 5, 1, 1, 2, 0)
VIEW(pg3, Complete<PerfectGas<3>>, 4, 3, 5, 2, 1, 3)
VIEW(pg2c, Conservative<PerfectGas<2>>, 4, 5, 1, 2, 3, 0)
VIEW(pg2p, Primitive<PerfectGas<2>>, 4, 5, 1, 2, 3, 0)
VIEW(sw, Complete<ShallowWater>, 4, 5, 1, 2, 1, 0)
VIEW(swc, Conservative<ShallowWater>, 3, 4, 1, 1, 2, 0)
// SIMD chunks: lanes 0..n-1 are n consecutive cells in x
template <class S, class A, int B> struct VA {
  static constexpr int R = S::Equation::Rank(); using P = w::Patch<S, 11, B, 2>; using B0 = V<S, 11, B, 2>;
  static Index<R> at(int k) { return B0::at(1 + k, 1, 1); }
  static void load_v(Out o, int l) { P p(1000, B0::lo()); A a{}; Load(a, AsConst(p.view()), at(0)); w::put_lane(o, a, l); }
  static void load_p(Out o, int l) { P p(1000, B0::lo()); A a{}; auto q = Begin(AsConst(p.view())); Advance(q, 3); Load(a, q); w::put_lane(o, a, l); }
  static void loadn_v(Out o, int n, int l) { P p(1000, B0::lo()); A a{}; LoadN(a, AsConst(p.view()), n, at(0)); w::put_lane(o, a, l); }
  static void loadn_p(Out o, int n, int l) { P p(1000, B0::lo()); A a{}; auto q = Begin(AsConst(p.view())); Advance(q, 3); LoadN(a, q, n); w::put_lane(o, a, l); }
  static void spec_v(Out o, int l) { P p(1000, B0::lo()); w::put(o, p.load(at(l))); }
  static void spec_p(Out o, int l) { P p(1000, B0::lo()); auto i = B0::lo(); i[0] += 3 + l; w::put(o, p.load(i)); }
  static void load1_p(Out o) { P p(1000, B0::lo()); S s{}; auto q = Begin(AsConst(p.view())); Advance(q, 3); Load(s, q); w::put(o, s); }
  static A sym(S* s) { A a{}; for (int l = 0; l < 8; ++l) { S x{}; w::fill(x, 90000 + 100 * l); w::set_lane(a, x, l); if (s) s[l] = x; } return a; }
  static void store_p(Out o) { P p(1000, B0::lo()); auto q = Begin(p.view()); Advance(q, 3); Store(q, sym(nullptr)); p.put(o); }
  static void storen_p(Out o, int n) { P p(1000, B0::lo()); auto q = Begin(p.view()); Advance(q, 3); StoreN(q, sym(nullptr), n); p.put(o); }
  static void store_spec(Out o, int n) { P p(1000, B0::lo()); S s[8]; sym(s); for (int l = 0; l < n; ++l) { auto i = B0::lo(); i[0] += 3 + l; p.store(i, s[l]); } p.put(o); }
  static void lane_c(Out o, int l) { S s{}; A a = sym(nullptr); Load(s, a, l); w::put(o, s); }
  static void lane_s(Out o, int l) { S x[8]; sym(x); w::put(o, x[l]); }
  static void ext_c(Out o) { P p(1000, B0::lo()); auto v = p.view(); auto b = Begin(v), e = End(v); o.put(double(get<0>(e) - get<0>(b))); }
  static void ext_s(Out o) { o.put(P::cells()); }
};
template <class S, class A, int B> void storen_v(Out o, int n) { using T = VA<S, A, B>; typename T::P p(1000, T::B0::lo()); StoreN(p.view(), T::sym(nullptr), n, T::at(0)); p.put(o); }
#define ARR(N, S, A, B)                                                        \
  using A_##N = VA<S, A, B>;                                                   \
  LAW(G03_simd_loadp_##N##_0, A_##N::load_p(o, 0), A_##N::spec_p(o, 0)) LAW(G03_simd_loadp_##N##_7, A_##N::load_p(o, 7), A_##N::spec_p(o, 7)) \
  LAW(G03_simd_loadnp_##N##_0, A_##N::loadn_p(o, 1, 0), A_##N::spec_p(o, 0)) LAW(G03_simd_loadnp_##N##_4, A_##N::loadn_p(o, 5, 4), A_##N::spec_p(o, 4)) \
  LAW(G03_simd_storep_##N, A_##N::store_p(o), A_##N::store_spec(o, 8))         \
  LAW(G03_simd_storenp_##N##_1, A_##N::storen_p(o, 1), A_##N::store_spec(o, 1)) LAW(G03_simd_storenp_##N##_7, A_##N::storen_p(o, 7), A_##N::store_spec(o, 7)) \
  LAW(G03_simd_ext_##N, A_##N::ext_c(o), A_##N::ext_s(o))
#define ARRV(N) LAW(G03_simd_loadn_##N##_1, A_##N::loadn_v(o, 3, 1), A_##N::spec_v(o, 1)) LAW(G03_simd_loadn_##N##_6, A_##N::loadn_v(o, 7, 6), A_##N::spec_v(o, 6))
ARR(pg1, Complete<PerfectGas<1>>, CompleteArray<PerfectGas<1>>, 1)
ARR(pg2, Complete<PerfectGas<2>>, CompleteArray<PerfectGas<2>>, 3)
ARR(pg2c, Conservative<PerfectGas<2>>, ConservativeArray<PerfectGas<2>>, 3)
ARR(pg3, Complete<PerfectGas<3>>, CompleteArray<PerfectGas<3>>, 2)
ARR(sw, Complete<ShallowWater>, CompleteArray<ShallowWater>, 3)
ARR(swc, Conservative<ShallowWater>, ConservativeArray<ShallowWater>, 3)
ARRV(pg1) ARRV(pg2) ARRV(pg3) ARRV(sw)
#define ARR1(N, S)  LAW(G03_loadp_##N, A_##N::load1_p(o), A_##N::spec_p(o, 0)) LAW(G03_lane_##N##_0, A_##N::lane_c(o, 0), A_##N::lane_s(o, 0)) LAW(G03_lane_##N##_5, A_##N::lane_c(o, 5), A_##N::lane_s(o, 5))
ARR1(pg1, ) ARR1(pg2, ) ARR1(pg2c, ) ARR1(pg3, ) ARR1(sw, ) ARR1(swc, )
// single data views with symbolic values
template <int R> struct D { std::array<double, 120> d; std::array<std::ptrdiff_t, R> n, lo; std::array<double, 120>& fill(int b) { for (int i = 0; i < 120; ++i) d[i] = vg_in(b + i); return d; }
  PatchDataView<double, R> view() { return PatchDataView<double, R>(mdspan<double, R>(d.data(), dynamic_extents<R>(n)), lo); } };
inline D<3> d3() { D<3> x; x.n = {4, 5, 3}; x.lo = {-2, 1, 0}; x.fill(1000); return x; }
inline int off3(int i, int j, int k) { return (i + 2) + 4 * (j - 1) + 20 * k; }
inline void slice_c(Out o, int c) { auto x = d3(); auto s = SliceLast(x.view(), c); for (int j = 1; j < 6; ++j) for (int i = -2; i < 2; ++i) o.put(s(i, j)); putb<2>(o, s.Box()); }
inline void slice_st(Out o, int c) { auto x = d3(); auto s = SliceLast(x.view().Subview({{-2, 1, 0}, {2, 6, 3}}), c); for (int j = 1; j < 6; ++j) for (int i = -2; i < 2; ++i) o.put(s(i, j)); putb<2>(o, s.Box()); }
inline void slice_s(Out o, int c) { auto x = d3(); for (int j = 1; j < 6; ++j) for (int i = -2; i < 2; ++i) o.put(x.d[off3(i, j, c)]); putb<2>(o, {{-2, 1}, {2, 6}}); }
LAW(G03_slicelast_0, slice_c(o, 0), slice_s(o, 0)) LAW(G03_slicelast_2, slice_c(o, 2), slice_s(o, 2)) LAW(G03_slicelast_strided_1, slice_st(o, 1), slice_s(o, 1))
inline void subsub_c(Out o) { auto x = d3(); auto s = x.view().Subview({{-1, 2, 0}, {2, 6, 3}}).Subview({{0, 3, 1}, {2, 5, 3}}); s(1, 4, 2) = vg_in(5); s(Index<2>{0, 3}, 1) = vg_in(6); putb<3>(o, s.Box()); o.p += 6; for (int k = 0; k < 3; ++k) o.put(double(s.Extent(k))); for (int i = 0; i < 60; ++i) o.put(x.d[i]); o.put(s(0, 4, 1)); }
inline void subsub_s(Out o) { auto x = d3(); x.d[off3(1, 4, 2)] = vg_in(5); x.d[off3(0, 3, 1)] = vg_in(6); putb<3>(o, {{0, 3, 1}, {2, 5, 3}}); o.p += 6; o.put(2); o.put(2); o.put(2); for (int i = 0; i < 60; ++i) o.put(x.d[i]); o.put(x.d[off3(0, 4, 1)]); }
LAW(G03_subview_of_subview, subsub_c(o), subsub_s(o))
template <int S> void simd_load(Out o, int l) { auto x = d3(); auto v = x.view(); D<2> y; y.n = {11, 3}; y.lo = {-1, 2}; y.fill(3000); auto yv = y.view(); if constexpr (S == 0) o.put(Load(int_c<4>, v, -2, 3, 1)[l]); else if constexpr (S == 1) o.put(Load(yv, Index<2>{0, 3})[l]); else o.put(LoadN(int_c<8>, yv, 5, Index<2>{2, 4})[l]); }
template <int S> void simd_load_s(Out o, int l) { auto x = d3(); D<2> y; y.n = {11, 3}; y.lo = {-1, 2}; y.fill(3000); if constexpr (S == 0) o.put(x.d[off3(-2 + l, 3, 1)]); else if constexpr (S == 1) o.put(y.d[(1 + l) + 11 * 1]); else o.put(y.d[3 + l + 22]); }
LAW(G03_vload_0, simd_load<0>(o, 2), simd_load_s<0>(o, 2)) LAW(G03_vload_1, simd_load<1>(o, 7), simd_load_s<1>(o, 7)) LAW(G03_vload_2, simd_load<2>(o, 4), simd_load_s<2>(o, 4))
// the numbering of components of a state
template <class E> void idx_c(Out o) { E eq{}; IndexMapping<E> m(eq); ForEachVariable([&](const auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>) o.put(x); else for (int i : x) o.put(i); }, m); }
template <class E> void idx_s(Out o, int n) { for (int i = 0; i < n; ++i) o.put(i); }
LAW(G03_mapping_pg1, idx_c<PerfectGas<1>>(o), idx_s<PerfectGas<1>>(o, 5)) LAW(G03_mapping_pg3, idx_c<PerfectGas<3>>(o), idx_s<PerfectGas<3>>(o, 7)) LAW(G03_mapping_sw, idx_c<Sw>(o), idx_s<Sw>(o, 3))
template <class S> void buf_from(Out o) { S s{}; double b[10]; for (int i = 0; i < 10; ++i) b[i] = vg_in(100 + i); CopyFromBuffer(s, span<const double>(b, 10)); w::put(o, s); }
template <class S> void buf_from_s(Out o, int n) { for (int i = 0; i < n; ++i) o.put(vg_in(100 + i)); }
template <class S> void buf_to(Out o, int n) { S s{}; w::fill(s, 500); double b[10]; for (int i = 0; i < 10; ++i) b[i] = vg_in(100 + i); CopyToBuffer(span<double>(b, 10), s); for (int i = 0; i < 10; ++i) o.put(b[i]); }
template <class S> void buf_to_s(Out o, int n) { S s{}; w::fill(s, 500); w::put(o, s); for (int i = n; i < 10; ++i) o.put(vg_in(100 + i)); }
LAW(G03_from_buffer_q, buf_from<Complete<PerfectGas<3>>>(o), buf_from_s<Complete<PerfectGas<3>>>(o, 7)) LAW(G03_from_buffer_u, buf_from<Conservative<PerfectGas<2>>>(o), buf_from_s<Conservative<PerfectGas<2>>>(o, 4)) LAW(G03_to_buffer_u, buf_to<Conservative<PerfectGas<2>>>(o, 4), buf_to_s<Conservative<PerfectGas<2>>>(o, 4))
template <class E> void comp_c(Out o, int n, bool c) { E eq{}; Complete<E> s{}; w::fill(s, 700); const Complete<E>& k = s; for (int i = 0; i < n; ++i) o.put(c ? GetComponent(eq, k, i) : GetComponent(eq, s, i)); o.put(GetNumberOfComponents(eq, s)); }
template <class E> void comp_s(Out o, int n) { Complete<E> s{}; w::fill(s, 700); w::put(o, s); o.put(n); }
LAW(G03_component_pg3, comp_c<PerfectGas<3>>(o, 7, true), comp_s<PerfectGas<3>>(o, 7)) LAW(G03_component_sw, comp_c<Sw>(o, 3, false), comp_s<Sw>(o, 3))
// ------------------------------------------------------ G04: states as vectors
template <class S> S st(int b) { S s{}; w::fill(s, b); return s; }
template <class S, class F> void ew(Out o, F f) { auto a = st<S>(100), b = st<S>(200); double x[40], y[40]; int n = 0, m = 0; w::each(a, [&](double v) { x[n++] = v; }); w::each(b, [&](double v) { y[m++] = v; }); for (int i = 0; i < n; ++i) o.put(f(x[i], y[i])); }
template <class S> void plus_c(Out o) { auto a = st<S>(100); const auto b = st<S>(200); auto& r = (a += b); r.density += 0.0; w::put(o, r); }
template <class S> void minus_c(Out o) { auto a = st<S>(100); const auto b = st<S>(200); w::put(o, a -= b); }
template <class S> void times_c(Out o) { auto a = st<S>(100); w::put(o, a *= vg_in(5)); }
#define VEC(N, ...)  LAW(G04_plus_##N, plus_c<__VA_ARGS__>(o), ew<__VA_ARGS__>(o, [](double a, double b) { return a + b; }))
#define VEC2(N, ...) VEC(N, __VA_ARGS__) LAW(G04_minus_##N, minus_c<__VA_ARGS__>(o), ew<__VA_ARGS__>(o, [](double a, double b) { return a - b; })) LAW(G04_times_##N, times_c<__VA_ARGS__>(o), ew<__VA_ARGS__>(o, [](double a, double) { return a * vg_in(5); }))
VEC(u1, Conservative<PerfectGas<1>>) VEC(u3, Conservative<PerfectGas<3>>) VEC(q2, Complete<PerfectGas<2>>) VEC2(p1, Primitive<PerfectGas<1>>) VEC2(p3, Primitive<PerfectGas<3>>)
template <class S> void zero_c(Out o) { typename S::Equation eq{}; S s(eq); w::put(o, s); }
template <class S> void zero_s(Out o) { S s{}; int n = 0; w::each(s, [&](double) { ++n; }); for (int i = 0; i < n; ++i) o.put(0.0); }
#define ZERO(N, ...) LAW(G04_zero_##N, zero_c<__VA_ARGS__>(o), zero_s<__VA_ARGS__>(o))
ZERO(u3, Conservative<PerfectGas<3>>) ZERO(q2, Complete<PerfectGas<2>>) ZERO(p2, Primitive<PerfectGas<2>>) ZERO(sw, Complete<Sw>) ZERO(swc, Conservative<Sw>)
// assigning gives the assigned state, also when used as an expression
template <class S, class B> void assign_c(Out o) { S a = st<S>(100); const S b = st<S>(200); const B& base = b; S& r = (a = base); w::put(o, r); o.p += 10; w::put(o, a); o.put(double(&r == &a)); }
template <class S, class B> void assign_s(Out o) { const S b = st<S>(200); w::put(o, b); o.p += 10; w::put(o, b); o.put(1.0); }
LAW2(G04_assign_u, (assign_c<Conservative<PerfectGas<2>>, ConservativeBase<PerfectGas<2>>>(o)), (assign_s<Conservative<PerfectGas<2>>, ConservativeBase<PerfectGas<2>>>(o)))
LAW2(G04_assign_q, (assign_c<Complete<PerfectGas<2>>, CompleteBase<PerfectGas<2>>>(o)), (assign_s<Complete<PerfectGas<2>>, CompleteBase<PerfectGas<2>>>(o)))
template <class S> void vassign_c(Out o) { w::Patch<S, 3, 4, 2> p(1000, {}), q(5000, {}); auto v = p.view(); const ViewBase<S, layout_left, S::Equation::Rank()> b = q.view(); auto& r = (v = b); S s{}; Load(s, r, {1, 2}); w::put(o, s); o.put(double(&r == &v)); }
template <class S> void vassign_s(Out o) { w::Patch<S, 3, 4, 2> q(5000, {}); w::put(o, q.load({1, 2})); o.put(1.0); }
LAW(G04_assign_view, vassign_c<Complete<Sw>>(o), vassign_s<Complete<Sw>>(o))
template <class E> void ascons_c(Out o) { auto q = st<Complete<E>>(100); const auto& k = q; ConservativeBase<E> u = AsCons(k); Conservative<E> v(u); w::put(o, v); AsCons(q).density = vg_in(3); o.put(q.density); }
template <class E> void ascons_s(Out o) { auto q = st<Complete<E>>(100); o.put(q.density); for (int i = 0; i < E::Rank(); ++i) o.put(q.momentum[i]); o.put(q.energy); o.put(vg_in(3)); }
LAW(G04_ascons_2, ascons_c<PerfectGas<2>>(o), ascons_s<PerfectGas<2>>(o)) LAW(G04_ascons_3, ascons_c<PerfectGas<3>>(o), ascons_s<PerfectGas<3>>(o))
