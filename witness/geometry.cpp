// SOURCES: src/geometry/Cone.cpp src/geometry/Halfspace.cpp src/geometry/Polygon.cpp
// Signed distances to geometries
#include "patch.hpp"
#include "fub/ext/Eigen.hpp"
#include "fub/geometry/Halfspace.hpp"
#include "fub/geometry/Cone.hpp"
#include "fub/geometry/Polygon.hpp"
#include "fub/geometry/Invert.hpp"
#include "fub/geometry/RotateAxis.hpp"
#include "fub/geometry/RotateAroundPoint.hpp"
#include "fub/geometry/PolymorphicGeometry.hpp"
// the memory resource behind std::vector like containers
namespace { struct Heap : boost::container::pmr::memory_resource { void* do_allocate(std::size_t n, std::size_t) override { return ::operator new(n); } void do_deallocate(void* p, std::size_t, std::size_t) override { ::operator delete(p); } bool do_is_equal(const memory_resource&) const noexcept override { return true; } }; }
namespace boost { namespace container { namespace pmr { memory_resource* get_default_resource() BOOST_NOEXCEPT { return new Heap; } } } }
inline double at(int k) { return vg_in(100 + k); }
inline double sq(double x) { return x * x; }
inline double lower(double a, double b) { return b < a ? b : a; }
// ----------------------------------------------------------- D01: half spaces
inline Eigen::Vector3d dir() { return {vg_in(1), vg_in(2), vg_in(3)}; }
inline double half_spec() { const double n = std::sqrt(sq(vg_in(1)) + sq(vg_in(2)) + sq(vg_in(3))); return (vg_in(1) * at(0) + vg_in(2) * at(1) + vg_in(3) * at(2)) / n - vg_in(4); }
LAW(D01_halfspace, o.put(Halfspace(dir(), vg_in(4))(at(0), at(1), at(2))), o.put(half_spec()))
LAW(D01_halfspace_vector, o.put(Halfspace(dir(), vg_in(4))(Eigen::Vector3d{at(0), at(1), at(2)})), o.put(half_spec()))
LAW(D01_halfspace_scaled, o.put(Halfspace(vg_pos(5) * dir(), vg_in(4))(at(0), at(1), at(2))), o.put(Halfspace(dir(), vg_in(4))(at(0), at(1), at(2))))
// ----------------------------------------------------------------- D02: cones
// x along the axis from the base (radius R) to the tip (height H), r from the axis
inline double seg(double ax, double ar, double bx, double br, double x, double r) { const double dx = bx - ax, dr = br - ar; double t = ((x - ax) * dx + (r - ar) * dr) / (dx * dx + dr * dr); t = t < 0.0 ? 0.0 : 1.0 < t ? 1.0 : t; return std::sqrt(sq(x - ax - t * dx) + sq(r - ar - t * dr)); }
inline double height() { return vg_pos(11); }
inline double radius() { return vg_pos(12); }
inline ConeIF cone(bool in) { return ConeIF({vg_in(1), vg_in(2), vg_in(3)}, radius(), height(), in); }
inline double cone_spec(double l, double r) {
  const double H = height(), R = radius(), len = std::sqrt(H * H + R * R), rim = std::sqrt(l * l + sq(r - R));
  if (l < 0.0) return r < R ? -l : rim;
  const double s = (l * H - (r - R) * R) / len; // along the lateral face, from the rim
  if (s < 0.0) return rim;
  if (len < s) return std::sqrt(sq(l - H) + r * r);
  const double d = std::sqrt(sq(l - s * H / len) + sq(r - R + s * R / len));
  return R * (1.0 - l / H) < r ? d : -lower(d, l);
}
inline double cone_at(double sign) { const double l = at(0) - vg_in(1), r = std::sqrt(sq(at(1) - vg_in(2)) + sq(at(2) - vg_in(3))); vg_assume_pos(r - std::sqrt(std::numeric_limits<double>::epsilon())); return sign * cone_spec(l, r); }
LAW(D02_cone_inside, o.put(cone(true).ComputeDistanceTo({at(0), at(1), at(2)})), o.put(cone_at(1.0)))
LAW(D02_cone_outside, o.put(cone(false).ComputeDistanceTo({at(0), at(1), at(2)})), o.put(cone_at(-1.0)))
LAW(D02_cone_axis, o.put(cone(true).ComputeDistanceTo({at(0), vg_in(2), vg_in(3)})), o.put(cone_spec(at(0) - vg_in(1), 0.0)))
// -------------------------------------------------------------- D03: polygons
template <int N> struct Poly {
  double x[N], y[N];
  Poly() { for (int i = 0; i < N; ++i) { x[i] = vg_in(1000 + i); y[i] = vg_in(2000 + i); } }
  void close() { x[N - 1] = x[0]; y[N - 1] = y[0]; }
  void repeat() { x[N / 2] = x[N / 2 - 1]; y[N / 2] = y[N / 2 - 1]; } // an edge of length zero
  Polygon make() const { Polygon::Vector xs, ys; for (int i = 0; i < N; ++i) { xs.push_back(x[i]); ys.push_back(y[i]); } return Polygon(std::move(xs), std::move(ys)); }
  double code() const { return make().ComputeDistanceTo(at(0), at(1)); }
  static double edge(double vx, double vy, double wx, double wy) {
    const double dx = wx - vx, dy = wy - vy, l2 = dx * dx + dy * dy; double t = ((at(0) - vx) * dx + (at(1) - vy) * dy) / l2; t = 1.0 < t ? 1.0 : t; t = t < 0.0 ? 0.0 : t;
    const double px = (1.0 - t) * vx + t * wx, py = (1.0 - t) * vy + t * wy; return std::sqrt(sq(px - at(0)) + sq(py - at(1))); }
  double spec(int skip = -1) const { double d = 0; bool inside = false; for (int i = 0; i + 1 < N; ++i) { if (i == skip) { d = lower(d, std::sqrt(sq(x[i] - at(0)) + sq(y[i] - at(1)))); continue; } const double e = edge(x[i], y[i], x[i + 1], y[i + 1]); d = i == 0 ? e : lower(d, e);
      const double t = (at(1) - y[i]) / (y[i + 1] - y[i]), xi = (1.0 - t) * x[i] + t * x[i + 1]; const bool up = (y[i] < at(1)) & (at(1) <= y[i + 1]), down = (y[i + 1] < at(1)) & (at(1) <= y[i]); inside = inside ^ ((up | down) & (xi < at(0))); }
    return inside ? d : -d; }
};
#define POLY(N) LAW(D03_polygon_##N, Poly<N> p; p.close(); o.put(p.code()), Poly<N> p; p.close(); o.put(p.spec()))
POLY(4) POLY(5) POLY(8) POLY(9) POLY(10) POLY(11) POLY(17) POLY(18)
LAW(D03_polygon_repeated, Poly<6> p; p.close(); p.repeat(); o.put(p.code()), Poly<6> p; p.close(); p.repeat(); o.put(p.spec(2)))
LAW(D03_polygon_array, Poly<5> p; p.close(); o.put(p.make().ComputeDistanceTo(std::array<double, 2>{at(0), at(1)})), Poly<5> p; p.close(); o.put(p.spec()))
// ----------------------------------------------------------- D04: combinators
struct G1 { double ComputeDistanceTo(double x) const { return vg_uf1(1, x); } };
struct G2 { double ComputeDistanceTo(std::array<double, 2> x) const { return vg_uf2(2, x[0], x[1]); } };
struct G2s { double ComputeDistanceTo(double x, double y) const { return vg_uf2(2, x, y); } double ComputeDistanceTo(std::array<double, 2> x) const { return vg_uf2(2, x[0], x[1]); } };
struct G3 { double ComputeDistanceTo(std::array<double, 3> x) const { return vg_uf3(3, x[0], x[1], x[2]); } };
LAW(D04_invert_33, o.put(Invert<G3>(G3{}).ComputeDistanceTo(std::array<double, 3>{at(0), at(1), at(2)})), o.put(-vg_uf3(3, at(0), at(1), at(2))))
LAW(D04_invert_22, o.put(Invert<G2>(G2{}).ComputeDistanceTo(std::array<double, 2>{at(0), at(1)})), o.put(-vg_uf2(2, at(0), at(1))))
LAW(D04_invert_23, o.put(Invert<G2>(G2{}).ComputeDistanceTo(std::array<double, 3>{at(0), at(1), at(2)})), o.put(-vg_uf2(2, at(0), at(1))))
LAW(D04_invert_32, o.put(Invert<G3>(G3{}).ComputeDistanceTo(std::array<double, 2>{at(0), at(1)})), o.put(-vg_uf3(3, at(0), at(1), 0.0)))
LAW(D04_invert_1, (o.put(Invert<G1>(G1{}).ComputeDistanceTo(std::array<double, 2>{at(0), at(1)})), o.put(Invert<G1>(G1{}).ComputeDistanceTo(std::array<double, 3>{at(0), at(1), at(2)}))), (o.put(-vg_uf1(1, at(0))), o.put(-vg_uf1(1, at(0)))))
LAW(D04_invert_twice, o.put(Invert<Invert<G3>>(Invert<G3>(G3{})).ComputeDistanceTo(std::array<double, 3>{at(0), at(1), at(2)})), o.put(-(-vg_uf3(3, at(0), at(1), at(2)))))
LAW(D04_axis, o.put(RotateAxis<G2s>(G2s{}).ComputeDistanceTo({at(0), at(1), at(2)})), o.put(vg_uf2(2, at(0), std::sqrt(sq(at(1)) + sq(at(2))))))
inline void rot_spec(Out& o) { const double c = std::cos(vg_in(1)), s = std::sin(vg_in(1)), x = at(0) - vg_in(2), y = at(1) - vg_in(3); o.put(vg_uf2(2, vg_in(2) + c * x + s * y, vg_in(3) - s * x + c * y)); }
LAW(D04_rotate, o.put(RotateAroundPoint<G2>(G2{}, vg_in(1), {vg_in(2), vg_in(3)}).ComputeDistanceTo({at(0), at(1)})), rot_spec(o))
inline void poly_code(Out& o) { PolymorphicGeometry<3> a{G3{}}; PolymorphicGeometry<3> b{a}; PolymorphicGeometry<3> c{ConeIF({vg_in(1), vg_in(2), vg_in(3)}, radius(), height())}; auto d = c.Clone(); o.put(a.ComputeDistanceTo({at(0), at(1), at(2)})); o.put(b.ComputeDistanceTo({at(0), at(1), at(2)})); o.put(c.ComputeDistanceTo({at(0), vg_in(2), vg_in(3)})); o.put(d->ComputeDistanceTo({at(0), vg_in(2), vg_in(3)})); o.put(&a.Base() != &b.Base() ? 1.0 : 0.0); }
inline void poly_spec(Out& o) { const double u = vg_uf3(3, at(0), at(1), at(2)), v = cone_spec(at(0) - vg_in(1), 0.0); o.put(u); o.put(u); o.put(v); o.put(v); o.put(1.0); }
LAW(D04_any, poly_code(o), poly_spec(o))
