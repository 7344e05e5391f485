// Stand-in for CGAL: exact arithmetic is what the analysis assumes of double
// anyway, so the exact number type is double itself.
#ifndef VERIF_MOCK_CGAL_KERNEL
#define VERIF_MOCK_CGAL_KERNEL
namespace CGAL {
struct Epeck_ft {
  double v = 0.0;
  Epeck_ft() = default;
  Epeck_ft(double x) : v(x) {}
  Epeck_ft(int x) : v(x) {}
  const Epeck_ft& exact() const { return *this; }
  template <class T> T convert_to() const { return T(v); }
  Epeck_ft& operator+=(const Epeck_ft& o) { v += o.v; return *this; }
  Epeck_ft& operator-=(const Epeck_ft& o) { v -= o.v; return *this; }
  Epeck_ft& operator*=(const Epeck_ft& o) { v *= o.v; return *this; }
  Epeck_ft& operator/=(const Epeck_ft& o) { v /= o.v; return *this; }
  Epeck_ft operator-() const { return Epeck_ft(-v); }
  friend Epeck_ft operator+(Epeck_ft a, const Epeck_ft& b) { return a += b; }
  friend Epeck_ft operator-(Epeck_ft a, const Epeck_ft& b) { return a -= b; }
  friend Epeck_ft operator*(Epeck_ft a, const Epeck_ft& b) { return a *= b; }
  friend Epeck_ft operator/(Epeck_ft a, const Epeck_ft& b) { return a /= b; }
  friend bool operator==(const Epeck_ft& a, const Epeck_ft& b) { return a.v == b.v; }
  friend bool operator!=(const Epeck_ft& a, const Epeck_ft& b) { return a.v != b.v; }
  friend bool operator<(const Epeck_ft& a, const Epeck_ft& b) { return a.v < b.v; }
  friend bool operator>(const Epeck_ft& a, const Epeck_ft& b) { return a.v > b.v; }
  friend bool operator<=(const Epeck_ft& a, const Epeck_ft& b) { return a.v <= b.v; }
  friend bool operator>=(const Epeck_ft& a, const Epeck_ft& b) { return a.v >= b.v; }
};
inline double to_double(const Epeck_ft& x) { return x.v; }
struct Exact_predicates_exact_constructions_kernel {
  using FT = Epeck_ft;
  struct Point_2 { FT x_, y_; Point_2() = default; Point_2(FT x, FT y) : x_(x), y_(y) {} FT x() const { return x_; } FT y() const { return y_; } };
};
template <class K> class Polygon_2;
template <class K> class Polygon_with_holes_2;
template <class T> struct Simple_cartesian;
} // namespace CGAL
#endif
