// A stand-in for python objects: every kind of content has its own value
#ifndef VERIF_MOCK_PYBIND11
#define VERIF_MOCK_PYBIND11
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace pybind11 {
struct object;
template <class T> struct reader;
struct object {
  double d = 0; long l = 0; std::string s; std::vector<object> items; std::vector<std::pair<object, object>> entries;
  object() = default;
  object(double x) : d(x) {}
  object(long x) : l(x) {}
  object(int x) : l(x) {}
  object(bool x) : l(x) {}
  object(std::string x) : s(std::move(x)) {}
  object(const char* x) : s(x) {}
  template <class T> object(const std::vector<T>& v) { for (const T& x : v) items.push_back(object(x)); }
  template <class T> T cast() const { return reader<T>::get(*this); }
};
using handle = object;
struct dict : object {
  dict() = default;
  explicit dict(const object& o) : object(o) {}
  auto begin() const { return entries.begin(); }
  auto end() const { return entries.end(); }
  object& operator[](const char* k) { for (auto& e : entries) if (e.first.s == k) return e.second; entries.emplace_back(object(k), object()); return entries.back().second; }
};
template <class T> struct reader {
  static T get(const object& o) { if constexpr (std::is_floating_point_v<T>) return T(o.d); else if constexpr (std::is_same_v<T, bool>) return o.l != 0; else return T(o.l); }
};
template <> struct reader<std::string> { static std::string get(const object& o) { return o.s; } };
template <> struct reader<object> { static object get(const object& o) { return o; } };
template <> struct reader<dict> { static dict get(const object& o) { return dict(o); } };
template <class T> struct reader<std::vector<T>> { static std::vector<T> get(const object& o) { std::vector<T> v; for (const object& x : o.items) v.push_back(x.cast<T>()); return v; } };
template <class T> T cast(const object& o) { return o.cast<T>(); }
template <class T, class = std::enable_if_t<!std::is_base_of_v<object, T>>> object cast(const T& x) { return object(x); }
dict globals();
void exec(const char*);
void exec(const char*, dict);
namespace literals {}
}
#endif
