// DEFS: -Iwitness/mockpy -DBOOST_LOG_DYN_LINK
// the standard containers of characters are compiled from their source, too
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
// Options are found by their name, and everything that is not given keeps its default
#include "history.hpp"
#include <fstream>
#include "fub/core/type_traits.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/output/OutputAtFrequencyOrInterval.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include "fub/ext/Log.hpp"
#include "fub/ext/CopyInputFile.hpp"
#include "src/RunSimulation.cpp"
#include "src/ext/ProgramOptions.cpp"
#include "src/ext/CopyInputFile.cpp"
#include "src/ext/Log.cpp"
namespace py = pybind11;
using Map = std::map<std::string, py::object>;
// a search tree that does not care for its depth
namespace std {
static _Rb_tree_node_base* up(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static _Rb_tree_node_base* down(_Rb_tree_node_base* x) { if (x->_M_parent && x->_M_parent->_M_parent == x && x->_M_color == _S_red) return x->_M_right; if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; } _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return up(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return up(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return down(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return down(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
}
inline void put(Out& o, const std::string& s) { o.put(double(s.size())); for (std::size_t i = 0; i < 8; ++i) o.put(i < s.size() ? double(s[i]) : -1.0); }
// ----------------------------------------------------------------- scripts
// Reading the file is one unknown operation, running it another one that defines names
inline std::string Path, Code; inline py::dict Names0; inline int Runs, Reads; inline bool Regular;
namespace fub { std::string ReadAndBroadcastFile(std::string path, MPI_Comm) { Path = path; ++Reads; return "code"; } }
namespace boost { namespace filesystem { namespace detail { file_status status(const path& p, system::error_code*) { Path = p.string(); return file_status(Regular ? regular_file : directory_file, perms::all_all); } } } }
namespace pybind11 { dict globals() { return Names0; } void exec(const char* c) { Code = c; ++Runs; } void exec(const char* c, dict d) { Code = c; ++Runs; Names0["args_given"] = d["args"]; } }
inline void script(bool regular) { Regular = regular; Runs = 0; Reads = 0; Names0 = {}; Names0["__name__"] = py::object("main"); Names0["b"] = py::object(vg_in(1)); Names0["_c"] = py::object(vg_in(2)); Names0["__d"] = py::object(vg_in(3)); Names0["e__"] = py::object(vg_in(4)); }
inline void put(Out& o, const Map& m) { put(o, Path); put(o, Code); o.put(Runs); o.put(Reads); o.put(double(m.size())); for (auto& x : m) { put(o, x.first); o.put(x.second.cast<double>()); o.put(double(x.second.cast<std::vector<std::string>>().size())); } }
inline void entry(Out& o, const char* n, double x, double k) { put(o, std::string(n)); o.put(x); o.put(k); }
LAW(O02_script, script(true); put(o, ParsePythonScript("file", MPI_COMM_WORLD)), put(o, std::string("file")); put(o, std::string("code")); o.put(1.0); o.put(1.0); o.put(3.0); entry(o, "_c", vg_in(2), 0); entry(o, "b", vg_in(1), 0); entry(o, "e__", vg_in(4), 0))
LAW(O02_script_arguments, script(true); put(o, ParsePythonScript("file", MPI_COMM_WORLD, {"x", "y"})), put(o, std::string("file")); put(o, std::string("code")); o.put(1.0); o.put(1.0); o.put(4.0); entry(o, "_c", vg_in(2), 0); entry(o, "args_given", 0.0, 2); entry(o, "b", vg_in(1), 0); entry(o, "e__", vg_in(4), 0))
LAW(O02_script_missing, script(vg_bool(7)); put(o, ParsePythonScript("file", MPI_COMM_WORLD)), if (!vg_bool(7)) throw 1; script(true); put(o, ParsePythonScript("file", MPI_COMM_WORLD)))
// ------------------------------------------------------------------- lookup
inline Map some() { Map m; m.emplace("beta", vg_in(2)); m.emplace("alpha", vg_in(1)); m.emplace("alphabet", vg_in(3)); m.emplace("n", vg_long(4)); return m; }
LAW(O01_lookup, Map m = some(); o.put(GetOptionOr(m, "alpha", vg_in(9))); o.put(GetOptionOr(m, "beta", vg_in(9))); o.put(GetOptionOr(m, "alphabet", vg_in(9))); o.put(GetOptionOr(m, "al", vg_in(9))); o.put(GetOptionOr(m, "z", vg_in(9))); o.put(GetOptionOr(m, "Alpha", vg_in(9))),
    o.put(vg_in(1)); o.put(vg_in(2)); o.put(vg_in(3)); o.put(vg_in(9)); o.put(vg_in(9)); o.put(vg_in(9)))
LAW(O01_lookup_duration, Map m = some(); o.put(GetOptionOr(m, "alpha", Duration(vg_in(9))).count()); o.put(GetOptionOr(m, "gamma", Duration(vg_in(9))).count()), o.put(vg_in(1)); o.put(vg_in(9)))
LAW(O01_lookup_direction, Map m; m.emplace("a", 0); m.emplace("b", 1); m.emplace("c", 2); o.put(double(int(GetOptionOr(m, "a", Direction::Z)))); o.put(double(int(GetOptionOr(m, "b", Direction::X)))); o.put(double(int(GetOptionOr(m, "c", Direction::Y)))); o.put(double(int(GetOptionOr(m, "d", Direction::Y)))), o.put(0.0); o.put(1.0); o.put(2.0); o.put(1.0))
inline py::dict sub() { py::dict d; d["x"] = py::object(vg_in(21)); d["y"] = py::object("why"); return d; }
LAW(O01_section, Map m = some(); m.emplace("section", sub()); auto s = GetOptions(m, "section"); auto t = GetOptions(m, "other"); o.put(double(s.size())); o.put(s.at("x").cast<double>()); put(o, s.at("y").cast<std::string>()); o.put(double(t.size())),
    o.put(2.0); o.put(vg_in(21)); put(o, std::string("why")); o.put(0.0))
// --------------------------------------------------------------- time loop
inline void put(Out& o, const RunOptions& r) { o.put(r.final_time.count()); o.put(double(r.max_cycles)); o.put(r.smallest_time_step_size.count()); o.put(r.cfl); o.put(double(r.do_backup)); }
template <class... A> Map with(A&&... a) { Map m; (m.emplace(a.first, a.second), ...); return m; }
template <class T> std::pair<std::string, py::object> is(const char* k, T v) { return {k, py::object(v)}; }
inline RunOptions run0() { return {}; }
LAW(O01_run_none, put(o, RunOptions(with(is("final", vg_in(1)), is("Cfl", vg_in(2))))), o.put(1.0); o.put(-1.0); o.put(1e-12); o.put(0.8); o.put(1.0))
LAW(O01_run_final_time, put(o, RunOptions(with(is("final_time", vg_in(1))))), auto r = run0(); r.final_time = Duration(vg_in(1)); put(o, r))
LAW(O01_run_max_cycles, put(o, RunOptions(with(is("max_cycles", vg_long(1))))), auto r = run0(); r.max_cycles = vg_long(1); put(o, r))
LAW(O01_run_smallest, put(o, RunOptions(with(is("smallest_time_step_size", vg_in(1))))), auto r = run0(); r.smallest_time_step_size = Duration(vg_in(1)); put(o, r))
LAW(O01_run_cfl, put(o, RunOptions(with(is("cfl", vg_in(1))))), auto r = run0(); r.cfl = vg_in(1); put(o, r))
LAW(O01_run_backup, put(o, RunOptions(with(is("do_backup", 0)))); put(o, RunOptions(with(is("do_backup", 3)))), auto r = run0(); r.do_backup = 0; put(o, r); r.do_backup = 3; put(o, r))
LAW(O01_run_all, put(o, RunOptions(with(is("cfl", vg_in(1)), is("do_backup", 7), is("final_time", vg_in(2)), is("max_cycles", vg_long(3)), is("smallest_time_step_size", vg_in(4))))), RunOptions r; r.cfl = vg_in(1); r.do_backup = 7; r.final_time = Duration(vg_in(2)); r.max_cycles = vg_long(3); r.smallest_time_step_size = Duration(vg_in(4)); put(o, r))
// ------------------------------------------------------------------- files
inline void put(Out& o, const LogOptions& l) { put(o, l.file_template); o.put(double(l.which_mpi_ranks_do_log.size())); for (std::size_t i = 0; i < 3; ++i) o.put(i < l.which_mpi_ranks_do_log.size() ? l.which_mpi_ranks_do_log[i] : -1.0); o.put(double(l.channel_blacklist.size())); for (auto& s : l.channel_blacklist) put(o, s); }
using Ints = std::vector<int>; using Names = std::vector<std::string>; using Reals = std::vector<double>;
LAW(O01_log_none, put(o, LogOptions(Map{})), LogOptions l; l.file_template = std::string("{rank:04d}.log"); l.which_mpi_ranks_do_log = Ints{0}; put(o, l))
LAW(O01_log_file, put(o, LogOptions(with(is("file_template", "abc")))), LogOptions l; l.file_template = std::string("abc"); put(o, l))
LAW(O01_log_ranks, put(o, LogOptions(with(is("which_mpi_ranks_do_log", Ints{3, 5})))), LogOptions l; l.which_mpi_ranks_do_log = Ints{3, 5}; put(o, l))
LAW(O01_log_blacklist, put(o, LogOptions(with(is("channel_blacklist", Names{"x", "yy"})))), LogOptions l; l.channel_blacklist = Names{"x", "yy"}; put(o, l))
inline void put(Out& o, const InputFileOptions& l) { put(o, l.file_template); o.put(l.copy_input_file); }
LAW(O01_input_none, put(o, InputFileOptions(Map{})), put(o, std::string("input.py")); o.put(0.0))
LAW(O01_input_file, put(o, InputFileOptions(with(is("file_template", "abc")))), put(o, std::string("abc")); o.put(0.0))
LAW(O01_input_copy, put(o, InputFileOptions(with(is("copy_input_file", true)))), put(o, std::string("input.py")); o.put(1.0))
// ------------------------------------------------------------------ outputs
struct Grid { double t; std::ptrdiff_t c; Duration GetTimePoint() const { return Duration(t); } std::ptrdiff_t GetCycles() const { return c; } };
struct Sched : OutputAtFrequencyOrInterval<Grid> { using Base = OutputAtFrequencyOrInterval<Grid>; using Base::Base; double tag = -1; Sched(const Map& m, double t) : Base(m), tag(t) {}
  void operator()(const Grid& g) override { H->op(kOutput, tag, g.t, double(g.c)); }
  void put(Out& o) const { o.put(double(frequencies_.size())); for (auto f : frequencies_) o.put(double(f)); o.put(double(intervals_.size())); for (auto i : intervals_) o.put(i.count()); o.put(smallest_time_step_size_.count()); } };
LAW(O01_sched_none, Sched(Map{}).put(o), o.put(0.0); o.put(0.0); o.put(1e-12))
LAW(O01_sched_frequencies, Sched(with(is("frequencies", Ints{4, 9}))).put(o), o.put(2.0); o.put(4.0); o.put(9.0); o.put(0.0); o.put(1e-12))
LAW(O01_sched_intervals, Sched(with(is("intervals", Reals{vg_in(1), vg_in(2)}))).put(o), o.put(0.0); o.put(2.0); o.put(vg_in(1)); o.put(vg_in(2)); o.put(1e-12))
LAW(O01_sched_smallest, Sched(with(is("smallest_time_step_size", vg_in(1)))).put(o), o.put(0.0); o.put(0.0); o.put(vg_in(1)))
LAW(O01_sched_all, Sched(with(is("smallest_time_step_size", vg_in(1)), is("frequencies", Ints{4}), is("intervals", Reals{vg_in(2)}))).put(o), o.put(1.0); o.put(4.0); o.put(1.0); o.put(vg_in(2)); o.put(vg_in(1)))
/// several outputs by type: their own options win, common ones are the default
inline double Made; inline const Map* Given;
struct Spy : BasicOutput<Grid> { double id; Map m; Spy(const Map& o, double i) : id(i), m(o) {} Duration NextOutputTime(Duration) override { return Duration(vg_in(300) + id); } bool ShallOutputNow(const Grid&) override { return true; }
  void operator()(const Grid&) override { H->op(kOutput, id, double(m.size())); auto f = GetOptionOr(m, "frequencies", Ints{}); for (int x : f) H->op(kCycles, x); auto d = GetOptionOr(m, "intervals", Reals{}); for (double x : d) H->op(kTime, x); H->op(kSource, GetOptionOr(m, "x", vg_in(301))); } };
inline OutputFactory<Grid> factory() { OutputFactory<Grid> f; f.RegisterOutput<Spy>("one", 1.0); f.RegisterOutput<Spy>("two", 2.0); return f; }
inline py::object output(const char* type, bool freq, bool ival, int x) { py::dict d; if (type) d["type"] = py::object(type); if (freq) d["frequencies"] = py::object(Ints{x, x + 1}); if (ival) d["intervals"] = py::object(Reals{vg_in(x), vg_in(x + 1)}); d["x"] = py::object(vg_in(x + 2)); return d; }
inline py::object outputs(std::vector<py::object> v) { py::object o; o.items = std::move(v); return o; }
inline void made(Out& o, std::vector<py::object> v, bool common) { Map m; m.emplace("outputs", outputs(std::move(v))); if (common) { m.emplace("frequencies", Ints{50}); m.emplace("intervals", Reals{vg_in(51)}); } MultipleOutputs<Grid> out(factory(), m); out(Grid{0.5, 1}); o.put(H->h); }
/// what one of them does, with n options in all
inline void does(double id, int n, Ints f, Reals d, double x) { H->op(kOutput, id, n); for (int y : f) H->op(kCycles, y); for (double y : d) H->op(kTime, y); H->op(kSource, x); }
LAW2(O01_outputs_none, MultipleOutputs<Grid> x(factory(), Map{}); x(Grid{0.5, 1}); o.put(H->h), o.put(H->h))
LAW2(O01_outputs_one, made(o, {output("one", false, false, 60)}, false), does(1, 4, {}, {}, vg_in(62)); o.put(H->h))
LAW2(O01_outputs_common, made(o, {output("two", false, false, 60)}, true), does(2, 4, {50}, {vg_in(51)}, vg_in(62)); o.put(H->h))
LAW2(O01_outputs_own, made(o, {output("two", true, true, 60)}, true), does(2, 4, {60, 61}, {vg_in(60), vg_in(61)}, vg_in(62)); o.put(H->h))
LAW2(O01_outputs_mixed, made(o, {output("two", true, false, 60), output("one", false, true, 70)}, true), does(2, 4, {60, 61}, {vg_in(51)}, vg_in(62)); does(1, 4, {50}, {vg_in(70), vg_in(71)}, vg_in(72)); o.put(H->h))
LAW2(O01_outputs_unknown, made(o, {output("three", false, false, 60), output(nullptr, true, true, 70), output("one", false, false, 80)}, true), does(1, 4, {50}, {vg_in(51)}, vg_in(82)); o.put(H->h))
LAW2(O01_factory, auto f = factory(); o.put(f.Contains("one")); o.put(f.Contains("two")); o.put(f.Contains("three")); o.put(f.RegisterOutput<Spy>("one", 9.0)); o.put(f.RegisterOutput<Spy>("three", 3.0)); o.put(f.Contains("three")); (*f.MakeOutput("one", Map{}))(Grid{0, 0}); (*f.MakeOutput("three", Map{}))(Grid{0, 0}); o.put(!f.MakeOutput("four", Map{})); o.put(H->h), o.put(1.0); o.put(1.0); o.put(0.0); o.put(0.0); o.put(1.0); o.put(1.0); does(1, 0, {}, {}, vg_in(301)); does(3, 0, {}, {}, vg_in(301)); o.put(1.0); o.put(H->h))
