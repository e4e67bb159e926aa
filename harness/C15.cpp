#include "h5gen.hpp"
#include "ContinuousMap.hpp"
#include "HDF5DataSet.hpp"
#include <fstream>
using namespace model;
using pbt::Case;
using pbt::cat;
static double value(Case& c) { return c.chance(1, 5) ? c.range(-3, 3) : c.sign() * c.logreal(1e-12, 1e12); }
static Table gen_table(Case& c, int D) {
  Table t;
  size_t n = 1;
  for (int d = 0; d < D; d++) {
    int len = c.chance(1, 12) ? c.range(1, 40) : c.range(1, 6);
    t.axes.push_back(gen_axis(c, len, c.chance(1, 3) ? -5 : 1e-5, c.uniform(10, 1000), false));
    n *= len;
  }
  // distinct values so that a wrong address is visible
  double base = c.uniform(0, 1);
  bool smooth = c.chance(1, 2);
  for (size_t i = 0; i < n; i++) t.values.push_back(smooth ? base + i : value(c));
  return t;
}
template <class F> static std::string thrown(F f) {
  try { f(); return ""; }
  catch (const std::exception& e) { return std::string{"error: "} + e.what(); }
  catch (const H5::Exception& e) { return "error: HDF5 " + e.getDetailMsg(); }
}
template <size_t D, class... I> static double get(const HDF5DataSet<D>& s, const std::vector<size_t>& i, I... k) {
  if constexpr (sizeof...(I) == D) return s.at(k...);
  else return get(s, i, k..., i[sizeof...(I)]);
}
template <size_t D> static void grid_D(Case& c) {
  Table t = gen_table(c, D);
  Files f;
  std::string path = f.put(t);
  std::string shape; for (auto& a : t.axes) shape += std::to_string(a.size()) + " ";
  c.note("shape ", shape);
  HDF5DataSet<D> s{path};
  for (size_t d = 0; d < D; d++) c.check(s.GetAxis(d) == t.axes[d], cat("axis ", d, " is not what the file says"));
  std::vector<size_t> i(D, 0);
  size_t n = t.values.size();
  for (size_t k = 0; k < n; k++) {
    size_t r = k;
    for (size_t d = D; d-- > 0;) { i[d] = r % t.axes[d].size(); r /= t.axes[d].size(); }
    double v = get<D>(s, i);
    c.check(v == t.values[k], cat("value at grid point ", k, " of shape ", shape, "is ", v, ", stored ", t.values[k]));
  }
  // one index past the end, on each axis, others in range
  for (size_t d = 0; d < D; d++) {
    for (size_t e = 0; e < D; e++) i[e] = c.below(t.axes[e].size());
    i[d] = t.axes[d].size() + (c.chance(1, 3) ? c.below(1000000) : 0);
    std::string e = thrown([&] { get<D>(s, i); });
    c.check(e.size() > 8, cat("index past the end of axis ", d, " of shape ", shape, "was not reported"));
  }
  // wrong number of axes, missing file
  int wrong = c.below(4) + 1;
  std::string bad = f.dir + "/bad.h5";
  Table w = gen_table(c, wrong);
  w.write(bad);
  if (wrong != (int)D) c.check(thrown([&] { HDF5DataSet<D>{bad}; }).size() > 8, cat("a file with ", wrong, " axes was read as one with ", D));
  c.check(thrown([&] { HDF5DataSet<D>{f.dir + "/none.h5"}; }).find("none.h5") != std::string::npos, "a missing file was not reported by name");
  if (c.chance(1, 8)) {
    std::string junk = f.dir + "/junk.h5";
    std::ofstream{junk} << std::string(c.below(3000), 'x');
    c.check(thrown([&] { HDF5DataSet<D>{junk}; }).size() > 5, "a file that is not HDF5 was accepted");
  }
  c.evals(n + D + 2);
  int more = 0; for (auto& a : t.axes) more += a.size() > 1;
  c.nontrivial(more >= (int)std::min<size_t>(2, D));
  c.label(cat("axes ", D));
}
static void grid(Case& c) { switch (c.below(3)) { case 0: return grid_D<1>(c); case 1: return grid_D<2>(c); default: return grid_D<3>(c); } }
static Ld ref_at(const Table& t, const std::vector<double>& k, std::vector<size_t> i = {}) {
  size_t d = i.size();
  if (d == t.axes.size()) return t.at(i);
  std::vector<Ld> y;
  for (size_t j = 0; j < t.axes[d].size(); j++) { auto q = i; q.push_back(j); y.push_back(ref_at(t, k, q)); }
  return interp(t.axes[d], y, k[d]);
}
template <size_t D, class M, class... K> static double eval(const M& m, const std::vector<double>& k, K... a) {
  if constexpr (sizeof...(K) == D) return m.at(a...);
  else return eval<D>(m, k, a..., k[sizeof...(K)]);
}
template <size_t D> static void fun_D(Case& c) {
  Table t = gen_table(c, D);
  // make axes of varied spacing; values of one magnitude
  for (auto& v : t.values) v = c.chance(1, 4) ? c.range(-3, 3) : c.uniform(-10, 10);
  Files f;
  HDF5DataSet<D> s{f.put(t)};
  auto m = s.ToContinuousMap();
  Ld mag = 1e-300L; for (double v : t.values) mag = std::max(mag, (Ld)std::fabs(v));
  for (int q = 0; q < 12; q++) {
    std::vector<double> k; bool on = true, out = false;
    for (size_t d = 0; d < D; d++) {
      auto& a = t.axes[d];
      double w = a.back() - a.front() + 1;
      switch (c.below(4)) {
      case 0: k.push_back(a[c.below(a.size())]); break;
      case 1: k.push_back(a.back() + w * c.logreal(1e-6, 100)); on = false; out = true; break;
      case 2: k.push_back(a.front() - w * c.logreal(1e-6, 100)); on = false; out = true; break;
      default: k.push_back(c.uniform(a.front(), a.back() + 1e-9)); on = false;
      }
    }
    double got = eval<D>(m, k);
    Ld want = ref_at(t, k);
    std::string at; for (double x : k) at += num(x) + " ";
    c.check(std::fabs(got - want) <= (on ? 1e-14L : 1e-11L) * mag, cat(on ? "grid point " : out ? "outside " : "between ", at, ": ", got, ", expected ", (double)want));
  }
  c.evals(12);
  int more = 0; for (auto& a : t.axes) more += a.size() > 1;
  c.nontrivial(more >= 1);
  c.label(cat("axes ", D));
}
static void function(Case& c) { switch (c.below(3)) { case 0: return fun_D<1>(c); case 1: return fun_D<2>(c); default: return fun_D<3>(c); } }
PBT_MAIN((pbt::Property{"C15",
  "Synthesised data files of the pandas layout with 1-3 axes of 1-40 entries. grid: every grid point addressed, one past-the-end address per axis, files with a wrong number of axes, missing and non-HDF5 files; function: the nested interpolating map at 12 points on, between and outside the grid against linear interpolation in extended precision. Non-trivial if at least two axes (one for one-axis files) have more than one entry.",
  {"Axis values are distinct and increasing, as tables of the documented layout are."},
  {{"grid", grid, 18000, 72000}, {"function", function, 18000, 72000}}}))
