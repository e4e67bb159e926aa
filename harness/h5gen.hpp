// Synthesised nuclear data files of the documented layout and what they mean.
#pragma once
#include "model.hpp"
#include <H5Cpp.h>
#include <unistd.h>

namespace model {
// A table over D axes, last axis fastest.
struct Table {
  std::vector<std::vector<double>> axes;
  std::vector<double> values;
  size_t flat(const std::vector<size_t>& i) const { size_t f = 0; for (size_t d = 0; d < axes.size(); d++) f = f * axes[d].size() + i[d]; return f; }
  double at(const std::vector<size_t>& i) const { return values[flat(i)]; }
  void write(const std::string& path, int levels = -1, bool attr = true) const {
    static bool quiet = [] { H5::Exception::dontPrint(); return true; }();
    (void)quiet;
    H5::H5File f(path, H5F_ACC_TRUNC);
    auto g = f.createGroup("/pandas");
    if (attr) {
      unsigned long long n = levels < 0 ? axes.size() : levels;
      auto a = g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG, H5::DataSpace(H5S_SCALAR));
      a.write(H5::PredType::NATIVE_ULLONG, &n);
    }
    for (size_t d = 0; d < axes.size(); d++) {
      hsize_t n = axes[d].size();
      auto ds = g.createDataSet("axis1_level" + std::to_string(d), H5::PredType::NATIVE_DOUBLE, H5::DataSpace(1, &n));
      ds.write(axes[d].data(), H5::PredType::NATIVE_DOUBLE);
    }
    hsize_t n[2] = {values.size(), 1};
    auto ds = g.createDataSet("block0_values", H5::PredType::NATIVE_DOUBLE, H5::DataSpace(values.size() % 2 ? 1 : 2, n));
    ds.write(values.data(), H5::PredType::NATIVE_DOUBLE);
  }
};
// linear interpolation with held end values
inline Ld interp(const std::vector<double>& x, const std::vector<Ld>& y, Ld v) {
  if (v <= x.front()) return y.front();
  if (v >= x.back()) return y.back();
  size_t i = 0;
  while (i + 2 < x.size() && v >= x[i + 1]) i++;
  return y[i] + (y[i + 1] - y[i]) * ((v - x[i]) / ((Ld)x[i + 1] - x[i]));
}
struct Tab1 {
  std::vector<double> x, y;
  Ld at(Ld v) const { return interp(x, std::vector<Ld>(y.begin(), y.end()), v); }
  Table table() const { return Table{{x}, y}; }
};
// increasing axis of n values in about [lo, hi]
inline std::vector<double> gen_axis(pbt::Case& c, int n, double lo, double hi, bool log) {
  std::vector<double> v;
  double a = log ? std::log(lo) : lo, b = log ? std::log(hi) : hi;
  std::vector<double> w; double s = 0;
  for (int i = 0; i < n; i++) { w.push_back(c.uniform(0.2, 1)); s += w.back(); }
  double t = 0;
  for (int i = 0; i < n; i++) { double u = n == 1 ? 0.5 : t / (s - w.back()); v.push_back(log ? std::exp(a + u * (b - a)) : a + u * (b - a)); t += w[i]; }
  return v;
}
// next file name in this process's scratch directory (names are reused)
struct Files {
  std::string dir = pbt::scratch();
  int n = 0;
  std::string put(const Table& t) { std::string p = dir + "/d" + std::to_string(n++) + ".h5"; t.write(p); return p; }
  std::string put(const Tab1& t) { return put(t.table()); }
};
} // namespace model
