#pragma once
#include "model.hpp"
namespace model {
// generated group constants; scale multiplies cross sections
struct MgOpt { bool fission = true, capture = true, scatter = true, zeros = true; double scale = 1; double nu_max = 3.7; bool force_total = true; bool downscatter_only = false; };
inline std::vector<double> gen_vec(pbt::Case& c, int n, double scale, bool zeros) {
  std::vector<double> v;
  if (n > 2000) { pbt::Rng r(c.seed()); for (int i = 0; i < n; i++) v.push_back(zeros && r.unit() < 0.2 ? 0 : scale * (0.01 + 1.99 * r.unit())); return v; }
  for (int i = 0; i < n; i++) v.push_back(zeros && c.chance(1, 5) ? 0 : c.chance(1, 4) ? scale * c.range(1, 4) : scale * c.uniform(0.01, 2));
  return v;
}
inline Mg gen_mg(pbt::Case& c, int G, const MgOpt& o) {
  Mg m;
  if (o.capture && c.chance(3, 4)) m.capture = gen_vec(c, G, o.scale, o.zeros);
  if (o.scatter && c.chance(3, 4)) {
    m.scatter = gen_vec(c, G * G, o.scale / std::sqrt((double)G), o.zeros);
    if (o.downscatter_only) for (int r = 0; r < G; r++) for (int k = 0; k < G; k++) if (r < k) m.scatter[r * G + k] = 0;
  }
  if (o.fission && c.chance(1, 2)) {
    m.fis_xs = gen_vec(c, G, o.scale, o.zeros);
    for (int i = 0; i < G; i++) m.nubar.push_back(c.chance(1, 6) ? 0 : c.chance(1, 4) ? c.range(1, 3) : c.uniform(0, o.nu_max));
    m.chi = gen_vec(c, G * G, c.chance(1, 2) ? 1. : 0.25, o.zeros);
    // only the ratios within a column count
    if (c.chance(1, 4)) for (int g = 0; g < G && G < 50; g++) { double f = c.logreal(1e-15, 1e6); for (int r = 0; r < G; r++) m.chi[r * G + g] *= f; }
    // every incident group needs some spectrum
    for (int g = 0; g < G; g++) { double s = 0; for (int r = 0; r < G; r++) s += m.chi[r * G + g]; if (s == 0) m.chi[c.below(G) * G + g] = 1; }
  }
  if (o.force_total) {
    if (m.capture.empty() && m.scatter.empty() && m.fis_xs.empty()) m.capture = gen_vec(c, G, o.scale, false);
  }
  return m;
}
inline double mg_scatter(const Mg& m, int G, int g) { double s = 0; if (!m.scatter.empty()) for (int r = 0; r < G; r++) s += m.scatter[r * G + g]; return s; }
inline double mg_total(const Mg& m, int G, int g) { return (m.capture.empty() ? 0 : m.capture[g]) + mg_scatter(m, G, g) + (m.fis_xs.empty() ? 0 : m.fis_xs[g]); }
} // namespace model
