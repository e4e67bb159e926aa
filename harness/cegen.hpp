// Generated continuous-energy nuclides and what their data mean.
#pragma once
#include "h5gen.hpp"

namespace model {
constexpr double kBoltzmann = 8.617333262145e-11; // MeV / K
struct Eval { Tab1 xs; double T = 293.6; };
struct Tsl {
  // total = sum_k S_k E[i][k] T[j][k]
  std::vector<double> Es, Ts, S; std::vector<std::vector<double>> E, T;
  Tab1 majorant;
  // beta(F; e, t) per partition: lo(e,t) + span(e,t) * shape(F), where the
  // shape is a mixture of g(F) and g2(F) with the share lam(e,t) of the latter
  struct BetaPart { std::vector<double> F, g, g2, Es, Ts; std::vector<std::vector<double>> lo, hi, lam; double s0, s1;
    std::vector<Ld> row(size_t k, size_t e) const { std::vector<Ld> v; for (size_t j = 0; j < Ts.size(); j++) v.push_back(lo[e][j] + ((Ld)hi[e][j] - lo[e][j]) * (g[k] + lam[e][j] * ((Ld)g2[k] - g[k]))); return v; } };
  // alpha(F; b, t): hi(b,t) * shape(F)
  struct AlphaPart { std::vector<double> F, g, g2, betas, Ts; std::vector<std::vector<double>> hi, lam; double s0;
    std::vector<Ld> row(size_t k, size_t b) const { std::vector<Ld> v; for (size_t j = 0; j < Ts.size(); j++) v.push_back(hi[b][j] * (g[k] + lam[b][j] * ((Ld)g2[k] - g[k]))); return v; } };
  std::vector<BetaPart> bp; std::vector<AlphaPart> ap;
  double beta_cutoff = 20, alpha_cutoff = 1000;
  double cutoff() const { return Es.back(); }
  Ld node(size_t i, size_t j) const { Ld s = 0; for (size_t k = 0; k < S.size(); k++) s += (Ld)S[k] * E[i][k] * T[j][k]; return s; }
  Ld total(double e, double t) const {
    std::vector<Ld> col;
    for (size_t i = 0; i < Es.size(); i++) { std::vector<Ld> row; for (size_t j = 0; j < Ts.size(); j++) row.push_back(node(i, j)); col.push_back(interp(Ts, row, t)); }
    return interp(Es, col, e);
  }
  std::string xml(Files& f) const {
    auto two = [&](const std::vector<double>& a, const std::vector<std::vector<double>>& m) { Table t; t.axes = {a, {}}; for (size_t k = 0; k < m[0].size(); k++) t.axes[1].push_back(k); for (auto& r : m) for (double v : r) t.values.push_back(v); return f.put(t); };
    auto one = [&](const std::vector<double>& v) { Table t; t.axes.emplace_back(); for (size_t k = 0; k < v.size(); k++) t.axes[0].push_back(k); t.values = v; return f.put(t); };
    std::string s = "<tsl majorant=\"" + f.put(majorant) + "\" total_E=\"" + two(Es, E) + "\" total_T=\"" + two(Ts, T) + "\" total_S=\"" + one(S) + "\" beta_cutoff=\"" + num(beta_cutoff) + "\" alpha_cutoff=\"" + num(alpha_cutoff) + "\"><beta_partitions>";
    for (auto& p : bp) {
      std::vector<std::vector<double>> m; for (double g : p.g) m.push_back({1 / p.s0, g / p.s1});
      bool mix = p.g2 != p.g;
      if (mix) for (size_t k = 0; k < m.size(); k++) m[k].push_back((p.g2[k] - p.g[k]) / p.s0);
      Table t; t.axes = {p.Es, p.Ts, {0, 1}};
      if (mix) t.axes[2].push_back(2);
      for (size_t e = 0; e < p.Es.size(); e++) for (size_t j = 0; j < p.Ts.size(); j++) { double d = p.hi[e][j] - p.lo[e][j]; t.values.push_back(p.lo[e][j]); t.values.push_back(d); if (mix) t.values.push_back(d * p.lam[e][j]); }
      s += "<partition CDF=\"" + two(p.F, m) + "\" S=\"" + one(mix ? std::vector<double>{p.s0, p.s1, p.s0} : std::vector<double>{p.s0, p.s1}) + "\" E_T=\"" + f.put(t) + "\"/>";
    }
    s += "</beta_partitions><alpha_partitions>";
    for (auto& p : ap) {
      std::vector<std::vector<double>> m; for (double g : p.g) m.push_back({g / p.s0});
      bool mix = p.g2 != p.g;
      if (mix) for (size_t k = 0; k < m.size(); k++) m[k].push_back((p.g2[k] - p.g[k]) * p.s0);
      Table t; t.axes = {p.betas, p.Ts, {0}};
      if (mix) t.axes[2].push_back(1);
      for (size_t e = 0; e < p.betas.size(); e++) for (size_t j = 0; j < p.Ts.size(); j++) { t.values.push_back(p.hi[e][j]); if (mix) t.values.push_back(p.hi[e][j] * p.lam[e][j]); }
      s += "<partition CDF=\"" + two(p.F, m) + "\" S=\"" + one(mix ? std::vector<double>{p.s0, 1 / p.s0} : std::vector<double>{p.s0}) + "\" beta_T=\"" + f.put(t) + "\"/>";
    }
    return s + "</alpha_partitions></tsl>";
  }
};
struct CeData { std::optional<Eval> total, capture, scatter, fission; Tab1 nubar; std::optional<Tsl> tsl; };
struct CeNuclide {
  std::string name; double awr = 1; std::optional<CeData> neutron, photon;
  static std::string ev(const char* tag, const Eval& e, Files& f) { return std::string{"<"} + tag + " file=\"" + f.put(e.xs) + "\" temperature=\"" + num(e.T) + "\"/>"; }
  std::string xml(Files& f) const {
    std::string s = "<nuclide name=\"" + name + "\" awr=\"" + num(awr) + "\">";
    for (int ty = 0; ty < 2; ty++) {
      auto& d = ty ? photon : neutron;
      if (!d) continue;
      s += ty ? "<photon>" : "<neutron>";
      if (d->total) s += ev("total", *d->total, f);
      if (d->capture) s += ev("capture", *d->capture, f);
      if (d->scatter) s += "<scatter>" + ev("xs", *d->scatter, f) + (d->tsl ? d->tsl->xml(f) : "") + "</scatter>";
      if (d->fission) s += "<fission>" + ev("xs", *d->fission, f) + ev("nubar", Eval{d->nubar, d->fission->T}, f) + "</fission>";
      s += ty ? "</photon>" : "</neutron>";
    }
    return s + "</nuclide>";
  }
};
inline std::string ce_xml(const std::vector<CeNuclide>& n, Files& f) {
  std::string s = "<nuclides><continuous>\n";
  for (auto& x : n) s += "  " + x.xml(f) + "\n";
  return s + "</continuous></nuclides>\n";
}
// --- physics by the documentation ----------------------------------------
inline bool near_T(double T, double eval) { return std::fabs(T - eval) / eval < 0.01; }
// the rules change at these temperatures and energies
inline bool rule_edge(double awr, const Eval& e, double E, double T) {
  return std::fabs(std::fabs(T - e.T) / e.T - 0.01) < 1e-9 || std::fabs(E * awr / (500 * kBoltzmann * std::max(T, 1e-300)) - 1) < 1e-9;
}
inline Ld fg_adjust(double awr, double E, double T) {
  if (T == 0) return 1;
  Ld a = (Ld)awr * E / ((Ld)kBoltzmann * T);
  return (1 + 1 / (2 * a)) * std::erf(std::sqrt(a)) + std::exp(-a) / std::sqrt((Ld)M_PIl * a);
}
inline bool fg_valid(double awr, double E, double T, bool neutron) { return neutron && (awr <= 1 || E < 500 * kBoltzmann * T / awr); }
inline bool tsl_valid(const CeData& d, double E, bool neutron) { return neutron && d.tsl && E < d.tsl->cutoff(); }
inline Ld ce_scatter(const CeNuclide& n, bool neutron, double E, double T) {
  const CeData& d = neutron ? *n.neutron : *n.photon;
  if (!d.scatter) return 0;
  if (tsl_valid(d, E, neutron)) return d.tsl->total(E, T);
  Ld v = d.scatter->xs.at(E);
  if (!near_T(T, d.scatter->T) && fg_valid(n.awr, E, T, neutron)) v = v / fg_adjust(n.awr, E, d.scatter->T) * fg_adjust(n.awr, E, T);
  return v;
}
inline Ld ce_sum(const CeNuclide& n, bool neutron, double E, double T) {
  const CeData& d = neutron ? *n.neutron : *n.photon;
  return (d.capture ? d.capture->xs.at(E) : 0) + ce_scatter(n, neutron, E, T) + (d.fission ? d.fission->xs.at(E) : 0);
}
inline Ld ce_total(const CeNuclide& n, bool neutron, double E, double T) {
  const CeData& d = neutron ? *n.neutron : *n.photon;
  if (d.total && !tsl_valid(d, E, neutron) && near_T(T, d.total->T)) return d.total->xs.at(E);
  return ce_sum(n, neutron, E, T);
}
// is the answer sensitive to rounding of a rule's threshold?
inline bool ce_edge(const CeNuclide& n, bool neutron, double E, double T) {
  const CeData& d = neutron ? *n.neutron : *n.photon;
  if (d.total && rule_edge(1, *d.total, 1, T)) return true;
  return d.scatter && rule_edge(n.awr, *d.scatter, E, T);
}
// --- generation ----------------------------------------------------------
inline Tab1 gen_xs(pbt::Case& c, const std::vector<double>& grid, double scale) {
  Tab1 t; t.x = grid;
  for (size_t i = 0; i < grid.size(); i++) t.y.push_back(scale * (c.chance(1, 6) ? c.range(1, 3) : c.uniform(0.05, 2)));
  return t;
}
struct CeOpt { bool fission = true, tsl = false, total = true, capture = true; bool force_total = false, consistent = true; double lo = 1e-11, hi = 20; double T0 = 0; double awr = 0; };
inline Tsl gen_tsl(pbt::Case& c, double awr);
inline CeData gen_ce(pbt::Case& c, const CeOpt& o, double awr) {
  CeData d;
  auto grid = gen_axis(c, c.range(1, c.chance(1, 12) ? 80 : 8), o.lo, o.hi, true);
  double T0 = o.T0 > 0 ? o.T0 : c.chance(1, 3) ? 293.6 : c.uniform(50, 2000);
  auto temp = [&] { return o.consistent ? T0 : c.chance(2, 3) ? T0 : c.uniform(50, 2000); };
  int which = c.below(6);
  if (o.capture && which != 1) d.capture = Eval{gen_xs(c, grid, 1), temp()};
  if (which != 2) d.scatter = Eval{gen_xs(c, grid, 1), temp()};
  if (o.fission && c.chance(1, 3)) {
    d.fission = Eval{gen_xs(c, grid, 1), temp()};
    d.nubar.x = gen_axis(c, c.range(1, 4), o.lo, o.hi, true);
    for (size_t i = 0; i < d.nubar.x.size(); i++) d.nubar.y.push_back(c.chance(1, 4) ? c.range(0, 3) : c.uniform(0, 4));
  }
  if (!d.capture && !d.scatter && !d.fission) d.scatter = Eval{gen_xs(c, grid, 1), temp()};
  if (o.tsl && d.scatter) d.tsl = gen_tsl(c, awr);
  if (o.total && (o.force_total || c.chance(2, 3))) {
    Eval t; t.T = o.consistent ? T0 : temp(); t.xs.x = grid;
    for (size_t i = 0; i < grid.size(); i++) {
      double s = (d.capture ? d.capture->xs.y[i] : 0) + (d.scatter ? d.scatter->xs.y[i] : 0) + (d.fission ? d.fission->xs.y[i] : 0);
      t.xs.y.push_back(o.consistent ? s : s * c.uniform(1, 1.3));
    }
    d.total = t;
  }
  return d;
}
inline Tsl gen_tsl(pbt::Case& c, double awr) {
  Tsl t;
  double cut = c.logreal(1e-7, 5e-6);
  bool big = c.chance(1, 10); // of the size of evaluated libraries
  t.Ts = gen_axis(c, big ? c.range(5, 20) : c.range(1, 4), c.uniform(200, 350), c.uniform(400, 900), false);
  t.Es = gen_axis(c, big ? c.range(10, 60) : c.range(2, 6), cut * c.logreal(1e-4, 0.1), cut, true);
  int K = big ? c.range(2, 10) : c.range(1, 3);
  for (int k = 0; k < K; k++) t.S.push_back(k == 0 ? c.uniform(5, 20) : c.uniform(0.1, 1));
  for (size_t i = 0; i < t.Es.size(); i++) { std::vector<double> r; for (int k = 0; k < K; k++) r.push_back(k == 0 ? c.uniform(0.5, 2) : c.real(-0.5, 0.5)); t.E.push_back(r); }
  for (size_t j = 0; j < t.Ts.size(); j++) { std::vector<double> r; for (int k = 0; k < K; k++) r.push_back(k == 0 ? c.uniform(0.5, 2) : c.real(-0.5, 0.5)); t.T.push_back(r); }
  // majorant: on its own grid
  bool own = c.chance(1, 2);
  t.majorant.x = own ? t.Es : gen_axis(c, c.range(1, 5), t.Es[0], cut, true);
  double top = 0; for (size_t i = 0; i < t.Es.size(); i++) for (size_t j = 0; j < t.Ts.size(); j++) top = std::max(top, (double)t.node(i, j));
  for (size_t i = 0; i < t.majorant.x.size(); i++) {
    double m = top;
    if (own) { m = 0; for (size_t j = 0; j < t.Ts.size(); j++) m = std::max(m, (double)t.node(i, j)); }
    t.majorant.y.push_back(m * c.uniform(1, 1.1));
  }
  // beta tables: incident energies increasing over the partitions, last >= cutoff
  double Tmin = t.Ts.front();
  t.beta_cutoff = c.uniform(5, 25);
  auto bE = gen_axis(c, big ? c.range(5, 25) : c.range(2, 6), t.Es[0] * c.logreal(0.3, 3), cut, true);
  bE.back() = cut;
  for (size_t i = 0; i + 1 < bE.size(); i++) bE[i] = std::min(bE[i], cut * (1 - 1e-3 * (bE.size() - i)));
  bool ok = true; for (size_t i = 1; i < bE.size(); i++) ok &= bE[i] > bE[i - 1];
  if (!ok) bE = {cut / 3, cut};
  auto gen_F = [&](std::vector<double>& F, std::vector<double>& g, std::vector<double>& g2) {
    int n = big ? c.range(6, 30) : c.range(1, 6);
    F = gen_axis(c, n, c.uniform(0.02, 0.2), c.uniform(0.8, 0.98), false);
    g = gen_axis(c, n, 0, 1, false);
    if (n == 1) g[0] = c.uniform(0.1, 0.9);
    g2 = g;
    if (c.chance(1, 2)) { g2 = gen_axis(c, n, 0, 1, false); if (n == 1) g2[0] = c.uniform(0.1, 0.9); }
  };
  size_t at = 0;
  while (at < bE.size()) {
    size_t n = c.chance(1, 2) ? bE.size() - at : c.range(1, (int)(bE.size() - at));
    Tsl::BetaPart p;
    p.Es.assign(bE.begin() + at, bE.begin() + at + n);
    at += n;
    p.Ts = c.chance(1, 2) ? t.Ts : gen_axis(c, c.range(1, 3), t.Ts.front(), t.Ts.back() + 50, false);
    gen_F(p.F, p.g, p.g2);
    p.s0 = c.logreal(0.1, 10); p.s1 = c.logreal(0.1, 10);
    for (double e : p.Es) {
      std::vector<double> lo, hi;
      for (double tt : p.Ts) {
        double m = e / (kBoltzmann * std::max(tt, 1100.)); // reachable at any temperature used
        lo.push_back(c.chance(1, 4) ? c.uniform(0, 0.5) : -std::min(m, 0.8 * t.beta_cutoff) * c.uniform(0.1, 0.95));
        hi.push_back(lo.back() + (t.beta_cutoff - lo.back()) * c.uniform(0.05, 0.95));
      }
      p.lo.push_back(lo); p.hi.push_back(hi);
      p.lam.emplace_back(); for (size_t j = 0; j < p.Ts.size(); j++) p.lam.back().push_back(p.g2 == p.g ? 0 : c.unit());
    }
    t.bp.push_back(p);
  }
  // alpha tables
  double Tlow = Tmin * 0.5;
  double amax = std::pow(std::sqrt(cut) + std::sqrt(cut + t.beta_cutoff * kBoltzmann * 1100), 2) / (awr * kBoltzmann * Tlow);
  t.alpha_cutoff = amax * c.uniform(1.05, 2);
  auto bb = gen_axis(c, big ? c.range(4, 25) : c.range(1, 6), c.logreal(0.01, 2), c.uniform(3, 1.2 * t.beta_cutoff), true);
  at = 0;
  while (at < bb.size()) {
    size_t n = c.chance(1, 2) ? bb.size() - at : c.range(1, (int)(bb.size() - at));
    Tsl::AlphaPart p;
    p.betas.assign(bb.begin() + at, bb.begin() + at + n);
    at += n;
    p.Ts = c.chance(1, 2) ? t.Ts : gen_axis(c, c.range(1, 3), t.Ts.front(), t.Ts.back() + 50, false);
    gen_F(p.F, p.g, p.g2);
    for (auto* v : {&p.g, &p.g2}) for (auto& g : *v) g = 0.02 + 0.98 * g;
    p.s0 = c.logreal(0.1, 10);
    for (size_t i = 0; i < p.betas.size(); i++) { std::vector<double> hi; for (size_t j = 0; j < p.Ts.size(); j++) hi.push_back(t.alpha_cutoff * c.logreal(0.02, 0.95)); p.hi.push_back(hi); p.lam.emplace_back(); for (size_t j = 0; j < p.Ts.size(); j++) p.lam.back().push_back(p.g2 == p.g ? 0 : c.unit()); }
    t.ap.push_back(p);
  }
  return t;
}
// --- tables of the thermal model -----------------------------------------
// beta (alpha) at CDF node f of incident energy (|beta|) e of partition p
template <class Rows> inline Ld held(const std::vector<double>& Ts, const Rows& row, double T) { std::vector<Ld> v(row.begin(), row.end()); return interp(Ts, v, T); }
} // namespace model
