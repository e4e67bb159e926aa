// Complete generated fixed-source multigroup problems.
#pragma once
#include "sim.hpp"
namespace model {
struct ProbOpt { bool photons = false, fission = true; int max_groups = 3, max_nuclides = 3, max_tallies = 4, max_depth = 3; bool voids = true, bins = true; double thick = 3; bool sens = false; bool zeros = true; bool source_any = true, coincident = true; };
inline Axis gen_cos_axis(pbt::Case& c) {
  Axis a;
  if (c.chance(1, 2)) { a.kind = Axis::linspace; a.min = c.chance(1, 2) ? -1 : c.uniform(-1, 0); a.max = c.chance(1, 2) ? 1 : c.uniform(0.1, 1); a.bins = c.range(1, c.chance(1, 15) ? 150 : 5); }
  else { a.kind = Axis::boundaries; double v = c.uniform(-1, 0); int n = c.range(1, 4); if (c.chance(1, 20)) { n = c.range(20, 120); for (int i = 0; i < n; i++) a.bounds.push_back(v += c.uniform(1e-4, 0.03)); } else for (int i = 0; i < n; i++) { a.bounds.push_back(v); v += c.uniform(0.05, 0.6); } }
  return a;
}
inline Axis gen_group_axis(pbt::Case& c, int G) {
  Axis a;
  switch (c.below(3)) {
  case 0: a.kind = Axis::linspace; a.min = 0.5; a.max = G + 0.5; a.bins = G; break;
  case 1: a.kind = Axis::boundaries; for (int g = 1; g <= G; g++) if (g == 1 || c.chance(2, 3)) a.bounds.push_back(g + (c.chance(1, 2) ? 0.5 : 0)); break;
  default: a.kind = Axis::logspace; a.min = 0; a.max = 1; a.bins = c.range(1, 4); if (c.chance(1, 2)) { a.base = 4; }
  }
  for (size_t i = 1; i < a.bounds.size(); i++) if (a.bounds[i] <= a.bounds[i - 1]) a.bounds[i] = a.bounds[i - 1] + 1;
  return a;
}
// keeps every group's expected secondaries per absorption below k
inline void tame(Mg& m, int G, double k) {
  if (m.fis_xs.empty()) return;
  for (int g = 0; g < G; g++) { double t = mg_total(m, G, g) - mg_scatter(m, G, g); double w = t > 0 ? m.nubar[g] * m.fis_xs[g] / t : 0; if (w > k) m.nubar[g] *= k / w; }
}
// names of everything but surfaces and regions
inline void confuse(pbt::Case& c, Input& in) {
  if (!c.chance(1, 2)) return;
  Names n(c);
  std::map<std::string, std::string> nuc, mat, per;
  for (size_t i = 0; i < in.nuclides.size(); i++) in.nuclides[i].name = nuc[in.nuclides[i].name] = n(i);
  for (size_t i = 0; i < in.materials.size(); i++) in.materials[i].name = mat[in.materials[i].name] = n(i);
  for (size_t i = 0; i < in.perturbations.size(); i++) in.perturbations[i].name = per[in.perturbations[i].name] = n(i);
  for (size_t i = 0; i < in.tallies.size(); i++) { in.tallies[i].name = n(i); for (auto& s : in.tallies[i].sens) s = per.at(s); }
  for (auto& r : in.regions) if (!r.is_void) r.material = mat.at(r.material);
  if (!nuc.empty()) { for (auto& m : in.materials) for (auto& x : m.nuclides) x.first = nuc.at(x.first); for (auto& p : in.perturbations) p.nuclide = nuc.at(p.nuclide); }
}
inline bool gen_problem(pbt::Case& c, Input& in, const ProbOpt& o, GeomOpt* go = nullptr) {
  GeomOpt g;
  g.scale = c.chance(1, 2) ? 1 : c.logreal(0.1, 10);
  if (c.chance(1, 3)) g.offset = V3{c.real(-2, 2), c.real(-2, 2), c.real(-2, 2)} * g.scale;
  g.max_depth = o.max_depth; g.voids = o.voids; g.coincident = o.coincident;
  gen_regions(c, in, g);
  if (go) *go = g;
  in.groups = c.range(1, o.max_groups > 1 && c.chance(1, 15) ? 4 * o.max_groups : o.max_groups);
  in.particles = o.photons ? "neutron photon" : "neutron";
  bool many = o.max_nuclides > 1 && c.chance(1, 20); // long lists of everything
  int n = c.range(1, many ? 20 : o.max_nuclides);
  for (int i = 0; i < n; i++) {
    MgOpt m; m.zeros = o.zeros; m.fission = o.fission; m.nu_max = 2.5;
    MgNuclide x; x.name = std::string(1, (char)('a' + (i * 11 + 3) % 26));
    x.neutron = gen_mg(c, in.groups, m);
    tame(*x.neutron, in.groups, 0.7);
    if (o.photons) { m.fission = o.fission && c.chance(1, 3); x.photon = gen_mg(c, in.groups, m); }
    in.nuclides.push_back(x);
  }
  // no material may be transparent to a type and group: force a little capture
  for (auto& x : in.nuclides) for (auto* d : {&x.neutron, &x.photon}) if (*d) {
    for (int q = 0; q < in.groups; q++) if (!(mg_total(**d, in.groups, q) > 0)) { if ((*d)->capture.empty()) (*d)->capture.assign(in.groups, 0); (*d)->capture[q] = 0.3; }
  }
  int nm = c.range(1, many ? 12 : 3);
  for (int i = 0; i < nm; i++) {
    Mat m; m.name = "m" + std::to_string(i); m.aden = c.uniform(0.05, o.thick) / g.scale;
    int k = c.range(1, n), st = c.below(n);
    for (int j = 0; j < k; j++) m.nuclides.push_back({in.nuclides[(st + j) % n].name, c.chance(1, 3) ? 1 : c.logreal(0.1, 10)});
    in.materials.push_back(m);
  }
  for (auto& r : in.regions) if (!r.is_void) r.material = in.materials[c.below(nm)].name;
  if (!gen_start(c, in, g)) return false;
  in.energy = std::to_string(c.range(1, in.groups));
  in.type = o.photons && c.chance(1, 2) ? "photon" : "neutron";
  in.direction_xml = !o.source_any || c.chance(1, 2) ? "<isotropic/>" : c.chance(1, 2) ? dir_xml(gen_dir(c)) : dir_xml(gen_dir(c), "isotropic-flux");
  int nt = c.range(1, many && o.max_tallies > 1 ? 24 : o.max_tallies);
  for (int i = 0; i < nt; i++) {
    Tally t; t.name = "t" + std::to_string(i); t.surface = in.surfaces[c.chance(1, 3) ? 0 : c.below(in.surfaces.size())].name;
    if (o.bins && c.chance(1, 2)) { t.cosine = gen_cos_axis(c); t.ref = gen_dir(c) * c.logreal(0.1, 10); }
    if (o.bins && c.chance(1, 2)) t.energy = gen_group_axis(c, in.groups);
    in.tallies.push_back(t);
  }
  for (auto& t : in.tallies) { bool used = false; for (auto& r : in.regions) for (auto& s : r.sides) used |= in.surfaces[s.first].name == t.surface; if (!used) t.surface = in.surfaces[in.regions[0].sides[0].first].name; }
  if (c.chance(1, 3)) in.tracking = c.chance(1, 2) ? "surface" : "cell delta";
  if (o.sens && c.chance(2, 3)) {
    int np = c.range(1, many ? 12 : 3);
    for (int i = 0; i < np; i++) { std::string nn; for (auto& r : in.regions) if (!r.is_void) for (auto& m : in.materials) if (m.name == r.material) nn = m.nuclides[c.below(m.nuclides.size())].first; in.perturbations.push_back({"p" + std::to_string(i), nn}); }
    for (auto& t : in.tallies) for (auto& p : in.perturbations) if (c.chance(1, 2)) t.sens.push_back(p.name);
  }
  in.chunksize = c.range(1, 100);
  confuse(c, in);
  return true;
}
} // namespace model
namespace model {
// two-sided p-value that two sets of independent values have the same mean
inline double same_mean_p(const std::vector<double>& v, const std::vector<double>& w) {
  auto ms = [](const std::vector<double>& x, double& m, double& s) { m = s = 0; for (double y : x) m += y / x.size(); for (double y : x) s += (y - m) * (y - m); s /= (double)(x.size() - 1) * x.size(); };
  double a, b, sa, sb;
  ms(v, a, sa); ms(w, b, sb);
  double se = std::sqrt(sa + sb);
  if (se < 1e-12 * (std::fabs(a) + std::fabs(b) + 1e-300)) return std::fabs(a - b) <= 1e-9 * std::fabs(b) ? 1 : 0;
  return pbt::normal_p2((a - b) / se);
}
// Compares per-chunk tallies of runs and of the reference walk bin by bin;
// bins with few counts are pooled per tally.
struct ChunkTest {
  const Input& in;
  std::vector<std::vector<std::vector<double>>> a, b; // [tally][bin][chunk]
  explicit ChunkTest(const Input& i) : in{i} { for (auto& t : in.tallies) { a.emplace_back(t.size()); b.emplace_back(t.size()); } }
  template <class S> static void push(std::vector<std::vector<std::vector<double>>>& x, const S& sum) { for (size_t t = 0; t < sum.size(); t++) for (size_t i = 0; i < sum[t].size(); i++) x[t][i].push_back(sum[t][i]); }
  std::string worst;
  double p() {
    double best = 1; int tests = 0;
    auto one = [&](const std::vector<double>& v, const std::vector<double>& w, const std::string& what) {
      double sv = 0, sw = 0; for (double y : v) sv += y; for (double y : w) sw += y;
      if (sv < 300 && sw < 300) { if (std::fabs(sv - sw) < 150) return; }
      tests++;
      double q = same_mean_p(v, w);
      if (q < best) { best = q; worst = pbt::cat(what, ": ", sv / v.size(), " per run, the reference gives ", sw / w.size()); }
    };
    for (size_t t = 0; t < a.size(); t++) {
      std::vector<double> ra, rb;
      for (size_t i = 0; i < a[t].size(); i++) {
        double s = 0, r = 0; for (double y : a[t][i]) s += y; for (double y : b[t][i]) r += y;
        if (std::max(s, r) >= 300) one(a[t][i], b[t][i], pbt::cat(in.tallies[t].name, " bin ", i));
        else { if (ra.empty()) { ra.assign(a[t][i].size(), 0); rb.assign(b[t][i].size(), 0); } for (size_t k = 0; k < ra.size(); k++) ra[k] += a[t][i][k]; for (size_t k = 0; k < rb.size(); k++) rb[k] += b[t][i][k]; }
      }
      if (!ra.empty()) one(ra, rb, in.tallies[t].name + " rare bins");
    }
    return std::min(1., best * std::max(1, tests));
  }
};
// where a crossing particle belongs in a tally's bins; *clear is cleared next
// to a bin boundary
inline size_t bin_of(const Tally& t, V3 d, double energy, bool* clear = nullptr) {
  size_t ci = 0, ei = 0;
  if (t.cosine.kind) { Ld mu = ((Ld)d.x * t.ref.x + (Ld)d.y * t.ref.y + (Ld)d.z * t.ref.z) / t.ref.norm(); ci = t.cosine.index(mu); if (clear && t.cosine.near_edge(mu)) *clear = false; }
  if (t.energy.kind) { ei = t.energy.index(energy); if (clear && t.energy.near_edge(energy)) *clear = false; }
  return ci * t.energy.size() + ei;
}
inline V3 ref_dir(pbt::Rng& r, const std::string& xml) {
  // direction of the source as the input states it
  pugi::xml_document d; d.load_string(xml.c_str()); auto n = d.first_child();
  std::string k = n.name();
  if (k == "isotropic") return smooth_dir(r);
  V3 u = V3{n.attribute("x").as_double(), n.attribute("y").as_double(), n.attribute("z").as_double()}.unit();
  if (k == "constant") return u;
  double mu = std::sqrt(r.unit()), ph = 2 * M_PI * r.unit(), s = std::sqrt(1 - mu * mu);
  V3 e = std::fabs(u.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0};
  V3 a = u.cross(e).unit(), b = u.cross(a);
  return u * mu + a * (s * std::cos(ph)) + b * (s * std::sin(ph));
}
} // namespace model
