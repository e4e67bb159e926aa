#include "ceworld.hpp"
#include "Cell.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "World.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
static Surf big(double r) { Surf s; s.kind = Surf::sphere; s.r = r; s.name = "o"; return s; }
static Input base(Case& c, int G, bool photons) {
  Input in;
  in.groups = G;
  in.particles = photons ? "neutron photon" : "neutron";
  int n = c.range(1, c.chance(1, 12) ? 20 : 5);
  for (int i = 0; i < n; i++) {
    MgOpt o; o.zeros = true; o.scale = c.chance(1, 3) ? c.logreal(0.01, 100) : 1;
    MgNuclide x; x.name = std::string(1, 'a' + (i * 7) % 26);
    x.neutron = gen_mg(c, G, o);
    if (photons) { o.fission = false; x.photon = gen_mg(c, G, o); }
    in.nuclides.push_back(x);
  }
  in.surfaces = {big(10)};
  in.regions.push_back({false, "c", "mix", std::nullopt, {{0, -1}}});
  in.regions.push_back({true, "", "", std::nullopt, {{0, +1}}});
  return in;
}
static Mat gen_mat(Case& c, const Input& in, const std::string& name) {
  Mat m; m.name = name; m.aden = c.real(0.5, 3);
  if (!(m.aden > 0)) m.aden = 1;
  int n = in.nuclides.size(), k = c.range(1, n), st = c.below(n);
  double scale = c.chance(1, 2) ? 1 : c.logreal(1e-3, 1e3);
  for (int i = 0; i < k; i++) m.nuclides.push_back({in.nuclides[(st + i) % n].name, scale * (c.chance(1, 3) ? c.range(1, 3) : c.logreal(0.01, 10))});
  if (c.chance(1, 2)) std::reverse(m.nuclides.begin(), m.nuclides.end());
  return m;
}
static const MgNuclide& find(const Input& in, const std::string& n) { for (auto& x : in.nuclides) if (x.name == n) return x; throw std::runtime_error("harness"); }
static double part(const Input& in, const std::string& n, int ty, int g) { auto& x = find(in, n); return mg_total(ty ? *x.photon : *x.neutron, in.groups, g); }
static double want_total(const Input& in, const Mat& m, int ty, int g) { Ld s = 0, f = 0; for (auto& [n, a] : m.nuclides) { s += (Ld)a * part(in, n, ty, g); f += a; } return (double)(s / f); }
struct Built { std::unique_ptr<Doc> doc; std::unique_ptr<World> w; };
static Built build(const Input& in) { Built b; b.doc = std::make_unique<Doc>(in.xml()); b.w = std::make_unique<World>(b.doc->root); return b; }
static Particle at(const Built& b, int g, int ty, uint64_t seed = 1) {
  Particle p{Point{}, Direction{1, 0, 0}, Group(g + 1), ty ? Particle::Type::photon : Particle::Type::neutron, (RNG::result_type)seed};
  p.SetCell(b.w->FindCellContaining(Point{}));
  return p;
}
static void totals(Case& c) {
  int G = c.range(1, 4); bool ph = c.chance(1, 3);
  Input in = base(c, G, ph);
  in.materials = {gen_mat(c, in, "mix")};
  if (c.chance(1, 2)) in.materials.insert(in.materials.begin() + c.below(2), gen_mat(c, in, "other"));
  const Mat m = in.materials[0].name == "mix" ? in.materials[0] : in.materials[1];
  if (in.materials.size() > 1 && c.chance(1, 2)) { Surf s = big(5); s.name = "i"; in.surfaces.push_back(s); in.regions[0].sides.push_back({1, -1}); in.regions.push_back({false, "d", "other", std::nullopt, {{1, +1}, {0, -1}}}); if (c.chance(1, 2)) std::swap(in.regions[0], in.regions[2]); }
  c.note(in.xml());
  Built b = build(in);
  // the same mixture written differently: scaled, reordered, one nuclide split in two
  Input v = in;
  for (auto& x : v.materials) if (x.name == "mix") {
    double f = c.logreal(1e-3, 1e3);
    for (auto& n : x.nuclides) n.second *= f;
    for (size_t i = x.nuclides.size(); i-- > 1;) std::swap(x.nuclides[i], x.nuclides[c.below(i + 1)]);
    auto& n0 = x.nuclides[c.below(x.nuclides.size())];
    MgNuclide twin = find(v, n0.first); twin.name = "twin";
    v.nuclides.insert(v.nuclides.begin() + c.below(v.nuclides.size() + 1), twin);
    double part = n0.second * c.uniform(0.1, 0.9);
    n0.second -= part;
    x.nuclides.insert(x.nuclides.begin() + c.below(x.nuclides.size() + 1), {"twin", part});
  }
  Built b2 = build(v);
  for (int ty = 0; ty < (ph ? 2 : 1); ty++) for (int g = 0; g < G; g++) {
    Particle p = at(b, g, ty), q = at(b2, g, ty);
    auto& mat = *p.GetCell().material;
    double want = want_total(in, m, ty, g), got = mat.GetMicroscopicTotal(p), maj = mat.GetMicroscopicMajorant(p);
    c.check(std::fabs(got - want) <= 1e-12 * want, cat("microscopic total of the mixture is ", got, ", expected ", want));
    c.check(std::fabs(maj - want) <= 1e-12 * want, cat("microscopic majorant of the mixture is ", maj, ", expected ", want));
    c.check(mat.number_density == m.aden, "atom density of the material");
    double other = q.GetCell().material->GetMicroscopicTotal(q);
    c.check(std::fabs(other - want) <= 1e-12 * want, cat("the same mixture scaled, reordered and split has total ", other, ", expected ", want));
  }
  c.evals(G);
  c.nontrivial(m.nuclides.size() > 1);
}
static void choice(Case& c) {
  int G = c.range(1, 3); bool ph = c.chance(1, 4);
  Input in = base(c, G, ph);
  in.materials = {gen_mat(c, in, "mix")};
  const Mat& m = in.materials[0];
  int ty = ph ? c.below(2) : 0, g = c.below(G);
  double tot = want_total(in, m, ty, g);
  if (tot <= 0) c.discard();
  c.note(in.xml(), "group ", g + 1);
  Built b = build(in);
  uint64_t seed = c.seed();
  std::map<std::string, int> idx;
  std::vector<double> pr;
  double f = 0; for (auto& n : m.nuclides) f += n.second;
  for (auto& n : m.nuclides) { idx[n.first] = pr.size(); pr.push_back(n.second / f * part(in, n.first, ty, g) / tot); }
  pbt::confirm(c, "choice of the colliding nuclide", c.thorough ? 200000 : 20000, [&](int round, uint64_t n) {
    std::vector<double> cnt(pr.size(), 0);
    Particle p = at(b, g, ty, 1 + pbt::mix64(seed * 17 + round) % 2147483646);
    int g2 = pbt::mix64(seed + 1) % G; bool crowd = seed & 1 && want_total(in, m, ty, g2) > 0;
    Particle q = at(b, g2, ty, 12345);
    for (uint64_t i = 0; i < n; i++) {
      if (crowd && i % 3) q.SampleNuclide();
      const Nuclide& x = p.SampleNuclide();
      auto it = idx.find(x.name);
      if (it == idx.end()) c.fail("collided with nuclide " + x.name + " which is not in the material");
      cnt[it->second]++;
    }
    return pbt::multinomial_p(cnt, pr);
  });
  int k = 0; for (double x : pr) k += x > 0.01;
  c.nontrivial(k > 1);
}
// --- mixtures of continuous-energy nuclides where the temperature varies ------
// concentric regions, each with its own mixture and, at times, temperature
struct CeMix { std::vector<CeNuclide> ns; Files f; Input in; Field field; bool ph = false; double tmid = 0; };
static void gen_ce_mix(Case& c, CeMix& m) {
  m.tmid = c.logreal(150, 1200); m.ph = c.chance(1, 3);
  m.ns = gen_ce_nuclides(c, c.chance(1, 3), true, m.tmid);
  for (auto& n : m.ns) if (m.ph) { CeOpt o; o.lo = kBoltzmann * m.tmid * 1e-3; o.hi = kBoltzmann * m.tmid * 1e4; o.fission = false; n.photon = gen_ce(c, o, n.awr); }
  Input& in = m.in;
  in.particles = m.ph ? "neutron photon" : "neutron";
  in.nuclides_xml = ce_xml(m.ns, m.f);
  int shells = c.range(1, 3);
  for (int k = 0; k < shells; k++) {
    Surf s = big(k + 1); s.name = std::string(1, 'p' + k); in.surfaces.push_back(s);
    Region r; r.name = "c" + std::to_string(k); r.sides = {{k, -1}}; if (k) r.sides.push_back({k - 1, +1});
    if (c.chance(1, 4)) r.temperature = m.tmid * c.uniform(0.5, 2);
    r.material = "m" + std::to_string(c.below(k + 1));
    in.regions.push_back(r);
  }
  for (int k = 0; k < shells; k++) {
    Mat x; x.name = "m" + std::to_string(k); x.aden = c.uniform(0.5, 3);
    int n = m.ns.size(), used = c.range(1, n), st = c.below(n);
    for (int i = 0; i < used; i++) x.nuclides.push_back({m.ns[(st + i) % n].name, c.logreal(0.05, 5)});
    in.materials.push_back(x);
  }
  Region v; v.is_void = true; v.name = "v"; v.sides = {{shells - 1, +1}}; in.regions.push_back(v);
  if (c.chance(3, 4)) m.field = gen_linear(c, {}, shells, m.tmid * 0.4, m.tmid * 1.6, c.chance(1, 2));
  else m.field.c = m.tmid * c.uniform(0.5, 2);
  in.temperature_xml = m.field.xml();
}
static const CeNuclide& find(const CeMix& m, const std::string& n) { for (auto& x : m.ns) if (x.name == n) return x; throw std::runtime_error("harness"); }
struct Spot { V3 x; int region; double T; };
static Spot gen_spot(Case& c, const CeMix& m) {
  int shells = m.in.regions.size() - 1;
  Spot s; s.region = c.below(shells);
  s.x = gen_dir(c) * (s.region + c.uniform(0.05, 0.95));
  s.T = (double)temp_at(m.in, m.field, s.region, s.x);
  return s;
}
static bool edge(const CeMix& m, const Mat& x, bool neutron, double E, double T) { for (auto& [n, a] : x.nuclides) if (ce_edge(find(m, n), neutron, E, T)) return true; return false; }
// what a mixture answers does not depend on what was asked before
static void gradient(Case& c) {
  CeMix m; gen_ce_mix(c, m);
  c.note(m.in.xml());
  CeWorld w(m.in);
  std::vector<double> Es; for (int i = 0; i < 3; i++) Es.push_back(kBoltzmann * m.tmid * c.logreal(0.05, 300));
  std::vector<Spot> spots; for (int i = 0; i < 4; i++) spots.push_back(gen_spot(c, m));
  std::set<double> seen;
  for (int k = 0; k < 30; k++) {
    const Spot& s = spots[c.below(4)]; double E = Es[c.below(3)]; bool neutron = !m.ph || c.chance(1, 2);
    const Mat& x = *mat_of(m.in, s.region);
    if (edge(m, x, neutron, E, s.T)) continue;
    Particle p = w.at(s.x, {1, 0, 0}, E, neutron, 1);
    Ld want = 0, f = 0;
    for (auto& [n, a] : x.nuclides) { want += a * ce_total(find(m, n), neutron, E, s.T); f += a; }
    want /= f;
    double got = p.GetCell().material->GetMicroscopicTotal(p), maj = p.GetCell().material->GetMicroscopicMajorant(p), again = p.GetCell().material->GetMicroscopicTotal(p);
    c.check(std::fabs(got - want) <= 1e-9L * std::fabs(want), cat("query ", k, ": microscopic total of ", x.name, " in ", m.in.regions[s.region].name, " at E=", E, " T=", s.T, " is ", got, ", expected ", (double)want));
    c.check(got == again, "the same question twice has two answers");
    // the majorant is the weighted sum of those of the nuclides
    double ms = 0; for (auto& [np, a] : p.GetCell().material->afracs) ms += a * np->GetMajorant(p);
    c.check(std::fabs(maj - ms) <= 1e-12 * ms, "the majorant of the mixture is not that of its nuclides");
    seen.insert(got);
    c.evals(1);
  }
  c.nontrivial(seen.size() > 2);
}
static void choice_gradient(Case& c) {
  CeMix m; gen_ce_mix(c, m);
  Spot s = gen_spot(c, m);
  double E = kBoltzmann * m.tmid * c.logreal(0.05, 300); bool neutron = !m.ph || c.chance(1, 2);
  const Mat& x = *mat_of(m.in, s.region);
  if (edge(m, x, neutron, E, s.T)) c.discard();
  c.note(m.in.xml(), "at ", s.x.x, " ", s.x.y, " ", s.x.z, " E=", E, " T=", s.T);
  std::map<std::string, int> idx; std::vector<double> pr; double tot = 0;
  for (auto& [n, a] : x.nuclides) { idx[n] = pr.size(); pr.push_back(a * (double)ce_total(find(m, n), neutron, E, s.T)); tot += pr.back(); }
  if (!(tot > 0)) c.discard();
  for (auto& q : pr) q /= tot;
  CeWorld w(m.in);
  Particle p = w.at(s.x, {1, 0, 0}, E, neutron, 1);
  uint64_t seed = c.seed();
  // other particles choose in between
  bool crowd = c.chance(1, 2); Spot s2 = gen_spot(c, m); double E2 = c.chance(1, 2) ? E : kBoltzmann * m.tmid * c.logreal(0.05, 300);
  Particle q = w.at(s2.x, {0, 1, 0}, E2, neutron, 1 + c.seed() % 2147483000);
  if (crowd) c.label("among other particles");
  pbt::confirm(c, "choice of the colliding nuclide where temperature varies", c.thorough ? 100000 : 20000, [&](int round, uint64_t n) {
    std::vector<double> cnt(pr.size(), 0);
    p.rng.seed(1 + pbt::mix64(seed * 17 + round) % 2147483646);
    for (uint64_t i = 0; i < n; i++) {
      if (crowd && i % 3) q.SampleNuclide();
      auto it = idx.find(p.SampleNuclide().name);
      if (it == idx.end()) c.fail("collided with a nuclide which is not in the material");
      cnt[it->second]++;
    }
    return pbt::multinomial_p(cnt, pr);
  });
  int k = 0; for (double q : pr) k += q > 0.01;
  c.nontrivial(k > 1);
}
// attenuation of a beam: mean free path is 1 / (density * microscopic total)
static void beam(Case& c) {
  Input in = base(c, 1, false);
  for (auto& n : in.nuclides) { double s = mg_total(*n.neutron, 1, 0); if (!(s > 0)) s = 1; n = absorber(n.name, s); }
  in.materials = {gen_mat(c, in, "mix")};
  const Mat& m = in.materials[0];
  double S = m.aden * want_total(in, m, 0, 0);
  double tau = c.uniform(0.1, 2.5), L = tau / S;
  in.surfaces[0].r = L;
  in.direction_xml = dir_xml(gen_dir(c));
  in.tallies = {Tally{"t", "o"}};
  if (c.chance(1, 3)) in.tracking = "cell delta";
  in.histories = 300;
  c.note(in.xml());
  uint64_t seed = c.seed();
  pbt::confirm(c, "attenuation of a beam in a mixture", 150, [&](int round, uint64_t n) {
    std::vector<double> v;
    for (uint64_t i = 0; i < n; i++) { in.seed = 1 + pbt::mix64(seed ^ (round * 7919 + i)) % 2000000000; v.push_back(solve(in).sum[0][0] / in.histories); }
    return mean_p(v, std::exp(-tau));
  });
  c.nontrivial(m.nuclides.size() > 1);
}
PBT_MAIN((pbt::Property{"C20",
  "Generated mixtures of 1-5 multigroup nuclides (fractions over several decades, any order). totals: microscopic total and majorant of every group and type against the weighted average, for the mixture as listed and for the same mixture scaled, reordered and with one nuclide split into two copies; choice: 20000 sampled colliding nuclides against fraction times cross section; gradient: 30 questions in any order to one world of concentric mixtures of continuous-energy nuclides (thermal scattering, photons, a temperature gradient), each against the reference whatever was asked before; choice_gradient: sampled nuclides at a place and energy there; beam: leakage of a beam against exp(-density*total*length). Non-trivial with more than one nuclide (choice: more than one with probability above 1%).",
  {"Materials with zero total cross section are excluded from the sampling facets (no collision can happen there)."},
  {{"totals", totals, 64000, 256000}, {"choice", choice, 6400, 25600}, {"gradient", gradient, 8000, 32000}, {"choice_gradient", choice_gradient, 3200, 12800}, {"beam", beam, 1200, 4800}}}))
