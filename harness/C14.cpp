#include "ceworld.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
// Mixtures of continuous nuclides in a region whose temperature varies within
// declared bounds.
static void continuous(Case& c) {
  Files f;
  std::vector<CeNuclide> ns;
  int k = c.range(1, 3);
  bool ph = c.chance(1, 5);
  double cut = 0;
  for (int i = 0; i < k; i++) {
    CeNuclide n; n.name = std::string(1, (char)('a' + i));
    n.awr = c.chance(1, 3) ? c.uniform(0.5, 1) : c.logreal(1, 240);
    CeOpt o; o.tsl = c.chance(1, 4);
    if (c.chance(1, 2)) { o.lo = 1e-11; o.hi = 1e-5; }
    n.neutron = gen_ce(c, o, n.awr);
    if (n.neutron->tsl) cut = n.neutron->tsl->cutoff();
    if (ph) { o.fission = o.tsl = false; n.photon = gen_ce(c, o, n.awr); }
    ns.push_back(n);
  }
  auto& d0 = *ns[0].neutron;
  double T0 = d0.scatter ? d0.scatter->T : d0.capture ? d0.capture->T : d0.fission->T;
  // bounds placed in relation to the evaluated temperature
  double lo, hi;
  switch (c.below(5)) {
  case 0: hi = T0 * (1 + c.uniform(-0.0099, 0.0099)); lo = hi * c.uniform(0.2, 1); break;
  case 1: lo = T0 * (1 + c.uniform(-0.0099, 0.0099)); hi = lo * c.uniform(1, 3); break;
  case 2: hi = T0 * c.uniform(0.3, 0.98); lo = hi * c.uniform(0.2, 1); break;
  case 3: lo = T0 * c.uniform(1.02, 2); hi = lo * c.uniform(1, 2); break;
  default: lo = c.uniform(1, 1500); hi = lo + c.uniform(0, 1500);
  }
  Field t;
  bool varies = hi > lo * (1 + 1e-6) && c.chance(5, 6);
  if (varies) { t.linear = true; t.lo = lo; t.hi = hi; t.g = gen_dir(c) * ((hi - lo) / 2); t.b = (lo + hi) / 2; }
  else { t.c = hi; lo = hi; }
  Input in = ce_ball(ns, f, t.xml());
  if (!varies && c.chance(1, 2)) { in.regions[0].temperature = hi; in.temperature_xml = Field{false, 5}.xml(); }
  for (auto& m : in.materials[0].nuclides) m.second = c.logreal(0.1, 10);
  c.note("bounds ", lo, " to ", hi, " evaluated at ", T0);
  CeWorld w(in);
  double worst = 0;
  for (int j = 0; j < 12; j++) {
    bool neutron = !ph || c.chance(2, 3);
    double E = cut > 0 && c.chance(1, 3) ? cut * c.logreal(1e-4, 3) : c.chance(1, 2) ? kBoltzmann * hi * c.logreal(1e-2, 3e3) : c.logreal(1e-11, 20);
    double u = c.chance(1, 4) ? c.sign() : c.uniform(-1, 1);
    V3 x = varies ? t.g * (u / t.g.norm()) : V3{c.real(-1, 1), 0, 0};
    double T = (double)t.at(x);
    if (T > hi || T < lo) x = x * (1 - 1e-12);
    Particle p = w.at(x, {1, 0, 0}, E, neutron, 1);
    auto& mat = *p.GetCell().material;
    double tot = mat.GetMicroscopicTotal(p), maj = mat.GetMicroscopicMajorant(p);
    c.check(tot > 0 && maj >= tot * (1 - 1e-10), cat(neutron ? "neutron" : "photon", " at E=", E, " T=", T, " in [", lo, ", ", hi, "]: majorant ", maj, " below the total ", tot));
    for (auto& n : ns) {
      auto nuc = w.w->FindNuclideByName(n.name);
      double a = nuc->GetTotal(p), b = nuc->GetMajorant(p);
      c.check(b >= a * (1 - 1e-10), cat("nuclide ", n.name, " at E=", E, " T=", T, ": majorant ", b, " below the total ", a));
      const CeData& d = neutron ? *n.neutron : *n.photon;
      if (!d.scatter || !neutron) c.check(std::fabs(b - a) <= 1e-10 * a, cat("nuclide ", n.name, " does not depend on temperature, yet its majorant ", b, " differs from its total ", a));
      if (neutron && tsl_valid(d, E, true)) c.label("thermal scattering");
      worst = std::max(worst, b / a);
    }
    // a majorant far above anything in the region would be useless but not
    // wrong; a majorant is the same everywhere in the region
    Particle q = w.at(x * 0.5, {0, 1, 0}, E, neutron, 9);
    double other = mat.GetMicroscopicMajorant(q);
    c.check(std::fabs(other - maj) <= 1e-12 * maj, cat("the majorant differs within a region: ", maj, " and ", other, " at E=", E));
    c.evals(1);
  }
  c.nontrivial(varies && worst > 1 + 1e-6);
}
// regions that share materials but not temperatures, asked in any order
static void regions(Case& c) {
  Files f; double tmid = c.logreal(100, 1000);
  auto ns = gen_ce_nuclides(c, c.chance(1, 3), true, tmid);
  Input in; in.nuclides_xml = ce_xml(ns, f);
  int shells = c.range(2, 4), nm = c.range(1, 2);
  for (int k = 0; k < shells; k++) {
    Surf s; s.kind = Surf::sphere; s.name = std::string(1, (char)('p' + k)); s.r = k + 1; in.surfaces.push_back(s);
    Region r; r.name = "c" + std::to_string(k); r.sides = {{k, -1}}; if (k) r.sides.push_back({k - 1, +1});
    if (c.chance(1, 2)) r.temperature = tmid * c.logreal(0.1, 8);
    r.material = "m" + std::to_string(k < nm ? k : c.below(nm)); in.regions.push_back(r);
  }
  Region v; v.is_void = true; v.name = "v"; v.sides = {{shells - 1, +1}}; in.regions.push_back(v);
  for (int k = 0; k < nm; k++) { Mat m; m.name = "m" + std::to_string(k); for (auto& n : ns) if (m.nuclides.empty() || c.chance(2, 3)) m.nuclides.push_back({n.name, c.logreal(0.1, 10)}); in.materials.push_back(m); }
  Field t; if (c.chance(3, 4)) t = gen_linear(c, {}, shells, tmid * c.uniform(0.1, 0.6), tmid * c.uniform(1, 3), c.chance(1, 2)); else t.c = tmid;
  in.temperature_xml = t.xml();
  c.note(in.xml());
  CeWorld w(in);
  std::vector<double> Es; for (int i = 0; i < 2; i++) Es.push_back(kBoltzmann * tmid * c.logreal(0.01, 300));
  std::vector<std::pair<V3, int>> xs; for (int i = 0; i < 6; i++) { int r = c.below(shells); xs.push_back({gen_dir(c) * (r + c.uniform(0.05, 0.95)), r}); }
  std::map<std::pair<int, double>, double> known; std::set<double> seen;
  for (int k = 0; k < 30; k++) {
    auto& [x, r] = xs[c.below(6)]; double E = c.pick(Es);
    Particle p = w.at(x, {1, 0, 0}, E, true, 1);
    auto& mat = *p.GetCell().material;
    double tot = 0, maj;
    if (c.chance(1, 2)) { tot = mat.GetMicroscopicTotal(p); maj = mat.GetMicroscopicMajorant(p); }
    else { maj = mat.GetMicroscopicMajorant(p); tot = mat.GetMicroscopicTotal(p); }
    c.check(tot > 0 && maj >= tot * (1 - 1e-10), cat("query ", k, ": region ", r, " at E=", E, " T=", (double)temp_at(in, t, r, x), ": majorant ", maj, " below the total ", tot));
    auto it = known.emplace(std::make_pair(r, E), maj).first;
    c.check(std::fabs(it->second - maj) <= 1e-12 * maj, cat("query ", k, ": the majorant of region ", r, " at E=", E, " was ", it->second, " and is ", maj));
    seen.insert(maj); c.evals(1);
  }
  c.nontrivial(seen.size() > 2);
}
static void multigroup(Case& c) {
  Input in;
  in.groups = c.range(1, 4);
  MgOpt o; o.zeros = true;
  int k = c.range(1, 3);
  for (int i = 0; i < k; i++) in.nuclides.push_back({std::string(1, (char)('a' + i)), gen_mg(c, in.groups, o), std::nullopt});
  Surf s; s.name = "o"; s.r = 5; in.surfaces = {s};
  Mat m; m.name = "m"; for (auto& n : in.nuclides) m.nuclides.push_back({n.name, c.logreal(0.1, 10)});
  in.materials = {m};
  in.regions = {{false, "c", "m", std::nullopt, {{0, -1}}}, {true, "", "", std::nullopt, {{0, +1}}}};
  Field t; t.linear = true; t.g = {c.real(-50, 50), c.real(-50, 50), 0}; t.b = 600; t.lo = 100; t.hi = 1100;
  if (c.chance(1, 2)) in.temperature_xml = t.xml();
  c.note(in.xml());
  CeWorld w(in);
  for (int g = 1; g <= in.groups; g++) {
    Particle p{P({c.real(-2, 2), 0, 0}), Direction{1, 0, 0}, Group(g), Particle::Type::neutron, 1};
    p.SetCell(w.w->FindCellContaining(p.GetPosition()));
    auto& mat = *p.GetCell().material;
    double a = mat.GetMicroscopicTotal(p), b = mat.GetMicroscopicMajorant(p);
    c.check(std::fabs(a - b) <= 1e-13 * a, cat("group ", g, ": majorant ", b, " differs from the total ", a));
    for (auto& n : in.nuclides) { auto q = w.w->FindNuclideByName(n.name); double x = q->GetTotal(p), y = q->GetMajorant(p); c.check(std::fabs(x - y) <= 1e-13 * x, "nuclide majorant differs from its total"); }
  }
  c.evals(in.groups);
  c.nontrivial(k > 1);
}
PBT_MAIN((pbt::Property{"C14",
  "continuous: 1-3 generated nuclides (tables consistent with each other, thermal data and photons at times) in a region whose linear temperature field has bounds placed below, above, across and within 1% of the evaluated temperature; at 12 points and energies (around and far from kT, above and below the thermal cutoff, at both bounds) majorant >= total for the material and each nuclide, the same majorant anywhere in the region, and equality where no data depend on temperature. regions: 2-4 regions that share materials but differ in temperature and bounds, 30 questions in any order. multigroup: equality for every group. Non-trivial when the temperature varies and some majorant exceeds its total.",
  {"Data of one nuclide are evaluated at one temperature and its total table is the sum of its reactions."},
  {{"continuous", continuous, 24000, 120000}, {"regions", regions, 6000, 40000}, {"multigroup", multigroup, 12000, 48000}}}))
