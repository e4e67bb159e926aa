#include "glue.hpp"
#include "mggen.hpp"
#include "Bank.hpp"
#include "Nuclide.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
struct Setup { Input in; int G; std::unique_ptr<Doc> doc; std::unique_ptr<Nuclide> nuc; MgNuclide n; };
static Setup make(Case& c) {
  Setup s;
  s.G = c.range(1, c.chance(1, 2000) ? 320 : c.chance(1, 25) ? 40 : c.chance(1, 5) ? 9 : 4);
  s.in.groups = s.G;
  s.n.name = "x";
  MgOpt o; if (c.chance(1, 6)) o.nu_max = c.chance(1, 40) ? c.uniform(200, 600) : c.uniform(4, 30);
  if (c.chance(1, 6)) o.scale = c.logreal(1e-15, 1e9);
  bool ph = c.chance(1, 3);
  if (!ph || c.chance(1, 2)) s.n.neutron = gen_mg(c, s.G, o);
  if (ph) { o.fission = c.chance(1, 4); s.n.photon = gen_mg(c, s.G, o); }
  // groups of very different magnitude
  if (c.chance(1, 6) && s.G < 50) for (auto* y : {&s.n.neutron, &s.n.photon}) if (*y) for (int g = 0; g < s.G; g++) {
    auto& m = **y; double f = c.logreal(1e-15, 1e6);
    if (!m.capture.empty()) m.capture[g] *= f;
    if (!m.fis_xs.empty()) m.fis_xs[g] *= f;
    if (!m.scatter.empty()) for (int r = 0; r < s.G; r++) m.scatter[r * s.G + g] *= f;
  }
  MgNuclide decoy = absorber("y", 3, s.G);
  if (c.chance(1, 2)) s.in.nuclides = {decoy, s.n}; else s.in.nuclides = {s.n, decoy};
  if (s.n.neutron && s.n.photon) s.in.particles = "neutron photon";
  else if (s.n.photon) s.in.particles = "photon";
  if (s.in.particles != "neutron") for (auto& n : s.in.nuclides) if (n.name == "y") n.photon = n.neutron;
  s.doc = std::make_unique<Doc>(s.in.xml());
  auto node = s.doc->root.child("nuclides").child("multigroup").find_child_by_attribute("name", "x");
  s.nuc = std::make_unique<Nuclide>(node);
  return s;
}
static void totals(Case& c) {
  Setup s = make(c);
  c.note(s.in.nuc_xml());
  c.check(s.nuc->name == "x", "nuclide name");
  for (int ty = 0; ty < 2; ty++) {
    auto& m = ty ? s.n.photon : s.n.neutron;
    if (!m) continue;
    for (int g = 0; g < s.G; g++) {
      Particle p{Point{}, Direction{1, 0, 0}, Group(g + 1), ty ? Particle::Type::photon : Particle::Type::neutron, 1};
      double want = mg_total(*m, s.G, g), got = s.nuc->GetTotal(p);
      c.check(std::fabs(got - want) <= 1e-13 * want, cat(ty ? "photon" : "neutron", " total of group ", g + 1, " is ", got, ", expected ", want));
      c.check(std::fabs(s.nuc->GetMajorant(p) - got) <= 1e-13 * got, "majorant differs from the total although nothing depends on temperature");
    }
  }
  c.evals(2 * s.G);
  c.nontrivial(s.G > 1);
}
static void interact(Case& c) {
  Setup s = make(c);
  int ty = s.n.neutron && s.n.photon ? c.below(2) : s.n.photon ? 1 : 0;
  const Mg& m = ty ? *s.n.photon : *s.n.neutron;
  int G = s.G, g = c.below(G);
  for (int i = 0; i < G && mg_total(m, G, g) == 0; i++) g = (g + 1) % G;
  double tot = mg_total(m, G, g);
  if (tot == 0) c.discard();
  c.note(s.in.nuc_xml(), ty ? "photon" : "neutron", " in group ", g + 1);
  auto type = ty ? Particle::Type::photon : Particle::Type::neutron;
  uint64_t seed = c.seed();
  V3 pos{c.real(-5, 5), c.real(-5, 5), c.real(-5, 5)}, dir = gen_dir(c), ax = gen_dir(c);
  V3 e0 = ax.cross(std::fabs(ax.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}).unit(), e1 = ax.cross(e0);
  double nu = m.fis_xs.empty() ? 0 : m.nubar[g];
  int nlo = (int)std::floor(nu);
  double chis = 0;
  if (!m.chi.empty()) for (int r = 0; r < G; r++) chis += m.chi[r * G + g];
  // other collisions come in between
  int g2 = c.below(G); bool crowd = c.chance(1, 2) && mg_total(m, G, g2) > 0;
  if (crowd) c.label("among other collisions");
  MgNuclide n2 = s.n; for (auto* y : {&n2.neutron, &n2.photon}) if (*y) for (auto* v : {&(*y)->capture, &(*y)->scatter, &(*y)->fis_xs, &(*y)->chi}) std::reverse(v->begin(), v->end());
  if (crowd) for (auto* y : {&n2.neutron, &n2.photon}) if (*y && (mg_total(**y, G, g2) == 0 || !(*y)->chi.empty())) n2 = s.n; // spectra must stay complete
  Input in2 = s.in; for (auto& n : in2.nuclides) if (n.name == "x") { n2.name = "x"; n = n2; }
  Doc doc2(in2.xml()); Nuclide twin{doc2.root.child("nuclides").child("multigroup").find_child_by_attribute("name", "x")};
  // outcome cells: capture, scatter->r, fission with low/high yield
  pbt::confirm(c, "collision outcomes", c.thorough ? 100000 : 15000, [&](int round, uint64_t n) {
    std::vector<double> cnt(1 + G + 2, 0), pr(1 + G + 2, 0), chi(G, 0), chip(G, 0), iso(12 * 6, 0), iso2(12 * 6, 0);
    if (!m.capture.empty()) pr[0] = m.capture[g];
    if (!m.scatter.empty()) for (int r = 0; r < G; r++) pr[1 + r] = m.scatter[r * G + g];
    if (!m.fis_xs.empty()) { pr[1 + G] = m.fis_xs[g] * (nlo + 1 - nu); pr[2 + G] = m.fis_xs[g] * (nu - nlo); }
    if (chis > 0) for (int r = 0; r < G; r++) chip[r] = m.chi[r * G + g] / chis;
    auto tally_dir = [&](V3 d, std::vector<double>& v) {
      if (!(std::fabs(d.norm() - 1) < 1e-12)) c.fail("outgoing direction is not a unit vector: " + d.str());
      double mu = (d.dot(ax) + 1) / 2, a = std::atan2(d.dot(e1), d.dot(e0)) / (2 * M_PI) + .5;
      v[std::min(11, std::max(0, (int)(mu * 12))) * 6 + std::min(5, std::max(0, (int)(a * 6)))]++;
    };
    // a stream starts from one of about 2^31 states: among many siblings a few
    // coincidences are due to chance
    double pairs = 0, same = 0;
    RNG stream{(RNG::result_type)(1 + pbt::mix64(seed + round * 1000003) % 2147483646)};
    for (uint64_t i = 0; i < n; i++) {
      Particle p{P(pos), D(dir), Group(g + 1), type, 1};
      p.rng = stream;
      if (crowd && i % 2) { Particle q{P(pos), D(dir * -1), Group(g2 + 1), type, RNG::result_type(1 + i)}; (i % 4 == 1 ? *s.nuc : twin).Interact(q); }
      s.nuc->Interact(p);
      Bank bank;
      p.MoveSecondariesTo(bank);
      V3 q = V(p.GetPosition());
      if (q.x != pos.x || q.y != pos.y || q.z != pos.z) c.fail("a collision moved the particle");
      if (p.GetType() != type) c.fail("a collision changed the particle type");
      switch (p.event) {
      case Particle::Event::capture:
        cnt[0]++;
        if (p.IsAlive()) c.fail("captured particle is alive");
        if (!bank.empty()) c.fail("capture produced secondaries");
        break;
      case Particle::Event::scatter: {
        if (!p.IsAlive()) c.fail("scattered particle is dead");
        if (!bank.empty()) c.fail("scattering produced secondaries");
        if (!std::holds_alternative<Group>(p.GetEnergy())) c.fail("scattered particle has no group");
        Group r = std::get<Group>(p.GetEnergy());
        if (r < 1 || r > (Group)G) c.fail(cat("scattered into group ", r, " of ", G));
        cnt[r]++;
        tally_dir(V(p.GetDirection()), iso);
        break;
      }
      case Particle::Event::fission: {
        if (p.IsAlive()) c.fail("the incident particle survived fission");
        int k = 0;
        std::set<uint64_t> streams;
        while (!bank.empty()) {
          Particle& q2 = bank.back();
          k++;
          if (!std::holds_alternative<Group>(q2.GetEnergy())) c.fail("fission neutron has no group");
          Group r = std::get<Group>(q2.GetEnergy());
          if (r < 1 || r > (Group)G) c.fail(cat("fission neutron in group ", r));
          chi[r - 1]++;
          V3 w = V(q2.GetPosition());
          if (w.x != pos.x || w.y != pos.y || w.z != pos.z) c.fail("fission neutron does not start at the fission point");
          if (q2.GetType() != Particle::Type::neutron) c.fail("fission produced something else than a neutron");
          if (!q2.IsAlive() || q2.event != Particle::Event::birth) c.fail("fission neutron is not a newborn");
          tally_dir(V(q2.GetDirection()), iso2);
          if (!streams.insert(q2.rng()).second) same++;
          bank.pop_back();
        }
        pairs += .5 * k * (k - 1);
        if (k != nlo && k != nlo + 1) c.fail(cat("fission yield ", k, " for an average of ", nu));
        cnt[1 + G + (k - nlo)]++;
        break;
      }
      default: c.fail("a collision ended in an event that is none of capture, scatter, fission");
      }
      stream = p.rng;
      stream.discard(1);
    }
    if (same > 4 + 20 * pairs / 2147483646.) c.fail(cat("fission neutrons of one fission share a random stream: ", same, " times among ", pairs, " pairs"));
    double p1 = pbt::multinomial_p(cnt, pr);
    double p2 = pbt::multinomial_p(chi, chip), p3 = pbt::multinomial_p(iso, std::vector<double>(72, 1. / 72)), p4 = pbt::multinomial_p(iso2, std::vector<double>(72, 1. / 72));
    double a = 0; for (auto x : chi) a += x;
    if (a == 0) p2 = 1;
    return std::min(std::min(p1, p2), std::min(p3, p4));
  });
  int cells = 0;
  if (!m.capture.empty() && m.capture[g] > 0) cells++, c.label("capture");
  if (mg_scatter(m, G, g) > 0) cells++, c.label("scatter");
  if (!m.fis_xs.empty() && m.fis_xs[g] > 0) cells++, c.label("fission");
  c.nontrivial(cells > 1 || (G > 1 && mg_scatter(m, G, g) > 0));
}
PBT_MAIN((pbt::Property{"C11",
  "Generated multigroup nuclides (1-9, at times up to 320 groups, neutron and/or photon data, absent reactions, zeros, unnormalised and impossible spectra, decoy nuclide beside it). totals: every group against the sum of its reactions; non-trivial with more than one group. interact (half of the time among collisions in other groups and with another nuclide): 15000 (thorough 100000) collisions in one incident group with the joint outcome (capture, scatter to each group, low/high fission yield), the fission spectrum and the emission directions compared with the table; non-trivial if several outcomes are possible.",
  {"Incident groups with zero total cross section are excluded (no collision can happen there).", "Columns of a fission spectrum have a positive sum."},
  {{"totals", totals, 120000, 600000}, {"interact", interact, 7200, 28800}}}))
