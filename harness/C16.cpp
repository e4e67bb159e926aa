#include "ceworld.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
static double gen_energy(Case& c, const CeData& d) {
  const Tab1* t = d.scatter ? &d.scatter->xs : d.capture ? &d.capture->xs : &d.fission->xs;
  switch (c.below(5)) {
  case 0: return c.pick(t->x);
  case 1: return t->x.front() * c.logreal(1e-3, 1);
  case 2: return t->x.back() * c.logreal(1, 10);
  default: return t->x.front() * std::pow(t->x.back() / t->x.front(), c.unit());
  }
}
// temperatures in relation to the evaluated one: equal, within 1%, beyond, far
static double gen_T(Case& c, double T0) {
  switch (c.below(6)) {
  case 0: return T0;
  case 1: return T0 * (1 + c.sign() * c.uniform(0, 0.0099));
  case 2: return T0 * (1 + c.sign() * c.uniform(0.0101, 0.05));
  case 3: return T0 * (1 + c.sign() * c.logreal(1e-6, 0.5));
  case 4: return c.chance(1, 4) ? 0 : c.uniform(1, 100);
  default: return c.uniform(1, 3000);
  }
}
static CeNuclide gen_nuc(Case& c, bool photon, bool tsl, bool consistent) {
  CeNuclide n; n.name = "a";
  n.awr = c.chance(1, 3) ? c.uniform(0.5, 1) : c.chance(1, 4) ? 1 : c.logreal(1, 240);
  CeOpt o; o.consistent = consistent; o.tsl = tsl;
  if (c.chance(1, 2)) { o.lo = 1e-11; o.hi = 1e-5; }
  n.neutron = gen_ce(c, o, n.awr);
  if (c.chance(1, 6)) for (auto& y : n.neutron->nubar.y) y *= c.logreal(1, 8);
  if (photon) { o.fission = c.chance(1, 3); o.tsl = false; n.photon = gen_ce(c, o, n.awr); }
  return n;
}
static const char* about(const CeNuclide& n, bool neutron, double E, double T) {
  const CeData& d = neutron ? *n.neutron : *n.photon;
  if (tsl_valid(d, E, neutron)) return "thermal scattering";
  if (d.total && near_T(T, d.total->T)) return "total table";
  if (d.scatter && !near_T(T, d.scatter->T)) return fg_valid(n.awr, E, T, neutron) ? "free-gas adjusted" : "unadjusted";
  return "sum of tables";
}
static void totals(Case& c) {
  Files f;
  bool ph = c.chance(1, 3);
  CeNuclide n = gen_nuc(c, ph, c.chance(1, 4), c.chance(1, 2));
  const CeData& d0 = *n.neutron;
  double T0 = d0.scatter ? d0.scatter->T : d0.capture ? d0.capture->T : d0.fission->T;
  if (d0.total && c.chance(1, 3)) T0 = d0.total->T;
  double T = gen_T(c, T0);
  Field t; t.c = T;
  // the temperature at the place counts, not that elsewhere
  V3 x{};
  if (T > 0 && c.chance(1, 3)) {
    x = gen_dir(c) * c.uniform(0, 9);
    t.linear = true; t.g = gen_dir(c) * (T * c.uniform(0.01, 0.09)); t.b = T - t.g.dot(x); t.lo = T * 0.01; t.hi = T * 3;
    T = (double)t.at(x); c.label("gradient");
  }
  Input in = ce_ball({n}, f, t.xml());
  c.note("awr ", n.awr, " T ", T, " evaluated at total ", d0.total ? d0.total->T : -1, " scatter ", d0.scatter ? d0.scatter->T : -1);
  CeWorld w(in);
  auto nuc = w.w->FindNuclideByName("a");
  bool interesting = false;
  for (int k = 0; k < 10; k++) {
    bool neutron = !ph || c.chance(1, 2);
    const CeData& d = neutron ? *n.neutron : *n.photon;
    double E = d.tsl && c.chance(1, 2) ? d.tsl->cutoff() * c.logreal(1e-3, 2) : gen_energy(c, d);
    if (ce_edge(n, neutron, E, T)) continue;
    Particle p = w.at(x, {1, 0, 0}, E, neutron, 1);
    double got = nuc->GetTotal(p); Ld want = ce_total(n, neutron, E, T);
    const char* how = about(n, neutron, E, T);
    c.check(std::fabs(got - want) <= 1e-9L * std::fabs(want), cat(neutron ? "neutron" : "photon", " total at E=", E, " T=", T, " is ", got, ", expected ", (double)want, " (", how, ")"));
    double mat = p.GetCell().material->GetMicroscopicTotal(p);
    c.check(std::fabs(mat - want) <= 1e-9L * std::fabs(want), "total of a material of this nuclide alone");
    c.label(how);
    interesting |= std::string{how} != "unadjusted";
    c.evals(1);
  }
  c.nontrivial(interesting);
}
// nuclides asked again and again at few energies and places: no answer
// depends on what was asked before
static void revisited(Case& c) {
  Files f; std::vector<CeNuclide> ns; int nn = c.range(1, 3); bool ph = c.chance(1, 4);
  for (int i = 0; i < nn; i++) {
    CeNuclide n = gen_nuc(c, ph, c.chance(1, 6), c.chance(1, 2));
    if (i > 0 && c.chance(1, 2)) { n = ns[0]; for (auto* e : {&n.neutron->total, &n.neutron->capture, &n.neutron->scatter}) if (*e) for (auto& y : (*e)->xs.y) y *= 3; } // the same grids
    n.name = std::string(1, (char)('a' + i)); ns.push_back(n);
  }
  const CeData& d0 = *ns[0].neutron;
  double T0 = d0.scatter ? d0.scatter->T : d0.capture ? d0.capture->T : d0.fission->T, Ta = std::max(20., gen_T(c, T0)), Tb = std::max(20., gen_T(c, T0));
  Field fl; V3 g = gen_dir(c); fl.linear = true; fl.g = g * ((Tb - Ta) / 4); fl.b = (Ta + Tb) / 2; fl.lo = 0; fl.hi = 5000;
  std::vector<V3> xs; int nx = c.range(1, 4); for (int i = 0; i < nx; i++) xs.push_back(g * c.uniform(-2, 2));
  std::vector<double> Es; int ne = c.range(1, 3); for (int i = 0; i < ne; i++) Es.push_back(gen_energy(c, d0));
  Input in = ce_ball(ns, f, fl.xml());
  CeWorld w(in);
  std::vector<std::shared_ptr<const Nuclide>> nu; for (auto& n : ns) nu.push_back(w.w->FindNuclideByName(n.name));
  for (int k = 0; k < 30; k++) {
    int i = c.below(nn), x = c.below(nx), e = c.below(ne), what = c.below(4);
    bool neutron = !ph || c.chance(1, 2);
    double E = Es[e], T = (double)fl.at(xs[x]);
    if (ce_edge(ns[i], neutron, E, T)) continue;
    Particle p = w.at(xs[x], {1, 0, 0}, E, neutron, 1);
    if (what == 3) { nu[i]->GetMajorant(p); continue; }
    Ld want = ce_total(ns[i], neutron, E, T), got = nu[i]->GetTotal(p);
    c.check(std::fabs(got - want) <= 1e-9L * std::fabs(want), cat("query ", k, ": ", neutron ? "neutron" : "photon", " total of ", ns[i].name, " at E=", E, " T=", T, " is ", (double)got, ", expected ", (double)want, " (", about(ns[i], neutron, E, T), ")"));
    c.label(about(ns[i], neutron, E, T)); c.evals(1);
  }
  c.nontrivial(nn * nx > 1);
}
static void choice(Case& c) {
  Files f;
  bool ph = c.chance(1, 4);
  CeNuclide n = gen_nuc(c, ph, false, c.chance(2, 3));
  bool neutron = !ph || c.chance(1, 2);
  const CeData& d = neutron ? *n.neutron : *n.photon;
  double T0 = d.scatter ? d.scatter->T : 293.6;
  double T = gen_T(c, T0);
  double E = gen_energy(c, d);
  if (ce_edge(n, neutron, E, T)) c.discard();
  if (!neutron && d.scatter) c.label("photon");
  Ld cap = d.capture ? d.capture->xs.at(E) : 0, sc = ce_scatter(n, neutron, E, T), fi = d.fission ? d.fission->xs.at(E) : 0, sum = cap + sc + fi;
  if (ce_total(n, neutron, E, T) < sum * (1 - 1e-12L)) c.discard(); // inconsistent data
  Field t; t.c = T;
  if (T == 0) c.discard();
  // other collisions come in between
  bool crowd = c.chance(1, 2); CeNuclide n2 = n; n2.name = "b"; double E2 = c.chance(1, 2) ? E : gen_energy(c, d);
  for (auto* y : {&n2.neutron, &n2.photon}) if (*y) { (*y)->total.reset(); for (auto* e : {&(*y)->capture, &(*y)->scatter, &(*y)->fission}) if (*e) for (auto& v : (*e)->xs.y) v *= c.uniform(0.2, 3); }
  if (crowd) c.label("among other collisions");
  Input in = ce_ball({n, n2}, f, t.xml());
  c.note("awr ", n.awr, " T ", T, " E ", E, " capture ", (double)cap, " scatter ", (double)sc, " fission ", (double)fi);
  CeWorld w(in);
  auto nuc = w.w->FindNuclideByName("a"), nuc2 = w.w->FindNuclideByName("b");
  uint64_t seed = c.seed();
  double nu = d.fission ? (double)d.nubar.at(E) : 0;
  pbt::confirm(c, "choice of reaction and fission yield", c.thorough ? 60000 : 8000, [&](int round, uint64_t num) {
    std::vector<double> cnt(3, 0), mu, yl(2, 0); double fis = 0;
    for (uint64_t i = 0; i < num; i++) {
      if (crowd && i % 2) { Particle q = w.at({0.1, 0.2, 0.3}, {0, 0, -1}, E2, neutron, 1 + pbt::mix64(seed + i) % 2147483000); (i % 4 == 1 ? nuc : nuc2)->Interact(q); }
      Particle p = w.at({0.1, 0.2, 0.3}, {0, 0, 1}, E, neutron, 1 + pbt::mix64(seed ^ (round * 15485863 + i)) % 2147483000);
      nuc->Interact(p);
      Bank b; p.MoveSecondariesTo(b);
      size_t y = 0;
      while (!b.empty()) {
        y++;
        V3 x = V(b.back().GetPosition()), q = V(b.back().GetDirection());
        c.check(x.x == 0.1 && x.y == 0.2 && x.z == 0.3, "a secondary does not start where the fission happened");
        c.check(b.back().GetType() == Particle::Type::neutron && b.back().IsAlive(), "a secondary must be a live neutron");
        mu.push_back((q.z + 1) / 2);
        b.pop_back();
      }
      switch (p.event) {
      case Particle::Event::capture: cnt[0]++; c.check(!p.IsAlive() && y == 0, "capture must end the particle and yield nothing"); break;
      case Particle::Event::scatter: cnt[1]++; c.check(p.IsAlive() && y == 0, "scatter keeps the particle and yields nothing"); break;
      case Particle::Event::fission: cnt[2]++; fis++; c.check(!p.IsAlive(), "fission must end the particle");
        c.check(std::fabs(y - nu) < 1 + 1e-9, cat("fission yielded ", y, " secondaries, the average is ", nu));
        yl[y > std::floor(nu + 1e-9)]++; break;
      default: c.fail("collision ended in an unexpected event");
      }
    }
    double p = pbt::multinomial_p(cnt, {(double)(cap / sum), (double)(sc / sum), (double)(fi / sum)});
    if (mu.size() > 200) p = std::min(p, 3 * pbt::ks_p(mu, [](double x) { return x; }));
    double frac = nu - std::floor(nu + 1e-9);
    if (fis > 200 && frac > 1e-3 && frac < 1 - 1e-3) p = std::min(p, 3 * pbt::multinomial_p(yl, {1 - frac, frac}));
    return p;
  });
  c.evals(8000);
  int k = (cap > 0.01 * sum) + (sc > 0.01 * sum) + (fi > 0.01 * sum);
  if (fi > 0) c.label("fission");
  c.nontrivial(k > 1);
}
PBT_MAIN((pbt::Property{"C16",
  "Generated continuous-energy nuclides (1-8 point tables written as files, any subset of total/capture/scatter/fission, reactions evaluated at equal or different temperatures, awr around and above 1, photons and thermal data at times). totals: nuclide and material totals (a third of the time at a place in a temperature gradient) at 10 energies (grid points, between, outside) at a temperature equal to, within 1% of, just beyond or far from the evaluated ones, against an independent long double statement of the rules; revisited: 30 questions about 1-3 nuclides at few energies and places of a gradient, again and again; choice: 8000 collisions, reaction frequencies proportional to the local cross sections, yields floor or ceiling of the tabulated average with the right frequency, isotropic secondaries at the place of fission, end of history on capture and fission. Non-trivial when a rule beyond the plain table applies (totals), when two reactions compete (choice).",
  {"Energies or temperatures at a rule's threshold to rounding are skipped.", "choice needs total tables no smaller than the sum of the reactions."},
  {{"totals", totals, 25000, 100000}, {"revisited", revisited, 6000, 40000}, {"choice", choice, 2000, 8000}}}))
