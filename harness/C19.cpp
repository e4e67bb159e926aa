#include "ceworld.hpp"
#include "ThermalScattering.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
static void sampling(Case& c) {
  Files f;
  CeNuclide n; n.name = "a"; n.awr = c.chance(1, 2) ? c.uniform(0.9, 1.2) : c.logreal(0.5, 60);
  n.neutron = CeData{};
  n.neutron->scatter = Eval{gen_xs(c, {1e-9, 1e-6}, 1), 300};
  n.neutron->tsl = gen_tsl(c, n.awr);
  const Tsl& t = *n.neutron->tsl;
  double T;
  switch (c.below(5)) {
  case 0: T = c.pick(t.Ts); break;
  case 1: T = t.Ts.front() * c.uniform(0.55, 1); break;
  case 2: T = std::min(1090., t.Ts.back() * c.uniform(1, 1.5)); break;
  default: T = t.Ts.front() + (t.Ts.back() - t.Ts.front()) * c.unit();
  }
  double lowest = t.bp[0].Es[0], E;
  switch (c.below(5)) {
  case 0: { std::vector<double> all; for (auto& p : t.bp) all.insert(all.end(), p.Es.begin(), p.Es.end()); all.pop_back(); if (all.empty()) all.push_back(t.cutoff() * 0.9); E = c.pick(all); break; }
  case 1: E = lowest * c.uniform(0.5, 1); break;
  case 2: E = t.cutoff() * (1 - c.logreal(1e-6, 1e-1)); break;
  default: E = lowest * std::pow(t.cutoff() / lowest, c.unit()); if (!(E < t.cutoff())) E = t.cutoff() * 0.99;
  }
  V3 x{c.real(-2, 2), c.real(-2, 2), c.real(-2, 2)}, d = gen_dir(c);
  Field fl; fl.c = T;
  if (c.chance(1, 2)) { fl.linear = true; fl.g = gen_dir(c) * 30; fl.b = T - fl.g.dot(x); fl.lo = 0; fl.hi = 3000; T = (double)fl.at(x); }
  TslRef ref(t, n.awr, E, T);
  if (ref.unreachable() > 0.3) c.discard(); // the sampler gives up after ten attempts
  // other collisions come in between
  bool crowd = c.chance(1, 2); double E2 = 0; V3 x2 = x; std::vector<CeNuclide> ns = {n};
  if (crowd) {
    CeNuclide b = n; b.name = "b"; b.neutron->tsl = gen_tsl(c, n.awr); gains(c, *b.neutron->tsl);
    ns.push_back(b); E2 = c.chance(1, 2) ? E : E * c.logreal(0.1, 10); x2 = c.chance(1, 3) ? x : V3{c.real(-2, 2), c.real(-2, 2), c.real(-2, 2)};
    c.label("among other collisions");
  }
  Input in = ce_ball(ns, f, fl.xml());
  c.note("awr ", n.awr, " E ", E, " T ", T, " table ", t.Ts.front(), " to ", t.Ts.back(), " K, lowest E ", lowest, " cutoff ", t.cutoff(), " betas ", ref.bs.front(), " to ", ref.bs.back());
  CeWorld w(in);
  ThermalScattering ts(w.doc->root.child("nuclides").child("continuous").child("nuclide").child("neutron").child("scatter").child("tsl"));
  std::unique_ptr<ThermalScattering> other;
  if (crowd) other = std::make_unique<ThermalScattering>(w.doc->root.child("nuclides").child("continuous").child("nuclide").next_sibling("nuclide").child("neutron").child("scatter").child("tsl"));
  pbt::Rng between(c.seed());
  Particle probe = w.at(x, d, E, true, 1);
  c.check(ts.IsValid(probe), "thermal scattering must apply below the cutoff");
  uint64_t seed = c.seed();
  V3 d0 = V(D(d));
  int gaveup = 0;
  bool up = false, down = false;
  pbt::confirm(c, "energy and momentum transfer against the tables", c.thorough ? 20000 : 4000, [&](int round, uint64_t num) {
    std::vector<double> U, W, az, h(64, 0);
    for (uint64_t i = 0; i < num; i++) {
      Particle p = w.at(x, d, E, true, 1 + pbt::mix64(seed ^ (round * 15485863 + i)) % 2147483000);
      V3 x0 = V(p.GetPosition());
      if (crowd && between.unit() < 0.7) {
        Particle q = w.at(x2, d * -1, E2, true, 1 + between.next() % 2147483000);
        auto& s2 = between.unit() < 0.5 ? ts : *other;
        if (s2.IsValid(q)) try { s2.Scatter(q); } catch (std::runtime_error&) {}
      }
      try { ts.Scatter(p); } catch (std::runtime_error&) { gaveup++; continue; }
      double Ep = std::get<ContinuousEnergy>(p.GetEnergy());
      V3 q = V(p.GetDirection()), x1 = V(p.GetPosition());
      c.check(std::isfinite(Ep) && Ep >= 0, cat("outgoing energy ", Ep));
      c.check(std::fabs(q.norm() - 1) < 1e-9, cat("outgoing direction ", q.str(), " at E'=", Ep, ": the cosine was outside [-1, 1]"));
      c.check(x1.x == x0.x && x1.y == x0.y && x1.z == x0.z && p.IsAlive(), "a thermal collision moved or killed the particle");
      double mu = q.dot(d0);
      Ld b = ((Ld)Ep - E) / ref.kT, a = ((Ld)E + Ep - 2 * (Ld)mu * std::sqrt((Ld)E * Ep)) / (n.awr * ref.kT);
      c.check(b >= ref.bmin * (1 + 1e-9L) && b <= t.beta_cutoff * (1 + 1e-9L), cat("energy transfer ", (double)b, " outside [", (double)ref.bmin, ", ", t.beta_cutoff, "]"));
      (b > 0 ? up : down) = true;
      double u = (double)ref.F(b), v = (double)ref.G(a, b);
      U.push_back(u); W.push_back(v);
      V3 hh = std::fabs(d0.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}; V3 e1 = d0.cross(hh).unit(), e2 = d0.cross(e1);
      az.push_back((std::atan2(q.dot(e2), q.dot(e1)) + M_PI) / (2 * M_PI));
      h[std::min(7, (int)(u * 8)) * 8 + std::max(0, std::min(7, (int)(v * 8)))]++;
    }
    c.check(gaveup < 0.01 * num + 3, cat(gaveup, " of ", num, " collisions were given up although most of the table is reachable"));
    auto id = [](double y) { return y; };
    return std::min(1., 4 * std::min({pbt::ks_p(U, id), pbt::ks_p(W, id), pbt::ks_p(az, id), pbt::multinomial_p(h, std::vector<double>(64, 1. / 64))}));
  });
  c.evals(4000);
  c.label(T < t.Ts.front() ? "below the lowest temperature" : T > t.Ts.back() ? "above the highest temperature" : "inside the temperatures");
  if (E < lowest) c.label("below the lowest energy");
  if (ref.unreachable() > 1e-6) c.label("unreachable downscatter");
  c.nontrivial(up && down);
}
// the outcomes the tables allow also come out of whole collisions
static void collisions(Case& c) {
  Files f;
  CeNuclide n; n.name = "a"; n.awr = c.chance(1, 2) ? c.uniform(0.9, 1.2) : c.logreal(0.5, 60);
  n.neutron = CeData{};
  n.neutron->scatter = Eval{gen_xs(c, {1e-9, 1e-6}, 1), 300};
  n.neutron->tsl = gen_tsl(c, n.awr);
  const Tsl& t = *n.neutron->tsl;
  double T = c.uniform(t.Ts.front() * 0.6, std::min(1090., t.Ts.back() * 1.2));
  double E = t.bp[0].Es[0] * std::pow(t.cutoff() / t.bp[0].Es[0], c.unit());
  bool at_cut = c.chance(1, 4);
  if (at_cut) E = t.cutoff() * c.uniform(1, 1.5);
  TslRef* ref = nullptr; std::unique_ptr<TslRef> hold;
  if (E < t.cutoff()) { hold = std::make_unique<TslRef>(t, n.awr, E, T); ref = hold.get(); if (ref->unreachable() > 0.1) c.discard(); }
  Field fl; fl.c = T;
  Input in = ce_ball({n}, f, fl.xml());
  c.note("awr ", n.awr, " E ", E, " cutoff ", t.cutoff(), " T ", T);
  CeWorld w(in);
  auto nuc = w.w->FindNuclideByName("a");
  uint64_t seed = c.seed();
  if (ref)
    pbt::confirm(c, "collision below the cutoff against the thermal tables", 1500, [&](int round, uint64_t num) {
      std::vector<double> U;
      for (uint64_t i = 0; i < num; i++) {
        Particle p = w.at({}, {0, 1, 0}, E, true, 1 + pbt::mix64(seed ^ (round * 15485863 + i)) % 2147483000);
        nuc->Interact(p);
        c.check(p.IsAlive() && p.event == Particle::Event::scatter, "a scattered particle must stay alive");
        U.push_back((double)ref->F(((Ld)std::get<ContinuousEnergy>(p.GetEnergy()) - E) / ref->kT));
      }
      return pbt::ks_p(U, [](double y) { return y; });
    });
  else
    pbt::confirm(c, "collision at or above the cutoff against the free gas", 1500, [&](int round, uint64_t num) {
      std::vector<double> a, b; pbt::Rng r(pbt::mix64(seed) + round);
      for (uint64_t i = 0; i < num; i++) {
        Particle p = w.at({}, {0, 1, 0}, E, true, 1 + pbt::mix64(seed ^ (round * 15485863 + i)) % 2147483000);
        nuc->Interact(p);
        a.push_back(std::get<ContinuousEnergy>(p.GetEnergy()));
        b.push_back(ref_free_gas(r, n.awr, E, T, {0, 1, 0}).E);
      }
      return pbt::ks2_p(a, b);
    });
  c.evals(1500);
  c.label(ref ? "below the cutoff" : "at or above the cutoff");
  c.nontrivial();
}
PBT_MAIN((pbt::Property{"C19",
  "Generated thermal tables (2-6 incident energies and 1-6 energy transfers over one or several partitions, 1-4 temperatures, 1-6 distribution points, expansions of order 1-3; one in ten of the size of evaluated libraries; written as files), incident energies on, between and below the tabulated ones up to just below the cutoff, temperatures inside and outside, constant or gradient. sampling: 4000 outcomes per case (half of the time among collisions at other energies, places and tables), each checked for kinematic possibility; energy transfer and momentum transfer mapped through the distribution functions the tables define (mixture of the neighbouring tables, truncated to reachable downscatter; restricted and rescaled to the kinematic limits) must be independent and uniform (KS of each, 8x8 cells) and the azimuth uniform. collisions: whole collisions below the cutoff follow the tables, at and above it the free gas. Non-trivial when both up- and downscatter occur.",
  {"Cases where more than 30% of a table is unreachable are skipped: the sampler gives up after ten attempts.", "Tables increase strictly from the kinematic minimum to the cutoffs."},
  {{"sampling", sampling, 4500, 18000, false, 90}, {"collisions", collisions, 4500, 18000, false, 60}}}))
