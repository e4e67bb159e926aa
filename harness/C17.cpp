#include "ceworld.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
struct Setup { CeNuclide n; double E, T; V3 x, d; Input in; bool crowd = false; double E2; V3 x2; };
static Setup make(Case& c, Files& f, bool cold) {
  Setup s;
  s.n.name = "a";
  s.n.awr = c.chance(1, 3) ? 0.99917 : c.chance(1, 2) ? c.uniform(0.5, 12) : c.logreal(1, 240);
  s.T = c.chance(1, 4) ? 293.6 : c.logreal(1, 3000);
  double kT = kBoltzmann * s.T;
  s.E = cold ? kT * c.logreal(1e8, 1e11) * std::max(1., s.n.awr) : kT * c.logreal(1e-3, c.chance(1, 3) ? 1e4 : 30);
  CeData d; d.scatter = Eval{gen_xs(c, gen_axis(c, c.range(1, 4), 1e-12, 20, true), 1), c.chance(1, 2) ? s.T : 293.6};
  if (c.chance(1, 2)) d.total = d.scatter;
  s.n.neutron = d;
  if (d.total) s.n.neutron->total->T = d.scatter->T;
  s.x = V3{c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)} * 3;
  s.d = gen_dir(c);
  Field t;
  if (c.chance(1, 2)) { t.linear = true; t.g = gen_dir(c) * (s.T * 0.05); t.b = s.T - t.g.dot(s.x); t.lo = 0; t.hi = 3 * s.T; }
  else t.c = s.T;
  // other collisions come in between
  std::vector<CeNuclide> ns = {s.n};
  if (!cold && (s.crowd = c.chance(1, 2))) {
    CeNuclide b = s.n; b.name = "b"; b.awr = c.chance(1, 2) ? s.n.awr * c.logreal(0.3, 3) : c.logreal(1, 240);
    if (c.chance(1, 2)) ns.push_back(b); else ns.insert(ns.begin(), b);
    s.E2 = c.chance(1, 2) ? s.E : s.E * c.logreal(0.01, 100); s.x2 = c.chance(1, 3) ? s.x : V3{c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)} * 3;
    c.label("among other collisions");
  }
  s.in = ce_ball(ns, f, t.xml());
  if (!t.linear && c.chance(1, 2)) { s.in.regions[0].temperature = s.T; s.in.temperature_xml = Field{false, 777}.xml(); }
  if (t.linear) s.in.tracking = "cell delta";
  c.note("awr ", s.n.awr, " E ", s.E, " MeV, E/kT ", s.E / kT, " T ", s.T, " at ", s.x.str(), " going ", s.d.str());
  return s;
}
static V3 dir_of(const Particle& p) { return V(p.GetDirection()); }
// checks what every outcome must satisfy and returns it
static Outcome shoot(Case& c, const CeWorld& w, const Setup& s, uint64_t seed) {
  Particle p = w.at(s.x, s.d, s.E, true, seed);
  V3 x0 = V(p.GetPosition()), d0 = dir_of(p);
  w.w->FindNuclideByName("a")->Interact(p);
  Outcome o; o.E = std::get<ContinuousEnergy>(p.GetEnergy()); o.d = dir_of(p);
  c.check(std::isfinite(o.E) && o.E > 0, cat("outgoing energy ", o.E));
  c.check(std::fabs(o.d.norm() - 1) < 1e-9, cat("outgoing direction ", o.d.str(), " is not of unit length"));
  V3 x1 = V(p.GetPosition());
  c.check(x1.x == x0.x && x1.y == x0.y && x1.z == x0.z, "the position changed in a collision");
  c.check(p.IsAlive() && p.event == Particle::Event::scatter, "a scattered particle must stay alive");
  o.mu = o.d.dot(d0);
  return o;
}
static void distribution(Case& c) {
  Files f;
  Setup s = make(c, f, false);
  CeWorld w(s.in);
  uint64_t seed = c.seed();
  V3 d0 = V(D(s.d));
  pbt::confirm(c, "joint distribution of outgoing energy and cosine", c.thorough ? 40000 : 6000, [&](int round, uint64_t n) {
    pbt::Rng r(pbt::mix64(seed) + round);
    std::vector<double> e1, m1, e2, m2, az;
    for (uint64_t i = 0; i < n; i++) {
      if (s.crowd && r.unit() < 0.7) { Particle q = w.at(s.x2, s.d * -1, s.E2, true, 1 + r.next() % 2147483000); w.w->FindNuclideByName(r.unit() < 0.5 ? "a" : "b")->Interact(q); }
      Outcome a = shoot(c, w, s, 1 + pbt::mix64(seed ^ (round * 15485863 + i)) % 2147483000);
      e1.push_back(a.E); m1.push_back(a.mu);
      V3 h = std::fabs(d0.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}; V3 u = d0.cross(h).unit(), v = d0.cross(u);
      az.push_back((std::atan2(a.d.dot(v), a.d.dot(u)) + M_PI) / (2 * M_PI));
      Outcome b = ref_free_gas(r, s.n.awr, s.E, s.T, d0);
      e2.push_back(b.E); m2.push_back(b.mu);
    }
    auto cuts = [](std::vector<double> a, const std::vector<double>& b, int k) { a.insert(a.end(), b.begin(), b.end()); std::sort(a.begin(), a.end()); std::vector<double> q; for (int i = 1; i < k; i++) q.push_back(a[a.size() * i / k]); return q; };
    const int K = 8;
    auto qe = cuts(e1, e2, K), qm = cuts(m1, m2, K);
    auto bin = [&](const std::vector<double>& e, const std::vector<double>& m) { std::vector<double> h(K * K, 0); for (size_t i = 0; i < e.size(); i++) h[(std::upper_bound(qe.begin(), qe.end(), e[i]) - qe.begin()) * K + (std::upper_bound(qm.begin(), qm.end(), m[i]) - qm.begin())]++; return h; };
    double p = pbt::two_sample_p(bin(e1, m1), bin(e2, m2));
    p = std::min({p, pbt::ks2_p(e1, e2), pbt::ks2_p(m1, m2), pbt::ks_p(az, [](double x) { return x; })});
    return std::min(1., 4 * p);
  });
  c.evals(6000);
  double y = s.E / (kBoltzmann * s.T);
  c.label(y < 0.1 ? "E below kT/10" : y < 10 ? "E of the order of kT" : "E above 10 kT");
  if (s.n.awr <= 1) c.label("target no heavier than a neutron");
  c.nontrivial(y > 0.01 && y < 100);
}
// a target practically at rest: the two-body relation holds outcome by outcome
static void cold(Case& c) {
  Files f;
  Setup s = make(c, f, true);
  CeWorld w(s.in);
  double A = s.n.awr, al = (A - 1) / (A + 1) * ((A - 1) / (A + 1));
  double tol = 60 * std::sqrt(kBoltzmann * s.T / s.E / A) * (1 + A); // target speed over neutron speed, generously
  for (int i = 0; i < 30; i++) {
    Outcome o = shoot(c, w, s, c.seed() % 2147483000 + 1);
    double x = o.E / s.E;
    c.check(x >= al - tol && x <= 1 + tol, cat("E'/E = ", x, " outside [", al, ", 1] for awr ", A));
    if (x > 1e-3) {
      double mu = 0.5 * ((A + 1) * std::sqrt(x) - (A - 1) / std::sqrt(x));
      c.check(std::fabs(o.mu - mu) <= tol / std::sqrt(x) + 1e-7 * A, cat("E'/E = ", x, " with cosine ", o.mu, ", two-body kinematics gives ", mu, " for awr ", A));
    }
  }
  c.evals(30);
  c.nontrivial(tol < 0.3);
}
PBT_MAIN((pbt::Property{"C17",
  "Generated nuclides (awr 0.5-240, half of them hydrogen-like or light), temperatures 1-3000 K (constant, own or gradient), incident energies 1e-3 to 1e4 kT, any place and direction. distribution: 6000 collisions against 6000 outcomes of an independent rejection sampler of the Maxwellian target (half of the time among collisions at other energies and places and with another nuclide; 2-D 8x8 homogeneity of energy and cosine, two-sample KS of each, uniform azimuth), with every outcome checked for finite positive energy, unit direction, same place, alive; non-trivial for E between 0.01 and 100 kT. cold: E above 1e8 kT, each outcome within the elastic limits and on the two-body angle-energy relation; non-trivial when the tolerance is below 0.3.",
  {"The reference truncates the target speed at nine standard deviations."},
  {{"distribution", distribution, 2000, 8000, false, 90}, {"cold", cold, 15000, 60000}}}))
