#include "glue.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
static V3 any_vec(Case& c) {
  double s = c.chance(1, 3) ? 1 : c.logreal(1e-6, 1e6);
  return {c.real(-1, 1) * s, c.real(-1, 1) * s, c.real(-1, 1) * s};
}
static void algebra(Case& c) {
  V3 a = any_vec(c), b = any_vec(c);
  double k = c.real(-10, 10);
  c.note("a ", a.str(), " b ", b.str(), " k ", k);
  Point A = P(a), B = P(b);
  auto eq = [&](const Point& got, V3 want, const char* what, double tol) {
    V3 g = V(got);
    c.check(close(g.x, want.x, tol) && close(g.y, want.y, tol) && close(g.z, want.z, tol), cat(what, " is ", g.str(), ", expected ", want.str()));
  };
  double m = 1e-14 * (a.norm() + b.norm());
  eq(A + B, a + b, "a+b", m);
  eq(A - B, a - b, "a-b", m);
  eq(A * k, a * k, "a*k", m * std::fabs(k));
  eq(k * A, a * k, "k*a", m * std::fabs(k));
  if (std::fabs(k) > 1e-3) { eq(A / k, a * (1 / k), "a/k", m / std::fabs(k)); Point q = A; q /= k; eq(q, a * (1 / k), "a/=k", m / std::fabs(k)); }
  Point s = A; s += B;
  eq(s, a + b, "a+=b", m);
  double mm = 1e-14 * a.norm() * b.norm();
  c.check(close(A.Dot(B), a.dot(b), 3 * mm), cat("dot is ", A.Dot(B), " expected ", a.dot(b)));
  eq(A.Cross(B), a.cross(b), "cross", 3 * mm);
  c.check(A == P(a) && (A == B) == (a.x == b.x && a.y == b.y && a.z == b.z), "equality");
  Point d = A; 
  if (a.norm() > 0) { d.Normalize(); eq(d, a.unit(), "normalised", 1e-14); }
  c.evals(10);
  c.nontrivial(a.norm() > 0 && b.norm() > 0);
}
static void construct(Case& c) {
  V3 a = any_vec(c);
  if (a.norm() < 1e-9) c.discard();
  c.note("vector ", a.str());
  auto ok = [&](V3 g, const char* how) {
    V3 w = a.unit();
    c.check(close(g.norm(), 1, 1e-14) && close(g.x, w.x, 1e-14) && close(g.y, w.y, 1e-14) && close(g.z, w.z, 1e-14), cat("direction ", how, " is ", g.str(), ", expected ", w.str()));
  };
  ok(V(D(a)), "from components");
  Point p = P(a);
  ok(V(Direction{p}), "from a point");
  ok(V(Direction{P(a)}), "from a moved point");
  Doc d("<minimc>" + dir_xml(a) + "</minimc>");
  ok(V(Direction{d.root.child("constant")}), "from a node");
  V3 q = V(Point{d.root.child("constant")});
  c.check(q.x == a.x && q.y == a.y && q.z == a.z, "point from a node");
  c.evals(4);
  c.nontrivial(a.norm() > 1.001 || a.norm() < 0.999);
}
static double azimuth(V3 d, V3 e0, V3 e1) { return std::atan2(d.dot(e1), d.dot(e0)); }
static void deflect(Case& c) {
  V3 d0 = gen_dir(c);
  if (c.chance(1, 3)) { // around the switch-over between the two frames
    double x = c.sign() * (0.9 + c.uniform(-1e-3, 1e-3)), a = c.uniform(0, 2 * M_PI), s = std::sqrt(1 - x * x);
    d0 = {x, s * std::cos(a), s * std::sin(a)};
    c.label("near the switch-over");
  }
  Direction dir = D(d0);
  V3 d = V(dir);
  double mu;
  switch (c.below(5)) {
  case 0: mu = c.real(-1, 1); break;
  case 1: mu = c.sign() * (1 - c.logreal(1e-15, 1e-2)); break;
  case 2: mu = c.sign() * c.logreal(1e-12, 1); break;
  default: mu = c.uniform(-1, 1);
  }
  mu = std::min(1., std::max(-1., mu));
  c.note("from ", d.str(), " cosine ", mu);
  V3 e0, e1;
  double sg = 0, first = 0, last = 0, total = 0;
  int n = 9;
  bool degenerate = 1 - std::fabs(mu) < 1e-9;
  for (int i = 0; i <= n; i++) {
    double phi = 2 * M_PI * i / n;
    V3 g = V(Direction{dir, mu, phi});
    std::string w = cat("azimuth ", phi, " gives ", g.str(), ": ");
    c.check(close(g.norm(), 1, 1e-13), w + "not a unit vector");
    c.check(close(g.dot(d), mu, 1e-13), w + cat("cosine ", g.dot(d)));
    if (degenerate) continue;
    V3 t = g - d * g.dot(d);
    if (i == 0) { e0 = t.unit(); e1 = d.cross(e0); first = last = 0; }
    double a = azimuth(t.unit(), e0, e1);
    double step = a - last;
    while (step > M_PI) step -= 2 * M_PI;
    while (step < -M_PI) step += 2 * M_PI;
    if (i) {
      if (!sg) sg = step < 0 ? -1 : 1;
      double tol = 1e-6 + 1e-13 / std::sqrt(1 - mu * mu);
      c.check(close(step, sg * 2 * M_PI / n, tol), w + cat("azimuth advanced by ", step, " instead of ", sg * 2 * M_PI / n));
    }
    last = a;
    total += step;
  }
  (void)first; (void)total;
  c.evals(n + 1);
  if (degenerate) c.label("forward or backward");
  c.nontrivial(!degenerate);
}
static void scatter(Case& c) {
  V3 d0 = gen_dir(c), pos{c.real(-5, 5), c.real(-5, 5), c.real(-5, 5)};
  Particle p{P(pos), D(d0), Group{1}, Particle::Type::neutron, (RNG::result_type)c.seed()};
  c.note("from ", d0.str());
  int n = c.range(2, 12);
  for (int i = 0; i < n; i++) {
    double mu = c.real(-1, 1);
    double E = c.logreal(1e-9, 10);
    V3 before = V(p.GetDirection());
    if (c.chance(1, 5)) p.Scatter(mu, Group{1 + c.below(30)});
    else {
      p.Scatter(mu, E);
      c.check(std::holds_alternative<ContinuousEnergy>(p.GetEnergy()) && std::get<ContinuousEnergy>(p.GetEnergy()) == E, "energy after scattering is not the requested one");
    }
    V3 g = V(p.GetDirection());
    c.check(close(g.norm(), 1, 1e-13) && close(g.dot(before), mu, 1e-13), cat("after scattering ", i, " by ", mu, ": direction ", g.str(), " cosine ", g.dot(before)));
    V3 q = V(p.GetPosition());
    c.check(q.x == pos.x && q.y == pos.y && q.z == pos.z, "scattering moved the particle");
    if (c.chance(1, 2)) {
      double s = c.real(0, 4);
      p.Stream(s);
      V3 w = pos + g * s, h = V(p.GetPosition());
      c.check((h - w).norm() <= 1e-14 * (pos.norm() + s + 1), cat("streaming ", s, " led to ", h.str(), " instead of ", w.str()));
      V3 g2 = V(p.GetDirection());
      c.check(g2.x == g.x && g2.y == g.y && g2.z == g.z, "streaming changed the direction");
      pos = h;
    }
    if (c.chance(1, 5)) { p.SetDirectionIsotropic(); c.check(close(V(p.GetDirection()).norm(), 1, 1e-13), "isotropic direction is not a unit vector"); }
  }
  c.evals(n);
  c.nontrivial();
}
// isotropic directions are uniform on the sphere: cosine about any axis is
// uniform and so is the azimuth, jointly
static void isotropic(Case& c) {
  V3 ax = gen_dir(c), e0 = ax.cross(std::fabs(ax.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}).unit(), e1 = ax.cross(e0);
  uint64_t seed = c.seed();
  int way = c.below(3);
  double mu0 = c.uniform(-0.95, 0.95);
  V3 d0 = gen_dir(c);
  c.note("axis ", ax.str(), " seed ", seed, " way ", way);
  static const char* names[] = {"isotropic constructor", "SetDirectionIsotropic", "azimuth of Particle::Scatter"};
  pbt::confirm(c, names[way], c.thorough ? 200000 : 40000, [&](int round, uint64_t n) {
    RNG rng{(RNG::result_type)((pbt::mix64(seed + 77 * round) % 2147483646) + 1)};
    Particle p{Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, rng()};
    if (way == 2) {
      // the azimuth around the incident direction must be uniform
      V3 f0 = d0.cross(std::fabs(d0.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}).unit(), f1 = d0.cross(f0);
      std::vector<double> cnt(24, 0);
      for (uint64_t i = 0; i < n; i++) {
        Particle q{Point{}, D(d0), Group{1}, Particle::Type::neutron, p.rng()};
        q.rng.discard(1 + i % 3);
        q.Scatter(mu0, Group{1});
        V3 g = V(q.GetDirection());
        double a = azimuth(g - d0 * g.dot(d0), f0, f1) / (2 * M_PI) + 0.5;
        cnt[std::min(23, std::max(0, (int)(a * 24)))]++;
      }
      return pbt::multinomial_p(cnt, std::vector<double>(24, 1. / 24));
    }
    std::vector<double> cnt(12 * 12, 0);
    for (uint64_t i = 0; i < n; i++) {
      V3 g;
      if (way == 0) g = V(Direction{rng});
      else { p.SetDirectionIsotropic(); g = V(p.GetDirection()); }
      if (!(std::fabs(g.norm() - 1) < 1e-12)) c.fail("isotropic direction is not a unit vector: " + g.str());
      double m = (g.dot(ax) + 1) / 2, a = azimuth(g, e0, e1) / (2 * M_PI) + 0.5;
      int i0 = std::min(11, std::max(0, (int)(m * 12))), i1 = std::min(11, std::max(0, (int)(a * 12)));
      cnt[i0 * 12 + i1]++;
    }
    return pbt::multinomial_p(cnt, std::vector<double>(144, 1. / 144));
  });
  c.nontrivial();
}
PBT_MAIN((pbt::Property{"C04",
  "algebra/construct: random vectors over twelve decades (non-trivial: non-zero, not already normalised). deflect: a direction (axes, coordinate planes, within 1e-3 of the frame switch-over, anywhere), a cosine (exact ends, within 1e-15 of them, anywhere) and ten azimuths (non-trivial: not forward/backward). scatter: histories of 2-12 scatterings, flights and isotropic re-emissions. isotropic: 40000 (thorough 200000) samples binned in cosine x azimuth about a random axis.",
  {"Distributional claims are decided with two-stage tests (p < 1e-4, then p < 1e-8 on four times as many fresh samples)."},
  {{"algebra", algebra, 240000, 1000000}, {"construct", construct, 120000, 1000000}, {"deflect", deflect, 360000, 3000000}, {"scatter", scatter, 120000, 1000000}, {"isotropic", isotropic, 1440, 5760}}}))
