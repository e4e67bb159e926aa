#include "ceworld.hpp"
#include "Bank.hpp"
#include "FixedSource.hpp"
#include "Source.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
// --- pairwise independence of recorded variables -------------------------
// Every variable is reduced to one of 4 cells of known or unknown probability;
// the contingency table of each pair of variables is tested.
struct Frame {
  V3 a, b, c;
  explicit Frame(Case& k) { a = gen_dir(k); b = a.cross(std::fabs(a.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}).unit(); c = a.cross(b); }
  int mu(V3 d) const { return std::min(3, std::max(0, (int)((d.dot(a) + 1) * 2))); }
  int az(V3 d) const { return std::min(3, std::max(0, (int)((std::atan2(d.dot(c), d.dot(b)) / (2 * M_PI) + .5) * 4))); }
};
struct Pairs {
  std::vector<std::string> left, right;
  std::vector<std::vector<std::array<double, 16>>> n;
  std::string worst;
  Pairs(std::vector<std::string> l, std::vector<std::string> r) : left{l}, right{r}, n(l.size(), std::vector<std::array<double, 16>>(r.size())) { for (auto& x : n) for (auto& y : x) y.fill(0); }
  void add(const std::vector<int>& l, const std::vector<int>& r) { for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < r.size(); j++) n[i][j][l[i] * 4 + r[j]]++; }
  double p() {
    double best = 1; int tests = 0;
    for (size_t i = 0; i < left.size(); i++) for (size_t j = 0; j < right.size(); j++) {
      auto& t = n[i][j]; double R[4] = {}, C[4] = {}, N = 0;
      for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { R[a] += t[a * 4 + b]; C[b] += t[a * 4 + b]; N += t[a * 4 + b]; }
      int nr = 0, nc = 0; double x2 = 0; bool thin = false;
      for (int a = 0; a < 4; a++) nr += R[a] > 0; for (int b = 0; b < 4; b++) nc += C[b] > 0;
      for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (R[a] > 0 && C[b] > 0) { double e = R[a] * C[b] / N; thin |= e < 8; x2 += (t[a * 4 + b] - e) * (t[a * 4 + b] - e) / e; }
      if (nr < 2 || nc < 2 || thin) continue;
      tests++;
      double q = pbt::chi2_p(x2, (nr - 1) * (nc - 1));
      if (q < best) {
        best = q; std::string s;
        for (int a = 0; a < 4; a++) { s += "\n"; for (int b = 0; b < 4; b++) s += cat(" ", t[a * 4 + b]); }
        worst = left[i] + " (rows) against " + right[j] + " (columns):" + s;
      }
    }
    return std::min(1., best * std::max(1, tests));
  }
};
static int quarter(double u) { return std::min(3, std::max(0, (int)(u * 4))); }
static std::vector<std::string> names(const std::string& who, bool group, int k) {
  std::vector<std::string> v{who + "'s polar cosine", who + "'s azimuth"};
  if (group) v.push_back(who + "'s group");
  for (int i = 1; i <= k; i++) v.push_back(cat(who, "'s random number ", i));
  return v;
}
static void judge(Case& c, const std::string& what, uint64_t n, const std::function<void(Pairs&, int, uint64_t)>& f, Pairs t) {
  std::string last;
  try {
    pbt::confirm(c, what, n, [&](int round, uint64_t m) { Pairs x = t; f(x, round, m); double p = x.p(); last = x.worst; return p; });
  } catch (pbt::Failure& e) { throw pbt::Failure{e.msg + "\n" + last}; }
}
static constexpr int kNumbers = 8;
static RNG::result_type any_seed(uint64_t s) { return (RNG::result_type)(1 + pbt::mix64(s) % 2147483645); }
// fission neutrons of one fission: what one does tells nothing about another
static void siblings(Case& c) {
  bool ce = c.chance(1, 3); Files f;
  Input in; int G = 1;
  double E0 = 1e-6;
  if (!ce) {
    G = c.range(1, 4); in.groups = G;
    MgNuclide n; n.name = "x"; n.neutron = Mg{}; auto& m = *n.neutron;
    if (c.chance(1, 2)) m.capture = gen_vec(c, G, 0.2, true);
    m.fis_xs = gen_vec(c, G, 1, false); m.chi = gen_vec(c, G * G, 1, false);
    for (int g = 0; g < G; g++) m.nubar.push_back(c.chance(1, 2) ? c.range(2, 5) : c.uniform(2, 5));
    in.nuclides = {n};
  } else {
    CeNuclide n; n.name = "x"; n.awr = c.logreal(1, 240); n.neutron = CeData{};
    n.neutron->fission = Eval{Tab1{{E0}, {1}}, 293.6}; n.neutron->nubar = Tab1{{E0}, {c.uniform(2, 5)}};
    if (c.chance(1, 2)) n.neutron->capture = Eval{Tab1{{E0}, {0.2}}, 293.6};
    in.nuclides_xml = ce_xml({n}, f);
  }
  in.materials = {{"m", 1, {{"x", 1}}}};
  Surf s; s.name = "o"; s.r = 10; in.surfaces = {s};
  in.regions = {{false, "c", "m", std::nullopt, {{0, -1}}}, {true, "", "", std::nullopt, {{0, +1}}}};
  Doc doc(in.xml()); World w(doc.root);
  int g0 = c.below(G); V3 d0 = gen_dir(c); Frame fr(c);
  uint64_t seed = c.seed();
  c.note(in.nuc_xml(), "\nfission in group ", g0 + 1);
  uint64_t n = c.thorough ? 60000 : 8000, got = 0;
  auto vars = [&](Particle& q) {
    V3 d = V(q.GetDirection());
    std::vector<int> v{fr.mu(d), fr.az(d)};
    if (!ce) v.push_back((int)std::get<Group>(q.GetEnergy()) - 1);
    for (int i = 0; i < kNumbers; i++) v.push_back(quarter(q.Sample()));
    return v;
  };
  judge(c, "neutrons of one fission", n, [&](Pairs& t, int round, uint64_t m) {
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < m; k++) {
      Particle p{Point{}, D(d0), ce ? Energy{ContinuousEnergy{E0}} : Energy{Group(g0 + 1)}, Particle::Type::neutron, any_seed(r.next())};
      p.SetCell(w.FindCellContaining(Point{}));
      const Nuclide& nuc = p.SampleNuclide();
      for (int i = 0; i < 20; i++) { nuc.Interact(p); if (p.event == Particle::Event::fission) break; }
      Bank b; p.MoveSecondariesTo(b);
      std::vector<std::vector<int>> v;
      while (!b.empty()) { v.push_back(vars(b.back())); b.pop_back(); }
      if (v.size() < 2) continue;
      got++;
      size_t i = r.next() % (v.size() - 1); // neighbours in the bank, in a fixed order
      t.add(v[i], v[i + 1]);
    }
  }, Pairs(names("one neutron", !ce, kNumbers), names("the next", !ce, kNumbers)));
  c.evals(got); if (ce) c.label("continuous");
  c.nontrivial(got > n / 3);
}
// source particle: its direction and its later decisions; other histories
static std::string gen_source(Case& c) { return c.chance(1, 2) ? "<isotropic/>" : dir_xml(gen_dir(c), "isotropic-flux"); }
static void source(Case& c) {
  Input in; in.direction_xml = gen_source(c); in.energy = "1"; in.groups = 1;
  in.pos = V3{c.real(-5, 5), c.real(-5, 5), c.real(-5, 5)};
  in.nuclides = {absorber("a", 1)};
  Doc doc(in.xml());
  Source src(doc.root.child("problemtype").child("fixedsource"));
  Frame fr(c);
  int lag = c.chance(1, 3) ? 0 : c.chance(1, 2) ? 1 : c.range(2, 1000);
  uint64_t seed = c.seed(), n = c.thorough ? 60000 : 8000;
  c.note(in.direction_xml, lag ? cat(", histories ", lag, " apart") : std::string{", one history"});
  auto vars = [&](Particle& q, int upto) {
    V3 d = V(q.GetDirection());
    std::vector<int> v{fr.mu(d), fr.az(d)};
    for (int i = 0; i < upto; i++) v.push_back(quarter(q.Sample()));
    return v;
  };
  auto strip = [](std::vector<std::string> v) { v.erase(v.begin(), v.begin() + 2); return v; };
  if (!lag) judge(c, "direction and later decisions of a source particle", n, [&](Pairs& t, int round, uint64_t m) {
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < m; k++) { Particle p = src.Sample(any_seed(r.next())); auto v = vars(p, kNumbers); t.add({v[0], v[1]}, std::vector<int>(v.begin() + 2, v.end())); }
  }, Pairs(names("the source particle", false, 0), strip(names("the source particle", false, kNumbers))));
  else judge(c, cat("histories ", lag, " apart"), n, [&](Pairs& t, int round, uint64_t m) {
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < m; k++) { auto s = 1 + pbt::mix64(r.next()) % 2147400000; Particle p = src.Sample((RNG::result_type)s), q = src.Sample((RNG::result_type)(s + lag)); t.add(vars(p, 4), vars(q, 4)); }
  }, Pairs(names("one source particle", false, 4), names("the other", false, 4)));
  c.evals(n);
  c.label(!lag ? "one history" : lag == 1 ? "neighbouring histories" : "histories apart");
  c.nontrivial();
}
// consecutive collisions of one particle, and the decisions in one collision
static void collisions(Case& c) {
  int G = c.range(1, 4);
  Input in; in.groups = G;
  int nn = c.range(1, 3);
  Mat mat; mat.name = "m";
  // every group and nuclide scatters alike: the group after a collision is
  // independent of the one before and of the nuclide
  auto col = gen_vec(c, G, 1, false);
  for (int i = 0; i < nn; i++) {
    MgNuclide n; n.name = std::string(1, (char)('a' + i)); n.neutron = Mg{};
    auto& m = *n.neutron; double f = c.logreal(0.3, 3);
    for (int to = 0; to < G; to++) for (int from = 0; from < G; from++) m.scatter.push_back(col[to] * f);
    in.nuclides.push_back(n); mat.nuclides.push_back({n.name, c.logreal(0.2, 5)});
  }
  // the same share of captures in each, and of fissions without neutrons
  Input cap = in;
  double share = c.uniform(0.3, 2), fshare = c.chance(1, 2) ? c.uniform(0.3, 2) : 0;
  for (auto& n : cap.nuclides) {
    auto& m = *n.neutron; std::vector<double> v;
    for (int g = 0; g < G; g++) { double t = 0; for (int to = 0; to < G; to++) t += m.scatter[to * G + g]; v.push_back(t * share); }
    m.capture = v;
    if (fshare > 0) { for (double& q : v) q *= fshare / share; m.fis_xs = v; m.nubar.assign(G, 1e-9); m.chi.assign(G * G, 0); for (int g = 0; g < G; g++) m.chi[g] = 1; }
  }
  in.materials = cap.materials = {mat};
  Surf s; s.name = "o"; s.r = 10; in.surfaces = {s};
  in.regions = {{false, "c", "m", std::nullopt, {{0, -1}}}, {true, "", "", std::nullopt, {{0, +1}}}};
  cap.surfaces = in.surfaces; cap.regions = in.regions;
  Doc doc(in.xml()); World w(doc.root);
  Frame fr(c);
  uint64_t seed = c.seed(), n = c.thorough ? 60000 : 8000;
  int lag = c.range(0, 3);
  c.note(in.nuc_xml(), "\ncollisions ", lag, " apart");
  std::vector<std::string> L{"cosine", "azimuth", "group", "number before", "nuclide"}, R;
  for (auto& x : L) R.push_back("later " + x);
  auto walk = [&](uint64_t sd) {
    Particle p{Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, any_seed(sd)};
    p.SetCell(w.FindCellContaining(Point{}));
    std::vector<std::vector<int>> v;
    for (int i = 0; i <= lag; i++) {
      double u = p.Sample();
      const Nuclide& nuc = p.SampleNuclide();
      nuc.Interact(p);
      V3 d = V(p.GetDirection());
      v.push_back({fr.mu(d), fr.az(d), (int)std::get<Group>(p.GetEnergy()) - 1, quarter(u), nuc.name[0] - 'a'});
    }
    return v;
  };
  auto run = [&](Pairs& t, int round, uint64_t m) {
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < m; k++) {
      auto v = walk(r.next());
      if (lag) t.add(v.front(), v.back()); else { auto& x = v[0]; t.add({x[0], x[1], x[2]}, {x[3], x[4]}); }
    }
  };
  judge(c, lag ? cat("collisions ", lag, " apart") : "decisions in one collision", n, run, lag ? Pairs(L, R) : Pairs({"cosine", "azimuth", "group"}, {"number before the collision", "nuclide"}));
  if (!lag) judge(c, "direction and group after a collision", n, [&](Pairs& t, int round, uint64_t m) {
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < m; k++) { auto v = walk(r.next()); t.add({v[0][0], v[0][1]}, {v[0][2]}); }
  }, Pairs({"cosine", "azimuth"}, {"group"}));
  if (!lag) {
    Doc doc2(cap.xml()); World w2(doc2.root);
    judge(c, "reaction in a collision", n, [&](Pairs& t, int round, uint64_t m) {
      pbt::Rng r(pbt::mix64(seed + 1) + round);
      for (uint64_t k = 0; k < m; k++) {
        Particle p{Point{}, Direction{1, 0, 0}, Group{(Group)(1 + k % G)}, Particle::Type::neutron, any_seed(r.next())};
        p.SetCell(w2.FindCellContaining(Point{}));
        double u = p.Sample(); const Nuclide& nuc = p.SampleNuclide(); nuc.Interact(p);
        int what = p.event == Particle::Event::capture ? 0 : p.event == Particle::Event::fission ? 1 : 2;
        std::vector<int> after;
        for (int i = 0; i < 3; i++) after.push_back(quarter(p.Sample()));
        t.add({what}, {quarter(u), nuc.name[0] - 'a', after[0], after[1], after[2]});
      }
    }, Pairs({"reaction"}, {"number before", "nuclide", "number after", "second number after", "third number after"}));
  }
  c.evals(n); c.label(lag ? "collisions apart" : "one collision"); c.nontrivial();
}
// continuous scattering: the azimuth, and the random numbers around the
// collision, are independent of the outgoing energy and cosine
static void kinematics(Case& c) {
  Files f;
  CeNuclide x; x.name = "a"; x.awr = c.chance(1, 3) ? 0.99917 : c.logreal(0.8, 40);
  double T = c.uniform(250, 800), E = kBoltzmann * T * c.logreal(0.05, 30);
  x.neutron = CeData{}; x.neutron->scatter = Eval{Tab1{{E}, {1}}, T};
  bool tsl = c.chance(1, 2);
  if (tsl) { auto t = gen_tsl(c, x.awr); gains(c, t); E = t.bp[0].Es[0]; if (E >= t.cutoff()) c.discard(); x.neutron->tsl = t; }
  Input in = ce_ball({x}, f, Field{false, T}.xml());
  CeWorld w(in);
  V3 d0 = V(D(gen_dir(c)));
  V3 h = std::fabs(d0.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}; V3 u = d0.cross(h).unit(), v = d0.cross(u);
  uint64_t seed = c.seed(), n = c.thorough ? 60000 : 6000;
  c.note("awr ", x.awr, " E/kT ", E / (kBoltzmann * T), tsl ? " thermal table" : " free gas");
  struct O { double E, mu, az, b, a; };
  auto shoot = [&](uint64_t s) {
    Particle p = w.at(V3{}, d0, E, true, any_seed(s));
    O o; o.b = p.Sample(); w.w->FindNuclideByName("a")->Interact(p); o.a = p.Sample();
    V3 d = V(p.GetDirection()); o.E = std::get<ContinuousEnergy>(p.GetEnergy()); o.mu = d.dot(d0);
    o.az = (std::atan2(d.dot(v), d.dot(u)) + M_PI) / (2 * M_PI);
    return o;
  };
  std::vector<double> es, ms; pbt::Rng r0(seed);
  for (int i = 0; i < 400; i++) { O o = shoot(r0.next()); es.push_back(o.E); ms.push_back(o.mu); }
  std::sort(es.begin(), es.end()); std::sort(ms.begin(), ms.end());
  auto rank = [](const std::vector<double>& s, double y) { return (y >= s[100]) + (y >= s[200]) + (y >= s[300]); };
  judge(c, "outgoing energy and cosine against the azimuth and surrounding random numbers", n, [&](Pairs& t, int round, uint64_t m) {
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < m; k++) { O o = shoot(r.next()); t.add({rank(es, o.E), rank(ms, o.mu)}, {quarter(o.az), quarter(o.b), quarter(o.a)}); }
  }, Pairs({"outgoing energy", "cosine"}, {"azimuth", "number before", "number after"}));
  judge(c, "azimuth against surrounding random numbers", n, [&](Pairs& t, int round, uint64_t m) {
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < m; k++) { O o = shoot(r.next()); t.add({quarter(o.az)}, {quarter(o.b), quarter(o.a)}); }
  }, Pairs({"azimuth"}, {"number before", "number after"}));
  c.evals(2 * n); c.label(tsl ? "thermal table" : "free gas"); c.nontrivial();
}
// whole runs: the neutrons of one certain fission fly through an absorber
static void flights(Case& c) {
  Input in;
  double R = c.logreal(0.1, 10); V3 o = V3{c.real(-3, 3), c.real(-3, 3), c.real(-3, 3)} * R;
  auto sph = [&](const char* n, double r) { Surf s; s.kind = Surf::sphere; s.name = n; s.c = o; s.r = r; in.surfaces.push_back(s); };
  sph("core", R * 0.05); sph("mid", R * c.uniform(0.3, 0.9)); sph("out", R);
  int y = c.range(2, 3);
  double t1 = c.uniform(0.3, 1.2), t2 = c.uniform(0.2, 1.2);
  double s1 = t1 / (in.surfaces[1].r - in.surfaces[0].r), s2 = t2 / (R - in.surfaces[1].r);
  MgNuclide f; f.name = "f"; f.neutron = Mg{};
  in.groups = 2; // group 1 fissions at once, group 2 flies
  f.neutron->fis_xs = {1e13 / R, 1e-14 / R}; f.neutron->nubar = {(double)y, 0}; f.neutron->chi = {0, 1, 1, 0};
  in.nuclides = {f, absorber("a", s1, 2), absorber("b", s2, 2)};
  in.materials = {{"fuel", 1, {{"f", 1}}}, {"near", 1, {{"a", 1}}}, {"far", 1, {{"b", 1}}}};
  in.regions = {{false, "k", "fuel", std::nullopt, {{0, -1}}}, {false, "m", "near", std::nullopt, {{0, +1}, {1, -1}}}, {false, "e", "far", std::nullopt, {{1, +1}, {2, -1}}}, {true, "", "", std::nullopt, {{2, +1}}}};
  V3 ax = gen_dir(c);
  for (auto& s : in.surfaces) { Tally t; t.name = "t" + s.name; t.surface = s.name; t.cosine.kind = Axis::boundaries; t.cosine.bounds = {0}; t.ref = ax; in.tallies.push_back(t); }
  in.pos = o; in.energy = "1"; in.histories = 1;
  if (c.chance(1, 2)) in.tracking = "cell delta";
  c.note(in.xml());
  uint64_t seed = c.seed(), n = c.thorough ? 30000 : 4000;
  // cells: how many start forwards x how many reach mid x how many leave
  double p1 = std::exp(-t1), p2 = std::exp(-t2);
  auto binom = [](int n, int k, double p) { double b = 1; for (int i = 0; i < k; i++) b = b * (n - i) / (i + 1); return b * std::pow(p, k) * std::pow(1 - p, n - k); };
  int S = y + 1; std::vector<double> pr(S * S * S * S * S, 0);
  auto cell = [&](int f0, int f1, int b1, int f2, int b2) { return (((f0 * S + f1) * S + b1) * S + f2) * S + b2; };
  for (int f0 = 0; f0 <= y; f0++) for (int f1 = 0; f1 <= f0; f1++) for (int b1 = 0; b1 <= y - f0; b1++) for (int f2 = 0; f2 <= f1; f2++) for (int b2 = 0; b2 <= b1; b2++)
    pr[cell(f0, f1, b1, f2, b2)] = binom(y, f0, 0.5) * binom(f0, f1, p1) * binom(y - f0, b1, p1) * binom(f1, f2, p2) * binom(b1, b2, p2);
  pbt::confirm(c, "numbers of neutrons of one fission that reach each surface forwards and backwards", n, [&](int round, uint64_t m) {
    std::vector<double> cnt(pr.size(), 0);
    for (uint64_t k = 0; k < m; k++) {
      in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + k)) % 2000000000;
      auto s = solve(in);
      int f0 = s.sum[0][1], b0 = s.sum[0][0], f1 = s.sum[1][1], b1 = s.sum[1][0], f2 = s.sum[2][1], b2 = s.sum[2][0];
      if (f0 + b0 != y) c.fail(cat(f0 + b0, " neutrons left the core, the fission yields ", y));
      if (f1 > f0 || b1 > b0 || f2 > f1 || b2 > b1) c.fail("more neutrons cross a surface than started towards it");
      cnt[cell(f0, f1, b1, f2, b2)]++;
    }
    return pbt::multinomial_p(cnt, pr);
  });
  c.evals(n); c.label(cat("yield ", y)); c.nontrivial();
}
// the reported deviation is the scatter of independent runs
static void spread(Case& c) {
  Input in; GeomOpt g;
  ProbOpt o; o.coincident = false; o.max_tallies = 3; o.thick = 2.5; o.max_depth = 2;
  if (!gen_problem(c, in, o, &g)) c.discard();
  for (auto& t : in.tallies) if (t.energy.kind == Axis::logspace) t.energy = Axis{};
  in.histories = c.chance(1, 3) ? c.range(2, 20) : c.range(20, 300);
  c.note(in.xml());
  uint64_t seed = c.seed(), runs = c.thorough ? 1500 : 300;
  std::string last; bool some = false;
  try {
    pbt::confirm(c, "scatter of runs against the reported deviation", runs, [&](int round, uint64_t n) {
      size_t bins = 0; for (auto& t : in.tallies) bins += t.size();
      std::vector<std::vector<double>> x(bins), v(bins);
      double N = in.histories;
      for (uint64_t k = 0; k < n; k++) {
        in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + k)) % 2000000000;
        auto s = solve(in, true); auto E = s.entries(); size_t q = 0;
        for (size_t e = 0; e < E.size(); e++) for (size_t i = 0; i < E[e].mean.size(); i++, q++) { x[q].push_back(s.sum[e][i]); v[q].push_back(E[e].sd[i] * E[e].sd[i] * N * N * N / (N - 1)); }
      }
      double best = 1; int tests = 0;
      for (size_t q = 0; q < bins; q++) {
        double m = 0, sv = 0; for (double y : x[q]) m += y / n; for (double y : v[q]) sv += y;
        if (m * n < 400 || sv == 0) continue;
        std::vector<double> d; for (uint64_t k = 0; k < n; k++) d.push_back((x[q][k] - m) * (x[q][k] - m) * n / (n - 1.) - v[q][k]);
        double p = mean_p(d, 0); tests++; some = true;
        // the statistic is skewed: demand an effect as well
        double dm = 0; for (double y : d) dm += y / n; double rel = dm / (sv / n);
        if (std::fabs(rel) < 0.1) p = 1;
        if (p < best) { best = p; last = cat("tally bin ", q, ": the variance of a run's total is ", 1 + rel, " times the reported one"); }
      }
      return std::min(1., best * std::max(1, tests));
    });
  } catch (pbt::Failure& e) { throw pbt::Failure{e.msg + "\n" + last}; }
  c.evals(runs); c.nontrivial(some);
}
PBT_MAIN((pbt::Property{"C27",
  "siblings: nuclides (multigroup and continuous) with yields of 2 to 5, fission forced at a fixed state with random generator states: contingency tables (4x4 cells, chi-square) of every pair of {polar cosine, azimuth, group, next 8 random numbers} of neighbouring fission neutrons. source: isotropic and isotropic-flux sources: direction of a source particle against its next 8 random numbers, and the directions and numbers of the particles of histories 1 to 1000 seeds apart. collisions: cosine, azimuth, group, nuclide and preceding random number within one collision and of collisions 1 to 3 apart in scatterers whose groups and nuclides scatter alike. kinematics: free-gas and thermal-table scattering: energy, cosine, azimuth and the random numbers before and after. flights: single-history runs in which one fission sends 2 or 3 neutrons through two absorbing shells: joint counts of neutrons that reach each surface forwards and backwards against the exact probabilities of independent neutrons. spread: generated multigroup problems, 2-300 histories: the variance of run totals over 300 seeds against the variance the runs report. Non-trivial when fissions, crossings or deviations occur.",
  {"Independence is tested pairwise and on quarters of each variable's range.", "spread ignores differences of less than 10% of the variance."},
  {{"siblings", siblings, 1200, 12000, false, 120}, {"source", source, 1500, 15000, false, 120}, {"collisions", collisions, 1000, 10000, false, 120}, {"kinematics", kinematics, 400, 4000, false, 120}, {"flights", flights, 120, 600, false, 200}, {"spread", spread, 500, 4000, false, 300}}}))
