#include "ceworld.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
// Histories whose number of descendants is certain: group g < G fissions at
// once with an integer yield into group g+1, group G flies out.
static void cascade(Case& c) {
  Input in;
  int G = c.range(2, 5);
  in.groups = G;
  double R = c.logreal(0.1, 10);
  V3 o{c.real(-3, 3), c.real(-3, 3), c.real(-3, 3)};
  o = o * R;
  auto sph = [&](const char* n, double r) { Surf s; s.kind = Surf::sphere; s.name = n; s.c = o; s.r = r; in.surfaces.push_back(s); };
  sph("core", R * c.uniform(0.01, 0.1)); sph("mid", R * c.uniform(0.2, 0.8)); sph("out", R);
  MgNuclide f; f.name = "f"; f.neutron = Mg{};
  double prod = 1; std::vector<double> yield;
  f.neutron->fis_xs.assign(G, 1e13 / R); f.neutron->fis_xs[G - 1] = 1e-14 / R;
  f.neutron->chi.assign(G * G, 0); f.neutron->nubar.assign(G, 0);
  for (int g = 0; g + 1 < G; g++) { int y = c.range(0, c.chance(1, 6) ? 15 : 4); if (prod * y > 100) y = 1; f.neutron->nubar[g] = y; prod *= y; f.neutron->chi[(g + 1) * G + g] = c.uniform(0.1, 2); }
  f.neutron->chi[G * G - 1] = 1;
  MgNuclide a = absorber("a", 1e-14 / R, G);
  in.nuclides = {f, a};
  in.materials = {{"fuel", 1, {{"f", 1}}}, {"clear", 1, {{"a", 1}}}};
  in.regions = {{false, "k", "fuel", std::nullopt, {{0, -1}}}, {false, "m", "clear", std::nullopt, {{0, +1}, {1, -1}}}, {false, "e", "clear", std::nullopt, {{1, +1}, {2, -1}}}, {true, "", "", std::nullopt, {{2, +1}}}};
  for (auto& s : in.surfaces) in.tallies.push_back(Tally{"t" + s.name, s.name});
  // the source flies to the core from somewhere, or starts in it
  int where = c.below(3);
  double entered = 0;
  if (where == 0) { in.pos = o; in.direction_xml = c.chance(1, 2) ? "<isotropic/>" : dir_xml(gen_dir(c)); }
  else { V3 d = gen_dir(c); double r = where == 1 ? (in.surfaces[0].r + in.surfaces[1].r) / 2 : (in.surfaces[1].r + R) / 2; in.pos = o + d * r; in.direction_xml = dir_xml(d * -1); entered = 1; }
  in.energy = "1";
  in.histories = c.range(1, 40); in.threads = c.range(1, 4); in.seed = c.seed() % 2000000000 + 1;
  if (c.chance(1, 2)) in.tracking = "cell delta";
  c.note(in.xml());
  auto s = solve(in, true);
  double N = in.histories;
  double want[3] = {N * (entered + prod), N * ((where == 2) + prod), N * prod};
  if (where == 1) want[1] = N * prod;
  for (int i = 0; i < 3; i++) c.check(s.sum[i][0] == want[i], cat("surface ", in.surfaces[i].name, " was crossed ", s.sum[i][0], " times by ", N, " histories, expected ", want[i]));
  for (auto& e : s.entries()) c.check(e.sd[0] <= 1e-7 * e.mean[0] / std::sqrt(N), cat(e.name, ": every history is the same but the standard deviation is ", e.sd[0]));
  c.evals(N);
  c.nontrivial(prod > 1);
}
// distribution of one history's total score against the branching process
static void branching(Case& c) {
  Input in; GeomOpt g;
  ProbOpt o; o.coincident = false; o.max_tallies = 2; o.bins = false; o.voids = false; o.max_depth = 2; o.thick = 5; o.zeros = false; o.photons = c.chance(1, 4);
  if (!gen_problem(c, in, o, &g)) c.discard();
  if (o.photons) { in.type = "photon"; c.label("photofission"); }
  in.direction_xml = "<isotropic/>";
  // make fission frequent
  for (auto& n : in.nuclides) if (n.neutron->fis_xs.empty() || c.chance(1, 2)) {
    auto& m = *n.neutron; int G = in.groups; double big = c.chance(1, 6) ? 20 : 4; if (big > 4) for (auto& x : m.capture) x *= 8;
    m.fis_xs = gen_vec(c, G, 2, false); m.chi = gen_vec(c, G * G, 1, false); m.nubar.clear();
    for (int q = 0; q < G; q++) m.nubar.push_back(c.uniform(1, big));
    tame(m, G, 0.85);
    // neutrons of a photofission never make photons: any yield will do
    if (n.photon) { auto& q = *n.photon; q.fis_xs = gen_vec(c, G, 2, false); q.chi = gen_vec(c, G * G, 1, false); q.nubar.clear(); for (int k = 0; k < G; k++) q.nubar.push_back(c.uniform(0, 5)); }
  }
  in.histories = 1;
  c.note(in.xml());
  uint64_t seed = c.seed();
  RefMC ref(in, g.scale);
  int g0 = std::stoi(in.energy) - 1, ty0 = in.type == "photon";
  bool many = false;
  std::string last;
  auto hist = [](const std::vector<double>& v) { std::vector<double> h(24, 0); for (double x : v) h[std::min(23, (int)x)]++; return h; };
  try {
  pbt::confirm(c, "distribution of a history's total score against the branching process", c.thorough ? 20000 : 2500, [&](int round, uint64_t n) {
    std::vector<std::vector<double>> a(in.tallies.size()), b(in.tallies.size());
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < n; k++) {
      in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + k)) % 2000000000;
      auto s = solve(in);
      for (size_t t = 0; t < a.size(); t++) a[t].push_back(s.sum[t][0]);
    }
    for (uint64_t k = 0; k < 4 * n; k++) {
      std::vector<double> w(in.tallies.size(), 0);
      ref.history(r, ref_dir(r, in.direction_xml), g0, ty0, [&](int sf, const RefMC::P&) { for (size_t t = 0; t < w.size(); t++) if (in.tallies[t].surface == in.surfaces[sf].name) w[t]++; });
      for (size_t t = 0; t < w.size(); t++) { b[t].push_back(w[t]); many |= w[t] > 1; }
    }
    double best = 1;
    for (size_t t = 0; t < a.size(); t++) {
      double p = pbt::two_sample_p(hist(a[t]), hist(b[t])), q = same_mean_p(a[t], b[t]);
      if (std::min(p, q) < best) { best = std::min(p, q); double x = 0, y = 0; for (double z : a[t]) x += z / a[t].size(); for (double z : b[t]) y += z / b[t].size(); last = cat(in.tallies[t].name, ": mean ", x, " per history, the process gives ", y); }
    }
    return std::min(1., best * 2 * a.size());
  });
  } catch (pbt::Failure& f) { throw pbt::Failure{f.msg + "\n" + last}; }
  c.evals(2500);
  c.nontrivial(many);
}
// fission in every nuclide, with yields as high as chains that die out allow
static void multiply(Case& c, std::vector<CeNuclide>& ns) {
  for (auto& n : ns) {
    CeData& d = *n.neutron;
    std::vector<double> grid; double T = 0;
    for (auto* e : {&d.capture, &d.scatter, &d.fission}) if (*e) { grid = (*e)->xs.x; T = (*e)->T; break; }
    if (!d.fission) {
      if (c.chance(1, 4)) continue;
      d.fission = Eval{gen_xs(c, grid, 1), T}; d.total.reset();
      d.nubar.x = gen_axis(c, c.range(1, 4), grid.front(), grid.back() * 1.01, true); d.nubar.y.clear();
      for (size_t i = 0; i < d.nubar.x.size(); i++) d.nubar.y.push_back(c.uniform(0, 4));
    }
    if (c.chance(3, 4) || !d.capture) { d.capture = Eval{gen_xs(c, grid, c.chance(1, 4) ? c.logreal(4, 20) : c.logreal(0.3, 4)), T}; d.total.reset(); }
    double top = 0; // neutrons per absorption
    std::vector<double> at = grid; at.insert(at.end(), d.nubar.x.begin(), d.nubar.x.end()); std::sort(at.begin(), at.end());
    for (size_t i = 0; i + 1 < at.size(); i++) for (int k = 0; k <= 20; k++) {
      double E = at[i] + (at[i + 1] - at[i]) * k / 20, f = (double)d.fission->xs.at(E), a = d.capture ? (double)d.capture->xs.at(E) : 0;
      top = std::max(top, (double)d.nubar.at(E) * f / (f + a));
    }
    double s = c.uniform(0.6, 0.9) / std::max(top, 1e-3);
    for (auto& y : d.nubar.y) y *= s;
  }
}
// the same in continuous energy, where the descendants inherit the energy
static void ce_branching(Case& c) {
  Input in; GeomOpt g; Files f;
  double tmin = c.uniform(50, 400), tmax = tmin * c.uniform(1.2, 6);
  auto ns = gen_ce_nuclides(c, false, true, (tmin + tmax) / 2);
  multiply(c, ns);
  double E0 = kBoltzmann * tmax * c.logreal(0.05, 300);
  in.nuclides_xml = ce_xml(ns, f);
  if (!gen_ce_problem(c, in, g, ns, E0, (tmin + tmax) / 2)) c.discard();
  for (auto& m : in.materials) m.aden *= c.uniform(1, 3);
  in.direction_xml = "<isotropic/>";
  bool linear = c.chance(1, 3);
  Field fl = gen_temperatures(c, in, tmin, tmax, linear, c.chance(1, 3));
  in.tracking = linear || c.chance(1, 2) ? "cell delta" : "surface";
  for (auto& t : in.tallies) { t.energy = Axis{}; t.cosine = Axis{}; }
  in.histories = 1;
  c.note(in.xml());
  uint64_t seed = c.seed(); bool many = false; std::string last;
  Walk ref(in, ns, fl, g.scale);
  auto hist = [](const std::vector<double>& v) { std::vector<double> h(24, 0); for (double x : v) h[std::min(23, (int)x)]++; return h; };
  try {
  pbt::confirm(c, "distribution of a history's total score against the branching process", c.thorough ? 8000 : 1000, [&](int round, uint64_t n) {
    std::vector<std::vector<double>> a(in.tallies.size()), b(in.tallies.size());
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < n; k++) {
      in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + k)) % 2000000000;
      auto s = solve(in);
      for (size_t t = 0; t < a.size(); t++) a[t].push_back(s.sum[t][0]);
    }
    for (uint64_t k = 0; k < 4 * n; k++) {
      std::vector<double> w(in.tallies.size(), 0);
      ref.history(r, ref_dir(r, in.direction_xml), E0, [&](int sf, V3, double) { for (size_t t = 0; t < w.size(); t++) if (in.tallies[t].surface == in.surfaces[sf].name) w[t]++; });
      for (size_t t = 0; t < w.size(); t++) { b[t].push_back(w[t]); many |= w[t] > 1; }
    }
    double best = 1;
    for (size_t t = 0; t < a.size(); t++) {
      double p = pbt::two_sample_p(hist(a[t]), hist(b[t])), q = same_mean_p(a[t], b[t]);
      if (std::min(p, q) < best) { best = std::min(p, q); double x = 0, y = 0; for (double z : a[t]) x += z / a[t].size(); for (double z : b[t]) y += z / b[t].size(); last = cat(in.tallies[t].name, ": mean ", x, " per history, the process gives ", y); }
    }
    return std::min(1., best * 2 * a.size());
  });
  } catch (pbt::Failure& x) { throw pbt::Failure{x.msg + "\n" + last}; }
  c.evals(1000);
  c.label(in.tracking == "surface" ? "surface tracking" : "delta tracking");
  c.nontrivial(many);
}
// a history and all its descendants count as one value: single histories give
// the totals whose statistics the report of the whole run must show
static void deviation(Case& c) {
  Input in; Files f;
  ProbOpt o; o.max_depth = 2; o.max_tallies = 2; o.thick = 5; o.zeros = false;
  bool ce = c.chance(1, 4);
  if (ce) {
    GeomOpt g; double T = c.uniform(100, 1000), E0 = kBoltzmann * T * c.logreal(0.05, 300);
    auto ns = gen_ce_nuclides(c, false, true, T); multiply(c, ns);
    in.nuclides_xml = ce_xml(ns, f);
    if (!gen_ce_problem(c, in, g, ns, E0, T)) c.discard();
    bool linear = c.chance(1, 3);
    gen_temperatures(c, in, T * 0.6, T * 1.4, linear, c.chance(1, 3));
    in.tracking = linear || c.chance(1, 2) ? "cell delta" : "surface";
    c.label("continuous energy");
  }
  else if (!gen_problem(c, in, o)) c.discard();
  for (auto& n : in.nuclides) if (n.neutron->fis_xs.empty() || c.chance(1, 2)) {
    auto& m = *n.neutron; int G = in.groups; double big = c.chance(1, 6) ? 20 : 4; if (big > 4) for (auto& x : m.capture) x *= 8;
    m.fis_xs = gen_vec(c, G, 2, false); m.chi = gen_vec(c, G * G, 1, false); m.nubar.clear();
    for (int q = 0; q < G; q++) m.nubar.push_back(c.uniform(1, big));
    tame(m, G, 0.9);
  }
  int N = c.range(2, 60);
  long long s = c.range(1, 1000000);
  in.histories = N; in.seed = s;
  in.threads = c.chance(1, 3) ? c.range(2, 5) : 1;
  c.note(in.xml());
  auto whole = solve(in, true);
  auto E = whole.entries();
  c.check(E.size() == in.tallies.size(), "number of tallies in the report");
  std::vector<std::vector<double>> s1(E.size()), s2(E.size());
  for (size_t e = 0; e < E.size(); e++) { s1[e].assign(E[e].mean.size(), 0); s2[e] = s1[e]; }
  Input one = in; one.histories = 1; one.threads = 1;
  bool multi = false;
  for (int k = 0; k < N; k++) {
    one.seed = s + k;
    auto r = solve(one);
    for (size_t e = 0; e < E.size(); e++) for (size_t i = 0; i < E[e].mean.size(); i++) { double v = r.sum[e][i]; s1[e][i] += v; s2[e][i] += v * v; multi |= v > 1; }
  }
  for (size_t e = 0; e < E.size(); e++) for (size_t i = 0; i < E[e].mean.size(); i++) {
    double m = s1[e][i] / N, v = std::max(0., s2[e][i] - s1[e][i] * s1[e][i] / N), sd = std::sqrt(v) / N;
    double ss = (std::sqrt(v + 1e-13 * s2[e][i]) - std::sqrt(v)) / N;
    c.check(std::fabs(E[e].mean[i] - m) <= 0.6e-6 * m + 1e-15, cat(E[e].name, " bin ", i, ": mean ", E[e].mean[i], ", the histories with their descendants give ", m));
    c.check(std::fabs(E[e].sd[i] - sd) <= 0.6e-6 * sd + ss, cat(E[e].name, " bin ", i, ": standard deviation ", E[e].sd[i], ", the histories with their descendants give ", sd));
  }
  c.evals(2 * N);
  c.nontrivial(multi);
}
PBT_MAIN((pbt::Property{"C23",
  "cascade: 2-5 groups where group g fissions at once with a generated integer yield into group g+1 and the last group flies out through concentric spheres around the fission point, started inside or outside, on 1-4 threads: every surface count must be exactly the product of the yields (plus the source particle's entry) times the histories and all deviations zero. branching: multiplying generated problems (multiplication up to 0.85 per absorption): distribution and mean of one history's total score over 2500 single histories against 10000 histories of an independently written branching walk. ce_branching: the same over 1000 histories in continuous energy (fission in most nuclides, up to 0.9 neutrons per absorption, temperature gradients, both tracking methods). deviation: multiplying generated problems of both kinds, 2-60 histories: the mean and deviation reported for the whole run must be the sample statistics of the totals (source particle and all descendants) of the same histories run one by one. Non-trivial when a history has more than one descendant crossing.",
  {"branching covers subcritical problems; supercritical inputs need not end."},
  {{"cascade", cascade, 18000, 100000}, {"branching", branching, 360, 1440, false, 120}, {"ce_branching", ce_branching, 160, 800, false, 120}, {"deviation", deviation, 6000, 30000}}}))
