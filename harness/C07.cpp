#include "ceworld.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
static double total(const Solved& s) { double t = 0; for (auto& v : s.sum) for (double x : v) t += x; return t; }
static bool make(Case& c, Input& in, Files& f) {
  if (c.chance(1, 2)) {
    GeomOpt g; std::string kind;
    if (!gen_any(c, in, f, kind, g)) return false;
    c.label(kind);
    return true;
  }
  ProbOpt o; o.sens = c.chance(1, 4); o.photons = c.chance(1, 4); o.thick = c.chance(1, 3) ? 6 : 3;
  return gen_problem(c, in, o);
}
static void same(Case& c, const Input& in, const std::vector<double>& got, const std::vector<double>& want, const std::string& t, const std::string& what) {
  for (size_t i = 0; i < want.size(); i++) if (got[i] != want[i]) c.fail(cat(what, ": tally ", t, " bin ", i, " is ", got[i], ", expected ", want[i], "\n", in.xml()));
}
// any seed, the places where a generator or an integer wraps around included
static long long any_seed(Case& c) {
  switch (c.below(6)) {
  case 0: case 1: return c.range(1, 1000000);
  case 2: return std::max(1ll, 2147483647ll * c.range(1, 4) + c.range(-60, 60));
  case 3: return (1ll << c.range(1, 62)) + c.range(-1, 1) * c.range(0, 60) > 0 ? std::max(1ll, (1ll << c.range(1, 62)) - c.range(0, 60)) : 1;
  case 4: return (long long)c.logreal(1, 4e18);
  default: return c.range(1, 100);
  }
}
// sensitivities of runs, as printed, add up within the printed precision
static void same_sens(Case& c, const Input& in, const Solved& whole, const std::vector<std::pair<long long, const Solved*>>& parts) {
  if (in.perturbations.empty()) return;
  auto w = whole.entries(); std::vector<std::vector<Entry>> p;
  for (auto& x : parts) p.push_back(x.second->entries());
  for (size_t k = 0; k < w.size(); k++) if (w[k].sens) for (size_t i = 0; i < w[k].mean.size(); i++) {
    double sum = 0, mag = 0;
    for (size_t j = 0; j < p.size(); j++) { double v = p[j].at(k).mean.at(i) * parts[j].first; sum += v; mag += std::fabs(v); }
    double got = w[k].mean[i] * in.histories;
    mag += std::fabs(got);
    c.check(std::fabs(got - sum) <= 2e-6 * mag || !std::isfinite(sum), cat(w[k].name, " bin ", i, " sums to ", got, ", its parts to ", sum, "\n", in.xml()));
  }
}
// runs add up over adjacent seed windows, a window of one history included
static void windows(Case& c) {
  Input in; Files f;
  if (!make(c, in, f)) c.discard();
  long long s = c.chance(1, 4) ? 1 : any_seed(c);
  int top = c.chance(1, 40) ? 12000 : 40, a = c.range(1, top), b = c.range(1, 40);
  if (c.chance(1, 2)) std::swap(a, b);
  if (c.chance(1, 4)) in.threads = c.range(2, 4);
  bool dflt = s == 1;
  c.note(in.xml(), "seed ", s, dflt ? " (default)" : "", " histories ", a, " + ", b);
  Input x = in, y = in, z = in;
  x.histories = a + b; y.histories = a; z.histories = b;
  if (!dflt) x.seed = y.seed = s;
  else if (c.chance(1, 2)) x.seed = 1;
  z.seed = s + a;
  auto X = solve(x), Y = solve(y), Z = solve(z);
  for (size_t t = 0; t < in.tallies.size(); t++) {
    std::vector<double> w = Y.sum[t];
    for (size_t i = 0; i < w.size(); i++) w[i] += Z.sum[t][i];
    same(c, in, X.sum[t], w, in.tallies[t].name, cat("run of ", a + b, " histories against runs of ", a, " and ", b));
  }
  same_sens(c, x, X, {{a, &Y}, {b, &Z}});
  c.evals(2 * (a + b));
  c.nontrivial(total(Y) > 0 && total(Z) > 0);
}
// runs long enough to pass any round number of histories
static void long_runs(Case& c) {
  Input in; Files f;
  MgNuclide n; n.name = "n"; Mg m; m.capture = {c.uniform(0.2, 1)};
  if (c.chance(1, 2)) m.scatter = {{c.uniform(0.1, 1)}};
  n.neutron = m;
  in.nuclides = {n}; in.groups = 1; in.energy = "1";
  Mat mat; mat.name = "m"; mat.nuclides = {{"n", 1}}; mat.aden = 1; in.materials = {mat};
  Surf s; s.kind = Surf::sphere; s.name = "o"; s.r = c.uniform(0.3, 1); in.surfaces = {s};
  Region r; r.name = "c"; r.material = "m"; r.sides = {{0, -1}}; in.regions = {r};
  Region v; v.is_void = true; v.sides = {{0, +1}}; in.regions.push_back(v);
  in.direction_xml = "<isotropic/>";
  in.pos = V3{c.real(-0.2, 0.2), c.real(-0.2, 0.2), c.real(-0.2, 0.2)};
  Tally t; t.name = "t"; t.surface = "o"; t.cosine.kind = Axis::linspace; t.cosine.min = 0.5; t.cosine.max = 1; t.cosine.bins = 12; in.tallies = {t};
  if (c.chance(1, 2)) in.tracking = "cell delta";
  in.threads = c.chance(1, 2) ? 1 : c.range(2, 6);
  static const int rounds[] = {1 << 16, 100000, 1 << 17, 1 << 18, 1 << 20, 1000000};
  int at = rounds[c.below(c.thorough ? 6 : c.chance(1, 6) ? 6 : 4)];
  // the first window ends before, at or after the round number, the whole run always after it
  long long a = c.chance(1, 2) ? at : c.range(1, at), b = at - a + c.range(1, 20000), s0 = c.chance(1, 3) ? 1 : any_seed(c);
  c.note(in.xml(), "seed ", s0, " histories ", a, " + ", b);
  Input x = in, y = in, z = in;
  x.histories = a + b; y.histories = a; z.histories = b; x.seed = y.seed = s0; z.seed = s0 + a;
  auto X = solve(x), Y = solve(y), Z = solve(z);
  std::vector<double> w = Y.sum[0];
  for (size_t i = 0; i < w.size(); i++) w[i] += Z.sum[0][i];
  same(c, in, X.sum[0], w, "t", cat("run of ", a + b, " histories against runs of ", a, " and ", b));
  c.evals(2 * (a + b));
  c.nontrivial(total(Y) > 0 && total(Z) > 0);
}
// every single history of a run alone
static void single(Case& c) {
  Input in; Files f;
  if (!make(c, in, f)) c.discard();
  long long s = any_seed(c);
  int n = c.range(2, 10);
  in.seed = s; in.histories = n; in.threads = c.chance(1, 3) ? 3 : 1;
  c.note(in.xml());
  auto whole = solve(in);
  std::vector<std::vector<double>> sum;
  for (auto& v : whole.sum) sum.emplace_back(v.size(), 0.);
  int scoring = 0;
  for (int k = n; k-- > 0;) {
    Input one = in; one.histories = 1; one.threads = 1; one.seed = s + k;
    auto r = solve(one);
    for (size_t t = 0; t < sum.size(); t++) for (size_t i = 0; i < sum[t].size(); i++) sum[t][i] += r.sum[t][i];
    scoring += total(r) > 0;
  }
  for (size_t t = 0; t < sum.size(); t++) same(c, in, whole.sum[t], sum[t], in.tallies[t].name, "the run against its histories run one by one");
  c.evals(2 * n);
  c.nontrivial(scoring > 1);
}
// other tallies, bins and unused items leave the histories alone
static void bystanders(Case& c) {
  Input in; Files f;
  if (!make(c, in, f)) c.discard();
  in.histories = c.range(5, 40); in.seed = any_seed(c);
  c.note(in.xml());
  Input v = in;
  std::vector<std::string> did;
  int n = c.range(1, 4);
  for (int k = 0; k < n; k++) switch (c.below(10)) {
  case 0: { Tally t; t.name = "extra" + std::to_string(k); t.surface = in.tallies[c.below(in.tallies.size())].surface; if (c.chance(1, 2)) t.cosine = gen_cos_axis(c); v.tallies.insert(v.tallies.begin() + c.below(v.tallies.size() + 1), t); did.push_back("tally added"); break; }
  case 1: if (v.tallies.size() > 1) { std::swap(v.tallies[0], v.tallies[v.tallies.size() - 1]); did.push_back("tallies swapped"); } break;
  case 2: if (v.tallies.size() > 1) { v.tallies.erase(v.tallies.begin() + c.below(v.tallies.size())); did.push_back("tally removed"); } break;
  case 9: { // a tally gets a sensitivity, or all lose theirs
    if (!v.perturbations.empty() && c.chance(1, 2)) { v.perturbations.clear(); for (auto& t : v.tallies) t.sens.clear(); did.push_back("sensitivities removed"); break; }
    std::string used; for (auto& r : in.regions) if (!r.is_void) used = mat_of(in, (int)(&r - &in.regions[0]))->nuclides[0].first;
    std::string pn = "extra" + std::to_string(k);
    v.perturbations.insert(v.perturbations.begin() + c.below(v.perturbations.size() + 1), {pn, used});
    v.tallies[c.below(v.tallies.size())].sens.push_back(pn);
    did.push_back("sensitivity added"); break; }
  case 3: if (!in.nuclides_xml.empty()) {
    CeNuclide u; u.name = "unused" + std::to_string(k); CeOpt o; o.tsl = c.chance(1, 4); u.awr = c.uniform(1, 50); u.neutron = gen_ce(c, o, u.awr);
    if (in.particles != "neutron") { o.tsl = o.fission = false; u.photon = gen_ce(c, o, u.awr); }
    std::string tag = "<continuous>\n"; size_t at = c.chance(1, 2) ? v.nuclides_xml.find(tag) + tag.size() : v.nuclides_xml.find("</continuous>");
    v.nuclides_xml.insert(at, u.xml(f) + "\n"); did.push_back("unused nuclide"); break; }
    { MgNuclide u = c.chance(1, 2) ? in.nuclides[0] : absorber("x", 2, in.groups); u.name = "unused" + std::to_string(k); if (in.particles != "neutron") u.photon = u.neutron, u.photon->fis_xs.clear(); v.nuclides.insert(v.nuclides.begin() + c.below(v.nuclides.size() + 1), u); did.push_back("unused nuclide"); break; }
  case 4: { Mat m = in.materials[0]; m.name = "unused" + std::to_string(k); v.materials.insert(v.materials.begin() + c.below(v.materials.size() + 1), m); did.push_back("unused material"); break; }
  case 5: { // surface indices are by position: append, or shift them
    Surf s; s.kind = Surf::planex; s.r = c.real(-1, 1); s.name = "unused" + std::to_string(k);
    if (c.chance(1, 2)) v.surfaces.push_back(s);
    else { v.surfaces.insert(v.surfaces.begin(), s); for (auto& r : v.regions) for (auto& q : r.sides) q.first++; }
    did.push_back("unused surface"); break; }
  case 6: std::reverse(v.nuclides.begin(), v.nuclides.end()); did.push_back("nuclide definitions reversed"); break;
  case 7: std::reverse(v.materials.begin(), v.materials.end()); did.push_back("material definitions reversed"); break;
  default: { auto& t = v.tallies[c.below(v.tallies.size())]; if (t.name.compare(0, 1, "t") == 0) { t.name = "rebinned" + std::to_string(k); if (c.chance(1, 2)) t.cosine = gen_cos_axis(c); else t.energy = gen_group_axis(c, in.groups); did.push_back("tally rebinned"); } break; }
  }
  for (auto& d : did) c.label(d);
  auto A = solve(in), B = solve(v);
  std::string what = "after:"; for (auto& d : did) what += " " + d + ";";
  for (size_t t = 0; t < in.tallies.size(); t++) for (size_t u = 0; u < v.tallies.size(); u++) if (v.tallies[u].name == in.tallies[t].name) same(c, v, B.sum[u], A.sum[t], in.tallies[t].name, what);
  // the sum over the bins of any tally on a surface is the same number
  for (size_t u = 0; u < v.tallies.size(); u++) for (size_t t = 0; t < in.tallies.size(); t++) if (v.tallies[u].surface == in.tallies[t].surface) {
    double a = 0, b = 0; for (double x : A.sum[t]) a += x; for (double x : B.sum[u]) b += x;
    c.check(a == b, cat(what, " tally ", v.tallies[u].name, " on ", in.tallies[t].surface, " counts ", b, " in total, expected ", a, "\n", v.xml()));
  }
  c.evals(2 * in.histories);
  c.nontrivial(total(A) > 0 && !did.empty());
}
PBT_MAIN((pbt::Property{"C07",
  "Generated multigroup problems, and continuous-energy ones (thermal scattering, photons, temperature gradients) as often (1-12 regions, 1-3 groups, nuclides and materials, subcritical fission, photons at times, both tracking methods, binned tallies). windows: a run of a+b histories equals bin by bin the sum of a run of a and a run of b with the seed advanced by a (default seed when it is 1; seeds up to 2^62, and around multiples of 2^31-1 and powers of two; at times 12000 histories or several threads), sensitivities included up to printed precision; long: the same for runs of 65537 to more than a million histories of a small problem, windows ending at round numbers (powers of two and ten) or anywhere; single: a run equals the sum of its histories run one by one; bystanders: adding, removing, reordering or rebinning tallies or their sensitivities and adding or reordering unused or used definitions leaves every other tally's sums bit-identical. Non-trivial when both windows (several histories, the run) score.",
  {},
  {{"windows", windows, 24000, 96000, false, 20}, {"long", long_runs, 160, 4000, false, 120}, {"single", single, 15000, 60000, false, 20}, {"bystanders", bystanders, 24000, 96000, false, 20}}}))
